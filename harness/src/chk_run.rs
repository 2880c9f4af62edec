//! C15, C30 and a part of C29: programs run from end to end.

use std::{collections::BTreeMap, fs, os::unix::fs::PermissionsExt, path::Path};

use crate::{
    asm::{include_path, It, Model, Speller, Src},
    core::{Case, Run},
    objfmt::{parse, Obj, DATA, HEAP, RODATA, TEXT, UNKNOWN, ZERO},
    prog::{gen_prog, place, rand_layout, sure_prog, Block, Prog, Want, ROM_TABLE},
    rng::{hash_bytes, Rng},
    spec::trap,
    tools::{clip, scripts_start, write, Out},
    vm::{run_rom, run_sure, Outcome},
    cpu::{St, P, R, U, W, X},
};

fn names(v: &[u8]) -> String {
    v.iter().map(|t| trap::name(*t)).collect::<Vec<_>>().join(" or ")
}

fn word_in(s: &str, w: &str) -> bool {
    s.split(|c: char| !c.is_alphanumeric()).any(|x| x == w)
}

fn bytes(b: &[u8]) -> String {
    clip(&String::from_utf8_lossy(b).escape_debug().to_string(), 300)
}

/// Whether the emulator did what the model of the machine did
fn judge(want: &Outcome, out: &Out, with_point: bool) -> Result<(), String> {
    if let Some(e) = out.abnormal() {
        return Err(format!("the emulator {e}"));
    }
    let halt = want.end == [trap::HALT];
    if !out.stdout.starts_with(&want.out) {
        let k = (0..).find(|&k| want.out.get(k) != out.stdout.get(k)).unwrap();
        return Err(format!(
            "wrong output from byte {k}: {:?} instead of {:?}",
            bytes(&out.stdout[k.min(out.stdout.len())..]),
            bytes(&want.out[k..])
        ));
    }
    let rest = &out.stdout[want.out.len()..];
    if with_point {
        let s = String::from_utf8_lossy(rest).into_owned();
        if !want.end.iter().any(|t| word_in(&s, trap::name(*t))) {
            return Err(format!("the termination point does not name the trap {}: {s:?}", names(&want.end)));
        }
        return Ok(());
    }
    if !rest.is_empty() {
        return Err(format!("more output than the program writes: {:?}", bytes(rest)));
    }
    if halt != out.ok() {
        return Err(format!("exit {:?} though the program ends with {}", out.end, names(&want.end)));
    }
    if !halt && !want.end.iter().any(|t| word_in(&out.err(), trap::name(*t))) {
        return Err(format!("the trap {} is not named", names(&want.end)));
    }
    Ok(())
}

/// The symbol and offset a termination point names
fn point(s: &str) -> Option<(String, u32)> {
    let s = s.trim_end();
    let s = s.strip_suffix('>')?;
    let (s, off) = s.rsplit_once('+')?;
    let (_, name) = s.rsplit_once('<')?;
    Some((name.into(), u32::from_str_radix(off.trim_start_matches("0x"), 16).ok()?))
}

fn check_point(o: &Obj, want: &Outcome, s: &str) -> Result<(), String> {
    let (name, off) = point(s).ok_or("no symbol and offset are shown")?;
    let pcs: Vec<u32> = (0..=want.slack).map(|k| want.pc.wrapping_add(k as u16) as u32).collect();
    for pc in &pcs {
        let below = o.syms.iter().filter(|s| !s.name.is_empty() && s.seg != UNKNOWN && s.loc as u32 <= *pc);
        match below.clone().map(|s| s.loc).max() {
            None => {
                if name.is_empty() && off == *pc {
                    return Ok(());
                }
            }
            Some(l) => {
                if below.clone().any(|s| s.loc == l && s.name == name) && l as u32 + off == *pc {
                    return Ok(());
                }
            }
        }
    }
    Err(format!("the program ended at {:04x}", want.pc))
}

fn describe(p: &Prog, o: &Obj, want: &Outcome) -> String {
    let segs: Vec<String> = o.segs.iter().map(|s| format!("{} {:04x}+{:x}", crate::objfmt::seg_name(s.0), s.1, s.2.len())).collect();
    format!(
        "expected {} bytes of output, {} of input, {} at {:04x}\n  segments {}\n  input {:?}\n{}",
        want.out.len(),
        want.used,
        names(&want.end),
        want.pc,
        segs.join(", "),
        bytes(&p.input),
        clip(&p.text(), 4000)
    )
}

fn want(r: &mut Rng, raw: bool, newline: bool) -> Want {
    Want { stmts: *r.pick(&[4, 8, 14, 25]), routines: *r.pick(&[0, 2, 4]), newline, raw }
}

/// Names that hide, doubled and nameless symbols
fn vary_symbols(r: &mut Rng, o: &mut Obj) {
    if r.chance(1, 4) {
        o.syms.clear();
    }
    for s in o.syms.iter_mut() {
        if r.chance(1, 5) && !s.global {
            s.name.clear();
        }
        if r.chance(1, 5) {
            s.global = !s.name.is_empty();
        }
    }
    if r.bool() {
        o.syms.retain(|s| s.name.is_empty() || s.name.len() > 2);
    }
    for _ in 0..r.below(3) {
        if let Some(s) = o.segs.first() {
            let (t, at, n) = (s.0, s.1, s.2.len());
            let loc = at.wrapping_add(r.below(n.max(1)) as u16);
            o.syms.push(crate::objfmt::Sym { name: format!("x{}", r.below(100)), global: false, seg: t, loc });
        }
    }
    match r.below(8) {
        // the zero segment is at address 0; what is undefined is nowhere, though its address is 0
        0 | 1 => o.syms.push(crate::objfmt::Sym { name: "bottom".into(), global: r.bool(), seg: ZERO, loc: 0 }),
        2 | 3 => o.syms.push(crate::objfmt::Sym { name: "nowhere".into(), global: true, seg: UNKNOWN, loc: 0 }),
        _ => (),
    }
    if r.chance(1, 4) {
        let k = r.range(1, 3);
        for s in o.syms.iter_mut().filter(|s| !s.name.is_empty()) {
            if r.below(3) < k {
                // of what can be told apart in a line of output
                let mut n = crate::chk_link::odd_name(r);
                n.retain(|c| c.is_alphanumeric() || "._@$".contains(c));
                if !n.is_empty() && !n.starts_with("0x") {
                    s.name = n;
                }
            }
        }
    }
    r.shuffle(&mut o.syms);
}

fn mutate(r: &mut Rng, o: &mut Obj) {
    for _ in 0..r.range(1, 3) {
        let n = o.segs.len();
        let s = &mut o.segs[r.below(n)];
        if s.2.is_empty() {
            continue;
        }
        let k = r.below(s.2.len());
        s.2[k] = r.u8();
    }
}

/// A runnable object with its certain outcome
fn sure_object(r: &mut Rng, c: &mut BTreeMap<&'static str, u64>) -> (Prog, Obj, Outcome) {
    loop {
        let w = want(r, false, false);
        let mut p = gen_prog(r, &w);
        r.shuffle(&mut p.blocks);
        let m = p.model();
        let page = r.chance(2, 3);
        let mut o = place(&m, &rand_layout(r, &m, page));
        if r.chance(1, 3) {
            o.flags = Some(r.bool());
        }
        if r.chance(1, 4) {
            o.stack = Some(*r.pick(&[0, 2, 0x80, 0x100, 0x400]));
        }
        if r.chance(1, 4) {
            o.heap = Some(*r.pick(&[1, 0x80, 0x400]));
        }
        if r.chance(1, 3) {
            mutate(r, &mut o);
            *c.entry("mutated").or_default() += 1;
        }
        let Some(x) = run_sure(&o, &p.input, 30_000) else { continue };
        if x.out.len() > 20_000 {
            continue;
        }
        vary_symbols(r, &mut o);
        return (p, o, x);
    }
}

/// An object that certainly halts after output, what it reads, and whether it reads
pub fn halting(r: &mut Rng) -> (Vec<u8>, Vec<u8>, bool) {
    loop {
        let (p, o, x) = sure_object(r, &mut BTreeMap::new());
        if names(&x.end).starts_with("Halt") && x.end.len() == 1 && !x.out.is_empty() && x.out.len() < 2000 {
            return (o.encode(), p.input[..x.used].to_vec(), x.used > 0);
        }
    }
}

fn tally(c: &mut Case, x: &Outcome) {
    c.count(&format!("ends with {}", names(&x.end[..1])), 1);
    c.count("instructions run", x.steps as u64);
    c.count("bytes written", x.out.len() as u64);
    c.count("bytes read", x.used as u64);
}

fn t_object(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut n = BTreeMap::new();
    let (p, mut o, x) = sure_object(&mut r, &mut n);
    for (k, v) in n {
        c.count(k, v);
    }
    if r.chance(1, 4) {
        o.preamble = b"#!/bin/env t\n".to_vec();
    }
    let dir = c.dir();
    write(&dir, "p.to", o.encode());
    // exactly the input that is needed, or more
    let mut input = p.input[..x.used].to_vec();
    if r.bool() {
        let k = r.range(1, 40);
        input.extend((0..k).map(|_| r.u8()));
    }
    for point in [false, true] {
        c.eval(1);
        let mut args = vec!["p.to"];
        if point {
            args.insert(r.below(2), *r.pick(&["-t", "--termination-point"]));
        }
        let out = c.run.tool("t", &dir).args(&args).stdin(input.clone()).run();
        let mut e = judge(&x, &out, point);
        if e.is_ok() && point {
            let s = String::from_utf8_lossy(&out.stdout[x.out.len()..]).into_owned();
            e = check_point(&o, &x, &s).map_err(|e| format!("{e}: {s:?}"));
        }
        if let Err(e) = e {
            return c.violation(format!("{e}\n  t {}\n{}\n{}", args.join(" "), out.show(), describe(&p, &o, &x)));
        }
    }
    tally(c, &x);
    c.nontrivial(hash_bytes(&o.encode()));
    c.sample("object", || format!("{} instructions, {} bytes read, {} written, {}", x.steps, x.used, x.out.len(), names(&x.end)));
}

/// ROM image of a program
fn image(r: &mut Rng, p: &Prog) -> Option<Vec<u8>> {
    let m = p.model();
    let mut at: BTreeMap<u8, u16> = BTreeMap::new();
    at.insert(TEXT, 0x80);
    let text = m.segs.get(&TEXT)?.len();
    let gap = r.below(300);
    at.insert(RODATA, (0x80 + text + gap) as u16);
    at.insert(DATA, 0x8000 + r.below(0x1000) as u16);
    at.insert(HEAP, 0x9800 + r.below(0x1000) as u16);
    let o = place(&m, &at);
    if o.entry != Some((TEXT, 0x80)) {
        return None;
    }
    let mut rom = vec![0u8; 0x7f80];
    let mut end = 0;
    for (t, s, b) in &o.segs {
        if *t == TEXT || *t == RODATA {
            let k = *s as usize - 0x80;
            rom.get_mut(k..k + b.len())?.copy_from_slice(b);
            end = end.max(k + b.len());
        }
    }
    let tables = p.blocks[0].items.iter().any(|i| matches!(i, It::Byte(0x11)));
    if !tables {
        match r.below(4) {
            0 => rom.truncate(end),
            1 => rom.truncate(end + r.below(100)),
            2 => rom.truncate(end - r.below(4).min(end)),
            _ => (),
        }
        return Some(rom);
    }
    if end > ROM_TABLE as usize - 0x80 {
        return None;
    }
    // every page where it is, but for a few
    let mut frame: Vec<u32> = (0..512).collect();
    if r.bool() {
        for _ in 0..3 {
            let (a, b) = (0x100 + r.below(0x90), 0x100 + r.below(0x90));
            frame.swap(a, b);
        }
    }
    let t = ROM_TABLE as usize - 0x80;
    let put = |rom: &mut Vec<u8>, at: usize, v: u32| rom[at..at + 4].copy_from_slice(&v.to_le_bytes());
    let all = (P | R | W | X | U) as u32;
    for i in 0..16 {
        let t2 = ROM_TABLE as usize + 128 * (i + 1);
        put(&mut rom, t + 4 * i, ((t2 >> 7) << 15) as u32 | all);
        for k in 0..32 {
            let page = i * 32 + k;
            let f = if page > 0x100 && r.chance(1, 60) { r.u8() as u32 & 0x3f } else { all };
            put(&mut rom, t2 - 0x80 + 4 * k, frame[page] << 15 | f);
        }
    }
    Some(rom)
}

fn t_rom(c: &mut Case) {
    let mut r = c.rng.clone();
    let (p, rom, x) = loop {
        let w = want(&mut r, true, false);
        let p = gen_prog(&mut r, &w);
        let Some(mut rom) = image(&mut r, &p) else { continue };
        if r.chance(1, 4) && !rom.is_empty() {
            let k = r.below(rom.len().min(200));
            rom[k] = r.u8();
        }
        let Some(x) = run_rom(&rom, &St::default(), &p.input, 30_000) else { continue };
        if x.out.len() < 20_000 {
            break (p, rom, x);
        }
    };
    let dir = c.dir();
    write(&dir, "rom.bin", &rom);
    let mut input = p.input[..x.used].to_vec();
    if r.bool() {
        input.push(r.u8());
    }
    let point = r.bool();
    let mut args = vec!["rom.bin"];
    args.insert(r.below(2), *r.pick(&["-r", "--raw-binary"]));
    if point {
        args.push("-t");
    }
    c.eval(1);
    let out = c.run.tool("t", &dir).args(&args).stdin(input).run();
    if let Err(e) = judge(&x, &out, point) {
        return c.violation(format!("{e}\n  t {} ({} bytes of ROM)\n{}\n{}", args.join(" "), rom.len(), out.show(), describe(&p, &Obj::default(), &x)));
    }
    tally(c, &x);
    c.count("ROM images", 1);
    c.nontrivial(hash_bytes(&rom));
    c.sample("ROM", || format!("{} bytes, {} instructions, {} bytes read, {} written, {}", rom.len(), x.steps, x.used, x.out.len(), names(&x.end)));
}

/// Images that use what the machine starts with: link register and trap handler, empty RAM
fn t_start(c: &mut Case) {
    let mut r = c.rng.clone();
    let mut rom: Vec<u8> = Vec::new();
    let show = |r: &mut Rng, rom: &mut Vec<u8>, base: u8, at: u16| {
        let [l, h] = at.to_le_bytes();
        rom.extend([0x2b, 0x10 | base, l, h, 0x27, 0x01, r.below(0x80) as u8, 0]);
    };
    let again = r.bool();
    let counter = 0x8000 + r.below(0x7f00) as u16;
    let [l, h] = counter.to_le_bytes();
    if again {
        // counts how often it gets here
        rom.extend([0x2c, 0x20, l, h, 0x40, 0x30, 1, 0, 0x42, 0x22, 0x30, 0x28, 0x02, l, h]);
    }
    for _ in 0..1 + r.below(3) {
        let at = 0x8000 + r.below(0x7ff0) as u16;
        match r.below(4) {
            0 | 1 => {
                let [l, h] = at.to_le_bytes();
                let reg = *r.pick(&[12u8, 12, 15]);
                if at.abs_diff(counter) < 2 {
                    continue;
                }
                rom.extend([0x28, reg, l, h]);
                show(&mut r, &mut rom, 0, at);
                show(&mut r, &mut rom, 0, at + 1);
            }
            2 => show(&mut r, &mut rom, 0, at),
            _ => {
                // bytes of the image itself and what is beyond it
                let at = 0x80 + r.below(300) as u16;
                show(&mut r, &mut rom, 0, at);
            }
        }
    }
    let mut dangling = false;
    if again {
        let n = 2 + r.below(20) as u8;
        // sub r4, r2, r5; jez +5; ret 0 goes to where the link register pointed at first
        rom.extend([0x40, 0x50, n, 0, 0x44, 0x42, 0x50, 0x2f]);
        let [l, h] = (0x80 + rom.len() as u16 + 4).to_le_bytes();
        rom.extend([l, h, 0x26, 0]);
        // ret adds to the stack pointer, which is defined only then
        let mut v = vec![0x40, 0xb0, 0, 0xf0];
        let head = rom.len() - 12;
        v.extend_from_slice(&rom[head..]);
        let k = v.len() - 4;
        let [l, h] = (0x80 + rom.len() as u16 - 12 + 4 + 12).to_le_bytes();
        v[k] = l;
        v[k + 1] = h;
        rom.truncate(head);
        rom.extend(v);
    }
    match r.below(4) {
        0 => rom.push(0x0d),
        1 => rom.push(0x0c),
        2 => dangling = true, // goes on in the empty rest
        _ => rom.push(0x0a),
    }
    let Some(x) = run_rom(&rom, &St::default(), &[], 5000) else {
        c.count("uncertain images, skipped", 1);
        return;
    };
    let dir = c.dir();
    write(&dir, "rom.bin", &rom);
    let point = r.bool();
    let args: &[&str] = if point { &["-r", "-t", "rom.bin"] } else { &["-r", "rom.bin"] };
    c.eval(1);
    let out = c.run.tool("t", &dir).args(args).stdin(vec![]).run();
    if let Err(e) = judge(&x, &out, point) {
        return c.violation(format!("{e}\n  t {} with the image {}\n{}", args.join(" "), bytes(&rom), out.show()));
    }
    tally(c, &x);
    c.count(if again { "returns to the start" } else { "starts" }, 1);
    c.count(if dangling { "runs into the empty rest" } else { "ends" }, 1);
    c.nontrivial(hash_bytes(&rom));
}

pub fn c15(run: &Run) {
    run.cases("start of the machine", run.n(500, 8_000), t_start);
    run.cases("objects", run.n(2500, 60_000), t_object);
    run.cases("raw images", run.n(2000, 50_000), t_rom);
}

// ------------------------------------------------------------------ C30

struct Unit {
    files: Vec<Src>,
    /// stays outside archives
    direct: bool,
    exports: Vec<String>,
}

/// A translation unit of these blocks; `others`: names used by other units
fn unit(r: &mut Rng, no: usize, blocks: &[Block], exported: &[String]) -> Unit {
    // names used nowhere else may be the same in every unit
    let mut map: BTreeMap<String, String> = BTreeMap::new();
    let hide = r.bool();
    let mut k = 0;
    for b in blocks {
        for l in b.locals.iter().chain(Some(&b.name)) {
            if hide && !exported.contains(l) {
                k += 1;
                map.insert(l.clone(), format!("L{k}"));
            }
        }
    }
    let mut blocks: Vec<Block> = blocks.iter().map(|b| b.renamed(|l| map.get(l).cloned().unwrap_or(l.into()))).collect();
    r.shuffle(&mut blocks);
    let here: Vec<String> = blocks.iter().map(|b| b.name.clone()).collect();
    let exports: Vec<String> = here.iter().filter(|n| exported.contains(n)).cloned().collect();
    let mut foreign: Vec<String> = blocks.iter().flat_map(|b| b.uses()).filter(|n| !here.contains(n)).collect();
    foreign.sort();
    foreign.dedup();
    // files of the unit
    let nf = r.range(1, 3.min(blocks.len()));
    let dirs = ["", "", "inc/", "inc/deep/"];
    let mut files: Vec<Src> = (0..nf)
        .map(|k| Src { path: format!("u{no}/{}s{k}.{}", if k == 0 { "" } else { *r.pick(&dirs) }, r.pick(&["telda", "s"])), items: vec![] })
        .collect();
    let mut seg = vec![UNKNOWN; nf];
    let mut gaps: Vec<(usize, usize)> = Vec::new();
    for (n, b) in blocks.iter().enumerate() {
        // every file gets one
        let f = if n < nf { n } else { r.below(nf) };
        gaps.push((f, files[f].items.len()));
        if seg[f] != b.seg || r.bool() {
            files[f].items.push(It::Seg(b.seg));
        }
        files[f].items.extend(b.items.iter().cloned());
        // the last segment the block is in
        seg[f] = b
            .items
            .iter()
            .rev()
            .find_map(|i| match i {
                It::Seg(s) => Some(*s),
                _ => None,
            })
            .unwrap_or(b.seg);
    }
    for f in 0..nf {
        gaps.push((f, files[f].items.len()));
    }
    // what goes into the gaps, from the last to the first
    let mut ins: Vec<(usize, usize, It)> = Vec::new();
    let gap = |r: &mut Rng, f: Option<usize>| loop {
        let g = *r.pick(&gaps);
        if f.is_none_or(|f| f == g.0) {
            return g;
        }
    };
    for e in &exports {
        let g = gap(r, None);
        ins.push((g.0, g.1, It::Global(e.clone())));
    }
    for e in &foreign {
        for _ in 0..r.range(1, 2) {
            let g = gap(r, None);
            ins.push((g.0, g.1, if r.bool() { It::Ref(e.clone()) } else { It::Global(e.clone()) }));
        }
    }
    for f in 1..nf {
        let from = r.below(f);
        let g = gap(r, Some(from));
        let p = include_path(r, &files[from].path.clone(), &files[f].path.clone());
        ins.push((from, g.1, It::Include(f, p)));
    }
    ins.sort_by_key(|i| i.1);
    for (f, at, it) in ins.into_iter().rev() {
        files[f].items.insert(at, it);
    }
    Unit { files, direct: true, exports }
}

fn step(c: &mut Case, dir: &Path, tool: &str, args: &[String], log: &mut Vec<String>) -> bool {
    log.push(format!("{tool} {}", args.join(" ")));
    let out = c.run.tool(tool, dir).args(args).run();
    if !out.ok() {
        log.push(out.show());
        c.violation(format!("{tool} fails on a valid program\n  {}", log.join("\n  ")));
        return false;
    }
    true
}

fn s(x: &str) -> String {
    x.into()
}

/// Builds one distribution of the program; the executable's name
fn build(c: &mut Case, p: &Prog, n: usize, sources: &mut String) -> Option<(String, Vec<String>)> {
    let mut r = c.rng.clone();
    c.rng.u64();
    let root = c.dir().join(format!("b{n}"));
    let k = r.range(1, 5.min(p.blocks.len()));
    let mut parts: Vec<Vec<Block>> = vec![vec![]; k];
    let explicit = r.chance(1, 4);
    for (i, b) in p.blocks.iter().enumerate() {
        let mut b = b.clone();
        if i == 0 && explicit {
            b.items.retain(|i| !matches!(i, It::Entry));
        }
        let u = if i == 0 { 0 } else { r.below(k) };
        parts[u].push(b);
    }
    parts.retain(|p| !p.is_empty());
    let mut exported: Vec<String> = Vec::new();
    for (u, part) in parts.iter().enumerate() {
        for b in part {
            let used = parts.iter().enumerate().any(|(v, q)| v != u && q.iter().any(|x| x.uses().contains(&b.name)));
            if used || explicit && b.name == "main" || r.chance(1, 6) {
                exported.push(b.name.clone());
            }
        }
    }
    let mut units: Vec<Unit> = parts.iter().enumerate().map(|(i, p)| unit(&mut r, i, p, &exported)).collect();
    for u in units.iter_mut().skip(1) {
        u.direct = r.bool();
    }
    let mut log = Vec::new();
    let mut sp = Speller::new(r.clone());
    for u in &units {
        for f in &u.files {
            let t = f.text(&mut sp);
            *sources += &format!("--- {}\n{t}\n", f.path);
            write(&root, &f.path, t);
        }
    }
    let roots: Vec<String> = units.iter().map(|u| u.files[0].path.clone()).collect();
    if r.bool() {
        if !step(c, &root, "tc", &roots, &mut log) {
            return None;
        }
    } else {
        for f in &roots {
            if !step(c, &root, "tc", &[f.clone()], &mut log) {
                return None;
            }
        }
    }
    let obj = |i: usize| Path::new(&roots[i]).with_extension("to").display().to_string();
    let mut direct: Vec<String> = (0..units.len()).filter(|i| units[*i].direct).map(obj).collect();
    let mut lib: Vec<String> = (0..units.len()).filter(|i| !units[*i].direct).map(obj).collect();
    r.shuffle(&mut direct);
    r.shuffle(&mut lib);
    // internal names may be stripped from some of the parts
    if r.chance(1, 4) {
        let v: Vec<String> = direct.iter().chain(&lib).filter(|_| r.bool()).cloned().collect();
        if !v.is_empty() && !step(c, &root, "tstrip", &v, &mut log) {
            return None;
        }
    }
    // a part is linked beforehand
    if direct.len() > 1 && r.chance(1, 3) {
        let g = r.range(1, direct.len());
        let mut a: Vec<String> = direct.drain(..g).collect();
        a.extend([s("-o"), s("part.to")]);
        if r.chance(1, 3) {
            a.push(s("-S"));
        }
        if !step(c, &root, "tl", &a, &mut log) {
            return None;
        }
        direct.insert(0, s("part.to"));
    }
    let mut args = direct;
    let narch = if lib.is_empty() { 0 } else { r.range(1, 2.min(lib.len())) };
    for a in 0..narch {
        let members: Vec<String> = if a + 1 == narch { std::mem::take(&mut lib) } else { lib.drain(..1).collect() };
        let name = format!("l{a}.savn");
        let mut v = members;
        v.extend([s("-o"), name.clone()]);
        if !step(c, &root, "tar", &v, &mut log) {
            return None;
        }
        args.extend([s("-l"), name]);
    }
    args.push(s("-e"));
    if explicit {
        args.extend([s("-E"), s("main")]);
    }
    if r.chance(1, 3) {
        args.extend([s("-A"), r.pick(&["128", "256", "512", "1024"]).to_string()]);
    }
    if r.chance(1, 5) {
        args.push(s("-S"));
    }
    args.extend([s("-o"), s("prog")]);
    // the executable of an earlier link may be there
    if r.chance(1, 4) {
        if !step(c, &root, "tl", &args, &mut log) {
            return None;
        }
        c.count("linked again", 1);
    }
    if !step(c, &root, "tl", &args, &mut log) {
        return None;
    }
    match r.below(8) {
        0 => {
            if !step(c, &root, "tstrip", &[s("prog")], &mut log) {
                return None;
            }
        }
        1 => {
            if !step(c, &root, "tstrip", &[s("-a"), s("prog")], &mut log) {
                return None;
            }
        }
        _ => (),
    }
    c.count("units", units.len() as u64);
    c.count("files", units.iter().map(|u| u.files.len() as u64).sum());
    c.count("archives", narch as u64);
    c.count("exported names", units.iter().map(|u| u.exports.len() as u64).sum());
    Some((format!("b{n}/prog"), log))
}

fn split(c: &mut Case) {
    let w = want(&mut c.rng, false, false);
    let mut r = c.rng.clone();
    let (p, x) = sure_prog(&mut r, &w);
    c.rng = r;
    let dir = c.dir();
    for n in 0..3 {
        let mut sources = String::new();
        let Some((exe, log)) = build(c, &p, n, &mut sources) else {
            if let Some(v) = &mut c.viol {
                *v += &format!("\n{}", clip(&sources, 5000));
            }
            return;
        };
        c.eval(1);
        let itself = c.rng.chance(1, 3) && scripts_start(&dir);
        let t = c.run.tool("t", &dir);
        let t = if itself { t.command(&exe) } else { t.arg(&exe) };
        let out = t.stdin(p.input.clone()).run();
        c.count(if itself { "started as a command" } else { "run by t" }, 1);
        if let Err(e) = judge(&x, &out, false) {
            let e = if itself { format!("started as a command: {e}") } else { e };
            return c.violation(format!(
                "{e}\n  {}\n{}\n  expected {} bytes of output and {}\n{}",
                log.join("\n  "),
                out.show(),
                x.out.len(),
                names(&x.end),
                clip(&sources, 5000)
            ));
        }
        c.nontrivial(hash_bytes(sources.as_bytes()) ^ hash_bytes(log.join(" ").as_bytes()));
        c.sample("distribution", || log.join("; "));
    }
    tally(c, &x);
}

/// The lines of a program dealt to files in order: linked in that order, nothing moves
fn split_lines(c: &mut Case) {
    let mut r = c.rng.clone();
    c.rng.u64();
    let w = want(&mut r, false, false);
    let mut p = gen_prog(&mut r, &w);
    if r.bool() {
        r.shuffle(&mut p.blocks);
    }
    let mut items: Vec<It> = p.source().items;
    // what is only a place gets a line of its own
    for k in 0..r.below(4) {
        let at = r.below(items.len() + 1);
        items.insert(at, It::Label(format!("@place{k}")));
        if at == 0 {
            items.insert(0, It::Seg(*r.pick(&[TEXT, DATA])));
        }
    }
    let whole = Src { path: "whole.telda".into(), items: items.clone() };
    let m = Model::assemble(&[whole.clone()], 0);
    // cuts, often around labels and the entry point
    let n = items.len();
    let mut cuts: Vec<usize> = (0..r.range(1, 6)).map(|_| r.below(n + 1)).collect();
    for _ in 0..r.range(0, 3) {
        let k = r.below(n);
        if let Some(at) = (k..n).find(|i| matches!(items[*i], It::Label(_) | It::Entry)) {
            cuts.push(at);
            cuts.push(at + 1);
        }
    }
    if r.bool() {
        if let Some(at) = items.iter().position(|i| matches!(i, It::Entry)) {
            cuts.push(at);
            cuts.push(at + 1);
        }
    }
    cuts.extend([0, n]);
    cuts.sort();
    if r.chance(2, 3) {
        cuts.dedup();
    }
    let mut seg = UNKNOWN;
    let mut files: Vec<Src> = Vec::new();
    for w in cuts.windows(2) {
        let part = &items[w[0]..w[1]];
        let mut v: Vec<It> = Vec::new();
        if seg != UNKNOWN && !matches!(part.first(), Some(It::Seg(_))) {
            v.push(It::Seg(seg));
        }
        for it in part {
            if let It::Seg(s) = it {
                seg = *s;
            }
            v.push(it.clone());
        }
        let f = Src { path: format!("part{}.telda", files.len()), items: v };
        let pm = Model::assemble(&[f.clone()], 0);
        let mut f = f;
        for l in pm.defs.keys() {
            let at = r.below(f.items.len() + 1);
            f.items.insert(at, It::Global(l.clone()));
        }
        for l in pm.used.iter().filter(|l| !pm.defs.contains_key(*l)) {
            let at = r.below(f.items.len() + 1);
            f.items.insert(at, if r.bool() { It::Ref(l.clone()) } else { It::Global(l.clone()) });
        }
        files.push(f);
    }
    let dir = c.dir();
    let mut sp = Speller::new(r.clone());
    let mut sources = String::new();
    write(&dir, "whole.telda", whole.text(&mut sp));
    for f in &files {
        let t = f.text(&mut sp);
        sources += &format!("--- {}\n{t}\n", f.path);
        write(&dir, &f.path, t);
    }
    let mut log = Vec::new();
    let mut names: Vec<String> = files.iter().map(|f| f.path.clone()).collect();
    let mut all = names.clone();
    all.push(s("whole.telda"));
    let mut ok = step(c, &dir, "tc", &all, &mut log) && step(c, &dir, "tl", &[s("whole.to"), s("-e"), s("-o"), s("whole")], &mut log);
    names = names.iter().map(|f| f.replace(".telda", ".to")).collect();
    // some that follow each other beforehand
    if ok && names.len() > 2 && r.bool() {
        let a = r.below(names.len() - 1);
        let b = r.range(a + 1, names.len());
        let mut v: Vec<String> = names[a..b].to_vec();
        v.extend([s("-o"), s("some.to")]);
        ok = step(c, &dir, "tl", &v, &mut log);
        names.splice(a..b, [s("some.to")]);
    }
    names.extend([s("-e"), s("-o"), s("split")]);
    ok = ok && step(c, &dir, "tl", &names, &mut log);
    if !ok {
        if let Some(v) = &mut c.viol {
            *v += &format!("\n{}", clip(&sources, 5000));
        }
        return;
    }
    c.eval(1);
    let read = |n: &str| parse(&fs::read(dir.join(n)).unwrap_or_default(), true);
    let diff = match (read("whole"), read("split")) {
        (Ok(a), Ok(b)) => {
            let image = |o: &Obj| -> BTreeMap<u8, (u16, Vec<u8>)> {
                o.segs.iter().filter(|s| !s.2.is_empty()).map(|s| (s.0, (s.1, s.2.clone()))).collect()
            };
            let (x, y) = (image(&a), image(&b));
            let at = |o: &Obj, n: &str| o.syms.iter().find(|s| s.name == n).map(|s| (s.seg, s.loc));
            if x.keys().ne(y.keys()) {
                Some("the segments differ".to_string())
            } else if let Some((t, _)) = x.iter().find(|(t, v)| y[t] != **v) {
                let (p, q) = (&x[t], &y[t]);
                let k = p.1.iter().zip(&q.1).position(|(a, b)| a != b);
                Some(format!("the {} segment differs: at {:#x} and {:#x}, {} and {} bytes, first at offset {k:x?}", crate::objfmt::seg_name(*t), p.0, q.0, p.1.len(), q.1.len()))
            } else if a.entry != b.entry {
                Some(format!("the entry point is {:x?} in one file and {:x?} in several", a.entry, b.entry))
            } else {
                m.defs.iter().filter(|d| m.segs.contains_key(&d.1 .0)).find_map(|(n, _)| {
                    let (p, q) = (at(&a, n), at(&b, n));
                    (p != q).then(|| format!("{n} is at {p:x?} in one file and at {q:x?} in several"))
                })
            }
        }
        (a, b) => Some(format!("not readable: {:?} {:?}", a.err(), b.err())),
    };
    if let Some(e) = diff {
        return c.violation(format!("a program dealt to {} files: {e}\n  {}\n{}", files.len(), log.join("\n  "), clip(&sources, 6000)));
    }
    c.count("programs dealt line by line", 1);
    c.count("files without content", files.iter().filter(|f| Model::assemble(&[(*f).clone()], 0).segs.is_empty()).count() as u64);
    c.nontrivial(hash_bytes(sources.as_bytes()) ^ hash_bytes(log.join(" ").as_bytes()));
}

pub fn c30(run: &Run) {
    run.cases("line by line", run.n(700, 15_000), split_lines);
    run.cases("distributions", run.n(1200, 25_000), split);
}

// ------------------------------------------------------------------ C29

fn stripped_run(c: &mut Case) {
    let mut r = c.rng.clone();
    let (p, o, x) = sure_object(&mut r, &mut BTreeMap::new());
    let dir = c.dir();
    for all in [false, true] {
        let f = if all { "all.to" } else { "names.to" };
        let path = write(&dir, f, o.encode());
        fs::set_permissions(&path, fs::Permissions::from_mode(0o755)).expect("scratch");
        let mut a = vec![f];
        if all {
            a.push("-a");
        }
        c.eval(1);
        let out = c.run.tool("tstrip", &dir).args(&a).run();
        if !out.ok() {
            return c.violation(format!("tstrip {} fails\n{}", a.join(" "), out.show()));
        }
        if let Err(e) = parse(&fs::read(&path).unwrap_or_default(), true) {
            return c.violation(format!("tstrip {}: {e}", a.join(" ")));
        }
        let out = c.run.tool("t", &dir).arg(f).stdin(p.input[..x.used].to_vec()).run();
        if let Err(e) = judge(&x, &out, false) {
            return c.violation(format!("after tstrip {}: {e}\n{}\n{}", a.join(" "), out.show(), describe(&p, &o, &x)));
        }
        c.count("stripped programs run", 1);
    }
    c.nontrivial(hash_bytes(&o.encode()));
}

pub fn strip_and_run(run: &Run) {
    run.cases("strip and run", run.n(500, 10_000), stripped_run);
}

/// For other checks: the model of a program in one file
pub fn model_of(p: &Prog) -> Model {
    p.model()
}
