//! C32: what the dump tool shows, next to the objects decoded independently.

use std::{
    collections::{BTreeMap, BTreeSet},
    fs,

};

use crate::{
    asm::{gen_sources, Enc, GenOpts, Imm, Model, FORMS, O},
    chk_link::{gen_inputs, shape},
    core::{Case, Run},
    cpu::St,
    disline::{decode, names, parse_line},
    objfmt::{encode_archive, parse, seg_name, Obj, Sym, DATA, HEAP, RODATA, SEGS, TEXT, UNKNOWN},
    prog::{gen_prog, rand_layout, Want},
    rng::{hash_bytes, Rng},
    tools::{clip, write},
    vm::Vm,
};

// ------------------------------------------------------------------ objects

/// An object with the segments of a model at these addresses, what is not defined undefined
fn place(r: &mut Rng, m: &Model, at: &BTreeMap<u8, u16>) -> Obj {
    let addr = |(s, o): (u8, usize)| at.get(&s).copied().unwrap_or(0x80).wrapping_add(o as u16);
    let mut o = Obj::default();
    for (n, d) in &m.defs {
        o.syms.push(Sym { name: n.clone(), global: m.globals.contains(n), seg: d.0, loc: addr(*d) });
    }
    for n in m.refs.iter().chain(&m.used).chain(&m.globals) {
        if !o.syms.iter().any(|s| s.name == *n) {
            o.syms.push(Sym { name: n.clone(), global: true, seg: UNKNOWN, loc: 0xfaff });
        }
    }
    r.shuffle(&mut o.syms);
    let mut segs = m.segs.clone();
    for (s, off, l) in &m.relocs {
        let k = o.syms.iter().position(|x| x.name == *l).expect("has a symbol");
        segs.get_mut(s).unwrap()[*off..off + 2].copy_from_slice(&o.syms[k].loc.to_le_bytes());
        o.relocs.push((*s, at[s].wrapping_add(*off as u16), k as u16));
    }
    for (s, b) in segs {
        o.segs.push((s, at[&s], b));
    }
    o.entry = m.entry.map(|e| (e.0, addr(e)));
    o
}

/// Segments that are not in each other's way
fn separate(r: &mut Rng, o: &mut Obj) {
    let mut order: Vec<usize> = (0..o.segs.len()).collect();
    r.shuffle(&mut order);
    let mut at = 0x80u32;
    for k in order {
        if r.bool() {
            at += r.below(0x800) as u32;
        }
        if r.chance(2, 3) {
            at = (at + 127) & !127;
        }
        let (t, old, n) = (o.segs[k].0, o.segs[k].1, o.segs[k].2.len() as u32);
        let d = (at as u16).wrapping_sub(old);
        o.segs[k].1 = at as u16;
        at += n + if t == HEAP { 0x480 } else { 0 };
        for s in o.syms.iter_mut().filter(|s| s.seg == t) {
            s.loc = s.loc.wrapping_add(d);
        }
        for x in o.relocs.iter_mut().filter(|x| x.0 == t) {
            x.1 = x.1.wrapping_add(d);
        }
        if let Some(e) = o.entry.as_mut().filter(|e| e.0 == t) {
            e.1 = e.1.wrapping_add(d);
        }
    }
}

/// One long run of instructions, few labels
fn long_code(r: &mut Rng) -> Obj {
    let n = *r.pick(&[200, 900, 1030, 1500, 2100, 4200]);
    let mut b = Vec::new();
    let kinds = r.range(1, 6);
    let forms: Vec<_> = FORMS.iter().filter(|f| !matches!(f.code, 0x00 | 0x0a | 0x0d | 0x26 | 0x40)).collect();
    let forms: Vec<_> = (0..kinds).map(|_| *r.pick(&forms)).collect();
    for _ in 0..n {
        let f = *r.pick(&forms);
        b.push(f.code);
        let (regs, imm) = match f.enc {
            Enc::LdiW => (2, 2),
            _ => (f.nregs(), [0, 1, 2][(f.imm() == Some(O::Ib)) as usize + 2 * (f.imm() == Some(O::Iw)) as usize]),
        };
        for _ in 0..regs.div_ceil(2) + imm {
            b.push(r.u8());
        }
    }
    b.push(*r.pick(&[0x00, 0x0a, 0x0d]));
    let at = *r.pick(&[0u16, 0x80, 0x1000, 0x1234]);
    let mut o = Obj { segs: vec![(TEXT, at, b)], entry: Some((TEXT, at)), ..Obj::default() };
    for k in 0..r.below(4) {
        let loc = at + if r.bool() { 0 } else { r.below(o.segs[0].2.len()) as u16 };
        o.syms.push(Sym { name: format!("l{k}"), global: r.bool(), seg: TEXT, loc });
    }
    o
}

fn object(r: &mut Rng) -> Obj {
    loop {
        let mut o = match r.below(5) {
            _ if r.chance(1, 40) => long_code(r),
            0 => {
                let mut s = shape(r);
                s.files = 1;
                let mut o = gen_inputs(r, &s).pop().unwrap();
                // names the listing can be read back from
                for (k, s) in o.syms.iter_mut().enumerate() {
                    if !s.name.chars().all(|c| c.is_alphanumeric() || "_.$%{}#;/\\\u{301}".contains(c)) || s.name.contains("UNDEF") {
                        s.name = format!("sym{k}");
                    }
                }
                o.segs.retain(|s| s.0 != 0);
                o.syms.retain(|s| s.seg != 0);
                o.relocs.clear();
                if !o.syms.is_empty() {
                    for (t, at, b) in &o.segs {
                        let mut k = 0;
                        while k + 2 <= b.len() {
                            if r.chance(1, 5) {
                                o.relocs.push((*t, at + k as u16, r.below(o.syms.len()) as u16));
                                k += 1;
                            }
                            k += 1;
                        }
                    }
                }
                if o.entry.is_some_and(|e| e.0 == 0) {
                    o.entry = None;
                }
                separate(r, &mut o);
                o
            }
            1 | 2 => {
                let g = GenOpts { files: 2, items: *r.pick(&[10, 30, 80]), big: false, undefined: true, entry: r.bool() };
                let m = Model::assemble(&gen_sources(r, &g, "s"), 0);
                if m.segs.contains_key(&UNKNOWN) || m.segs.values().any(|b| b.len() > 0x2000) {
                    continue;
                }
                let page = r.bool();
                let at = rand_layout(r, &m, page);
                place(r, &m, &at)
            }
            _ => {
                let w = Want { stmts: *r.pick(&[3, 8, 20]), routines: *r.pick(&[0, 2, 5]), newline: false, raw: false };
                let mut p = gen_prog(r, &w);
                r.shuffle(&mut p.blocks);
                let mut m = p.model();
                for n in m.defs.keys().cloned().collect::<Vec<_>>() {
                    if r.chance(1, 4) {
                        m.globals.insert(n);
                    }
                }
                let page = r.chance(2, 3);
                let at = rand_layout(r, &m, page);
                place(r, &m, &at)
            }
        };
        if o.segs.iter().any(|s| s.1 as usize + s.2.len() > 0xf800) {
            continue;
        }
        // everything up to the end of the address space
        if r.chance(1, 12) {
            if let Some(k) = o.segs.iter().position(|s| s.0 == TEXT && s.2.len() > 2) {
                let (t, old, n) = (TEXT, o.segs[k].1, o.segs[k].2.len() as u16);
                let at = (0u16.wrapping_sub(n)).wrapping_sub(r.below(3) as u16);
                let d = at.wrapping_sub(old);
                if o.segs.iter().enumerate().all(|(j, s)| j == k || s.1 as usize + s.2.len() < at as usize) {
                    o.segs[k].1 = at;
                    for s in o.syms.iter_mut().filter(|s| s.seg == t) {
                        s.loc = s.loc.wrapping_add(d);
                    }
                    for x in o.relocs.iter_mut().filter(|x| x.0 == t) {
                        x.1 = x.1.wrapping_add(d);
                    }
                    if let Some(e) = o.entry.as_mut().filter(|e| e.0 == t) {
                        e.1 = e.1.wrapping_add(d);
                    }
                    o.stack = Some(0);
                }
            }
        }
        if r.chance(1, 4) {
            o.flags = Some(r.bool());
        }
        if r.chance(1, 5) && o.stack.is_none() {
            o.stack = Some(*r.pick(&[0, 1, 0x80, 0x200]));
        }
        if r.chance(1, 5) {
            o.heap = Some(*r.pick(&[0, 1, 0x80, 0x400]));
        }
        for s in o.syms.iter_mut() {
            if r.chance(1, 10) && !s.global {
                s.name.clear();
            }
        }
        if r.chance(1, 3) && !o.segs.is_empty() {
            // more names, in the middle of anything
            for k in 0..r.range(1, 6) {
                let (t, at, b) = r.pick(&o.segs);
                let loc = at.wrapping_add(r.below(b.len() + 1) as u16);
                let name = if r.chance(1, 4) { "long_name_of_a_label".repeat(r.range(1, 3)) } else { format!("more{k}") };
                let s = Sym { name, global: r.chance(1, 3), seg: *t, loc };
                o.syms.push(s);
            }
        }
        if r.chance(1, 8) {
            o.entry = None;
        }
        return o;
    }
}

// ------------------------------------------------------------------ what is to be shown

/// Length of the instruction, the label it may name, whether the next one follows
struct Shape {
    len: u16,
    sure: Option<u16>,
    maybe: Option<u16>,
    ends: bool,
}

fn shape_at(vm: &Vm, pc: u16) -> Option<Shape> {
    let ok = |a: u16| vm.perms.get(&(a >> 7)).is_some_and(|p| p & crate::cpu::X != 0);
    if !ok(pc) {
        return None;
    }
    let at = |k: u16| vm.phys.ram[pc.wrapping_add(k) as usize];
    let b = at(0);
    let Some(f) = FORMS.iter().find(|f| f.code == b) else {
        return Some(Shape { len: 1, sure: None, maybe: None, ends: true });
    };
    let (n, wide, byte) = match f.enc {
        Enc::LdiW => (2, true, false),
        _ => (f.nregs(), f.imm() == Some(O::Iw), f.imm() == Some(O::Ib)),
    };
    let len = 1 + n.div_ceil(2) as u16 + if wide { 2 } else { byte as u16 };
    if (0..len).any(|k| !ok(pc.wrapping_add(k))) {
        return None;
    }
    let imm = wide.then(|| u16::from_le_bytes([at(len - 2), at(len - 1)]));
    let bytes: Vec<u8> = (0..len).map(at).collect();
    let sure = imm.filter(|_| decode(&bytes).is_some_and(|d| matches!(d.0.form.imm(), Some(O::Iw))));
    let ends = matches!(b, 0x00 | 0x0a | 0x0d | 0x26) || b == 0x40 && at(1) & 15 == 1;
    Some(Shape { len, sure, maybe: imm, ends })
}

/// Addresses of the instructions to be shown from these roots
fn reach(o: &Obj, vm: &Vm, roots: &[u16], all: bool) -> BTreeSet<u16> {
    let mut locs: BTreeSet<u16> = o.syms.iter().filter(|s| all || s.seg != UNKNOWN).map(|s| s.loc).collect();
    locs.extend(o.entry.map(|e| e.1));
    let mut seen = BTreeSet::new();
    let mut todo: Vec<u16> = roots.to_vec();
    while let Some(mut pc) = todo.pop() {
        while !seen.contains(&pc) {
            let Some(s) = shape_at(vm, pc) else { break };
            seen.insert(pc);
            todo.extend(if all { s.maybe } else { s.sure }.filter(|l| locs.contains(l)));
            if s.ends {
                break;
            }
            pc = pc.wrapping_add(s.len);
        }
    }
    seen
}

/// What a symbol is called
fn called(o: &Obj, k: usize) -> String {
    match o.syms.get(k) {
        Some(s) if !s.name.is_empty() => s.name.clone(),
        _ => format!("@L{k}"),
    }
}

fn called_at(o: &Obj, loc: u16) -> Vec<String> {
    let mut v: Vec<String> = (0..o.syms.len()).filter(|k| o.syms[*k].loc == loc).map(|k| called(o, k)).collect();
    if o.entry.is_some_and(|e| e.1 == loc) {
        v.push(".entry".into());
    }
    v
}

struct Ask {
    dis: bool,
    from: Option<Vec<String>>,
    syms: bool,
    relocs: bool,
}

fn is_ins(l: &str) -> bool {
    let t = l.trim_start();
    l.starts_with(' ') && t.len() >= 5 && t.as_bytes()[4] == b':' && t.bytes().take(4).all(|b| b.is_ascii_hexdigit())
}

fn judge(o: &Obj, a: &Ask, lines: &[&str], c: &mut BTreeMap<&'static str, u64>) -> Result<(), String> {
    // symbols
    let mut at = 0;
    if a.syms {
        for s in &o.syms {
            let Some(k) = lines[at..].iter().position(|l| {
                let t = l.trim_start();
                l.starts_with(' ') && (t.starts_with("GLOBAL") || t.starts_with("local"))
            }) else {
                return Err(format!("symbol {:?} is not shown in its place", s.name));
            };
            let l = lines[at + k];
            at += k + 1;
            let bad = |w: &str| Err(format!("{w} of {s:x?} is not what is shown: {l:?}"));
            let t = l.trim_start();
            let (global, t) = match t.strip_prefix("GLOBAL") {
                Some(t) => (true, t),
                None => (false, t.strip_prefix("local").unwrap()),
            };
            if global != s.global {
                return bad("scope");
            }
            let Some(t) = t.trim_start().strip_prefix(&*s.name).map(|t| t.trim_start()).and_then(|t| t.strip_prefix('=')) else {
                return bad("name");
            };
            let undefined = t.to_ascii_lowercase().contains("undefined");
            if undefined != (s.seg == UNKNOWN) {
                return bad("state");
            }
            if let Some(h) = t.split(|c: char| !c.is_alphanumeric()).find_map(|w| w.strip_prefix("0x")) {
                if undefined && u32::from_str_radix(h, 16) != Ok(s.loc as u32) {
                    return bad("address");
                }
            }
            if !undefined {
                let v = t.split_whitespace().next().and_then(|w| u32::from_str_radix(w.strip_prefix("0x")?, 16).ok());
                if v != Some(s.loc as u32) {
                    return bad("address");
                }
                let w: Vec<&str> = t.split(|c: char| !c.is_alphanumeric()).collect();
                if !w.contains(&seg_name(s.seg)) || SEGS.iter().any(|x| *x != s.seg && w.contains(&seg_name(*x))) {
                    return bad("segment");
                }
            }
            *c.entry("symbols shown").or_default() += 1;
        }
    }
    let is_sym = |l: &&&str| l.starts_with("  GLOBAL ") || l.starts_with("  local ");
    if let Some(l) = lines[at..].iter().find(is_sym) {
        return Err(format!("another symbol is shown: {l:?}"));
    }
    if !a.dis {
        return match lines[at..].iter().find(|l| is_ins(l)) {
            None => Ok(()),
            Some(l) => Err(format!("an instruction is shown: {l:?}")),
        };
    }
    // instructions
    let vm = Vm::load(o, &St::default(), &[]);
    let mut roots: Vec<u16> = Vec::new();
    let mut extra: Vec<u16> = Vec::new();
    match &a.from {
        None => {
            roots.extend(o.entry.map(|e| e.1));
            for s in o.syms.iter().filter(|s| s.global) {
                if s.seg == UNKNOWN { &mut extra } else { &mut roots }.push(s.loc);
            }
        }
        Some(n) => {
            for n in n {
                for s in o.syms.iter().filter(|s| s.name == *n) {
                    if s.seg == UNKNOWN { &mut extra } else { &mut roots }.push(s.loc);
                }
            }
        }
    }
    let must = reach(o, &vm, &roots, false);
    extra.extend(&roots);
    let may = reach(o, &vm, &extra, true);
    let mut shown: BTreeSet<u16> = BTreeSet::new();
    let mut under: Option<&str> = None;
    let mut end: Option<u16> = None;
    // where the instructions are in the lines
    let mut spans: Vec<(usize, u16, u16)> = Vec::new();
    for (n, l) in lines.iter().enumerate().skip(at) {
        if let Some(x) = l.strip_prefix('<') {
            if let Some(x) = x.strip_suffix(">:") {
                under = Some(x);
            } else if let Some((x, _)) = x.rsplit_once('>') {
                match end {
                    Some(e) if called_at(o, e).iter().any(|c| c == x) => (),
                    _ => return Err(format!("{l:?} follows an instruction that ends at {end:04x?}")),
                }
            }
            continue;
        }
        if !is_ins(l) {
            continue;
        }
        let Some(p) = parse_line(l, 1) else { return Err(format!("no bytes are shown: {l:?}")) };
        let Some(s) = shape_at(&vm, p.addr) else {
            return Err(format!("an instruction is shown where none can be executed: {l:?}"));
        };
        let code: Vec<u8> = (0..s.len).map(|k| vm.phys.ram[p.addr.wrapping_add(k) as usize]).collect();
        let p = match parse_line(l, s.len as usize) {
            Some(p) if p.bytes == code => p,
            _ => return Err(format!("the bytes {code:02x?} are not shown: {l:?}")),
        };
        if let Some((i, _)) = decode(&code) {
            let cand = match i.imm {
                Imm::Num(v) => called_at(o, v),
                _ => vec![],
            };
            if let Err(e) = names(&p.op, &i, None) {
                if !cand.iter().any(|c| names(&p.op, &i, Some(c)).is_ok()) {
                    return Err(format!("{e}: {l:?}"));
                }
                *c.entry("label operands shown").or_default() += 1;
            }
        }
        if let Some(u) = under.take() {
            if !called_at(o, p.addr).iter().any(|c| c == u) {
                return Err(format!("{l:?} is shown under the label {u}"));
            }
        }
        shown.insert(p.addr);
        end = Some(p.addr.wrapping_add(s.len));
        spans.push((n, p.addr, s.len));
        *c.entry("instructions shown").or_default() += 1;
    }
    // everything asked for has a heading, also where another name has the same place
    for s in o.syms.iter().filter(|s| !s.name.is_empty() && a.from.as_ref().map_or(s.global, |f| f.contains(&s.name))) {
        let have = lines[at..].iter().any(|l| l.strip_prefix('<').and_then(|x| x.strip_suffix(">:")) == Some(&*s.name));
        if !have && !s.name.contains('\n') {
            return Err(format!("nothing is shown under {:?}", s.name));
        }
        *c.entry("headings found").or_default() += 1;
    }
    if let Some(x) = must.difference(&shown).next() {
        return Err(format!("the instruction at {x:04x} is not shown ({} are)", shown.len()));
    }
    if let Some(x) = shown.difference(&may).next() {
        return Err(format!("the instruction at {x:04x} is shown, but nothing leads to it"));
    }
    // relocations
    let reloc = |l: &str| -> Option<(String, u16)> {
        let (n, a) = l.trim_start().strip_prefix("RELOC:")?.rsplit_once('@')?;
        Some((n.trim().into(), u16::from_str_radix(a.trim().strip_prefix("0x")?, 16).ok()?))
    };
    for (n, l) in lines.iter().enumerate() {
        if let Some(x) = reloc(l) {
            if !a.relocs || !o.relocs.iter().any(|r| r.1 == x.1 && called(o, r.2 as usize) == x.0) {
                return Err(format!("line {n} shows a relocation that is not there: {l:?}"));
            }
        }
    }
    if a.relocs {
        for (n, pc, len) in spans {
            let mut near: Vec<(String, u16)> = lines[..n].iter().rev().map_while(|l| reloc(l)).collect();
            near.extend(lines[n + 1..].iter().map_while(|l| reloc(l)));
            for r in &o.relocs {
                if r.1.wrapping_sub(pc) < len {
                    let x = (called(o, r.2 as usize), r.1);
                    if !near.contains(&x) {
                        return Err(format!("the relocation of {} at {:04x} is not shown at the instruction at {pc:04x}", x.0, x.1));
                    }
                    *c.entry("relocations shown").or_default() += 1;
                }
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ files

fn dump(c: &mut Case) {
    let mut r = c.rng.clone();
    let dir = c.dir();
    let mut files: Vec<String> = Vec::new();
    // in order of what is shown
    let mut want: Vec<(String, Obj)> = Vec::new();
    let mut bad = 0;
    let nf = if r.chance(2, 3) { 1 } else { r.range(2, 4) };
    for k in 0..nf {
        let name = format!("{}f{k}.{}", r.pick(&["", "", "d/"]), r.pick(&["to", "to", "la", "exe"]));
        if r.chance(1, 4) {
            let n = if r.chance(1, 8) { r.range(5, 30) } else { r.range(1, 4) };
            let m: Vec<Obj> = (0..n).map(|_| object(&mut r)).collect();
            let b = encode_archive(&m);
            if r.chance(1, 8) {
                // not readable to the end
                let last = m.last().unwrap().encode().len();
                write(&dir, &name, &b[..b.len() - 1 - r.below(last - 8)]);
                bad += 1;
            } else {
                write(&dir, &name, &b);
                for (i, o) in m.into_iter().enumerate() {
                    want.push((format!("{name}.{}", i + 1), o));
                }
            }
        } else {
            let mut o = object(&mut r);
            if r.chance(1, 5) {
                o.preamble = b"#!/bin/env t\n".to_vec();
            }
            let b = o.encode();
            match r.below(16) {
                0 => {
                    write(&dir, &name, &b[..r.below(b.len())]);
                    bad += 1;
                }
                1 => {
                    bad += 1;
                    match r.below(4) {
                        0 => fs::create_dir_all(dir.join(&name)).expect("directory"),
                        1 => {
                            write(&dir, &name, b"");
                        }
                        2 => {
                            write(&dir, &name, b"neither an object nor an archive\n");
                        }
                        _ => (),
                    }
                }
                _ => {
                    write(&dir, &name, &b);
                    want.push((name.clone(), o));
                }
            }
        }
        files.push(name);
    }
    let mut a = Ask { dis: r.chance(3, 4), from: None, syms: r.bool(), relocs: false };
    if !a.dis {
        a.syms = true;
    }
    let mut args: Vec<Vec<String>> = Vec::new();
    let v = |s: &[&str]| s.iter().map(|s| s.to_string()).collect::<Vec<_>>();
    if a.dis {
        args.push(v(&[*r.pick(&["-d", "--disassemble"])]));
        a.relocs = r.bool();
        if a.relocs {
            args.push(v(&[*r.pick(&["-R", "--show-relocations"])]));
        }
        let mut all: Vec<String> = want.iter().flat_map(|w| w.1.syms.iter().map(|s| s.name.clone())).collect();
        all.retain(|n| !n.is_empty() && n.trim() == n && !n.contains(',') && !n.starts_with('-'));
        // one meaning in every object
        all.retain(|n| want.iter().all(|w| w.1.syms.iter().filter(|s| s.name == *n).count() <= 1));
        if r.chance(1, 3) && !all.is_empty() {
            let n: Vec<String> = (0..r.range(1, 3)).map(|_| r.pick(&all).clone()).collect();
            let s = n.join(*r.pick(&[",", ",", ", "]));
            args.push(match r.below(3) {
                0 => v(&["-D", &s]),
                1 => vec![format!("-D{s}")],
                _ => v(&["--disassemble-from", &s]),
            });
            a.from = Some(n);
        }
    }
    if a.syms {
        args.push(v(&[*r.pick(&["-t", "--syms"])]));
    }
    for f in &files {
        args.push(vec![f.clone()]);
    }
    // options anywhere, files in order
    let (mut opt, rest): (Vec<_>, Vec<_>) = args.into_iter().partition(|x| x[0].starts_with('-'));
    r.shuffle(&mut opt);
    let mut args = rest;
    for x in opt {
        let k = r.below(args.len() + 1);
        args.insert(k, x);
    }
    let args = args.concat();
    c.eval(want.len() as u64 + 1);
    let out = c.run.tool("tobjdump", &dir).args(&args).run();
    let what = || {
        let s: Vec<String> = want.iter().map(|w| format!("{}: {}", w.0, show(&w.1))).collect();
        format!("tobjdump {} ({bad} unreadable)\n{}\n{}", args.join(" "), clip(&s.join("\n"), 3000), out.show())
    };
    if let Some(e) = out.abnormal() {
        return c.violation(format!("the dump tool {e}\n  {}", what()));
    }
    if out.ok() == (bad > 0) {
        return c.violation(format!("exit status {:?}, {bad} unreadable inputs\n  {}", out.end, what()));
    }
    let text = out.out();
    let lines: Vec<&str> = text.lines().collect();
    let mut at = 0;
    let mut parts: Vec<usize> = Vec::new();
    for w in &want {
        let head = format!("{}:", w.0);
        match lines[at..].iter().position(|l| *l == head) {
            Some(k) => {
                parts.push(at + k);
                at += k + 1;
            }
            None => return c.violation(format!("{} is not shown in its place\n  {}", w.0, what())),
        }
    }
    parts.push(lines.len());
    let mut n = BTreeMap::new();
    for (k, w) in want.iter().enumerate() {
        if let Err(e) = judge(&w.1, &a, &lines[parts[k] + 1..parts[k + 1]], &mut n) {
            return c.violation(format!("{}: {e}\n  {}", w.0, what()));
        }
        c.nontrivial(hash_bytes(&w.1.encode()) ^ a.dis as u64 ^ (a.syms as u64) << 1 ^ (a.relocs as u64) << 2 ^ (a.from.is_some() as u64) << 3);
    }
    for (k, v) in n {
        c.count(k, v);
    }
    c.count("unreadable inputs", bad);
    c.count("objects shown", want.len() as u64);
    c.sample("dump", || format!("tobjdump {}: {} lines", args.join(" "), lines.len()));
}

fn show(o: &Obj) -> String {
    let segs: Vec<String> = o.segs.iter().map(|s| format!("{} {:04x}+{:x}", seg_name(s.0), s.1, s.2.len())).collect();
    let syms: Vec<String> = o
        .syms
        .iter()
        .map(|s| format!("{}{}={}:{:04x}", if s.global { "" } else { "~" }, s.name, seg_name(s.seg), s.loc))
        .collect();
    format!("[{}] symbols [{}] {} relocations, entry {:x?}", segs.join(", "), syms.join(" "), o.relocs.len(), o.entry)
}

/// Symbols asked for that some object does not have, relocations of symbols that are not there, any layout
fn odd(c: &mut Case) {
    let mut r = c.rng.clone();
    let dir = c.dir();
    let mut args: Vec<String> = vec!["-d".into()];
    if r.bool() {
        args.push("-t".into());
    }
    if r.bool() {
        args.push("-R".into());
    }
    let mut v: Vec<Obj> = (0..r.range(1, 3)).map(|_| object(&mut r)).collect();
    let mut readable = true;
    match r.below(3) {
        0 => args.push(format!("-D{}", r.pick(&["main", "no_such_symbol", ",main", "f0,f1", ",", "main,puts"]))),
        1 => {
            for o in &mut v {
                for x in &mut o.relocs {
                    if r.chance(1, 3) {
                        x.2 = r.corner16();
                    }
                }
            }
        }
        _ => {
            for o in &mut v {
                for s in &mut o.segs {
                    if r.bool() {
                        s.1 = r.corner16().min((0x1_0000 - s.2.len()) as u16);
                    }
                }
                o.stack = Some(r.corner16());
                o.heap = Some(r.corner16());
                for s in &mut o.syms {
                    if r.chance(1, 3) {
                        s.loc = r.corner16();
                    }
                }
                o.entry = Some((TEXT, r.corner16()));
            }
        }
    }
    let mut b = v[0].encode();
    if v.len() > 1 {
        b = encode_archive(&v);
    } else if r.chance(1, 4) {
        let k = r.below(b.len());
        b[k] = r.u8();
        readable = false;
        // not loadable
        if parse(&b, false).is_ok_and(|o| o.segs.iter().any(|s| s.1 as usize + s.2.len() > 0x1_0000)) {
            return;
        }
    }
    write(&dir, "x.to", &b);
    args.push("x.to".into());
    c.eval(1);
    let out = c.run.tool("tobjdump", &dir).args(&args).run();
    let what = || format!("tobjdump {}\n{}\n{}", args.join(" "), v.iter().map(show).collect::<Vec<_>>().join("\n"), out.show());
    if let Some(e) = out.abnormal() {
        return c.violation(format!("the dump tool {e}\n  {}", what()));
    }
    if readable && !out.ok() && v.iter().all(|o| parse(&o.encode(), true).is_ok()) {
        return c.violation(format!("fails on what can be read\n  {}", what()));
    }
    c.count("odd objects", 1);
    c.nontrivial(hash_bytes(&b) ^ args.len() as u64);
}

pub fn c32(run: &Run) {
    run.cases("dumps", run.n(4000, 120_000), dump);
    run.cases("odd objects", run.n(1500, 40_000), odd);
}
