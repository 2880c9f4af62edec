//! C16-C19: the assembler, run as a process on generated sources.

use std::{
    collections::BTreeSet,
    ffi::OsStr,
    fs,
    os::unix::ffi::OsStrExt,
    path::{Path, PathBuf},
};

use crate::{
    chk_lines::named_lines,
    asm::{gen_sources, is_reserved, rand_bytes, rand_ins, rand_name, write_sources, Enc, Form, GenOpts, Imm, Ins, It, Model, Speller, Src, FORMS, O},
    core::{Case, Run},
    objfmt::{parse, DATA, HEAP, RODATA, TEXT},
    rng::{hash_bytes, Rng},
    tools::{clip, write, End, Out},
};

fn to_path(src: &str) -> String {
    Path::new(src).with_extension("to").display().to_string()
}

/// The object the assembler is expected to have written
fn read_obj(dir: &Path, src: &str) -> Result<crate::objfmt::Obj, String> {
    let p = dir.join(to_path(src));
    let b = fs::read(&p).map_err(|e| format!("no object {}: {e}", p.display()))?;
    parse(&b, true).map_err(|e| format!("object is not well-formed: {e}"))
}

fn base(p: &str) -> &str {
    p.rsplit('/').next().unwrap()
}

fn plain_text(lines: &[String]) -> String {
    let mut t = lines.join("\n");
    t.push('\n');
    t
}

// ---------------------------------------------------------------- C16

/// Assemble instruction lines placed in one text segment and compare the bytes line by line
fn assemble_lines(c: &mut Case, lines: &[(String, Vec<u8>)], defs: &[(String, u16)]) -> Result<(), String> {
    let dir = c.dir();
    let mut text = String::from(".seg text\n");
    let mut want = Vec::new();
    for (l, b) in lines {
        text += l;
        text.push('\n');
        want.extend(b);
    }
    let _ = defs;
    write(&dir, "a.telda", &text);
    let o = c.run.tool("tc", &dir).arg("a.telda").run();
    if let Some(m) = o.abnormal() {
        return Err(format!("the assembler {m}"));
    }
    if !o.ok() {
        let n = named_lines(&o.err(), "a.telda");
        let first = n.iter().next().and_then(|n| lines.get(n.wrapping_sub(2))).map(|l| l.0.clone());
        return Err(format!("valid lines are rejected, first {first:?}: {}", o.show()));
    }
    let obj = read_obj(&dir, "a.telda")?;
    let got = obj.seg(TEXT).map(|s| s.2.clone()).unwrap_or_default();
    if got != want {
        let mut i = 0;
        for (l, b) in lines {
            let g = &got[i.min(got.len())..got.len().min(i + b.len())];
            if g != &b[..] {
                return Err(format!("line {l:?} is encoded as {g:02x?} instead of {b:02x?}"));
            }
            i += b.len();
        }
        return Err(format!("{} bytes after the last line", got.len() - want.len()));
    }
    Ok(())
}

fn run_lines(c: &mut Case, lines: Vec<(String, Vec<u8>)>) {
    match assemble_lines(c, &lines, &[]) {
        Ok(()) => {
            c.eval(lines.len() as u64);
            for (l, _) in &lines {
                c.nontrivial_str(l);
            }
        }
        Err(m) => c.violation(m),
    }
}

fn enumerate_regs(form: &'static Form, from: usize, to: usize) -> Vec<Ins> {
    let n = form.nregs();
    let mut v = Vec::new();
    for x in from..to.min(1 << (4 * n)) {
        let regs: Vec<u8> = (0..n).map(|i| (x >> (4 * (n - 1 - i)) & 15) as u8).collect();
        if form.enc == Enc::JmpReg && regs[0] == 0 {
            continue;
        }
        let imm = match form.imm() {
            None => Imm::No,
            Some(_) => Imm::Num((x as u16).wrapping_mul(0x1235) & if form.imm() == Some(O::Ib) { 0xff } else { 0xffff }),
        };
        v.push(Ins { form, regs, imm });
    }
    v
}

/// A line that no form of any instruction takes
fn bad_operands(rng: &mut Rng, label: &str) -> String {
    loop {
        let form = rng.pick(FORMS);
        let name = *rng.pick(form.names);
        // kinds: registers, number, byte literal, wide literal, label
        let n = match rng.below(4) {
            0 => rng.below(6),
            _ => form.ops.len(),
        };
        let mut kinds: Vec<u8> = (0..n)
            .map(|i| match form.ops.get(i) {
                Some(O::B) => 0,
                Some(O::W) => 1,
                Some(O::Ib) | Some(O::Iw) => 2,
                None => rng.below(6) as u8,
            })
            .collect();
        match rng.below(5) {
            0 if !kinds.is_empty() => {
                kinds.pop();
            }
            1 => kinds.push(rng.below(6) as u8),
            2 if kinds.len() > 1 => {
                let (i, j) = (rng.below(kinds.len()), rng.below(kinds.len()));
                kinds.swap(i, j);
            }
            _ if !kinds.is_empty() => {
                let i = rng.below(kinds.len());
                kinds[i] = rng.below(6) as u8;
            }
            _ => (),
        }
        let fits = |f: &Form| {
            f.names.contains(&name)
                && f.ops.len() == kinds.len()
                && f.ops.iter().zip(&kinds).all(|(o, k)| match o {
                    O::B => *k == 0,
                    O::W => *k == 1,
                    O::Ib => *k == 2 || *k == 3,
                    O::Iw => *k == 2 || *k == 4 || *k == 5,
                })
        };
        let jmp_r0 = name.starts_with('j') && kinds == [1] && rng.chance(1, 3) && FORMS.iter().any(|f| f.enc == Enc::JmpReg && f.names.contains(&name));
        if FORMS.iter().any(fits) && !jmp_r0 {
            continue;
        }
        let mut sp = Speller::new(rng.clone());
        rng.u64();
        let ops: Vec<String> = kinds
            .iter()
            .map(|k| match k {
                0 => crate::spec::byte_reg_name(rng.below(16) as u8),
                1 if jmp_r0 => "r0".into(),
                1 => crate::spec::wide_reg_name(rng.below(16) as u8),
                2 => format!("{}", rng.below(300)),
                3 => rng.pick(&["5b", "'x'", "255b", "0x7fbb", "-1b", "'\\n'"]).replace("0x7fbb", "0x7fb"),
                4 => rng.pick(&["5w", "0x1234w", "-2w", "65535w"]).to_string(),
                _ => label.to_string(),
            })
            .collect();
        if ops.is_empty() {
            return name.into();
        }
        return sp.line(name, &ops);
    }
}

pub fn c16(run: &Run) {
    // every form with every combination of registers
    let chunk = 4096usize;
    let mut jobs: Vec<(&'static Form, usize)> = Vec::new();
    for f in FORMS {
        let total = 1usize << (4 * f.nregs());
        let mut i = 0;
        while i < total {
            jobs.push((f, i));
            i += chunk;
        }
    }
    run.cases("registers", jobs.len() as u64, |c| {
        let (f, from) = jobs[c.index as usize];
        let ins = enumerate_regs(f, from, from + chunk);
        let mut sp = Speller::new(c.rng.clone());
        let lines = ins.iter().map(|i| (i.text(&mut sp), i.encode().0)).collect();
        run_lines(c, lines);
    });
    run.exhaustive("every mnemonic and operand form with every combination of registers");
    // every immediate value, in some spelling
    let wide: Vec<&'static Form> = FORMS.iter().filter(|f| f.imm() == Some(O::Iw)).collect();
    let byte: Vec<&'static Form> = FORMS.iter().filter(|f| f.imm() == Some(O::Ib)).collect();
    run.cases("immediates", 16, |c| {
        let mut sp = Speller::new(c.rng.clone());
        let mut lines = Vec::new();
        for v in (c.index * 4096)..((c.index + 1) * 4096) {
            let mut i = rand_ins(&mut c.rng, wide[(v as usize + c.index as usize) % wide.len()], &[], 0);
            i.imm = Imm::Num(v as u16);
            lines.push((i.text(&mut sp), i.encode().0));
        }
        for _ in 0..2 {
            for v in 0..256 {
                for f in &byte {
                    let mut i = rand_ins(&mut c.rng, f, &[], 0);
                    i.imm = Imm::Num(v);
                    lines.push((i.text(&mut sp), i.encode().0));
                }
            }
        }
        run_lines(c, lines);
    });
    run.exhaustive("every byte immediate of every form that takes one; every wide immediate value");
    run.cases("spellings", run.n(150, 3000), |c| {
        let mut sp = Speller::new(c.rng.clone());
        let n = c.rng.range(1, 600);
        let lines: Vec<(String, Vec<u8>)> = (0..n)
            .map(|_| {
                if c.rng.chance(1, 12) {
                    (sp.comment(), vec![])
                } else {
                    let f = c.rng.pick(FORMS);
                    let i = rand_ins(&mut c.rng, f, &[], 0);
                    (i.text(&mut sp), i.encode().0)
                }
            })
            .collect();
        c.sample("lines", || lines.iter().take(4).map(|(l, b)| format!("{l:?} -> {b:02x?}")).collect::<Vec<_>>().join("; "));
        run_lines(c, lines);
    });
    // lines that must be rejected: each of them is named, in a file of otherwise valid lines
    run.cases("rejected", run.n(150, 3000), |c| {
        let dir = c.dir();
        let mut sp = Speller::new(c.rng.clone());
        let mut lines = vec![".seg text".to_string(), "lbl:".into()];
        let mut bad = BTreeSet::new();
        for _ in 0..c.rng.range(1, 120) {
            if c.rng.chance(1, 3) {
                let f = c.rng.pick(FORMS);
                lines.push(rand_ins(&mut c.rng, f, &[], 0).text(&mut sp));
            } else {
                lines.push(bad_operands(&mut c.rng, "lbl"));
                bad.insert(lines.len());
            }
        }
        if bad.is_empty() {
            return;
        }
        write(&dir, "bad.telda", plain_text(&lines));
        let o = c.run.tool("tc", &dir).arg("bad.telda").run();
        if let Some(m) = o.abnormal() {
            return c.violation(format!("the assembler {m}"));
        }
        let named = named_lines(&o.err(), "bad.telda");
        if let Some(n) = bad.iter().find(|n| !named.contains(n)) {
            return c.violation(format!("line {:?} is accepted (line {n}, among invalid lines {bad:?}): {}", lines[n - 1], o.show()));
        }
        if !o.fails() {
            return c.violation(format!("invalid lines, but {:?}", o.end));
        }
        c.eval(bad.len() as u64);
        c.count("lines rejected", bad.len() as u64);
        for n in bad {
            c.nontrivial_str(&lines[n - 1]);
        }
    });
    // each alone: nothing is written for it
    run.cases("rejected alone", run.n(2000, 30000), |c| {
        let dir = c.dir();
        let l = bad_operands(&mut c.rng, "lbl");
        write(&dir, "bad.telda", format!(".seg text\nlbl:\n{l}\n"));
        let o = c.run.tool("tc", &dir).arg("bad.telda").run();
        c.eval(1);
        c.nontrivial_str(&l);
        if !o.fails() || dir.join("bad.to").exists() {
            let obj = read_obj(&dir, "bad.telda").map(|o| format!("{:02x?}", o.seg(TEXT).map(|s| &s.2)));
            c.violation(format!("line {l:?} is accepted: {obj:?} {}", o.show()));
        }
    });
    // known: a hexadecimal number that ends in the digit b
    run.cases("hex-b", 16, |c| {
        let dir = c.dir();
        let v = (c.index as u8) << 4 | 0xb;
        let l = format!("ldi r1l, 0x{v:02x}");
        write(&dir, "h.telda", format!(".seg text\n{l}\n"));
        let o = c.run.tool("tc", &dir).arg("h.telda").run();
        c.eval(1);
        if o.fails() {
            return;
        }
        match read_obj(&dir, "h.telda").map(|o| o.seg(TEXT).map(|s| s.2.clone()).unwrap_or_default()) {
            Ok(b) if b == [0x3f, 0x10, v] => (),
            Ok(b) if b == [0x3f, 0x10, v >> 4] => {
                c.known("hex-b", "a hexadecimal literal whose last digit is a lower-case b (0x1b, 0xab) is read as a byte literal without that digit: ldi r1l, 0xab loads 0x0a")
            }
            r => c.violation(format!("{l}: {r:02x?}")),
        }
    });
}

// ---------------------------------------------------------------- C17

pub fn c17(run: &Run) {
    run.cases("sources", run.n(6000, 60000), |c| {
        let g = GenOpts { files: if c.rng.chance(1, 8) { 24 } else { 5 }, items: if c.rng.chance(1, 5) { 120 } else { 25 }, big: c.rng.chance(1, 4), undefined: c.rng.bool(), entry: c.rng.bool() };
        let mut files;
        loop {
            files = gen_sources(&mut c.rng, &g, "m");
            if Model::assemble(&files, 0).footprint() < 0xf000 {
                break;
            }
        }
        layout_case(c, &files, "layout");
    });
    // close to the limits of the address space
    run.cases("large", run.n(40, 600), |c| {
        let mut items = Vec::new();
        let mut left = c.rng.range(0xc000, 0xf400);
        let segs = [TEXT, DATA, RODATA, HEAP];
        items.push(It::Global("lbl".into()));
        let mut n = 0;
        while left > 0 {
            items.push(It::Seg(*c.rng.pick(&segs)));
            let k = c.rng.range(1, 9000).min(left);
            left -= k;
            items.push(It::Bytes(rand_bytes(&mut c.rng, k)));
            items.push(It::Label(format!("l{n}")));
            items.push(It::WideLabel(format!("l{}", c.rng.below(n + 1))));
            left = left.saturating_sub(2);
            n += 1;
        }
        items.push(It::Label("lbl".into()));
        items.push(It::Entry);
        items.push(It::Ins(Ins::new("jmp", &[O::Iw], &[], Imm::Label("lbl".into()))));
        let files = vec![Src { path: "big.telda".into(), items }];
        layout_case(c, &files, "layout of large contents");
    });
    // one segment that fills all there is
    run.cases("many labels", run.n(6, 40), |c| {
        let n = c.rng.range(2000, 4500);
        let mut items = vec![It::Seg(*c.rng.pick(&[TEXT, DATA]))];
        for i in 0..n {
            items.push(It::Label(format!("l{i}")));
            items.push(It::WideLabel(format!("l{}", c.rng.below(n))));
        }
        let files = vec![Src { path: "many.telda".into(), items }];
        layout_case(c, &files, "layout with many labels");
    });
    // very many short lines
    run.cases("many lines", run.n(6, 40), |c| {
        let mut items = vec![It::Seg(*c.rng.pick(&[TEXT, DATA, RODATA, HEAP]))];
        let n = c.rng.range(17000, 33000);
        let mut used = 0;
        for i in 0..n {
            if c.rng.chance(1, 400) {
                items.push(It::Label(format!("l{i}")));
                items.push(It::WideLabel(format!("l{i}")));
                used += 2;
            } else {
                let k = c.rng.range(1, 2);
                used += k;
                items.push(It::Bytes(rand_bytes(&mut c.rng, k)));
            }
            if used > 0xfe00 {
                break;
            }
        }
        items.push(It::Label("end".into()));
        items.push(It::WideLabel("end".into()));
        let files = vec![Src { path: "lines.telda".into(), items }];
        layout_case(c, &files, "layout with many lines");
    });
    // exactly as much as there is
    run.cases("full", run.n(12, 100), |c| {
        let short = c.rng.below(4);
        let (first, second) = {
            let mut s = [TEXT, DATA, RODATA, HEAP];
            c.rng.shuffle(&mut s);
            (s[0], s[1])
        };
        // the last segment ends at 0xffff - short
        let a = if c.rng.bool() { 0 } else { c.rng.range(1, 0xc000) };
        let pages = a.div_ceil(0x80);
        let (lo, hi) = (first.min(second), first.max(second));
        let b = 0xffff - short - 0x80 - pages * 0x80;
        let mut items = Vec::new();
        if a > 0 {
            items.push(It::Seg(lo));
            items.push(It::Bytes(vec![b'a'; a]));
        }
        items.push(It::Seg(hi));
        let mut left = b - 2;
        while left > 0 {
            let k = c.rng.range(1, 20000).min(left);
            items.push(It::Bytes(vec![b'b'; k]));
            left -= k;
        }
        items.push(It::Label("end".into()));
        items.push(It::WideLabel("end".into()));
        let files = vec![Src { path: "full.telda".into(), items }];
        layout_case(c, &files, "layout of a full address space");
    });
    run.cases("hex-b", 16, |c| {
        let dir = c.dir();
        let v = (c.index as u8) << 4 | 0xb;
        write(&dir, "h.telda", format!(".seg data\n.byte 0x{v:02x}\n"));
        let o = c.run.tool("tc", &dir).arg("h.telda").run();
        c.eval(1);
        if o.fails() {
            return;
        }
        match read_obj(&dir, "h.telda").map(|o| o.seg(DATA).map(|s| s.2.clone()).unwrap_or_default()) {
            Ok(b) if b == [v] => (),
            Ok(b) if b == [v >> 4] => {
                c.known("hex-b", "a hexadecimal literal whose last digit is a lower-case b (0x1b, 0xab) is read as a byte literal without that digit: .byte 0xab is assembled as 0x0a")
            }
            r => c.violation(format!(".byte 0x{v:02x}: {r:02x?}")),
        }
    });
}

fn layout_case(c: &mut Case, files: &[Src], what: &str) {
    let dir = c.dir();
    let mut sp = Speller::new(c.rng.clone());
    write_sources(&dir, files, &mut sp);
    let m = Model::assemble(files, 0);
    let how = if c.rng.chance(1, 4) { dir.join(&files[0].path).display().to_string() } else { files[0].path.clone() };
    // in one command with another source, which has nothing to do with this one
    let mut args = vec![how];
    let other = c.rng.chance(1, 4).then(|| {
        let g = GenOpts { files: 2, items: 12, big: false, undefined: c.rng.bool(), entry: c.rng.bool() };
        gen_sources(&mut c.rng, &g, "beside")
    });
    let mo = other.as_ref().map(|other| {
        write_sources(&dir, other, &mut sp);
        Model::assemble(other, 0)
    });
    if let Some(other) = &other {
        args.insert(c.rng.below(2), other[0].path.clone());
        c.count("assembled with another source", 1);
    }
    let o = c.run.tool("tc", &dir).args(&args).run();
    c.eval(1);
    let texts = |dir: &Path| {
        files
            .iter()
            .map(|f| format!("--- {}\n{}", f.path, clip(&fs::read_to_string(dir.join(&f.path)).unwrap_or_default(), 700)))
            .collect::<Vec<_>>()
            .join("\n")
    };
    if let Some(m) = o.abnormal() {
        return c.violation(format!("the assembler {m}\n{}", texts(&dir)));
    }
    if !o.ok() {
        return c.violation(format!("valid source is rejected: {}\n{}", o.show(), texts(&dir)));
    }
    let beside = match (&other, mo) {
        (Some(other), Some(mo)) => {
            read_obj(&dir, &other[0].path).and_then(|obj| mo.check(&obj)).map_err(|e| format!("in a command with another source (tc {}): {e}", args.join(" ")))
        }
        _ => Ok(()),
    };
    match read_obj(&dir, &files[0].path).and_then(|obj| m.check(&obj)).and(beside) {
        Ok(()) => {
            if !m.relocs.is_empty() || m.segs.len() > 1 {
                c.nontrivial(hash_bytes(texts(&dir).as_bytes()));
            }
            c.count("labels placed", m.defs.len() as u64);
            c.count("label uses patched and listed", m.relocs.len() as u64);
            c.count("bytes compared", m.segs.values().map(|s| s.len() as u64).sum());
            c.count(&format!("sources of {} files", files.len()), 1);
            c.sample("source", || clip(&texts(&dir), 800));
        }
        Err(e) => c.violation(format!("{what}: {e}\n{}", texts(&dir))),
    }
}

// ---------------------------------------------------------------- C18

/// An invalid line of its own; the second is whether it may stand where no segment was started
fn bad_line(rng: &mut Rng, n: usize) -> (String, bool) {
    let unk = |rng: &mut Rng| *rng.pick(&["frob", "mov", "ADDX", "pushh", "addi", "bogus", "jmpz", "halt,", "inc", "halt;", "ldi,", "syscal"]);
    match rng.below(15) {
        0 => (format!("{} r1, r2", unk(rng)), false),
        1 => (unk(rng).to_string(), false),
        2 => (format!(".{} x", rng.pick(&["bytes", "segment", "ascii", "org", "Byte", "strin", "stringz", "includ", "glob", "entr", "entryx"])), true),
        3 => (format!(".seg {}", rng.pick(&["bss", "Text", "txt", "code", "datas", "stack", "t", "zero", "unknown"])), true),
        4 | 5 => (bad_operands(rng, "good"), false),
        6 => (
            format!(
                ".string {}",
                rng.pick(&["abc\\", "a\\q", "\\x", "\\x4", "\\xg0", "ok \\xzz", "\\e[0m", "\\\\\\", "x\\X41", "\\u41", "é\\é", "\\x1é", "\\x+1", "\\x 1"])
            ),
            false,
        ),
        7 => (
            format!(".byte {}", rng.pick(&["xyz", "''", "'ab'", "'\\'", "'\\q'", "1 2", "300b", "5w", "", "good", "'\\x4'", "0x", "99999999999", "--1", "r1l", "'é'"])),
            false,
        ),
        8 => (
            format!(".{} {}", rng.pick(&["wide", "word"]), rng.pick(&["5b", "'a'", "''", "'\\q'", "'ab'", "65536w", "-32769w", "0x10000w", "99999999999", "0b2", "0o8w", "1w2"])),
            false,
        ),
        9 if rng.chance(1, 3) => (format!("{}{}", rng.pick(&["ldi r1, ", "call ", "jez ", "load r1l, r2, "]), rng.pick(&["65536w", "-32769w", "0x10000w", "-0x8001w", "2147483648", "-2147483649", "0x1g"])), false),
        9 => (format!("ldi r1l, {}", rng.pick(&["'ab'", "'\\q'", "''", "256b", "-129b", "good", "'\\x1'", "99999999999"])), false),
        10 => (format!(".include {}", rng.pick(&["missing.telda", "/nowhere/at/all.telda", "../gone.s", "gone/", "good.telda/x", "x y"])), true),
        11 | 12 => {
            // also used more than once
            let l = if rng.bool() { "nolabel".to_string() } else { format!("nolabel_{n}") };
            let how = *rng.pick(&["call ", ".wide ", "ldi r1, ", "jmp ", "store r1, ", "load r1, r2, "]);
            (format!("{how}{l}{}", if how == "store r1, " { ", r2" } else { "" }), false)
        }
        13 => {
            // a name that no symbol table can hold
            let l = *rng.pick(&["a\0b", "\0", "good\0", "\0good", "a b\0"]);
            (format!("{}{l}{}", rng.pick(&["", ".global ", ".ref ", ".wide ", "call ", "ldi r1, ", "load r1, r2, "]), ""), false)
        }
        _ => ("good:".into(), false),
    }
}

fn valid_filler(rng: &mut Rng) -> String {
    let f = rng.pick(FORMS);
    rand_ins(rng, f, &["good".to_string()], 30).text(&mut Speller::new(rng.clone()))
}

struct Unit {
    path: String,
    bad: BTreeSet<(String, usize)>, // file (last component), line
    files: Vec<(String, Vec<u8>)>,
    model: Option<Model>,
    kinds: Vec<String>,
}

/// One source with its includes, valid or with invalid lines
fn unit(rng: &mut Rng, name: &str, valid: bool) -> Unit {
    if valid {
        let g = GenOpts { files: 2, items: 15, big: false, undefined: rng.bool(), entry: rng.bool() };
        let files = gen_sources(rng, &g, name);
        let mut sp = Speller::new(rng.clone());
        let m = Model::assemble(&files, 0);
        return Unit {
            path: files[0].path.clone(),
            bad: BTreeSet::new(),
            files: files.iter().map(|f| (f.path.clone(), f.text(&mut sp).into_bytes())).collect(),
            model: Some(m),
            kinds: vec![],
        };
    }
    let sub = *rng.pick(&["", "", "dir/"]);
    let path = format!("{sub}{name}.telda");
    let mut bad = BTreeSet::new();
    let mut kinds = Vec::new();
    let mut out: Vec<(String, Vec<u8>)> = Vec::new();
    let inc = rng.chance(1, 3);
    let n = if rng.chance(1, 3) { 1 } else { rng.range(1, 12) };
    let mut entries = 0;
    let mut uniq = 0;
    let mut gen = |rng: &mut Rng, file: &str, lines: &mut Vec<Vec<u8>>, n: usize, bad: &mut BTreeSet<(String, usize)>, seg0: bool| {
        let mut seg = seg0;
        for _ in 0..n {
            for _ in 0..rng.below(4) {
                if seg {
                    lines.push(valid_filler(rng).into_bytes());
                } else {
                    lines.push(rng.pick(&["", "; x", ".global good"]).as_bytes().to_vec());
                }
            }
            if !seg && rng.bool() {
                lines.push(b".seg data".to_vec());
                seg = true;
            }
            uniq += 1;
            if rng.chance(1, 14) {
                let mut l = b"  .string \xff\xfe broken".to_vec();
                l.extend(*rng.pick(&[&b""[..], b"\xc3", b"\x80\x80"]));
                lines.push(l);
                kinds.push("not text".into());
            } else if !seg && rng.bool() {
                // anything placed outside a segment
                let l = match rng.below(6) {
                    0 => ".byte 1".to_string(),
                    1 => ".wide 7".into(),
                    2 => ".string x".into(),
                    3 => ".entry".into(),
                    4 => format!("out{uniq}:"),
                    _ => "nop".into(),
                };
                kinds.push("outside a segment".into());
                lines.push(l.into_bytes());
            } else if seg && entries > 0 && rng.chance(1, 8) {
                kinds.push("second entry".into());
                lines.push(b".entry".to_vec());
            } else {
                let (l, anywhere) = bad_line(rng, uniq);
                if !seg && !anywhere {
                    kinds.push("outside a segment".into());
                }
                kinds.push(l.split(' ').next().unwrap().to_string());
                lines.push(l.into_bytes());
            }
            bad.insert((base(file).to_string(), lines.len()));
            if seg && entries == 0 && rng.bool() {
                lines.push(b".entry".to_vec());
                entries += 1;
            }
        }
    };
    let mut lines: Vec<Vec<u8>> = vec![b".seg text".to_vec(), b"good:".to_vec(), b" nop".to_vec()];
    let iname = format!("inc_{name}.telda");
    let mut more = Vec::new();
    let inc2 = inc && rng.chance(1, 3);
    let main_n = if inc { rng.below(n + 1) } else { n };
    let inc_n = n - main_n;
    let mut ilines: Vec<Vec<u8>> = Vec::new();
    let before = if inc { rng.below(main_n + 1) } else { main_n };
    gen(rng, &path, &mut lines, before, &mut bad, true);
    if inc {
        let inc2_n = if inc2 { rng.below(inc_n + 1) } else { 0 };
        let first = rng.below(inc_n - inc2_n + 1);
        gen(rng, &iname, &mut ilines, first, &mut bad, false);
        if inc2 {
            let jname = format!("deep_{name}.telda");
            let mut jlines: Vec<Vec<u8>> = Vec::new();
            ilines.push(format!(".include {jname}").into_bytes());
            gen(rng, &jname, &mut jlines, inc2_n, &mut bad, false);
            out.push((format!("{sub}{jname}"), join(rng, &jlines)));
            more.push("include of an include".to_string());
        }
        if rng.bool() {
            ilines.push(b".seg text".to_vec());
            gen(rng, &iname, &mut ilines, inc_n - inc2_n - first, &mut bad, true);
        } else {
            // whether a segment was started before does not matter for these
            for _ in first..inc_n - inc2_n {
                ilines.push(format!(".{} x", rng.pick(&["bytes", "ascii", "org", "Byte"])).into_bytes());
                bad.insert((iname.clone(), ilines.len()));
            }
        }
        lines.push(format!(".include {iname}").into_bytes());
        // a circular include, reported where it is
        if rng.chance(1, 3) {
            ilines.push(format!(".include {name}.telda").into_bytes());
            bad.insert((iname.clone(), ilines.len()));
            more.push("circular include".to_string());
        }
        out.push((format!("{sub}{iname}"), join(rng, &ilines)));
        // what follows stands in the segment of this file again
        gen(rng, &path, &mut lines, main_n - before, &mut bad, true);
        if main_n > before {
            more.push("after an include".to_string());
        }
    }
    for _ in 0..rng.below(3) {
        lines.push(valid_filler(rng).into_bytes());
    }
    out.insert(0, (path.clone(), join(rng, &lines)));
    kinds.extend(more);
    Unit { path, bad, files: out, model: None, kinds }
}

fn join(rng: &mut Rng, lines: &[Vec<u8>]) -> Vec<u8> {
    let nl: &[u8] = if rng.chance(1, 4) { b"\r\n" } else { b"\n" };
    let mut o = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        o.extend(l);
        if i + 1 < lines.len() || rng.bool() {
            o.extend(nl);
        }
    }
    o
}

pub fn c18(run: &Run) {
    run.cases("units", run.n(5000, 60000), |c| {
        let dir = c.dir();
        let n = if c.rng.chance(1, 12) { c.rng.range(5, 20) } else { *c.rng.pick(&[1, 1, 1, 2, 3, 4]) };
        let mut units: Vec<Unit> = (0..n)
            .map(|i| {
                let v = n > 1 && c.rng.bool();
                unit(&mut c.rng, &format!("u{i}_"), v)
            })
            .collect();
        if n == 1 && c.rng.chance(1, 6) {
            units = vec![unit(&mut c.rng, "u0", true)];
        }
        let mut old = Vec::new();
        for u in &units {
            for (p, b) in &u.files {
                write(&dir, p, b);
            }
            if c.rng.bool() {
                let b: Vec<u8> = (0..c.rng.range(0, 40)).map(|_| c.rng.u8()).collect();
                write(&dir, &to_path(&u.path), &b);
                old.push(Some(b));
            } else {
                old.push(None);
            }
        }
        let o = c.run.tool("tc", &dir).args(units.iter().map(|u| &u.path)).run();
        c.eval(1);
        let show = || {
            units
                .iter()
                .flat_map(|u| &u.files)
                .map(|(p, b)| {
                    let t: Vec<String> = String::from_utf8_lossy(b).lines().enumerate().map(|(i, l)| format!("{}: {l}", i + 1)).collect();
                    format!("--- {p}\n{}", clip(&t.join("\n"), 900))
                })
                .collect::<Vec<_>>()
                .join("\n")
        };
        if let Some(m) = o.abnormal() {
            return c.violation(format!("the assembler {m}\n{}", show()));
        }
        let any_bad = units.iter().any(|u| !u.bad.is_empty());
        if o.ok() == any_bad {
            return c.violation(format!("{} invalid source(s), but {}\n{}", units.iter().filter(|u| !u.bad.is_empty()).count(), o.show(), show()));
        }
        let err = o.err();
        for (u, old) in units.iter().zip(&old) {
            let p = dir.join(to_path(&u.path));
            match &u.model {
                Some(m) => match read_obj(&dir, &u.path).and_then(|obj| m.check(&obj)) {
                    Ok(()) => c.count("valid sources assembled", 1),
                    Err(e) => return c.violation(format!("valid source {}: {e} {}\n{}", u.path, o.show(), show())),
                },
                None => {
                    if fs::read(&p).ok() != *old {
                        return c.violation(format!("the object of the invalid source {} is written or changed\n{}", u.path, show()));
                    }
                    c.count("invalid sources rejected", 1);
                    c.count("existing objects left alone", old.is_some() as u64);
                }
            }
            for (f, l) in &u.bad {
                if !named_lines(&err, f).contains(l) {
                    return c.violation(format!("line {l} of {f} is not named: {}\n{}", o.show(), show()));
                }
            }
            for (p, _) in &u.files {
                let f = base(p);
                if let Some(l) = named_lines(&err, f).iter().find(|l| !u.bad.contains(&(f.to_string(), **l))) {
                    return c.violation(format!("line {l} of {f} is valid, but named: {}\n{}", o.show(), show()));
                }
            }
            c.count("invalid lines named", u.bad.len() as u64);
            for k in &u.kinds {
                c.count(&format!("kind {}", clip(k, 20)), 1);
            }
        }
        c.nontrivial_str(&show());
        c.sample("diagnostics", || clip(&format!("{}\n=> {err}", show()), 800));
    });
    // invalid lines among very many lines, and very many of them
    run.cases("many lines", run.n(60, 1000), |c| {
        let dir = c.dir();
        let n = *c.rng.pick(&[300, 3000, 20_000, 70_000]);
        let k = *c.rng.pick(&[1, 10, 100, 300]);
        let mut bad: BTreeSet<usize> = (0..k).map(|_| c.rng.range(3, n)).collect();
        if c.rng.bool() {
            bad.insert(n);
        }
        let mut t: Vec<u8> = b".seg text\ngood:\n".to_vec();
        // or all of them for one reason
        let one = c.rng.chance(1, 3).then(|| c.rng.pick(&["call nolabel", ".wide nolabel", "good:", "frob"]).to_string());
        for i in 3..=n {
            let l = if let (true, Some(l)) = (bad.contains(&i), &one) { l.clone() } else if bad.contains(&i) { bad_line(&mut c.rng, i).0 } else { c.rng.pick(&["", "; nop", " nop", "", "#", "// x"]).to_string() };
            t.extend(l.as_bytes());
            t.push(b'\n');
        }
        write(&dir, "many.telda", &t);
        let o = c.run.tool("tc", &dir).arg("many.telda").run();
        c.eval(1);
        c.nontrivial(hash_bytes(&t));
        if let Some(m) = o.abnormal() {
            return c.violation(format!("{n} lines, {} of them invalid: the assembler {m}", bad.len()));
        }
        let named = named_lines(&o.err(), "many.telda");
        if let Some(l) = bad.iter().find(|l| !named.contains(l)) {
            let text = String::from_utf8_lossy(&t).lines().nth(l - 1).map(String::from);
            return c.violation(format!("of {n} lines, line {l} ({text:?}) is not named: {}", clip(&o.show(), 900)));
        }
        if !o.fails() || dir.join("many.to").exists() {
            return c.violation(format!("{n} lines with {} invalid ones are accepted: {}", bad.len(), clip(&o.show(), 600)));
        }
        c.count("invalid lines named", bad.len() as u64);
    });
    // files included by files included by files
    run.cases("deep includes", run.n(150, 3000), |c| {
        let dir = c.dir();
        let n = c.rng.range(2, 16);
        let dirs: Vec<String> = (0..n).map(|_| c.rng.pick(&["", "", "a/", "a/b/"]).to_string()).collect();
        let name = |i: usize| format!("f{i}.telda");
        let path = |d: &str, i: usize| format!("{}{}{}", "../".repeat(d.matches('/').count()), dirs[i], name(i));
        let circle = c.rng.bool();
        let errors = !circle || c.rng.bool();
        let mut bad = BTreeSet::new();
        for i in 0..n {
            let mut l: Vec<String> = vec![if i == 0 { ".seg text".into() } else { format!(".seg {}", c.rng.pick(&["text", "data"])) }, format!("good{i}:")];
            let some = |l: &mut Vec<String>, rng: &mut Rng, bad: &mut BTreeSet<(usize, usize)>| {
                for _ in 0..rng.below(3) {
                    if errors && rng.chance(1, 4) || errors && i == n - 1 {
                        l.push(bad_line(rng, i).0.replace("good", "good0"));
                        bad.insert((i, l.len()));
                    } else {
                        l.push(" nop".into());
                    }
                }
            };
            some(&mut l, &mut c.rng, &mut bad);
            if i + 1 < n {
                l.push(format!(".include {}", path(&dirs[i], i + 1)));
            } else if circle {
                let to = c.rng.below(n);
                l.push(format!(".include {}", path(&dirs[i], to)));
                bad.insert((i, l.len()));
            }
            some(&mut l, &mut c.rng, &mut bad);
            write(&dir, &format!("{}{}", dirs[i], name(i)), plain_text(&l));
        }
        for d in ["a/b"] {
            fs::create_dir_all(dir.join(d)).expect("scratch");
        }
        let src = format!("{}{}", dirs[0], name(0));
        let o = c.run.tool("tc", &dir).arg(&src).run();
        c.eval(1);
        c.nontrivial(c.index);
        if let Some(m) = o.abnormal() {
            return c.violation(format!("{n} nested includes: the assembler {m}"));
        }
        if o.ok() == !bad.is_empty() || dir.join(to_path(&src)).exists() == !bad.is_empty() {
            return c.violation(format!("{n} nested includes, invalid lines {bad:?}: {}", clip(&o.show(), 900)));
        }
        let err = o.err();
        for (i, l) in &bad {
            if !named_lines(&err, &name(*i)).contains(l) {
                return c.violation(format!("{n} nested includes: line {l} of {} is not named: {}", name(*i), clip(&o.show(), 900)));
            }
        }
        for i in 0..n {
            if let Some(l) = named_lines(&err, &name(i)).iter().find(|l| !bad.contains(&(i, **l))) {
                return c.violation(format!("{n} nested includes: line {l} of {} is valid, but named: {}", name(i), clip(&o.show(), 900)));
            }
        }
        c.count("depth of nested includes", n as u64);
        c.count("circles", circle as u64);
    });
    // files with invalid lines that are included more than once, also by each other
    run.cases("repeated includes", run.n(400, 6000), |c| {
        let dir = c.dir();
        let n = c.rng.range(2, 7);
        let name = |i: usize| format!("f{i}.telda");
        let mut bad = BTreeSet::new();
        let mut texts: Vec<Vec<String>> = Vec::new();
        let mut total = vec![0usize; n];
        let p_bad = c.rng.range(1, 4);
        for i in (0..n).rev() {
            let mut l: Vec<String> = vec![".seg text".to_string()];
            if i == 0 {
                l.push("good:".into());
            }
            let mut k = 1;
            for _ in 0..c.rng.range(1, 6) {
                match c.rng.below(5) {
                    0 | 1 if i + 1 < n => {
                        let to = c.rng.range(i + 1, n - 1);
                        if k + total[to] > 400 {
                            continue;
                        }
                        k += total[to];
                        l.push(format!(".include {}", name(to)));
                    }
                    2 if c.rng.chance(p_bad, 4) => {
                        let what = loop {
                            let b = bad_line(&mut c.rng, i).0;
                            if b != "good:" {
                                break b;
                            }
                        };
                        l.push(what);
                        bad.insert((i, l.len()));
                    }
                    _ => l.push(valid_filler(&mut c.rng)),
                }
                k += 1;
            }
            total[i] = k;
            texts.insert(0, l);
        }
        // only what is reached counts
        let mut reached = vec![false; n];
        reached[0] = true;
        for i in 0..n {
            if reached[i] {
                for l in &texts[i] {
                    if let Some(t) = (i + 1..n).find(|t| *l == format!(".include {}", name(*t))) {
                        reached[t] = true;
                    }
                }
            }
        }
        bad.retain(|(i, _)| reached[*i]);
        for (i, l) in texts.iter().enumerate() {
            write(&dir, &name(i), plain_text(l));
        }
        let o = c.run.tool("tc", &dir).arg(name(0)).run();
        c.eval(1);
        let show = || texts.iter().enumerate().map(|(i, l)| format!("--- {}\n{}", name(i), l.join("\n"))).collect::<Vec<_>>().join("\n");
        c.nontrivial_str(&show());
        if let Some(m) = o.abnormal() {
            return c.violation(format!("the assembler {m}\n{}", show()));
        }
        if o.ok() == !bad.is_empty() || dir.join("f0.to").exists() == !bad.is_empty() {
            return c.violation(format!("repeated includes, invalid lines {bad:?}: {}\n{}", clip(&o.show(), 900), clip(&show(), 2000)));
        }
        let err = o.err();
        for i in 0..n {
            let named = named_lines(&err, &name(i));
            let want: BTreeSet<usize> = bad.iter().filter(|b| b.0 == i).map(|b| b.1).collect();
            if named != want {
                return c.violation(format!("repeated includes: lines {want:?} of {} are invalid, {named:?} are named: {}\n{}", name(i), clip(&o.show(), 900), clip(&show(), 2000)));
            }
        }
        c.count("sources with repeated includes", 1);
    });
    // what is declared to be elsewhere is not here
    run.cases("reference and definition", run.n(200, 3000), |c| {
        let dir = c.dir();
        let mut decl = vec![".ref x".to_string()];
        if c.rng.chance(2, 3) {
            decl.push(".global x".into());
        }
        c.rng.shuffle(&mut decl);
        let mut lines: Vec<String> = (0..c.rng.below(4)).map(|_| valid_filler(&mut c.rng)).collect();
        let defined = c.rng.chance(2, 3);
        lines.push(if defined { "x:" } else { "y:" }.into());
        lines.push(" nop".into());
        if c.rng.bool() {
            lines.push(" call x".into());
        }
        // the declarations anywhere, in any order
        let (mut i, mut j) = (c.rng.below(lines.len() + 1), c.rng.below(lines.len() + 1));
        (i, j) = (i.max(j), i.min(j));
        lines.insert(i, decl[0].clone());
        if let Some(d) = decl.get(1) {
            lines.insert(j, d.clone());
        }
        let inc = c.rng.chance(1, 3);
        let mut head = vec![".seg text".to_string(), "good:".into()];
        if inc {
            write(&dir, "inc.telda", plain_text(&decl));
            lines.retain(|l| !decl.contains(l));
            let at = c.rng.below(lines.len() + 1);
            lines.insert(at, ".include inc.telda".into());
        }
        head.extend(lines);
        write(&dir, "r.telda", plain_text(&head));
        let o = c.run.tool("tc", &dir).arg("r.telda").run();
        c.eval(1);
        c.nontrivial_str(&format!("{inc} {}", head.join("\n")));
        if let Some(m) = o.abnormal() {
            return c.violation(format!("the assembler {m}\n{}", head.join("\n")));
        }
        let written = dir.join("r.to").exists();
        if o.ok() == defined || written == defined || defined && !(o.err().contains('x') && o.err().contains("r.telda")) {
            c.violation(format!("x is declared a reference{} and {}: {}\n{}", if decl.len() > 1 { " and global" } else { "" }, if defined { "defined" } else { "not defined" }, o.show(), head.join("\n")));
        }
        c.count(if defined { "references that are defined" } else { "references" }, 1);
    });
    // every kind of invalid line alone
    run.cases("one line", run.n(3000, 40000), |c| {
        let dir = c.dir();
        let (l, _) = bad_line(&mut c.rng, 0);
        let mut lines = vec![".seg text".to_string(), "good: ".into()];
        for _ in 0..c.rng.below(5) {
            lines.push(valid_filler(&mut c.rng));
        }
        lines.push(l.clone());
        let n = lines.len();
        for _ in 0..c.rng.below(5) {
            lines.push(valid_filler(&mut c.rng));
        }
        write(&dir, "one.telda", plain_text(&lines));
        let o = c.run.tool("tc", &dir).arg("one.telda").run();
        c.eval(1);
        c.nontrivial_str(&lines.join("\n"));
        if let Some(m) = o.abnormal() {
            return c.violation(format!("{l:?}: the assembler {m}"));
        }
        if !o.fails() || dir.join("one.to").exists() {
            return c.violation(format!("{l:?} is accepted: {}", o.show()));
        }
        if !named_lines(&o.err(), "one.telda").contains(&n) {
            return c.violation(format!("{l:?} is line {n}, which is not named: {}", o.show()));
        }
    });
    // more than fits in the address space
    run.cases("overflow", run.n(40, 600), |c| {
        let dir = c.dir();
        let mut total = 0usize;
        let mut t = String::from(".seg text\nstart:\n");
        let (mut line, mut seg, mut sizes) = (2, 0, [0usize; 4]);
        // the first line that certainly does not fit, and the first that may not
        let (mut over, mut near) = (None, None);
        let goal = c.rng.range(0x10000, if c.index % 4 == 0 { 0x12000 } else { 0x28000 });
        let max = if c.index % 4 == 0 { 3 } else { 9000 };
        while total < goal {
            if c.rng.chance(1, 10) && (max > 3 || c.index % 8 == 4 && c.rng.chance(1, 100)) {
                seg = c.rng.below(4);
                t += [".seg text\n", ".seg data\n", ".seg rodata\n", ".seg heap\n"][seg];
                line += 1;
            }
            let (text, k) = if c.rng.chance(1, 3) {
                ("jmp start\n".to_string(), 4)
            } else {
                let k = c.rng.range(1, max);
                (format!(".string {}\n", "x".repeat(k)), k)
            };
            t += &text;
            line += 1;
            total += k;
            sizes[seg] += k;
            if 0x80 + total > 0x10000 && over.is_none() {
                over = Some(line);
            }
            if 0x80 + sizes.iter().map(|s| s.div_ceil(0x80) * 0x80).sum::<usize>() > 0xff00 && near.is_none() {
                near = Some(line);
            }
        }
        write(&dir, "big.telda", &t);
        let had = c.rng.bool();
        if had {
            write(&dir, "big.to", b"old");
        }
        let o = c.run.tool("tc", &dir).arg("big.telda").run();
        c.eval(1);
        c.nontrivial_str(&t);
        if let Some(m) = o.abnormal() {
            return c.violation(format!("{total} bytes of contents: the assembler {m}"));
        }
        let kept = fs::read(dir.join("big.to")).ok() == had.then(|| b"old".to_vec());
        let named = named_lines(&o.err(), "big.telda");
        let first = named.first().copied();
        if first.is_some() && (first < near || first > over) {
            return c.violation(format!("line {} is the first that does not fit, but {} the first reported: {}", over.unwrap(), first.unwrap(), clip(&o.show(), 600)));
        }
        if !o.fails() || !kept || named.is_empty() {
            c.violation(format!("{total} bytes of contents (object {}): {}", if kept { "as before" } else { "written" }, clip(&o.show(), 600)));
        }
    });
    // more symbols or relocations than an object can hold, or just as many
    run.cases("full tables", run.n(48, 600), |c| {
        let dir = c.dir();
        const MAX: usize = 0xffff;
        let over = match c.rng.below(6) {
            0 | 1 => 0,
            2 => 1,
            3 => c.rng.range(2, 10),
            4 => c.rng.range(10, 3000),
            _ => 0,
        };
        let mut t = String::from(".seg text\nstart:\n");
        let relocs = c.rng.bool();
        let mut fill = Vec::new();
        let syms;
        let mut refs = 0;
        if relocs {
            let n = MAX / 5 + over - c.rng.below(2) * (over == 0) as usize;
            for _ in 0..n {
                t += c.rng.pick(&[".wide start\n", "call start\n"]);
            }
            refs = n;
            syms = 1;
        } else {
            // names with what is around them
            let (mut size, mut k) = (" start\0".len() + 3, 0);
            loop {
                let global = c.rng.bool();
                let around = 4 + !global as usize;
                let left = MAX + over - size;
                let name = format!("s{k}_");
                let most = *c.rng.pick(&[8usize, 40, 300]);
                let mut len = name.len() + c.rng.range(0, most);
                if left < 400 + around {
                    // the last one
                    len = left - around;
                }
                let name = format!("{name}{}", "n".repeat(len - name.len()));
                if global {
                    t += &format!(".global {name}\n");
                }
                if !global || c.rng.bool() {
                    t += &format!("{name}:\n");
                }
                size += len + around;
                fill.push(name);
                k += 1;
                if size == MAX + over {
                    break;
                }
            }
            syms = 1 + k;
        }
        t += "halt\n";
        let too_much = over > 0;
        write(&dir, "full.telda", &t);
        write(&dir, "ok.telda", ".seg text\n nop\n");
        let had = c.rng.bool();
        if had {
            write(&dir, "full.to", b"old");
        }
        let mut order = ["full.telda", "ok.telda"];
        c.rng.shuffle(&mut order);
        let o = c.run.tool("tc", &dir).args(order).run();
        c.eval(1);
        c.nontrivial_str(&t);
        let what = format!("{syms} symbols and {refs} relocations, {over} more than fits");
        if let Some(m) = o.abnormal() {
            return c.violation(format!("{what}: the assembler {m}"));
        }
        if !dir.join("ok.to").exists() {
            return c.violation(format!("{what}: the other source is not assembled: {}", clip(&o.show(), 600)));
        }
        if too_much {
            let kept = fs::read(dir.join("full.to")).ok() == had.then(|| b"old".to_vec());
            if !o.fails() || !kept {
                return c.violation(format!("{what}: the object is {}: {}", if kept { "as before" } else { "written or changed" }, clip(&o.show(), 600)));
            }
            c.count("tables that do not fit", 1);
        } else {
            let obj = match read_obj(&dir, "full.telda") {
                Ok(obj) if o.ok() => obj,
                _ => return c.violation(format!("{what}: {}", clip(&o.show(), 600))),
            };
            let names: BTreeSet<_> = obj.syms.iter().map(|s| s.name.clone()).collect();
            if obj.syms.len() != syms || obj.relocs.len() != refs || fill.iter().any(|n| !names.contains(n)) {
                return c.violation(format!("{what}: the object has {} symbols and {} relocations", obj.syms.len(), obj.relocs.len()));
            }
            c.count("tables that just fit", 1);
        }
    });
    run.cases("missing", 4, |c| {
        let dir = c.dir();
        let p = ["gone.telda", "dir/gone.telda", ".", "gone"][c.index as usize];
        write(&dir, "ok.telda", ".seg text\n nop\n");
        let o = c.run.tool("tc", &dir).args([p, "ok.telda"]).run();
        c.eval(1);
        c.nontrivial_str(p);
        if !o.fails() || !dir.join("ok.to").exists() || (p != "." && !o.err().contains("gone")) {
            c.violation(format!("a source {p:?} that cannot be read: {}", o.show()));
        }
    });
    run.cases("hex-b", 16, |c| {
        let dir = c.dir();
        let v = (c.index as u8) << 4 | 0xb;
        write(&dir, "h.telda", format!(".seg data\n.wide 0x{v:02x}\n"));
        let o = c.run.tool("tc", &dir).arg("h.telda").run();
        c.eval(1);
        if !o.ok() {
            c.known("hex-b", "a hexadecimal literal whose last digit is a lower-case b (0x1b, 0xab) is read as a byte literal: .wide 0xab is rejected")
        }
    });
}

// ---------------------------------------------------------------- C19

fn seed_text(rng: &mut Rng) -> Vec<u8> {
    let g = GenOpts { files: 1, items: 40, big: false, undefined: true, entry: true };
    let f = gen_sources(rng, &g, "s");
    let mut t = f[0].text(&mut Speller::new(rng.clone())).into_bytes();
    for _ in 0..rng.below(4) {
        let (l, _) = bad_line(rng, 0);
        t.extend(b"\n");
        t.extend(l.as_bytes());
    }
    t
}

const TOKENS: &[&str] = &[
    ".string ", ".byte ", ".wide ", ".seg ", ".include ", ".global ", ".ref ", ".entry", "text", "data", ":", ",", " ", "\n", "\\x", "\\", "'", "\"", "0x", "0b", "0o", "b",
    "w", "-", "+", "r1", "r1l", "jmp ", "ldi ", "push ", "é", "\u{0}", "\t", "\r\n", "999999999999", "2147483648", "-2147483649", "0x80000000", "65536", ".", ";", "//", "#",
    "\\xé", "\\x\u{80}", "'\\", "''", "'\\''", "a:", "..", ".seg text\n", "\u{feff}", "0xffffffff", "0x-80000000", "ret ", "store r1,", "mul r1,r2,r3,", "'\\x", "\u{2028}",
];

fn mutate(rng: &mut Rng, mut t: Vec<u8>) -> Vec<u8> {
    for _ in 0..rng.range(1, 12) {
        let at = rng.below(t.len() + 1);
        match rng.below(8) {
            0 if !t.is_empty() => {
                let i = rng.below(t.len());
                t[i] = rng.u8();
            }
            1 if !t.is_empty() => {
                let i = rng.below(t.len());
                t[i] ^= 1 << rng.below(8);
            }
            2 if !t.is_empty() => {
                let a = rng.below(t.len());
                let b = (a + rng.range(0, 20)).min(t.len());
                t.drain(a..b);
            }
            3 => {
                let k = rng.below(t.len() + 1);
                t.truncate(k.max(t.len() / 4));
            }
            4 if t.len() > 1 => {
                let a = rng.below(t.len());
                let b = (a + rng.range(0, 60)).min(t.len());
                let s = t[a..b].to_vec();
                t.splice(at.min(t.len())..at.min(t.len()), s);
            }
            _ => {
                let s = rng.pick(TOKENS).as_bytes().to_vec();
                t.splice(at..at, s);
            }
        }
    }
    t
}

/// Whatever the text: it ends, in an orderly way, and a success means a well-formed object
fn any_text(c: &mut Case, dir: &Path, name: &str, o: &Out) -> Result<(), String> {
    if let Some(m) = o.abnormal() {
        return Err(format!("the assembler {m}"));
    }
    let p: PathBuf = dir.join(to_path(name));
    match o.end {
        End::Exit(0) => {
            let b = fs::read(&p).map_err(|e| format!("success without an object: {e}"))?;
            parse(&b, true).map_err(|e| format!("success, but the object is not well-formed: {e}"))?;
            c.count("accepted", 1);
        }
        _ => {
            if o.stderr.is_empty() {
                return Err("failure without a diagnostic".into());
            }
            // (an object too large for the format is noticed while it is written)
            if fs::read(&p).is_ok_and(|b| parse(&b, true).is_ok()) {
                return Err("failure, but a whole object is there".into());
            }
            c.count("rejected", 1);
        }
    }
    Ok(())
}

/// A source may have any name the file system allows
fn odd_names(c: &mut Case) {
    let dir = c.dir();
    let src = gen_sources(&mut c.rng, &GenOpts { files: 1, items: 12, big: false, undefined: true, entry: true }, "");
    let text = src[0].text(&mut Speller::new(c.rng.clone()));
    let bad = c.rng.chance(1, 4);
    let text = if bad { text + "\n.seg text\nfrob r1\n" } else { text };
    let mut name: Vec<u8> = (0..c.rng.range(1, 12)).map(|_| c.rng.u8()).filter(|b| *b != 0 && *b != b'/').collect();
    if c.rng.bool() {
        name.extend(c.rng.pick(&[&b"\xff"[..], b"\xc3", b" ", b"\n", b"\xe2\x82\xac", b"%s", b"{}", b"*"]).iter());
    }
    let stem = Path::new(OsStr::from_bytes(&name));
    if stem.extension().is_some() || stem.file_stem().is_none() || name.starts_with(b"-") {
        return c.count("names that mean something else", 1);
    }
    name.extend(*c.rng.pick(&[&b".telda"[..], b".s", b".t\xe9lda"]));
    let path = dir.join(OsStr::from_bytes(&name));
    fs::write(&path, &text).expect("scratch");
    write(&dir, "plain/p.telda", &text);
    let a = c.run.tool("tc", &dir).arg("plain/p.telda").run();
    let b = c.run.tool("tc", &dir).os_arg(OsStr::from_bytes(&name)).run();
    c.eval(1);
    c.nontrivial(hash_bytes(&name));
    let m = match b.abnormal() {
        Some(m) => Some(m),
        None if a.ok() != b.ok() => Some(format!("{:?} though {:?} under another name", b.end, a.end)),
        None if a.ok() && fs::read(path.with_extension("to")).ok() != fs::read(dir.join("plain/p.to")).ok() => Some("another object than under another name".into()),
        None if !b.ok() && b.err().is_empty() => Some("fails without a message".into()),
        None => None,
    };
    if let Some(m) = m {
        c.violation(format!("source named {:?}: {m}\n{}\n{}", OsStr::from_bytes(&name), b.show(), clip(&text, 1500)));
    }
    c.count(if std::str::from_utf8(&name).is_ok() { "names that are text" } else { "names that are not text" }, 1);
}

pub fn c19(run: &Run) {
    run.cases("text", run.n(9000, 120000), |c| {
        let dir = c.dir();
        let t = match c.rng.below(6) {
            0 => {
                let n = c.rng.range(0, 400);
                (0..n).map(|_| c.rng.u8()).collect()
            }
            1 => {
                let n = c.rng.range(1, 60);
                (0..n).flat_map(|_| c.rng.pick(TOKENS).as_bytes().to_vec()).collect()
            }
            2 => {
                let mut t = b".seg text\n".to_vec();
                for _ in 0..c.rng.range(1, 30) {
                    t.extend(c.rng.pick(&[".string ", ".byte ", ".wide ", "ldi r1, ", "ldi r1l, ", "jmp ", "ret ", ".seg ", "store r1, "]).as_bytes());
                    for _ in 0..c.rng.below(6) {
                        t.extend(c.rng.pick(TOKENS).replace('\n', "").as_bytes());
                    }
                    t.push(b'\n');
                }
                t
            }
            _ => {
                let t = seed_text(&mut c.rng);
                mutate(&mut c.rng, t)
            }
        };
        // includes stay inside the scratch directory: no absolute or parent path reaches a device
        write(&dir, "x.telda", &t);
        let o = c.run.tool("tc", &dir).arg("x.telda").run();
        c.eval(1);
        c.nontrivial(hash_bytes(&t));
        if let Err(m) = any_text(c, &dir, "x.telda", &o) {
            c.violation(format!("{m}\n{:?}", clip(&String::from_utf8_lossy(&t), 2000)));
        }
        c.sample("text", || clip(&String::from_utf8_lossy(&t), 300));
    });
    run.cases("file names", run.n(150, 3_000), odd_names);
    // sizes: time must stay in proportion
    const SIZES: &[&str] = &["labels", "errors", "uses", "undefined", "one line", "operands", "globals", "blank", "entries", "spaces", "nested includes", "deep includes", "escapes", "duplicate labels", "lines without content", "segments", "commas"];
    run.cases("size", SIZES.len() as u64 * run.n(1, 3), |c| {
        let dir = c.dir();
        let kind = SIZES[c.index as usize % SIZES.len()];
        let n = 120_000 + c.rng.below(60_000);
        let mut t = String::from(".seg text\n");
        match kind {
            "labels" => (0..n).for_each(|i| t += &format!("l{i}:\n")),
            "errors" => (0..n).for_each(|i| t += &format!("bogus{i}\n")),
            "uses" => {
                t += "x:\n";
                (0..20_000).for_each(|_| t += "jmp x\n");
            }
            "undefined" => (0..15_000).for_each(|i| t += &format!("jmp u{i}\n")),
            "one line" => t += &format!("jmp {}\n", "a".repeat(n * 10)),
            "operands" => t += &format!("add {}\n", "r1,".repeat(n)),
            "globals" => (0..n).for_each(|i| t += &format!(".global g{i}\n")),
            "blank" => (0..n * 4).for_each(|_| t += "\n"),
            "entries" => (0..n).for_each(|_| t += ".entry\n"),
            "spaces" => t += &" ".repeat(n * 20),
            "deep includes" => {
                let d = c.rng.range(1500, 5000);
                for i in 0..d {
                    write(&dir, &format!("n{i}.telda"), format!(".include n{}.telda\n", i + 1));
                }
                write(&dir, &format!("n{d}.telda"), ".seg text\n nop\n");
                t += ".include n0.telda\n";
            }
            "nested includes" => {
                let d = c.rng.range(100, 400);
                for i in 0..d {
                    write(&dir, &format!("n{i}.telda"), format!(".seg text\n nop\n.include n{}.telda\n nop\n", i + 1));
                }
                write(&dir, &format!("n{d}.telda"), ".seg text\n nop\n");
                t += ".include n0.telda\n";
            }
            "escapes" => t += &format!(".string {}\n", "\\x41".repeat(n)),
            "duplicate labels" => (0..n).for_each(|_| t += "d:\n"),
            "lines without content" => (0..n).for_each(|_| t += ".string\n"),
            "segments" => (0..n).for_each(|i| t += [".seg data\n", ".seg text\n", ".seg heap\n", ".seg rodata\n"][i % 4]),
            _ => t += &format!("{}\n", ",".repeat(n * 10)),
        }
        write(&dir, "x.telda", &t);
        let o = c.run.tool("tc", &dir).arg("x.telda").run();
        c.eval(1);
        c.count(&format!("size: {kind}"), t.len() as u64);
        c.nontrivial(hash_bytes(t.as_bytes()));
        if let Err(m) = any_text(c, &dir, "x.telda", &o) {
            c.violation(format!("{kind}, {} bytes of text: {m}", t.len()));
        }
    });
    // shapes of includes
    run.cases("includes", run.n(400, 4000), |c| {
        let dir = c.dir();
        let n = c.rng.range(1, 5);
        for i in 0..n {
            let mut t = String::new();
            for _ in 0..c.rng.below(5) {
                t += &match c.rng.below(7) {
                    0 => format!(".include f{}.telda\n", c.rng.below(n + 1)),
                    1 => format!(".include ./f{}.telda\n", c.rng.below(n)),
                    2 => format!(".include /f{}.telda\n", c.rng.below(n)),
                    3 => ".include sub\n".into(),
                    4 => format!(".include sub/../f{}.telda\n", c.rng.below(n)),
                    5 => ".include\n".into(),
                    _ => ".seg text\n nop\n".into(),
                };
            }
            write(&dir, &format!("f{i}.telda"), t);
        }
        fs::create_dir_all(dir.join("sub")).unwrap();
        let o = c.run.tool("tc", &dir).arg("f0.telda").run();
        c.eval(1);
        let all = (0..n).map(|i| fs::read_to_string(dir.join(format!("f{i}.telda"))).unwrap()).collect::<Vec<_>>().join("--\n");
        c.nontrivial_str(&all);
        if let Err(m) = any_text(c, &dir, "f0.telda", &o) {
            c.violation(format!("{m}\n{all}"));
        }
    });
    let _ = (RODATA, HEAP, is_reserved as fn(&str) -> bool, rand_name as fn(&mut Rng, &mut BTreeSet<String>) -> String);
}
