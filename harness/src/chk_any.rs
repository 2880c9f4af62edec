//! C34: the commands on files of any content.

use std::{fs, path::Path};

use crate::{
    core::{Case, Run},
    objfmt::{self, Obj, Sym, DATA, HEAP, RODATA, SAVN, TEXT, UNKNOWN, ZERO},
    rng::{hash_bytes, Rng},
    tools::{clip, write, End, Out},
};

const NAMES: [&str; 14] = ["a", "b", "c", "_start", "main", "x", "", "é", "L1", "really_long_name_of_a_symbol_in_this_object", ".entry", "@L0", "0x20", " a"];

fn any_place(r: &mut Rng, start: u16, len: usize) -> u16 {
    let end = start.wrapping_add(len as u16);
    match r.below(8) {
        0 => end.wrapping_sub(1),
        1 => end,
        2 => end.wrapping_sub(2),
        3 => start.wrapping_sub(r.below(3) as u16),
        4 => end.wrapping_add(r.below(200) as u16),
        5 => r.corner16(),
        _ => start.wrapping_add(r.below(len.max(1)) as u16),
    }
}

/// A place that two bytes of contents are at
fn good_place(r: &mut Rng, start: u16, len: usize) -> u16 {
    match r.below(3) {
        0 => start.wrapping_add(len as u16).wrapping_sub(2),
        1 => start,
        _ => start.wrapping_add(r.below((len - 1).max(1)) as u16),
    }
}

fn code(r: &mut Rng, n: usize) -> Vec<u8> {
    match r.below(5) {
        0 => vec![r.u8(); n],
        1 => {
            let pat: Vec<u8> = (0..r.range(1, 5)).map(|_| r.below(0x50) as u8).collect();
            (0..n).map(|i| pat[i % pat.len()]).collect()
        }
        2 => (0..n).map(|_| r.below(0x50) as u8).collect(),
        _ => (0..n).map(|_| r.u8()).collect(),
    }
}

/// An object the format can hold, but whose parts need not fit each other
fn odd_object(r: &mut Rng) -> Obj {
    let careful = r.bool();
    odd_object_with(r, careful)
}

/// Large parts of one type only, so that several of them are as large as the address space
fn large_object(r: &mut Rng, t: u8) -> Obj {
    let n = match r.below(5) {
        0 => r.range(0x7ff0, 0x8010),
        1 => r.range(0xff00, 65533),
        2 => 0xfff0 - r.below(200),
        3 => r.range(0x5550, 0x5560),
        _ => r.below(70),
    };
    let n = n.min(65532);
    let start = *r.pick(&[0, 0, 0x80, 0xff80, 0x8000]);
    let b = code(r, n);
    let mut o = Obj { segs: vec![(t, start, b)], ..Obj::default() };
    if r.bool() {
        o.entry = Some((t, start));
    }
    if n >= 2 {
        let name = r.pick(&NAMES[..6]).to_string();
        o.syms.push(Sym { name, global: r.chance(1, 3), seg: t, loc: any_place(r, start, n) });
        let p = good_place(r, start, n.min(0x1_0000 - start as usize));
        o.relocs.push((t, p, 0));
    }
    o
}

fn odd_object_with(r: &mut Rng, careful: bool) -> Obj {
    let mut o = Obj::default();
    let types = [TEXT, DATA, RODATA, HEAP, ZERO, UNKNOWN];
    for &t in &types {
        if !r.chance(if t == TEXT { 4 } else { 2 }, 5) {
            continue;
        }
        let n = match r.below(14) {
            0 => 0,
            1 => r.range(1, 4),
            2 => r.range(126, 131),
            3 => r.range(0x7ff0, 0x8010),
            4 if r.chance(1, 3) => r.range(65520, 65533),
            _ => r.range(1, 120),
        };
        let start = match r.below(7) {
            0 => r.corner16(),
            1 => r.u16(),
            2 => 0u16.wrapping_sub(n as u16),
            3 => 0xff80,
            4 => 0,
            _ => (r.below(511) * 128) as u16,
        };
        let b = code(r, n);
        o.segs.push((t, start, b));
    }
    if r.chance(1, 12) {
        // everything is code, all around the address space
        o.segs = match r.below(3) {
            0 => vec![(TEXT, 0, code(r, 0x8000)), (UNKNOWN, 0x8000, code(r, 0x8000))],
            1 => vec![(ZERO, 0, code(r, 0xc000)), (TEXT, 0xc000, code(r, 0x4000))],
            _ => vec![(TEXT, 0x80, code(r, 65532)), (ZERO, 0, code(r, 0x100))],
        };
    }
    let where_ = |r: &mut Rng, o: &Obj| -> (u8, u16, usize) {
        if !o.segs.is_empty() && r.chance(5, 6) {
            let s = r.pick(&o.segs);
            (s.0, s.1, s.2.len())
        } else {
            (*r.pick(&types), r.corner16(), r.below(100))
        }
    };
    for _ in 0..r.below(7) {
        let (seg, start, len) = where_(r, &o);
        let loc = any_place(r, start, len);
        let seg = if r.chance(1, 6) { UNKNOWN } else { seg };
        let mut global = r.bool();
        let mut name = r.pick(&NAMES).to_string();
        if r.chance(1, 60) {
            name = "n".repeat(r.range(1000, 20000));
        }
        // in a file, only this distinguishes local symbols
        if name.starts_with(' ') {
            global = false;
        }
        o.syms.push(Sym { name, global, seg, loc });
    }
    for _ in 0..r.below(6) {
        let (seg, start, len) = where_(r, &o);
        if careful {
            if o.syms.is_empty() || len < 2 || !o.segs.iter().any(|s| s.0 == seg) {
                continue;
            }
            let p = good_place(r, start, len);
            o.relocs.push((seg, p, r.below(o.syms.len()) as u16));
        } else {
            let p = if r.chance(2, 3) && len >= 2 { good_place(r, start, len) } else { any_place(r, start, len) };
            let i = match r.below(12) {
                0 => o.syms.len() as u16,
                1 => r.corner16(),
                _ => r.below(o.syms.len().max(1)) as u16,
            };
            o.relocs.push((seg, p, i));
        }
    }
    if r.chance(4, 5) {
        let (seg, start, len) = where_(r, &o);
        o.entry = Some((seg, any_place(r, start, len)));
    }
    if r.chance(1, 3) {
        o.flags = Some(r.bool());
    }
    if r.chance(1, 3) {
        o.stack = Some(r.corner16());
    }
    if r.chance(1, 3) {
        o.heap = Some(r.corner16());
    }
    if r.chance(1, 4) {
        o.preamble = r.pick(&[&b"#!/bin/env t\n"[..], b"\0\0", b"\xc3\xa1lvur1\n"]).to_vec();
    }
    o
}

fn damage(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..r.range(1, 4) {
        if b.is_empty() {
            return;
        }
        let i = r.below(b.len());
        match r.below(7) {
            0 => b[i] = r.u8(),
            1 => b[i] ^= 1 << r.below(8),
            2 => b.truncate(i),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, r.u8()),
            5 => {
                let j = (i + r.range(1, 40)).min(b.len());
                let part = b[i..j].to_vec();
                let at = r.below(b.len());
                b.splice(at..at, part);
            }
            _ => b[i] = *r.pick(&[0, 0xff, 0x7f, 0x80]),
        }
    }
}

/// Whether every relocation is of a symbol that exists, in a place with contents
fn sound(o: &Obj) -> Result<(), String> {
    for &(s, l, y) in &o.relocs {
        let Some((_, start, b)) = o.seg(s) else {
            return Err(format!("relocation in a segment 0x{s:02x} that does not exist"));
        };
        let at = l as usize;
        if at < *start as usize || at + 2 > *start as usize + b.len() {
            return Err(format!("relocation at 0x{l:04x} outside its segment (0x{start:04x}, {} bytes)", b.len()));
        }
        if y as usize >= o.syms.len() {
            return Err(format!("relocation of symbol {y} of {}", o.syms.len()));
        }
    }
    Ok(())
}

enum Kind {
    Any,
    Careful,
    Large(u8),
}

struct Made {
    name: String,
    bytes: Option<Vec<u8>>,
}

fn any_file(r: &mut Rng, dir: &Path, i: usize, kind: &Kind) -> Made {
    let name = format!("f{i}.to");
    let b = match r.below(20) {
        _ if matches!(kind, Kind::Careful) => {
            let mut o = odd_object_with(r, true);
            for s in &mut o.syms {
                // no two definitions
                if s.global {
                    s.name += &format!("{i}");
                }
            }
            let mut seen = Vec::new();
            for s in &mut o.syms {
                if s.global && seen.contains(&s.name) {
                    s.global = false;
                }
                seen.push(s.name.clone());
            }
            o.encode()
        }
        _ if matches!(kind, Kind::Large(_)) => match kind {
            Kind::Large(t) if r.chance(5, 6) => large_object(r, *t).encode(),
            _ => large_object(r, TEXT).encode(),
        },
        0 => {
            return Made { name: "absent.to".into(), bytes: None };
        }
        1 => {
            let _ = fs::create_dir(dir.join("dir.to"));
            return Made { name: "dir.to".into(), bytes: None };
        }
        2 => Vec::new(),
        3 => {
            let n = r.below(300);
            (0..n).map(|_| r.u8()).collect()
        }
        4 => b".seg text\n_start:\n  nop\n".to_vec(),
        5 => objfmt::encode_archive(&[odd_object(r), odd_object(r)]),
        6 | 7 | 8 => {
            let mut b = odd_object(r).encode();
            damage(r, &mut b);
            b
        }
        _ => odd_object(r).encode(),
    };
    write(dir, &name, &b);
    Made { name, bytes: Some(b) }
}

fn any_archive(r: &mut Rng, dir: &Path, i: usize) -> Made {
    let name = format!("l{i}.savn");
    let b = match r.below(12) {
        0 => return Made { name: "absent.savn".into(), bytes: None },
        1 => Vec::new(),
        2 => SAVN.to_vec(),
        3 => odd_object(r).encode(),
        4 => {
            let mut b = SAVN.to_vec();
            for _ in 0..r.below(200) {
                let x = r.u8();
                b.push(x);
            }
            b
        }
        k => {
            let n = r.range(1, 4);
            let m: Vec<Obj> = (0..n).map(|_| odd_object(r)).collect();
            let mut b = objfmt::encode_archive(&m);
            if k < 8 {
                damage(r, &mut b);
            }
            b
        }
    };
    write(dir, &name, &b);
    Made { name, bytes: Some(b) }
}

/// How a command that is not to run a program has to end
fn orderly(c: &mut Case, what: &str, o: &Out) -> bool {
    c.eval(1);
    if let Some(m) = o.abnormal() {
        c.violation(format!("{what}: {m}"));
        return false;
    }
    if !o.ok() && o.err().trim().is_empty() {
        c.violation(format!("{what} fails without a message: {}", o.show()));
        return false;
    }
    c.count(if o.ok() { "commands that succeeded" } else { "commands that reported failure" }, 1);
    true
}

const ENTRIES: [&str; 12] = ["_start", "a", "main", "nosuch", "", "0x", "0x100", "0xfffff", "0xzz", "0x0", "é", " a"];

fn link(c: &mut Case, dir: &Path, files: &[Made], libs: &[Made]) {
    let r = &mut c.rng;
    let mut args: Vec<String> = Vec::new();
    let exe = r.bool();
    if exe {
        args.push("-e".into());
        if r.chance(1, 3) {
            args.push(format!("--set-entry={}", r.pick(&ENTRIES)));
        }
    }
    if r.chance(1, 3) {
        args.push("-S".into());
    }
    if r.chance(1, 3) {
        args.push("-v".into());
    }
    let mut refused = false;
    if r.chance(1, 3) {
        let a = *r.pick(&["1", "2", "64", "256", "32768", "0", "3", "65536", "-1", "x"]);
        refused |= ["0", "3", "65536", "-1", "x"].contains(&a);
        args.push(format!("--alignment={a}"));
    }
    for l in libs {
        args.push("-l".into());
        args.push(l.name.clone());
    }
    let out = match r.below(12) {
        0 => "nodir/o.to",
        1 => "outdir",
        _ => "o.to",
    };
    let _ = fs::create_dir(dir.join("outdir"));
    let _ = fs::remove_file(dir.join("o.to"));
    args.push("-o".into());
    args.push(out.into());
    args.extend(files.iter().map(|f| f.name.clone()));
    let t = c.run.tool("tl", dir).args(&args);
    let what = t.show();
    let o = t.run();
    if !orderly(c, &what, &o) {
        return;
    }
    if o.ok() {
        if out != "o.to" || refused {
            return c.violation(format!("{what} succeeds: {}", o.show()));
        }
        // what was not an object or had relocations of nothing cannot be part of a link
        for f in files {
            let Some(b) = &f.bytes else {
                return c.violation(format!("{what} succeeds, but {} cannot be read", f.name));
            };
            match objfmt::parse(b, false) {
                Ok(o) => {
                    if let Err(m) = sound(&o) {
                        return c.violation(format!("{what} succeeds, but {} has a {m}", f.name));
                    }
                }
                Err(m) => {
                    if !lenient(&m) {
                        return c.violation(format!("{what} succeeds, but {} is no object: {m}", f.name));
                    }
                }
            }
        }
        for l in libs {
            if l.bytes.as_ref().is_none_or(|b| !b.starts_with(SAVN)) {
                return c.violation(format!("{what} succeeds, but {} is no archive", l.name));
            }
        }
        let b = fs::read(dir.join(out)).unwrap_or_default();
        match objfmt::parse(&b, true) {
            Err(m) => c.violation(format!("{what} succeeds, but its output is no object: {m}")),
            Ok(obj) => match sound(&obj) {
                Err(m) => c.violation(format!("{what}: its output has a {m}")),
                Ok(()) => {
                    c.count("links of odd objects", 1);
                    c.nontrivial(hash_bytes(&b));
                }
            },
        }
    } else {
        if let Ok(b) = fs::read(dir.join("o.to")) {
            // a file that looks like a result would be used
            if objfmt::parse(&b, true).is_ok() {
                c.violation(format!("{what} fails, but leaves an object: {}", o.show()));
            }
        }
    }
}

/// Contents whose reading is not prescribed
fn lenient(m: &str) -> bool {
    let mut words = m.split(' ');
    let longer = words.next() == Some("section")
        && match (words.next(), words.nth(1).and_then(|n| n.parse::<u32>().ok())) {
            (Some("_entry"), Some(n)) => n > 3,
            (Some("_stack_size" | "_heap_size"), Some(n)) => n > 2,
            _ => false,
        };
    longer || m.contains("utf") || m.contains("UTF") || m.contains("flag") || m.contains("longer") || m.contains("extra")
}

const COMMANDS: [&str; 22] = [
    "n", "si", "so", "next", "stepin", "stepout", "r 0", "r 0xffff", "r 65535", "flags", "rpc", "rs", "r1", "r10b", "g 0", "g 0xffff", "g 0x80", "q", "r ", "r x", "h", "",
];

fn debug(c: &mut Case, dir: &Path, f: &Made) {
    let mut input = Vec::new();
    for _ in 0..c.rng.below(40) {
        let r = &mut c.rng;
        match r.below(12) {
            0 => {
                let n = r.below(9);
                input.extend((0..n).map(|_| r.u8()));
                input.push(b'\n');
            }
            1..=5 => input.extend(b"si\n"),
            6 => input.extend(format!("g 0x{:x}\n", r.u16()).bytes()),
            7 => input.extend(format!("r 0x{:x}\n", r.u16()).bytes()),
            _ => {
                input.extend(r.pick(&COMMANDS).bytes());
                input.push(b'\n');
            }
        }
    }
    let mut t = c.run.tool("tdbg", dir).arg(&f.name).cpu(3);
    if c.rng.chance(1, 3) {
        let e = *c.rng.pick(&ENTRIES);
        t = t.arg(format!("-E{e}")).stdin(input.clone());
        if e.is_empty() {
            return;
        }
    } else {
        t = t.stdin(input.clone());
    }
    let what = t.show();
    let o = t.run();
    run_orderly(c, &what, &o, &input);
}

/// Programs may run without end; apart from that the same
fn run_orderly(c: &mut Case, what: &str, o: &Out, input: &[u8]) {
    c.eval(1);
    match &o.end {
        End::Hang => return c.count("programs that did not end", 1),
        _ if o.capped => return c.count("programs that did not end", 1),
        End::Exit(101) if what.starts_with("t ") && o.err().contains("stdin failed") => return c.count("programs that needed more input than there was", 1),
        End::Exit(101) | End::Signal(_) => {
            return c.violation(format!("{what} with input {:?}: {}", String::from_utf8_lossy(input), o.abnormal().unwrap_or_default()))
        }
        _ => (),
    }
    if !o.ok() && o.err().trim().is_empty() {
        return c.violation(format!("{what} fails without a message: {}", o.show()));
    }
    c.count("programs run or debugged", 1);
}

fn tools(c: &mut Case) {
    let dir = c.dir();
    let n = c.rng.range(1, 4);
    let kind = match c.rng.below(8) {
        0..=2 => Kind::Careful,
        3 => Kind::Large(*c.rng.pick(&objfmt::SEGS)),
        _ => Kind::Any,
    };
    let files: Vec<Made> = (0..n).map(|i| any_file(&mut c.rng, &dir, i, &kind)).collect();
    let nl = if matches!(kind, Kind::Any) { c.rng.below(3) } else { c.rng.below(5) / 4 };
    let libs: Vec<Made> = (0..nl).map(|i| any_archive(&mut c.rng, &dir, i)).collect();
    for f in files.iter().chain(&libs) {
        c.nontrivial(hash_bytes(f.bytes.as_deref().unwrap_or(f.name.as_bytes())));
    }
    link(c, &dir, &files, &libs);
    if c.failed() {
        return keep(c, &files, &libs);
    }
    // list
    let mut args: Vec<String> = Vec::new();
    match c.rng.below(3) {
        0 => args.push("-t".into()),
        1 => args.push("-d".into()),
        _ => args.extend(["-t".into(), "-d".into()]),
    }
    if args.contains(&"-d".to_string()) {
        if c.rng.bool() {
            args.push("-R".into());
        }
        if c.rng.chance(1, 4) {
            args.push(format!("--disassemble-from={},{}", c.rng.pick(&NAMES), c.rng.pick(&NAMES)));
        }
    }
    args.extend(files.iter().chain(&libs).map(|f| f.name.clone()));
    let t = c.run.tool("tobjdump", &dir).args(&args);
    let what = t.show();
    let o = t.run();
    if !orderly(c, &what, &o) {
        return keep(c, &files, &libs);
    }
    // run and debug
    for f in files.iter().take(2) {
        match c.rng.below(5) {
            0 | 1 => debug(c, &dir, f),
            k => {
                let n = c.rng.below(30);
                let input: Vec<u8> = (0..n).map(|_| c.rng.u8()).collect();
                let mut t = c.run.tool("t", &dir).cpu(1).stdin(input.clone());
                if k == 3 {
                    t = t.arg("-t");
                } else if k == 4 {
                    t = t.arg("-r");
                }
                let t = t.arg(&f.name);
                let what = t.show();
                let o = t.run();
                run_orderly(c, &what, &o, &input);
            }
        }
        if c.failed() {
            return keep(c, &files, &libs);
        }
    }
    // archive
    let mut args: Vec<String> = files.iter().map(|f| f.name.clone()).collect();
    args.extend(["-o".into(), if c.rng.chance(1, 8) { "nodir/x.savn".into() } else { "x.savn".to_string() }]);
    let t = c.run.tool("tar", &dir).args(&args);
    let what = t.show();
    let o = t.run();
    if !orderly(c, &what, &o) {
        return keep(c, &files, &libs);
    }
    if o.ok() {
        let want: Option<Vec<u8>> = files.iter().map(|f| f.bytes.clone()).collect::<Option<Vec<_>>>().map(|v| [SAVN, &v.concat()].concat());
        let got = fs::read(dir.join("x.savn")).ok();
        if want.is_none() || args.last().is_some_and(|a| a.starts_with("nodir")) || got != want {
            c.violation(format!("{what} succeeds, but does not archive its inputs as they are"));
            return keep(c, &files, &libs);
        }
    }
    // strip, which overwrites
    let mut args: Vec<String> = Vec::new();
    match c.rng.below(3) {
        0 => args.push("-a".into()),
        1 => args.extend(["-a".into(), "-f".into()]),
        _ => (),
    }
    args.extend(files.iter().map(|f| f.name.clone()));
    let t = c.run.tool("tstrip", &dir).args(&args);
    let what = t.show();
    let o = t.run();
    if !orderly(c, &what, &o) {
        return keep(c, &files, &libs);
    }
    for f in &files {
        let Some(b) = &f.bytes else {
            if o.ok() {
                c.violation(format!("{what} succeeds, but {} cannot be read", f.name));
            }
            continue;
        };
        let now = fs::read(dir.join(&f.name)).unwrap_or_default();
        match objfmt::parse(b, false) {
            Err(_) if now == *b => (),
            Err(m) => {
                if !lenient(&m) {
                    c.violation(format!("{what} changes {}, which is no object: {m}", f.name));
                }
            }
            Ok(_) => {
                if let Err(m) = objfmt::parse(&now, false) {
                    c.violation(format!("{what} leaves {} unreadable: {m}", f.name));
                }
            }
        }
    }
    if c.failed() {
        keep(c, &files, &libs);
    }
}

fn keep(c: &mut Case, files: &[Made], libs: &[Made]) {
    let mut s = String::new();
    for f in files.iter().chain(libs) {
        match &f.bytes {
            Some(b) => {
                let h: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
                s += &format!("\n{} ({} bytes): {h}", f.name, b.len());
                if let Ok(o) = objfmt::parse(b, false) {
                    s += &format!("\n  {}", clip(&format!("entry {:?} segs {:?} syms {:?} relocs {:?}", o.entry, o.segs.iter().map(|x| (x.0, x.1, x.2.len())).collect::<Vec<_>>(), o.syms, o.relocs), 1500));
                }
            }
            None => s += &format!("\n{}: absent or a directory", f.name),
        }
    }
    if let Some(v) = &mut c.viol {
        v.push_str(&s);
    }
}

pub fn c34(run: &Run) {
    run.cases("tools", run.n(3500, 120_000), tools);
}
