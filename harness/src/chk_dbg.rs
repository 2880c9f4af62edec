//! C31: sessions with the debugger, next to a model of the machine it shows.

use std::collections::BTreeSet;

use crate::{
    core::{Case, Run},
    cpu::St,
    disline::{decode, names, parse_line},
    objfmt::{Obj, Sym, TEXT},
    prog::{gen_prog, place, rand_layout, Want},
    rng::{hash_bytes, Rng},
    spec::{self, byte_reg_name, trap, wide_reg_name},
    tools::{clip, write, Out},
    vm::{Stepped, Vm},
};

const PROMPT: &str = "+tdgb> ";

#[derive(Clone, Debug, PartialEq)]
enum Cmd {
    Next,
    Into,
    Out,
    Quit,
    /// there are no more commands
    Eof,
    Wide(u8),
    Byte(u8),
    Pc,
    Flags,
    Mem(u16),
    Goto(u16),
    Junk,
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    Line(Vec<u8>),
    Asked,
}

#[derive(Clone, Debug, PartialEq)]
enum After {
    Prompt,
    /// ended with one of these traps
    Ended(Vec<u8>),
    Starved,
}

struct Sim {
    vm: Vm,
    depth: i32,
    /// how much input was requested
    asked: usize,
    /// where the line of output begins that is not complete
    line: usize,
    steps: usize,
}

#[derive(Clone)]
struct Mark(St, crate::vm::Defs, Vec<u8>, u16, usize, usize, i32, usize, usize, usize);

impl Sim {
    fn mark(&self) -> Mark {
        let v = &self.vm;
        Mark(v.st.clone(), v.defs.clone(), v.phys.ram.clone(), v.handler, v.pos, v.out.len(), self.depth, self.asked, self.line, self.steps)
    }
    fn reset(&mut self, m: Mark) {
        let v = &mut self.vm;
        v.st = m.0;
        v.defs = m.1;
        v.phys.ram = m.2;
        v.handler = m.3;
        v.pos = m.4;
        v.out.truncate(m.5);
        self.depth = m.6;
        self.asked = m.7;
        self.line = m.8;
        self.steps = m.9;
    }
    fn nesting(&self) -> i32 {
        let code = self.vm.code(self.vm.st.pc);
        match code.first() {
            Some(0x25) if code.len() == 3 => 1,
            Some(0x26) if code.len() == 2 => -1,
            _ => 0,
        }
    }
    /// Goes on until the command is done; None: what happens is not prescribed, or too much happens
    fn resume(&mut self, cmd: &Cmd, stdin: &mut Vec<u8>) -> Option<(Vec<Tok>, After)> {
        let target = match cmd {
            Cmd::Next => self.depth,
            Cmd::Into => self.depth + self.nesting(),
            _ => self.depth - 1,
        };
        let mut toks = Vec::new();
        for _ in 0..20_000 {
            let d = self.nesting();
            let (pos, out) = (self.vm.pos, self.vm.out.len());
            let s = self.vm.step();
            self.steps += 1;
            let reads = self.vm.pos != pos || s == Stepped::Starved;
            if reads && pos == self.asked {
                toks.push(Tok::Asked);
                let rest = &self.vm.input[pos..];
                let n = rest.iter().position(|b| *b == b'\n').map_or(rest.len(), |k| k + 1);
                stdin.extend(&rest[..n]);
                self.asked += n;
            }
            if self.vm.out.len() != out && self.vm.out[out] == b'\n' {
                toks.push(Tok::Line(self.vm.out[self.line..out].to_vec()));
                self.line = out + 1;
            }
            match s {
                Stepped::Go => (),
                Stepped::End(t, _) => return Some((toks, After::Ended(t))),
                Stepped::Unsure => return None,
                Stepped::Starved => return Some((toks, After::Starved)),
            }
            self.depth += d;
            if self.depth == target {
                return Some((toks, After::Prompt));
            }
        }
        None
    }
}

fn number(r: &mut Rng, v: u16) -> String {
    match r.below(5) {
        0 => format!("{v}"),
        1 => format!("0o{v:o}"),
        2 => format!("0b{v:b}"),
        3 => format!("0x{v:X}"),
        _ => format!("0x{v:x}"),
    }
}

fn spell(r: &mut Rng, c: &Cmd) -> Vec<u8> {
    let gap = *r.pick(&[" ", " ", "  ", " \t "]);
    let s = match c {
        Cmd::Next => r.pick(&["n", "next"]).to_string(),
        Cmd::Into => r.pick(&["si", "in", "stepin"]).to_string(),
        Cmd::Out => r.pick(&["so", "out", "stepout"]).to_string(),
        Cmd::Quit => r.pick(&["q", "quit"]).to_string(),
        Cmd::Wide(n) => wide_reg_name(*n),
        Cmd::Byte(n) => byte_reg_name(*n),
        Cmd::Pc => "rpc".into(),
        Cmd::Flags => "flags".into(),
        Cmd::Mem(a) => format!("r{gap}{}", number(r, *a)),
        Cmd::Goto(a) => format!("g{gap}{}", number(r, *a)),
        Cmd::Eof => return vec![],
        Cmd::Junk => match r.below(14) {
            0 => "".into(),
            1 => "r".into(),
            2 => "r zz".into(),
            3 => "g 0x10000".into(),
            4 => "g -1".into(),
            5 => "r 0x".into(),
            6 => "R1".into(),
            7 => "g".into(),
            8 => "r11".into(),
            9 => "step out".into(),
            10 => "r 65536".into(),
            11 => "g main".into(),
            12 => {
                let mut v: Vec<u8> = (0..r.below(30)).map(|_| 0x80 | r.u8()).collect();
                v.push(b'\n');
                return v;
            }
            _ => "help \u{f8}\u{1f600}".into(),
        },
    };
    let (a, b) = if r.chance(1, 6) { (*r.pick(&["", " ", "\t"]), *r.pick(&["", "  ", "\r"])) } else { ("", "") };
    format!("{a}{s}{b}\n").into_bytes()
}

fn hexes(s: &str) -> Vec<u32> {
    s.split_whitespace().filter_map(|w| u32::from_str_radix(w.strip_prefix("0x")?, 16).ok()).collect()
}

/// `... = decimal hexadecimal ...`
fn value(s: &str) -> Option<u32> {
    let (_, r) = s.split_once('=')?;
    let mut w = r.split_whitespace();
    let d: u32 = w.next()?.parse().ok()?;
    let h = u32::from_str_radix(w.next()?.strip_prefix("0x")?, 16).ok()?;
    (d == h).then_some(d)
}

fn reg(seg: &str, name: &str, v: u16) -> Result<(), String> {
    let line = seg.lines().find(|l| l.contains('=')).ok_or(format!("{name} is not shown"))?;
    let ok = line.split('=').next().is_some_and(|n| n.trim() == name);
    match value(line) {
        Some(x) if x == v as u32 && ok => {
            if let Some((_, q)) = line.split_once('"') {
                let want = format!("{:?}", (v as u8 as char).to_string());
                if format!("\"{q}") != want {
                    return Err(format!("{line:?} is shown for {name}, which is character {want}"));
                }
            }
            Ok(())
        }
        _ => Err(format!("{line:?} is shown for {name} = {v:#x}")),
    }
}

/// The position shown before a prompt
fn position(s: &str, vm: &Vm, o: &Obj) -> Result<(), String> {
    let pc = vm.st.pc;
    let lines: Vec<&str> = s.lines().filter(|l| !l.trim().is_empty()).collect();
    let err = |e: String| Err(format!("{e} at {pc:04x}: {s:?}"));
    let mut shown = 0;
    for l in lines {
        if let Some(n) = l.trim().strip_prefix('<').and_then(|l| l.strip_suffix(">:")) {
            if n.is_empty() || !o.syms.iter().any(|s| s.loc == pc && s.name == n) {
                return err(format!("label {n} is shown"));
            }
            continue;
        }
        shown += 1;
        let code = vm.code(pc);
        let known = code.first().is_some_and(|c| spec::lookup(*c).is_some_and(|op| spec::fmt_len(op.fmt) as usize + 1 == code.len()));
        if let Some((i, n)) = decode(&code) {
            let Some(p) = parse_line(l, n) else { return err("no instruction is shown".into()) };
            if p.addr != pc || p.bytes != code[..n] {
                return err(format!("the address or bytes {code:02x?} are not shown"));
            }
            let cand: Vec<&str> = match i.imm {
                crate::asm::Imm::Num(v) => o.syms.iter().filter(|s| s.loc == v && !s.name.is_empty()).map(|s| &*s.name).collect(),
                _ => vec![],
            };
            if let Err(e) = names(&p.op, &i, None) {
                if !cand.iter().any(|c| names(&p.op, &i, Some(c)).is_ok()) {
                    return err(e);
                }
            }
        } else if let Some(b) = code.first().filter(|_| known || code.len() == 1 && spec::lookup(code[0]).is_none()) {
            match parse_line(l, 1) {
                Some(p) if p.addr == pc && p.bytes == [*b] => (),
                _ => return err(format!("the address or byte {b:02x} is not shown")),
            }
        } else {
            // not fetchable, at least in part
            match parse_line(l, 0) {
                Some(p) if p.addr == pc => (),
                _ => return err("the address is not shown".into()),
            }
            if code.is_empty() && !(0..=255u8).any(|t| trap::name(t).len() > 3 && l.contains(trap::name(t))) {
                return err("no trap is shown for code that cannot be fetched".into());
            }
        }
    }
    if shown != 1 {
        return err(format!("{shown} instructions are shown"));
    }
    Ok(())
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

fn segments(b: &[u8]) -> Vec<Vec<u8>> {
    let p = PROMPT.as_bytes();
    let mut v = Vec::new();
    let mut b = b;
    while let Some(k) = find(b, p) {
        v.push(b[..k].to_vec());
        b = &b[k + p.len()..];
    }
    v.push(b.to_vec());
    v
}

fn text(b: &[u8]) -> String {
    String::from_utf8_lossy(b).into_owned()
}

fn short(b: &[u8]) -> String {
    clip(&text(b).escape_debug().to_string(), 600)
}

struct Session {
    obj: Obj,
    input: Vec<u8>,
    start: u16,
    cmds: Vec<Cmd>,
    stdin: Vec<u8>,
}

impl Session {
    fn sim(&self, init: &St) -> Sim {
        let mut vm = Vm::load(&self.obj, init, &self.input);
        vm.st.pc = self.start;
        Sim { vm, depth: 0, asked: 0, line: 0, steps: 0 }
    }

    /// Compares the transcript with the model; what was observed
    fn judge(&self, out: &Out) -> Result<Sim, String> {
        if let Some(e) = out.abnormal() {
            return Err(format!("the debugger {e}"));
        }
        let segs = segments(&out.stdout);
        // the registers have any value at the start
        let mut init = St::default();
        for (k, c) in self.cmds.iter().enumerate() {
            match c {
                Cmd::Wide(n) if *n <= 13 => {
                    let Some(v) = segs.get(k + 1).and_then(|s| value(&text(s))) else {
                        return Err(format!("no value is shown for {}: {:?}", wide_reg_name(*n), segs.get(k + 1).map(|s| short(s))));
                    };
                    init.set_wr(*n, v as u16);
                }
                Cmd::Flags => {
                    let s = text(segs.get(k + 1).map_or(&[][..], |s| s));
                    init.f.c = s.contains("carry");
                    init.f.o = s.contains("overflow");
                    init.f.z = s.contains("zero");
                    init.f.s = s.contains("sign");
                }
                _ => break,
            }
        }
        let mut sim = self.sim(&init);
        let fl = (init.f.c, init.f.o, init.f.z, init.f.s);
        (sim.vm.st.f.c, sim.vm.st.f.o, sim.vm.st.f.z, sim.vm.st.f.s) = fl;
        position(&text(&segs[0]), &sim.vm, &self.obj).map_err(|e| format!("at the start: {e}"))?;
        let mut dump = Vec::new();
        for (k, c) in self.cmds.iter().enumerate() {
            let Some(seg) = segs.get(k + 1) else {
                return Err(format!("the debugger ends before command {k} ({c:?})"));
            };
            let at = |e: String| format!("command {k} ({c:?}): {e}");
            let s = text(seg);
            match c {
                Cmd::Quit | Cmd::Eof => {
                    if segs.len() != k + 2 {
                        return Err(at("the debugger goes on".into()));
                    }
                    if s.contains("ended with") {
                        return Err(at(format!("the program goes on: {s:?}")));
                    }
                    return Ok(sim);
                }
                // where its tables are is not prescribed
                Cmd::Wide(14 | 15) => {
                    value(&s).ok_or(at(format!("no value: {s:?}")))?;
                }
                Cmd::Wide(n) => reg(&s, &wide_reg_name(*n), sim.vm.st.wr(*n)).map_err(at)?,
                Cmd::Byte(n) => reg(&s, &byte_reg_name(*n), sim.vm.st.br(*n) as u16).map_err(at)?,
                Cmd::Pc => reg(&s, "pc", sim.vm.st.pc).map_err(at)?,
                Cmd::Flags => {
                    let f = sim.vm.st.f;
                    let have: BTreeSet<&str> = s.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty()).collect();
                    for (n, v) in [("zero", f.z), ("overflow", f.o), ("sign", f.s), ("carry", f.c), ("user", true), ("vm", true)] {
                        if have.contains(n) != v {
                            return Err(at(format!("{n} is {v}, but {s:?} is shown")));
                        }
                    }
                }
                Cmd::Mem(a) => {
                    let h = hexes(&s);
                    let get = |a: u16| sim.vm.perms.get(&(a >> 7)).filter(|p| **p & crate::cpu::R != 0).map(|_| sim.vm.phys.ram[a as usize] as u32);
                    let mut want = Vec::new();
                    if let Some(x) = get(*a) {
                        want.push(x);
                        want.extend(get(a.wrapping_add(1)));
                    }
                    if h != want || want.len() < 2 && !s.contains('<') {
                        return Err(at(format!("{s:?} is shown for {want:02x?}")));
                    }
                }
                Cmd::Junk => (),
                Cmd::Goto(a) => {
                    sim.vm.st.pc = *a;
                    position(&s, &sim.vm, &self.obj).map_err(at)?;
                }
                Cmd::Next | Cmd::Into | Cmd::Out => {
                    let from = sim.vm.st.pc;
                    let (toks, after) = sim.resume(c, &mut dump).expect("was possible before");
                    let mut rest = &seg[..];
                    for t in &toks {
                        let want = match t {
                            Tok::Asked => b"STDIN requested: ".to_vec(),
                            Tok::Line(l) => [b"STDOUT line: ", &l[..], b"\n"].concat(),
                        };
                        match rest.strip_prefix(&want[..]) {
                            Some(r) => rest = r,
                            None => return Err(at(format!("from {from:04x}, {:?} expected: {:?}", short(&want), short(rest)))),
                        }
                    }
                    match after {
                        After::Prompt => {
                            if segs.len() <= k + 2 {
                                return Err(at(format!("the debugger ends, but the program stops at {:04x}: {:?}", sim.vm.st.pc, short(rest))));
                            }
                            if find(rest, b"STDOUT line: ").or(find(rest, b"STDIN requested: ")).is_some() {
                                return Err(at(format!("more input or output: {:?}", short(rest))));
                            }
                            position(&text(rest), &sim.vm, &self.obj).map_err(|e| at(format!("from {from:04x}: {e}")))?;
                        }
                        After::Ended(set) => {
                            let open = &sim.vm.out[sim.line..];
                            let want = if open.is_empty() { vec![] } else { [b"STDOUT line: ", open, b"\n"].concat() };
                            let Some(p) = find_or_empty(rest, &want) else {
                                return Err(at(format!("the program ends, but {:?} is missing: {:?}", short(&want), short(rest))));
                            };
                            let mut other = rest[..p].to_vec();
                            other.extend(&rest[p + want.len()..]);
                            let other = text(&other);
                            if other.contains("STDOUT line: ") || other.contains("STDIN requested: ") {
                                return Err(at(format!("more input or output: {other:?}")));
                            }
                            if segs.len() != k + 2 {
                                return Err(at("the debugger goes on after the program ended".into()));
                            }
                            let has = |t: &u8| other.split(|c: char| !c.is_alphanumeric()).any(|w| w == trap::name(*t));
                            if !set.iter().any(has) {
                                return Err(at(format!("the program ends with {}: {other:?}", trap::name(set[0]))));
                            }
                            return Ok(sim);
                        }
                        After::Starved => {
                            let s = text(rest);
                            if segs.len() != k + 2 || s.contains("ended with") {
                                return Err(at(format!("the program goes on without input: {s:?}")));
                            }
                            return Ok(sim);
                        }
                    }
                }
            }
        }
        Err("unfinished session".into())
    }
}

fn find_or_empty(h: &[u8], n: &[u8]) -> Option<usize> {
    if n.is_empty() {
        Some(0)
    } else {
        find(h, n)
    }
}

/// A loaded object with a program
fn object(r: &mut Rng) -> (Obj, Vec<u8>, String) {
    let w = Want { stmts: *r.pick(&[3, 6, 10, 20]), routines: *r.pick(&[1, 3, 5]), newline: r.bool(), raw: false };
    let mut p = gen_prog(r, &w);
    r.shuffle(&mut p.blocks);
    let m = p.model();
    let page = r.chance(2, 3);
    let mut o = place(&m, &rand_layout(r, &m, page));
    if r.chance(1, 3) {
        o.flags = Some(r.bool());
    }
    if r.chance(1, 5) {
        o.stack = Some(*r.pick(&[0, 2, 0x80, 0x400]));
    }
    if r.chance(1, 4) {
        // some bytes differ
        for _ in 0..2 {
            let n = o.segs.len();
            let s = &mut o.segs[r.below(n)];
            if !s.2.is_empty() {
                let k = r.below(s.2.len());
                s.2[k] = r.u8();
            }
        }
    }
    if r.chance(1, 5) {
        // returns that drop more, or less
        for s in o.segs.iter_mut().filter(|s| s.0 == TEXT) {
            for k in 1..s.2.len() {
                if s.2[k - 1] == 0x26 && s.2[k] <= 2 && r.bool() {
                    s.2[k] = *r.pick(&[0xff, 0x80, 0x7f, 0xfe, 1, 3]);
                }
            }
        }
    }
    match r.below(5) {
        0 => o.syms.clear(),
        1 => o.syms.retain(|s| s.name.len() > 1),
        3 => {
            // stripped
            let all = r.chance(1, 4);
            o.syms.iter_mut().filter(|s| all || !s.global).for_each(|s| s.name.clear());
        }
        2 => {
            // two names for one place, and one name for two
            for _ in 0..3 {
                if let (Some(a), Some(b)) = (o.syms.first().cloned(), o.syms.last().cloned()) {
                    o.syms.push(Sym { name: format!("other{}", r.below(9)), global: r.bool(), ..a.clone() });
                    o.syms.push(Sym { name: a.name, global: false, ..b });
                }
                r.shuffle(&mut o.syms);
            }
        }
        _ => (),
    }
    let mut input = p.input.clone();
    if r.chance(1, 3) {
        input.truncate(r.below(20));
    }
    if r.chance(1, 4) {
        // lines that end otherwise
        let old = std::mem::take(&mut input);
        for b in old {
            if b == b'\n' && r.bool() {
                input.extend(*r.pick(&[&b"\r"[..], b" ", b"\r\r", b"\n", b"\0", b"\t"]));
            }
            input.push(b);
        }
    }
    if r.chance(3, 4) {
        input.push(b'\n');
    }
    let t = p.text();
    (o, input, t)
}

fn near(r: &mut Rng, o: &Obj, st: &St) -> u16 {
    match r.below(6) {
        0 => r.corner16(),
        1 => st.rs.wrapping_sub(2).wrapping_add(r.below(6) as u16),
        2 => st.pc,
        _ => {
            let s = r.pick(&o.segs);
            let n = s.2.len() as u16;
            match r.below(3) {
                0 => s.1.wrapping_add(n).wrapping_sub(r.below(3) as u16),
                1 => (s.1.wrapping_add(n) | 0x7f).wrapping_sub(r.below(2) as u16),
                _ => s.1.wrapping_add(r.below(n.max(1) as usize) as u16),
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Mixed,
    AllInto,
    AllNext,
}

fn plan(r: &mut Rng, obj: Obj, input: Vec<u8>, start: u16, mode: Mode, max: usize) -> Session {
    let mut s = Session { obj, input, start, cmds: vec![], stdin: vec![] };
    let mut sim = s.sim(&St::default());
    let mut first: Vec<Cmd> = (1..=13).map(Cmd::Wide).chain(Some(Cmd::Flags)).collect();
    r.shuffle(&mut first);
    let mut jumped = false;
    let goto_p = r.below(4);
    loop {
        let c = if !first.is_empty() {
            first.pop().unwrap()
        } else if s.cmds.len() >= max {
            if r.bool() { Cmd::Quit } else { Cmd::Eof }
        } else {
            let nest = sim.nesting();
            let q = if mode == Mode::Mixed { 25 } else { 60 };
            match r.below(q) {
                0 | 1 => Cmd::Wide(r.below(16) as u8),
                2 => Cmd::Byte(r.below(16) as u8),
                3 => Cmd::Pc,
                4 => Cmd::Flags,
                5 | 6 => Cmd::Mem(near(r, &s.obj, &sim.vm.st)),
                7 if r.chance(1, 3) => Cmd::Junk,
                8 if r.below(40) < goto_p => Cmd::Goto(near(r, &s.obj, &sim.vm.st)),
                9 if r.chance(1, 60) => Cmd::Quit,
                _ if mode == Mode::AllInto => Cmd::Into,
                _ if jumped => match nest {
                    0 => r.pick(&[Cmd::Next, Cmd::Into]).clone(),
                    _ => Cmd::Into,
                },
                _ if mode == Mode::AllNext && nest >= 0 => Cmd::Next,
                // what is next to a return is not prescribed
                _ if nest < 0 => r.pick(&[Cmd::Into, Cmd::Out]).clone(),
                _ if nest > 0 => r.pick(&[Cmd::Next, Cmd::Into, Cmd::Into]).clone(),
                _ if sim.depth > 0 && r.chance(1, 5) => Cmd::Out,
                _ if r.chance(1, 150) => Cmd::Out,
                _ => r.pick(&[Cmd::Next, Cmd::Into]).clone(),
            }
        };
        let mut line = spell(r, &c);
        match c {
            Cmd::Next | Cmd::Into | Cmd::Out => {
                let m = sim.mark();
                let mut more = Vec::new();
                match sim.resume(&c, &mut more) {
                    None => {
                        sim.reset(m);
                        let c = if r.bool() { Cmd::Quit } else { Cmd::Eof };
                        s.stdin.extend(spell(r, &c));
                        s.cmds.push(c);
                        return s;
                    }
                    Some((_, after)) => {
                        s.stdin.extend(line);
                        s.stdin.extend(more);
                        s.cmds.push(c);
                        if matches!(after, After::Ended(_)) && r.bool() {
                            s.stdin.extend(b"r1\nn\nq\n");
                        }
                        if after != After::Prompt {
                            return s;
                        }
                        // an input line that is not ended goes on with the next command
                        if sim.asked == s.input.len() && s.input.last().is_some_and(|b| *b != b'\n') && s.stdin.last() != Some(&b'\n') {
                            s.cmds.push(Cmd::Eof);
                            return s;
                        }
                    }
                }
                continue;
            }
            Cmd::Goto(a) => {
                sim.vm.st.pc = a;
                jumped = true;
            }
            Cmd::Quit => {
                if r.bool() {
                    line.pop();
                }
                s.stdin.extend(line);
                if r.bool() && s.stdin.last() == Some(&b'\n') {
                    s.stdin.extend(b"n\nn\n");
                }
                s.cmds.push(c);
                return s;
            }
            Cmd::Eof => {
                s.cmds.push(c);
                return s;
            }
            _ => (),
        }
        s.stdin.extend(line);
        s.cmds.push(c);
    }
}

/// A routine that calls itself many times, and writes on the way back
fn recursion(r: &mut Rng) -> Obj {
    let n = *r.pick(&[3, 17, 40, 100, 130, 257, 600]) + r.below(4) as u16;
    let at = 0x80 * r.range(1, 20) as u16;
    let [nl, nh] = n.to_le_bytes();
    let (own, end) = (at + 12, at + 28);
    let [ol, oh] = own.to_le_bytes();
    let [el, eh] = end.to_le_bytes();
    let mut b = vec![0x20, 0x40, 0x10, nl, nh, 0x25, ol, oh, 0x0a, 0, 0, 0];
    b[9] = 0x20;
    // own: push rl, r2 = 1, r1 -= r2, if it is zero goto end, call own
    b.extend([0x22, 0xc0, 0x40, 0x20, 1, 0, 0x44, 0x11, 0x20, 0x2f, el, eh, 0x25, ol, oh, 0x20]);
    // end: write a character, pop rl, return
    b.extend([0x40, 0x10, 4, 0, 0x3f, 0x30, 0x41, 0x3f, 0x40, 0x42, 0x0c, 0x24, 0xc0, 0x26, 0]);
    let mut o = Obj { entry: Some((TEXT, at)), stack: Some(0x1000), ..Default::default() };
    o.segs.push((TEXT, at, b));
    o.syms.push(Sym { name: "own".into(), global: true, seg: TEXT, loc: own });
    o.syms.push(Sym { name: "end".into(), global: false, seg: TEXT, loc: end });
    o
}

/// Steps deep into it, and out again in one way or the other
fn deep(c: &mut Case) {
    let mut r = c.rng.clone();
    let o = recursion(&mut r);
    let start = o.entry.unwrap().1;
    let mode = *r.pick(&[Mode::AllInto, Mode::Mixed, Mode::Mixed, Mode::AllNext]);
    let s = plan(&mut r, o, vec![], start, mode, 3000);
    let dir = c.dir();
    write(&dir, "p.to", s.obj.encode());
    c.eval(1);
    let out = c.run.tool("tdbg", &dir).arg("p.to").stdin(s.stdin.clone()).run();
    match s.judge(&out) {
        Err(e) => c.violation(format!("{e}\n  a routine that calls itself often\n  commands {:?}\n{}", clip(&format!("{:?}", s.cmds), 3000), out.show())),
        Ok(sim) => {
            c.count("instructions stepped", sim.steps as u64);
            c.nontrivial(hash_bytes(&s.stdin) ^ hash_bytes(&s.obj.encode()));
            c.sample("recursion", || format!("{} commands, {} instructions, {} written", s.cmds.len(), sim.steps, sim.vm.out.len()));
        }
    }
}

/// Chooses where to start, and says so to the debugger
fn entry(r: &mut Rng, o: &Obj) -> (u16, Vec<String>) {
    let dflt = o.entry.map_or(0, |e| e.1);
    let flag = |r: &mut Rng, v: String| match r.below(3) {
        0 => vec!["-E".into(), v],
        1 => vec![format!("-E{v}")],
        _ => vec!["--entry".into(), v],
    };
    match r.below(6) {
        0 => {
            let t = o.seg(TEXT).map_or(0x80, |s| s.1);
            let a = if r.bool() { dflt } else { t.wrapping_add(r.below(20) as u16) };
            let v = if r.bool() { format!("0x{a:x}") } else { format!("0x{a:04X}") };
            (a, flag(r, v))
        }
        1 => {
            // names with one meaning
            let ok: Vec<&Sym> = o
                .syms
                .iter()
                .filter(|s| !s.name.is_empty() && !s.name.starts_with("0x") && !s.name.starts_with('-'))
                .filter(|s| {
                    let same: Vec<&Sym> = o.syms.iter().filter(|t| t.name == s.name).collect();
                    same.len() == 1 || s.global && same.iter().filter(|t| t.global).count() == 1
                })
                .collect();
            if ok.is_empty() {
                return (dflt, vec![]);
            }
            let s = *r.pick(&ok);
            (s.loc, flag(r, s.name.clone()))
        }
        _ => (dflt, vec![]),
    }
}

fn session(c: &mut Case, mode: Mode) {
    let mut r = c.rng.clone();
    let (o, input, src) = object(&mut r);
    let (start, mut args) = entry(&mut r, &o);
    let max = match mode {
        Mode::Mixed => *r.pick(&[20, 60, 150, 300]),
        _ => 1500,
    };
    let s = plan(&mut r, o, input, start, mode, max);
    let dir = c.dir();
    write(&dir, "p.to", s.obj.encode());
    args.insert(if r.bool() { 0 } else { args.len() }, "p.to".into());
    c.eval(1);
    let out = c.run.tool("tdbg", &dir).args(&args).stdin(s.stdin.clone()).run();
    match s.judge(&out) {
        Err(e) => {
            let syms: Vec<String> = s.obj.syms.iter().map(|s| format!("{} {:04x}", s.name, s.loc)).collect();
            let segs: Vec<String> = s.obj.segs.iter().map(|s| format!("{} {:04x}+{:x}", crate::objfmt::seg_name(s.0), s.1, s.2.len())).collect();
            c.violation(format!(
                "{e}\n  tdbg {}\n  commands {:?}\n  stdin {:?}\n  start {start:04x}, segments {}, symbols {}\n{}\n{}",
                args.join(" "),
                s.cmds,
                short(&s.stdin),
                segs.join(", "),
                clip(&syms.join(", "), 400),
                clip(&src, 3000),
                out.show()
            ))
        }
        Ok(sim) => {
            c.count("instructions stepped", sim.steps as u64);
            c.count("bytes of output", sim.vm.out.len() as u64);
            c.count("bytes of input", sim.vm.pos as u64);
            for k in &s.cmds {
                let n = match k {
                    Cmd::Wide(_) | Cmd::Byte(_) | Cmd::Pc => "register",
                    Cmd::Mem(_) => "memory",
                    Cmd::Goto(_) => "goto",
                    Cmd::Flags => "flags",
                    Cmd::Next => "next",
                    Cmd::Into => "step into",
                    Cmd::Out => "step out",
                    Cmd::Quit => "quit",
                    Cmd::Eof => "end of input",
                    Cmd::Junk => "not a command",
                };
                c.count(&format!("command: {n}"), 1);
            }
            c.nontrivial(hash_bytes(&s.stdin) ^ hash_bytes(&s.obj.encode()));
            c.sample("session", || format!("{} commands, {} instructions, {} written, {} read", s.cmds.len(), sim.steps, sim.vm.out.len(), sim.vm.pos));
        }
    }
}

/// Any commands, any input, any file: it ends, in an orderly way
fn hostile(c: &mut Case) {
    let mut r = c.rng.clone();
    let (o, input, _) = object(&mut r);
    let (start, mut args) = entry(&mut r, &o);
    let mut s = plan(&mut r, o, input, start, Mode::Mixed, 60);
    let mut b = s.obj.encode();
    let mut bad = false;
    let mode = r.below(4);
    match mode {
        0 => s.stdin.truncate(r.below(s.stdin.len() + 1)),
        1 => {
            s.stdin.truncate(r.below(s.stdin.len() + 1));
            s.stdin.extend((0..r.below(200)).map(|_| *r.pick(b"nsiorqg 0x19bflagp\n\n\n\n\xff\x00")));
        }
        2 => {
            b.truncate(r.below(b.len()));
            bad = true;
        }
        _ => {
            args = vec![r.pick(&["-E0xzz", "-Enowhere", "-E0x", "-E0x10000", "-E"]).to_string()];
            s.stdin = b"q\n".to_vec();
        }
    }
    let dir = c.dir();
    write(&dir, "p.to", &b);
    args.insert(0, "p.to".into());
    c.eval(1);
    let out = c.run.tool("tdbg", &dir).args(&args).stdin(s.stdin.clone()).cpu(if mode == 1 { 3 } else { 20 }).run();
    let e = match out.abnormal() {
        // with other input and other jumps, the program itself may not end
        Some(_) if (out.capped || out.end == crate::tools::End::Hang) && mode == 1 => None,
        Some(e) => Some(e),
        None if bad && out.ok() && crate::objfmt::parse(&b, true).is_err() => Some("accepts an unreadable file".into()),
        None => None,
    };
    if let Some(e) = e {
        return c.violation(format!("the debugger {e}\n  tdbg {}\n  stdin {:?}\n  {}", args.join(" "), short(&s.stdin), out.show()));
    }
    c.count("hostile sessions", 1);
    c.nontrivial(hash_bytes(&s.stdin) ^ hash_bytes(&b));
}

pub fn c31(run: &Run) {
    run.cases("sessions", run.n(4000, 80_000), |c| session(c, Mode::Mixed));
    run.cases("every instruction", run.n(1000, 20_000), |c| session(c, Mode::AllInto));
    run.cases("every statement", run.n(1000, 20_000), |c| session(c, Mode::AllNext));
    run.cases("recursion", run.n(150, 3000), deep);
    run.cases("hostile", run.n(800, 20_000), hostile);
}
