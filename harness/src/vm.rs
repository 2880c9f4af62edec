//! Models of whole machines: a loaded user program under the emulated kernel, and a raw ROM.

use std::collections::{BTreeMap, HashMap};

use crate::{
    cpu::{self, Bus, Res, St, P, R, U, W, X},
    objfmt::{Obj, DATA, HEAP, RODATA, TEXT},
    rng::Rng,
    spec::{self, trap},
};

pub fn stack_size(o: &Obj) -> u32 {
    o.stack.unwrap_or(0x180) as u32
}
pub fn heap_size(o: &Obj) -> u32 {
    o.heap.unwrap_or(0x400) as u32
}

/// Page number -> permissions that must be mapped
pub fn expected(o: &Obj) -> BTreeMap<u16, u8> {
    let mut m: BTreeMap<u16, u8> = BTreeMap::new();
    let mut add = |from: u32, to: u32, perm: u8| {
        let mut p = from >> 7;
        while p << 7 < to {
            *m.entry(p as u16).or_default() |= perm | P | U;
            p += 1;
        }
    };
    for (t, at, b) in &o.segs {
        let at = *at as u32;
        let perm = match *t {
            DATA | HEAP => R | W,
            RODATA => R,
            TEXT => {
                if o.flags == Some(true) {
                    X | R
                } else {
                    X
                }
            }
            _ => R | W | X,
        };
        add(at, at + b.len() as u32, perm);
        if *t == HEAP {
            add(at, at + heap_size(o), perm);
        }
    }
    add(0x1_0000 - stack_size(o), 0x1_0000, R | W);
    m
}


const ROOT: u32 = 0x8000;
const FRAMES: u32 = 0x10_0000;

/// Tables at ROOT, frames in order
pub struct Phys {
    tab: Vec<u8>,
    pub ram: Vec<u8>,
}
impl Bus for Phys {
    fn get(&mut self, a: u32) -> u8 {
        match a {
            FRAMES.. => self.ram[(a - FRAMES) as usize],
            _ => self.tab[(a - ROOT) as usize],
        }
    }
    fn put(&mut self, a: u32, v: u8) {
        match a {
            FRAMES.. => self.ram[(a - FRAMES) as usize] = v,
            _ => self.tab[(a - ROOT) as usize] = v,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Stepped {
    Go,
    /// ended with one of these traps; the program counter is at most so many bytes further
    End(Vec<u8>, u16),
    /// what happens is not prescribed
    Unsure,
    /// reads more input than there is
    Starved,
}

/// Which registers have a value that the program put there
#[derive(Clone, Default)]
pub struct Defs {
    /// r1l, r1h, ...
    gp: [bool; 20],
    rs: bool,
    rl: bool,
    rf: bool,
    rp: bool,
    flags: bool,
}

impl Defs {
    pub fn all() -> Defs {
        Defs { gp: [true; 20], rs: true, rl: true, rf: true, rp: true, flags: true }
    }
    fn has(&self, r: u8, wide: bool) -> bool {
        match (r, wide) {
            (0, _) => true,
            (1..=10, true) => self.gp[r as usize * 2 - 2] && self.gp[r as usize * 2 - 1],
            (11, true) => self.rs,
            (12, true) => self.rl,
            (13, true) => self.rf,
            (14, true) => self.rp,
            (_, true) => true,
            (1..=10, false) => self.gp[r as usize - 1],
            _ => self.gp[10 + (r as usize - 11) * 2],
        }
    }
    fn set(&mut self, r: u8, wide: bool) {
        match (r, wide) {
            (1..=10, true) => {
                self.gp[r as usize * 2 - 2] = true;
                self.gp[r as usize * 2 - 1] = true;
            }
            (11, true) => self.rs = true,
            (12, true) => self.rl = true,
            (13, true) => self.rf = true,
            (14, true) => self.rp = true,
            (1..=10, false) => self.gp[r as usize - 1] = true,
            (11..=15, false) => {
                self.gp[10 + (r as usize - 11) * 2] = true;
                self.gp[11 + (r as usize - 11) * 2] = true;
            }
            _ => (),
        }
    }
    /// Whether the instruction with these bytes only uses what is known, and what is known after it
    pub fn step(&mut self, code: &[u8]) -> bool {
        use spec::Kind::*;
        let Some(op) = code.first().and_then(|c| spec::lookup(*c)) else { return true };
        let regs: Vec<(u8, bool)> = spec::reg_widths(op.fmt)
            .iter()
            .enumerate()
            .filter_map(|(i, w)| {
                let x = code.get(1 + i / 2)?;
                Some((if i % 2 == 0 { x >> 4 } else { x & 15 }, *w))
            })
            .collect();
        let jmp = op.kind == LdiJmp && code.get(1).is_some_and(|x| x & 15 == 1);
        let dn = match op.kind {
            Pop | Load | Ldi | Bin(_) | Pload => 1,
            LdiJmp if !jmp => 1,
            Mul | Div => 2,
            _ => 0,
        };
        let mut ok = regs.iter().skip(dn).all(|r| self.has(r.0, r.1));
        match op.kind {
            Push | Pop => ok &= self.rs,
            Ret => ok &= self.rs && self.rl,
            Jcc(_) => ok &= self.flags,
            Vmon => ok &= self.rp,
            Call => self.rl = true,
            _ => (),
        }
        for r in regs.iter().take(dn) {
            self.set(r.0, r.1);
        }
        if matches!(op.kind, Bin(_) | Mul) {
            self.flags = true;
        }
        ok
    }
}

pub struct Vm {
    pub defs: Defs,
    pub st: St,
    pub phys: Phys,
    pub perms: BTreeMap<u16, u8>,
    pub handler: u16,
    pub input: Vec<u8>,
    pub pos: usize,
    pub out: Vec<u8>,
}

impl Vm {
    pub fn load(o: &Obj, init: &St, input: &[u8]) -> Vm {
        let perms = expected(o);
        let mut tab = vec![0u8; 64 + 64 + 16 * 128];
        for (p, f) in &perms {
            let (i, k) = ((p >> 5) as usize, (p & 31) as usize);
            let t2 = 128 + 128 * i;
            let e1 = ((ROOT + t2 as u32) >> 7) << 15 | (P | R | W | X | U) as u32;
            tab[4 * i..4 * i + 4].copy_from_slice(&e1.to_le_bytes());
            let e2 = ((FRAMES + ((*p as u32) << 7)) >> 7) << 15 | *f as u32;
            tab[t2 + 4 * k..t2 + 4 * k + 4].copy_from_slice(&e2.to_le_bytes());
        }
        let mut ram = vec![0u8; 0x1_0000];
        for (_, at, b) in &o.segs {
            let at = *at as usize;
            ram[at..at + b.len()].copy_from_slice(b);
        }
        let mut st = init.clone();
        st.f = cpu::Fl { user: true, vm: true, ..Default::default() };
        st.rs = 0xffff;
        // as documented at the field
        st.rl = 0x80;
        st.rh = 0;
        st.rp = ROOT as u16;
        st.pc = o.entry.map_or(0, |e| e.1);
        let defs = Defs { rs: true, rl: true, ..Defs::default() };
        Vm { defs, st, phys: Phys { tab, ram }, perms, handler: 0, input: input.to_vec(), pos: 0, out: Vec::new() }
    }

    fn widen(&self, set: &[u8]) -> Vec<u8> {
        if set.contains(&trap::L1PF) || set.contains(&trap::L2PF) {
            // the flags of first-level entries are not prescribed
            let mut v = set.to_vec();
            for t in [trap::L1PF, trap::L2PF, trap::ILL_READ, trap::ILL_WRITE, trap::ILL_EXEC] {
                if !v.contains(&t) {
                    v.push(t);
                }
            }
            return v;
        }
        set.to_vec()
    }

    /// The bytes of the instruction at an address, as far as they can be fetched
    pub fn code(&self, pc: u16) -> Vec<u8> {
        let ok = |a: u16| self.perms.get(&(a >> 7)).is_some_and(|p| p & X != 0);
        let mut v = Vec::new();
        if !ok(pc) {
            return v;
        }
        v.push(self.phys.ram[pc as usize]);
        let n = spec::lookup(v[0]).map_or(0, |o| spec::fmt_len(o.fmt));
        for i in 1..=n {
            let a = pc.wrapping_add(i);
            if !ok(a) {
                break;
            }
            v.push(self.phys.ram[a as usize]);
        }
        v
    }

    pub fn step(&mut self) -> Stepped {
        let code = self.code(self.st.pc);
        let mut defs = self.defs.clone();
        if !defs.step(&code) {
            return Stepped::Unsure;
        }
        let out = cpu::step(&self.st, &mut self.phys);
        match out.res {
            Res::Done => {
                if out.op == Some(0x0d) {
                    return Stepped::Unsure;
                }
                self.st = out.st;
                self.defs = defs;
                Stepped::Go
            }
            Res::Trap(set) if set == [trap::SYSCALL] => {
                let n = self.st.wr(1);
                let d = &mut self.defs;
                if !d.has(1, true) || n == 4 && !d.has(3, false) || n == 15 && !d.has(2, true) {
                    return Stepped::Unsure;
                }
                match n {
                    // writes the memory map; where the frames are is not prescribed
                    0 => return Stepped::Unsure,
                    3 => {
                        let Some(b) = self.input.get(self.pos) else { return Stepped::Starved };
                        self.pos += 1;
                        self.st.set_br(1, *b);
                    }
                    4 => self.out.push(self.st.br(3)),
                    15 => {
                        if self.st.wr(2) == 0 {
                            return Stepped::Unsure;
                        }
                        self.handler = self.st.wr(2);
                    }
                    _ => return Stepped::End(vec![trap::SYSCALL], 1),
                }
                self.st.pc = self.st.pc.wrapping_add(1);
                Stepped::Go
            }
            Res::Trap(set) => {
                let wide = self.widen(&set);
                if self.handler == 0 || set == [trap::HALT] {
                    return Stepped::End(wide, out.len.max(1));
                }
                if wide.len() != 1 || !out.maybe.is_empty() || wide[0] == trap::SYSCALL {
                    return Stepped::Unsure;
                }
                let op = out.op.and_then(spec::lookup);
                if op.is_some_and(|o| matches!(o.kind, spec::Kind::Push | spec::Kind::Pop)) || wide[0] == trap::ILL_OP {
                    // the stack pointer or destinations may have been changed
                    return Stepped::Unsure;
                }
                self.st.set_wr(1, wide[0] as u16);
                self.defs.set(1, true);
                self.st.pc = self.handler;
                Stepped::Go
            }
        }
    }
}

/// What a run to the end gave
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Outcome {
    pub out: Vec<u8>,
    pub used: usize,
    pub end: Vec<u8>,
    pub pc: u16,
    pub slack: u16,
    pub steps: usize,
}

pub fn run_user(o: &Obj, init: &St, input: &[u8], max: usize) -> Option<Outcome> {
    let mut vm = Vm::load(o, init, input);
    for steps in 0..max {
        match vm.step() {
            Stepped::Go => (),
            Stepped::End(end, slack) => return Some(Outcome { out: vm.out, used: vm.pos, end, pc: vm.st.pc, slack, steps }),
            _ => return None,
        }
    }
    None
}

/// The outcome, if it is certain
pub fn run_sure(o: &Obj, input: &[u8], max: usize) -> Option<Outcome> {
    run_user(o, &St::default(), input, max)
}

// ------------------------------------------------------------------ raw ROM

struct Raw {
    rom: Vec<u8>,
    mem: HashMap<u32, u8>,
    input: Vec<u8>,
    pos: usize,
    starved: bool,
    out: Vec<u8>,
}
impl Bus for Raw {
    fn get(&mut self, a: u32) -> u8 {
        match a {
            0..0x80 => match self.input.get(self.pos) {
                Some(b) => {
                    self.pos += 1;
                    *b
                }
                None => {
                    self.starved = true;
                    0
                }
            },
            0x80..0x8000 => self.rom.get(a as usize - 0x80).copied().unwrap_or(0),
            _ => self.mem.get(&a).copied().unwrap_or(0),
        }
    }
    fn put(&mut self, a: u32, v: u8) {
        match a {
            0..0x80 => self.out.push(v),
            0x80..0x8000 => (),
            _ => {
                self.mem.insert(a, v);
            }
        }
    }
}

pub fn run_rom(rom: &[u8], init: &St, input: &[u8], max: usize) -> Option<Outcome> {
    let mut b = Raw { rom: rom.to_vec(), mem: HashMap::new(), input: input.to_vec(), pos: 0, starved: false, out: vec![] };
    let mut st = init.clone();
    st.f = cpu::Fl::default();
    st.pc = 0x80;
    st.rl = 0x80;
    st.rh = 0;
    let mut saved: Vec<(St, Defs)> = Vec::new();
    let mut defs = Defs { rl: true, ..Defs::default() };
    for steps in 0..max {
        let out = cpu::step(&st, &mut b);
        let code: Vec<u8> = out.fetched.iter().map(|a| if *a < 0x80 { 0 } else { b.get(*a) }).collect();
        let known = defs.clone();
        if !defs.step(&code) {
            return None;
        }
        // code and tables in the device page are not prescribed
        if b.starved || out.fetched.iter().chain(&out.ptes).any(|a| *a < 0x80) {
            return None;
        }
        match out.res {
            Res::Done if out.op == Some(0x0d) => {
                (st, defs) = saved.pop()?;
            }
            Res::Done => st = out.st,
            Res::Trap(set) => {
                if st.rh == 0 {
                    return Some(Outcome { out: b.out, used: b.pos, end: set, pc: st.pc, slack: out.len.max(1), steps });
                }
                // only what surely returns to the next instruction
                if set != [trap::SYSCALL] || st.f.vm || st.f.trap || st.f.user || !(0x9000..0xff00).contains(&st.rs) {
                    return None;
                }
                let mut s = st.clone();
                s.pc = s.pc.wrapping_add(1);
                saved.push((s, known));
                st.rs -= 34;
                defs.set(1, true);
                st.f.trap = true;
                st.set_wr(1, trap::SYSCALL as u16);
                st.pc = st.rh;
            }
        }
    }
    None
}
