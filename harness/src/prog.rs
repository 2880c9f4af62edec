//! Generated programs that end, and whose behaviour does not depend on where they are placed.

use std::collections::{BTreeMap, BTreeSet};

use crate::{
    asm::{Imm, Ins, It, Model, Src, O, O::*},
    objfmt::{Obj, Sym, DATA, HEAP, RODATA, TEXT},
    rng::Rng,
    vm::{run_sure, Outcome},
};

/// A piece that may be placed anywhere: code that is not fallen into or out of, or data
#[derive(Clone)]
pub struct Block {
    pub seg: u8,
    /// what others refer to
    pub name: String,
    /// names only used inside
    pub locals: Vec<String>,
    pub items: Vec<It>,
}

impl Block {
    /// Names of other blocks this one refers to
    pub fn uses(&self) -> BTreeSet<String> {
        let mut s = BTreeSet::new();
        for it in &self.items {
            match it {
                It::WideLabel(l) => {
                    s.insert(l.clone());
                }
                It::Ins(Ins { imm: Imm::Label(l), .. }) => {
                    s.insert(l.clone());
                }
                _ => (),
            }
        }
        s.remove(&self.name);
        for l in &self.locals {
            s.remove(l);
        }
        s
    }
    pub fn renamed(&self, f: impl Fn(&str) -> String) -> Block {
        let mut b = self.clone();
        b.name = f(&b.name);
        for l in b.locals.iter_mut() {
            *l = f(l);
        }
        for it in b.items.iter_mut() {
            match it {
                It::WideLabel(l) | It::Label(l) => *l = f(l),
                It::Ins(Ins { imm: Imm::Label(l), .. }) => *l = f(l),
                _ => (),
            }
        }
        b
    }
}

#[derive(Clone)]
pub struct Prog {
    /// the first one has the entry point
    pub blocks: Vec<Block>,
    pub input: Vec<u8>,
}

impl Prog {
    pub fn source(&self) -> Src {
        let mut items = Vec::new();
        for b in &self.blocks {
            items.push(It::Seg(b.seg));
            items.extend(b.items.iter().cloned());
        }
        Src { path: "p.telda".into(), items }
    }
    pub fn model(&self) -> Model {
        Model::assemble(&[self.source()], 0)
    }
    pub fn text(&self) -> String {
        self.source().text(&mut crate::asm::Speller::plain())
    }
}

/// An executable with the segments of a model at these addresses
pub fn place(m: &Model, at: &BTreeMap<u8, u16>) -> Obj {
    let addr = |(s, o): (u8, usize)| at[&s].wrapping_add(o as u16);
    let mut o = Obj::default();
    for (s, b) in &m.segs {
        let mut b = b.clone();
        for (rs, off, l) in &m.relocs {
            if rs == s {
                b[*off..off + 2].copy_from_slice(&addr(m.defs[l]).to_le_bytes());
            }
        }
        o.segs.push((*s, at[s], b));
    }
    for (n, d) in &m.defs {
        o.syms.push(Sym { name: n.clone(), global: m.globals.contains(n), seg: d.0, loc: addr(*d) });
    }
    o.entry = m.entry.map(|e| (e.0, addr(e)));
    o
}

/// Starts for the segments of a model; page: each on pages of its own
pub fn rand_layout(r: &mut Rng, m: &Model, page: bool) -> BTreeMap<u8, u16> {
    loop {
        let mut segs: Vec<u8> = m.segs.keys().copied().collect();
        r.shuffle(&mut segs);
        let mut at = 0x80 + r.below(3) as u32 * 0x80;
        let mut out = BTreeMap::new();
        for s in segs {
            if r.chance(1, 4) {
                at += r.below(0x3000) as u32;
            }
            if page || r.chance(3, 4) {
                at = (at + 127) & !127;
            }
            out.insert(s, at as u16);
            at += m.segs[&s].len() as u32;
            if s == HEAP {
                at += 0x480;
            }
        }
        if at < 0xf800 {
            return out;
        }
    }
}

struct Gen<'a> {
    r: &'a mut Rng,
    blocks: Vec<Block>,
    nlocal: usize,
    cur: Vec<It>,
    locals: Vec<String>,
    /// routines: name, whether its argument is on the stack
    routines: Vec<(String, bool)>,
    tables: usize,
    vars: Vec<(String, usize, u8)>,
    texts: Vec<String>,
    puts: bool,
    level: usize,
    handler: bool,
    depth: usize,
    /// of 100 statements, those that talk
    input_p: usize,
    /// devices instead of system calls
    raw: bool,
}

const W8: u8 = 8;

fn i(name: &str, ops: &[O], regs: &[u8], imm: Imm) -> It {
    It::Ins(Ins::new(name, ops, regs, imm))
}
fn lab(s: &str) -> Imm {
    Imm::Label(s.into())
}

impl Gen<'_> {
    fn put(&mut self, it: It) {
        self.cur.push(it);
    }
    fn ldi(&mut self, reg: u8, v: u16) {
        self.put(i("ldi", &[W, Iw], &[reg], Imm::Num(v)));
    }
    fn ldib(&mut self, reg: u8, v: u8) {
        self.put(i("ldi", &[B, Ib], &[reg], Imm::Num(v as u16)));
    }
    fn local(&mut self) -> String {
        self.nlocal += 1;
        let l = format!("_{}", self.nlocal);
        self.locals.push(l.clone());
        l
    }
    /// byte registers of r1..r6, mostly r3..r5
    fn breg(&mut self) -> u8 {
        if self.r.chance(1, 8) {
            self.r.below(13) as u8
        } else {
            *self.r.pick(&[5, 6, 7, 8, 9, 10, 11])
        }
    }
    fn wreg(&mut self) -> u8 {
        if self.r.chance(1, 8) {
            self.r.below(7) as u8
        } else {
            *self.r.pick(&[3, 4, 5, 6])
        }
    }
    fn putc(&mut self, c: u8) {
        if !self.raw {
            self.ldi(1, 4);
        }
        self.ldib(3, c);
        self.say();
    }
    /// writes r2l
    fn say(&mut self) {
        if !self.raw {
            self.put(i("syscall", &[], &[], Imm::No));
            return;
        }
        let port = self.r.below(0x7f) as u16;
        match self.r.below(8) {
            0 => self.put(i("store", &[W, Iw, W], &[0, 2], Imm::Num(port))),
            1 => {
                self.ldi(8, port);
                self.put(i("store", &[W, W, B], &[8, 0, 3], Imm::No));
            }
            _ => self.put(i("store", &[W, Iw, B], &[0, 3], Imm::Num(port))),
        }
    }
    fn out_byte(&mut self, reg: u8) {
        let k = self.r.below(3);
        match k {
            0 => self.put(i("or", &[B, B, B], &[3, reg, 0], Imm::No)),
            1 => self.put(i("add", &[B, B, B], &[3, reg, 0], Imm::No)),
            _ => {
                self.put(i("push", &[B], &[reg], Imm::No));
                self.put(i("pop", &[B], &[3], Imm::No));
            }
        }
        if !self.raw {
            self.ldi(1, 4);
        }
        self.say();
    }
    fn getc(&mut self, reg: u8) {
        if self.raw {
            let port = self.r.below(0x7f) as u16;
            return match self.r.below(6) {
                0 => self.put(i("load", &[W, W, Iw], &[4, 0], Imm::Num(port))),
                _ => self.put(i("load", &[B, W, Iw], &[reg, 0], Imm::Num(port))),
            };
        }
        self.ldi(1, 3);
        self.put(i("syscall", &[], &[], Imm::No));
        self.put(i("or", &[B, B, B], &[reg, 1, 0], Imm::No));
    }
    fn alu(&mut self) {
        let wide = self.r.bool();
        let o = if wide { W } else { B };
        let reg = |g: &mut Self| if wide { g.wreg() } else { g.breg() };
        let name = *self.r.pick(&["add", "sub", "and", "or", "xor", "shl", "asr", "lsr", "mul", "div", "add", "sub"]);
        let (a, b, c, d) = (reg(self), reg(self), reg(self), reg(self));
        match name {
            "mul" => self.put(i("mul", &[o; 4], &[a, b, c, d], Imm::No)),
            "div" => {
                if !self.r.chance(1, 30) {
                    // not by zero
                    if wide {
                        self.ldi(6, 1 + self.r.clone().below(300) as u16);
                    } else {
                        let v = 1 + self.r.below(40) as u8;
                        self.ldib(11, v);
                    }
                    let d = if wide { 6 } else { 11 };
                    self.put(i("div", &[o; 4], &[a, b, c, d], Imm::No));
                } else {
                    self.put(i("div", &[o; 4], &[a, b, c, d], Imm::No));
                }
            }
            _ => self.put(i(name, &[o; 3], &[a, b, c], Imm::No)),
        }
    }
    fn var(&mut self) -> (String, usize, u8) {
        self.r.pick(&self.vars.clone()).clone()
    }
    fn memory(&mut self) {
        let (v, n, seg) = self.var();
        let wide = n >= 2 && self.r.bool();
        let off = self.r.below(n - wide as usize) as u16;
        let o = if wide { W } else { B };
        let x = if wide { self.wreg() } else { self.breg() };
        let writable = seg == DATA || seg == HEAP;
        let store = writable && self.r.bool() || !writable && self.r.chance(1, 60);
        match self.r.below(3) {
            // address in a register, offset in the instruction
            0 => {
                self.put(i("ldi", &[W, Iw], &[7], lab(&v)));
                match store {
                    true => self.put(i("store", &[W, Iw, o], &[7, x], Imm::Num(off))),
                    false => self.put(i("load", &[o, W, Iw], &[x, 7], Imm::Num(off))),
                }
            }
            // the other way round
            1 => {
                self.ldi(7, off);
                match store {
                    true => self.put(i("store", &[W, Iw, o], &[7, x], lab(&v))),
                    false => self.put(i("load", &[o, W, Iw], &[x, 7], lab(&v))),
                }
            }
            // both in registers
            _ => {
                self.put(i("ldi", &[W, Iw], &[7], lab(&v)));
                self.ldi(6, off);
                match store {
                    true => self.put(i("store", &[W, W, o], &[7, 6, x], Imm::No)),
                    false => self.put(i("load", &[o, W, W], &[x, 7, 6], Imm::No)),
                }
            }
        }
        // addresses do not stay in registers that are calculated with
        self.ldi(7, 0);
    }
    fn call(&mut self) {
        let rs = self.routines.clone();
        if rs.is_empty() {
            return self.putc(b'-');
        }
        let (n, arg) = self.r.pick(&rs).clone();
        let keep = self.level > 0;
        if keep {
            self.put(i("push", &[W], &[12], Imm::No));
        }
        if arg {
            let x = self.wreg();
            self.put(i("push", &[W], &[x], Imm::No));
        }
        self.put(i("call", &[Iw], &[], lab(&n)));
        if keep {
            self.put(i("pop", &[W], &[12], Imm::No));
        }
    }
    fn branch(&mut self) {
        let wide = self.r.bool();
        let (o, a, b) = if wide { (W, self.wreg(), self.wreg()) } else { (B, self.breg(), self.breg()) };
        let l = self.local();
        let cond = *self.r.pick(&["jez", "jlt", "jle", "jgt", "jge", "jnz", "jo", "jno", "ja", "jae", "jb", "jbe"]);
        self.put(i("sub", &[o; 3], &[0, a, b], Imm::No));
        self.put(i(cond, &[Iw], &[], lab(&l)));
        let n = self.r.range(1, 2);
        self.stmts(n);
        if self.r.bool() {
            let e = self.local();
            self.put(i("jmp", &[Iw], &[], lab(&e)));
            self.put(It::Label(l));
            let n = self.r.range(1, 2);
            self.stmts(n);
            self.put(It::Label(e));
        } else {
            self.put(It::Label(l));
        }
        self.put(i("nop", &[], &[], Imm::No));
    }
    fn repeat(&mut self) {
        // the counter is kept on the stack
        let n = self.r.range(1, 4) as u16;
        let l = self.local();
        self.ldi(10, n);
        self.put(It::Label(l.clone()));
        self.put(i("push", &[W], &[10], Imm::No));
        let k = self.r.range(1, 3);
        self.stmts(k);
        self.put(i("pop", &[W], &[10], Imm::No));
        self.ldi(9, 1);
        self.put(i("sub", &[W, W, W], &[10, 10, 9], Imm::No));
        self.put(i("jnz", &[Iw], &[], lab(&l)));
    }
    /// many characters in a row, mostly no line end among them
    fn long_line(&mut self) {
        let n = *self.r.pick(&[60u16, 130, 260, 515, 1030]);
        let l = self.local();
        self.ldi(10, n);
        self.ldi(9, 1);
        self.ldib(3, b'#');
        self.put(It::Label(l.clone()));
        self.ldi(1, 4);
        self.put(i("syscall", &[], &[], Imm::No));
        match self.r.below(4) {
            0 => self.put(i("xor", &[B, B, B], &[3, 3, 8], Imm::No)),
            _ => (),
        }
        self.put(i("sub", &[W, W, W], &[10, 10, 9], Imm::No));
        self.put(i("jnz", &[Iw], &[], lab(&l)));
    }
    fn table(&mut self) {
        // a jump through a table of addresses
        let n = self.r.range(2, 4);
        let pick = self.r.below(n);
        let ls: Vec<String> = (0..n).map(|_| self.local()).collect();
        let end = self.local();
        let t = self.local();
        self.tables += 1;
        self.ldi(6, 2 * pick as u16);
        self.put(i("load", &[W, W, Iw], &[7, 6], lab(&t)));
        self.put(i("jmp", &[W], &[7], Imm::No));
        for l in &ls {
            self.put(It::Label(l.clone()));
            self.ldi(7, 0);
            self.stmts(1);
            self.put(i("jmp", &[Iw], &[], lab(&end)));
        }
        let s = *self.r.pick(&[DATA, RODATA]);
        self.put(It::Seg(s));
        self.put(It::Label(t));
        for l in ls {
            self.put(It::WideLabel(l));
        }
        self.put(It::Seg(TEXT));
        self.put(It::Label(end));
        self.ldi(7, 0);
    }
    fn print_text(&mut self) {
        if self.texts.is_empty() || !self.puts {
            return self.putc(b'?');
        }
        let t = self.r.pick(&self.texts.clone()).clone();
        if self.level > 0 {
            self.put(i("push", &[W], &[12], Imm::No));
        }
        self.put(i("ldi", &[W, Iw], &[7], lab(&t)));
        self.put(i("call", &[Iw], &[], lab("puts")));
        if self.level > 0 {
            self.put(i("pop", &[W], &[12], Imm::No));
        }
        self.ldi(7, 0);
    }
    fn trap_and_resume(&mut self) {
        let l = self.local();
        self.put(i("ldi", &[W, Iw], &[7], lab(&l)));
        self.ldi(6, 0);
        self.put(i("store", &[W, Iw, W], &[6, 7], lab("resume")));
        self.ldi(7, 0);
        match self.r.below(4) {
            0 => self.put(i("null", &[], &[], Imm::No)),
            1 => self.put(i("div", &[W; 4], &[3, 4, 5, 0], Imm::No)),
            2 => self.put(It::Byte(0x60 + self.r.clone().below(0x90) as u8)),
            _ => {
                let v: Vec<_> = self.vars.iter().filter(|v| v.2 == RODATA).cloned().collect();
                match v.first() {
                    Some(v) => self.put(i("store", &[W, Iw, B], &[6, 5], lab(&v.0.clone()))),
                    None => self.put(i("null", &[], &[], Imm::No)),
                }
            }
        }
        self.put(i("nop", &[], &[], Imm::No));
        self.put(It::Label(l));
        self.ldi(7, 0);
    }
    fn stmts(&mut self, n: usize) {
        if self.depth >= 3 {
            return self.put(i("nop", &[], &[], Imm::No));
        }
        self.depth += 1;
        for _ in 0..n {
            match self.r.below(30) {
                0 | 1 => {
                    let c = if self.r.chance(1, 5) { b'\n' } else { 0x20 + self.r.below(0x5f) as u8 };
                    self.putc(c);
                }
                2 | 3 => {
                    let b = self.breg();
                    self.out_byte(b);
                }
                4 => {
                    let w = self.wreg();
                    let v = self.r.corner16();
                    self.ldi(w, v);
                }
                5 => {
                    let b = self.breg();
                    let v = self.r.corner8();
                    self.ldib(b, v);
                }
                6..=11 => self.alu(),
                12..=15 => self.memory(),
                16 | 17 => self.call(),
                18 | 19 => self.branch(),
                20 => self.repeat(),
                21 => self.table(),
                22 | 23 => self.print_text(),
                24 => {
                    if self.r.below(100) < self.input_p {
                        let b = self.breg();
                        self.getc(b);
                        if self.r.bool() {
                            self.out_byte(b);
                        }
                    }
                }
                25 => {
                    let (x, y) = (self.breg(), self.breg());
                    self.put(i("push", &[B], &[x], Imm::No));
                    self.stmts(1);
                    self.put(i("pop", &[B], &[y], Imm::No));
                }
                26 => {
                    let (x, y) = (self.wreg(), self.wreg());
                    self.put(i("push", &[W], &[x], Imm::No));
                    self.stmts(1);
                    self.put(i("pop", &[W], &[y], Imm::No));
                }
                27 => {
                    // jump to a register
                    let l = self.local();
                    let x = *self.r.pick(&[7u8, 8, 9]);
                    self.put(i("ldi", &[W, Iw], &[x], lab(&l)));
                    self.put(i("jmp", &[W], &[x], Imm::No));
                    let c = self.r.u8();
                    self.putc(c);
                    self.put(It::Label(l));
                    self.ldi(x, 0);
                }
                28 if self.raw => self.put(i("syscall", &[], &[], Imm::No)),
                28 if self.handler && self.level == 0 => self.trap_and_resume(),
                _ => self.put(i("nop", &[], &[], Imm::No)),
            }
        }
        self.depth -= 1;
    }
    fn block(&mut self, name: &str, seg: u8, mut items: Vec<It>) {
        items.insert(0, It::Label(name.into()));
        self.blocks.push(Block { seg, name: name.into(), locals: std::mem::take(&mut self.locals), items });
    }
    fn finish_code(&mut self, name: &str) {
        let items = std::mem::take(&mut self.cur);
        self.block(name, TEXT, items);
    }
}

/// Where ROM programs keep their page tables
pub const ROM_TABLE: u16 = 0x7000;

pub struct Want {
    pub stmts: usize,
    pub routines: usize,
    /// ends every run with a line end
    pub newline: bool,
    /// for a ROM image
    pub raw: bool,
}

/// A program; whether it ends is to be found out
pub fn gen_prog(r: &mut Rng, w: &Want) -> Prog {
    let handler = !w.raw && r.chance(1, 3);
    let mut g = Gen {
        blocks: vec![],
        nlocal: 0,
        cur: vec![],
        locals: vec![],
        routines: vec![],
        tables: 0,
        vars: vec![],
        texts: vec![],
        puts: false,
        level: 0,
        handler,
        depth: 0,
        input_p: *r.pick(&[0, 50, 100]),
        raw: w.raw,
        r,
    };
    // data
    for k in 0..g.r.range(1, 5) {
        let seg = *g.r.pick(&[DATA, DATA, RODATA, HEAP]);
        let n = g.r.range(1, 8);
        let name = format!("v{k}");
        let mut items = Vec::new();
        let mut left = n;
        while left > 0 {
            match g.r.below(3) {
                0 => {
                    items.push(It::Byte(g.r.u8()));
                    left -= 1;
                }
                1 if left >= 2 => {
                    items.push(It::Wide(g.r.u16()));
                    left -= 2;
                }
                _ => {
                    let b = crate::asm::rand_bytes(g.r, left);
                    left -= b.len().min(left);
                    items.push(It::Bytes(b));
                }
            }
        }
        g.vars.push((name.clone(), n, seg));
        g.block(&name, seg, items);
    }
    for k in 0..g.r.below(4) {
        let n = g.r.below(12);
        let mut b: Vec<u8> = crate::asm::rand_bytes(g.r, n);
        b.retain(|x| *x != 0);
        let mut items = Vec::new();
        if !b.is_empty() {
            items.push(It::Bytes(b));
        }
        items.push(It::Byte(0));
        let name = format!("t{k}");
        g.texts.push(name.clone());
        let s = *g.r.pick(&[RODATA, DATA]);
        g.block(&name, s, items);
    }
    g.puts = !g.texts.is_empty();
    if g.puts {
        let (l, e) = (g.local(), g.local());
        g.put(It::Label(l.clone()));
        g.put(i("load", &[B, W, Iw], &[3, 7], Imm::Num(0)));
        g.put(i("sub", &[B, B, B], &[0, 3, 0], Imm::No));
        g.put(i("jez", &[Iw], &[], lab(&e)));
        if !g.raw {
            g.ldi(1, 4);
        }
        g.say();
        g.ldi(W8, 1);
        g.put(i("add", &[W, W, W], &[7, 7, 8], Imm::No));
        g.put(i("jmp", &[Iw], &[], lab(&l)));
        g.put(It::Label(e));
        g.put(i("ret", &[], &[], Imm::No));
        g.finish_code("puts");
    }
    if handler {
        g.block("resume", DATA, vec![It::Wide(0)]);
        // which trap, then on where the interrupted code wants
        g.ldib(3, b'A');
        g.put(i("add", &[B, B, B], &[3, 3, 1], Imm::No));
        g.ldi(1, 4);
        g.put(i("syscall", &[], &[], Imm::No));
        g.ldi(6, 0);
        g.put(i("load", &[W, W, Iw], &[7, 6], lab("resume")));
        g.put(i("jmp", &[W], &[7], Imm::No));
        g.finish_code("on_trap");
    }
    if w.raw {
        for _ in 0..g.r.below(4) {
            let b = g.breg();
            match g.r.below(3) {
                0 => g.out_byte(b),
                1 => g.putc(b'!'),
                _ => g.alu(),
            }
        }
        g.put(i("reth", &[], &[], Imm::No));
        g.finish_code("on_trap");
    }
    // routines, callees first
    let n = g.r.below(w.routines + 1);
    for k in 0..n {
        g.level = 1;
        let arg = g.r.chance(1, 3);
        let name = format!("f{k}");
        if arg {
            let x = g.wreg();
            g.put(i("load", &[W, W, Iw], &[x, 11], Imm::Num(0)));
        }
        if g.r.chance(1, 6) {
            // calls itself a few times
            let l = g.local();
            let v = g.vars.iter().find(|v| v.2 != RODATA).cloned();
            if let Some((v, _, _)) = v {
                g.ldi(6, 0);
                g.put(i("load", &[B, W, Iw], &[5, 6], lab(&v)));
                g.ldib(7, 1);
                g.ldib(8, 7);
                g.put(i("add", &[B, B, B], &[5, 5, 7], Imm::No));
                g.put(i("store", &[W, Iw, B], &[6, 5], lab(&v)));
                g.put(i("and", &[B, B, B], &[0, 5, 8], Imm::No));
                g.put(i("jez", &[Iw], &[], lab(&l)));
                g.put(i("push", &[W], &[12], Imm::No));
                if arg {
                    g.put(i("push", &[W], &[5], Imm::No));
                }
                g.put(i("call", &[Iw], &[], lab(&name)));
                g.put(i("pop", &[W], &[12], Imm::No));
                g.put(It::Label(l));
            }
        }
        if !w.raw && g.r.chance(1, 20) {
            g.long_line();
        }
        let m = g.r.range(1, w.stmts / 2 + 1);
        g.stmts(m);
        match arg {
            true => g.put(i("ret", &[Ib], &[], Imm::Num(2))),
            false => g.put(i("ret", &[], &[], Imm::No)),
        }
        g.finish_code(&name);
        g.routines.push((name, arg));
    }
    // main
    g.level = 0;
    g.put(It::Entry);
    if w.raw {
        let v = *g.r.pick(&[0xf000, 0xc001, 0xe07f]);
        g.ldi(11, v);
        if g.r.chance(1, 3) {
            // page tables in the ROM
            g.ldi(14, ROM_TABLE);
            g.put(It::Byte(0x11));
        }
        if g.r.bool() {
            g.put(i("ldi", &[W, Iw], &[15], lab("on_trap")));
        }
    }
    for x in [1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12] {
        let v = g.r.corner16();
        g.ldi(x, v);
    }
    g.put(i("add", &[W, W, W], &[0, 3, 4], Imm::No));
    if handler {
        g.ldi(1, 15);
        g.put(i("ldi", &[W, Iw], &[2], lab("on_trap")));
        g.put(i("syscall", &[], &[], Imm::No));
        g.ldi(2, 0);
    }
    let m = g.r.range(2, w.stmts);
    g.stmts(m);
    if w.raw {
        match g.r.below(3) {
            0 => g.put(It::Byte(0x12)),
            1 => g.put(It::Byte(0x10)),
            _ => (),
        }
        g.ldi(15, 0);
    }
    if w.newline {
        g.putc(b'\n');
    }
    if handler {
        // no way back any more
        let l = g.local();
        g.put(i("ldi", &[W, Iw], &[7], lab(&l)));
        g.ldi(6, 0);
        g.put(i("store", &[W, Iw, W], &[6, 7], lab("resume")));
        g.put(It::Label(l));
    }
    match g.r.below(12) {
        0 => {
            let n = *g.r.pick(&[1, 2, 5, 14, 16, 77, 0x103, 0xffff]);
            g.ldi(1, n);
            g.put(i("syscall", &[], &[], Imm::No));
        }
        1 if !handler => g.put(i("null", &[], &[], Imm::No)),
        2 if !handler => g.put(i("div", &[B; 4], &[5, 6, 7, 0], Imm::No)),
        3 if !handler => {
            g.ldi(7, 0);
            g.put(i("load", &[W, W, Iw], &[3, 7], Imm::Num(0)));
        }
        4 if !handler => {
            // stack underflow
            g.put(i("pop", &[W], &[3], Imm::No));
        }
        5 if !handler => {
            g.put(i("jmp", &[Iw], &[], lab(&g.vars[0].0.clone())));
        }
        6 if !handler => g.put(i("store", &[W, Iw, B], &[0, 5], lab("main"))),
        7 if !handler => g.put(i("ldi", &[W, Iw], &[14], Imm::Num(3))),
        8 if !handler => g.put(i("reth", &[], &[], Imm::No)),
        9 if !handler => g.put(It::Byte(*g.r.clone().pick(&[0x10, 0x11, 0x12, 0x99, 0xff]))),
        _ => (),
    }
    g.put(i("halt", &[], &[], Imm::No));
    g.finish_code("main");
    let main = g.blocks.pop().unwrap();
    let mut blocks = vec![main];
    blocks.append(&mut g.blocks);
    let n = r.range(0, 600);
    let input = (0..n).map(|_| if r.chance(1, 6) { b'\n' } else { r.u8() }).collect();
    Prog { blocks, input }
}

/// A program whose outcome is certain, with that outcome: it is the same wherever it is placed
pub fn sure_prog(r: &mut Rng, w: &Want) -> (Prog, Outcome) {
    loop {
        let mut p = gen_prog(r, w);
        let mut out: Option<Outcome> = None;
        let mut ok = true;
        for k in 0..3 {
            let mut q = p.clone();
            if k > 0 {
                r.shuffle(&mut q.blocks);
            }
            let m = q.model();
            let o = place(&m, &rand_layout(r, &m, true));
            let Some(mut x) = run_sure(&o, &p.input, 20_000) else {
                ok = false;
                break;
            };
            x.pc = 0;
            x.slack = 0;
            match &out {
                None => out = Some(x),
                Some(y) if *y == x => (),
                _ => {
                    ok = false;
                    break;
                }
            }
        }
        if let (true, Some(x)) = (ok, out) {
            if x.out.len() < 8000 {
                p.input.truncate(x.used);
                return (p, x);
            }
        }
    }
}
