//! Reference model of the processor, written from the documentation.
//! `step` gives what one instruction must do, or the set of traps that may be reported for it.

use crate::spec::{self, trap, Fmt, Kind};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default, Hash)]
pub struct Fl {
    pub user: bool,
    pub trap: bool,
    pub vm: bool,
    /// has no meaning, but is kept like the others
    pub res: bool,
    pub c: bool,
    pub s: bool,
    pub o: bool,
    pub z: bool,
}

#[derive(Clone, PartialEq, Eq, Debug, Default, Hash)]
pub struct St {
    /// r1..r10, little endian
    pub gp: [u8; 20],
    pub rs: u16,
    pub rl: u16,
    pub rf: u16,
    pub rp: u16,
    pub rh: u16,
    pub pc: u16,
    pub f: Fl,
}

impl St {
    pub fn br(&self, n: u8) -> u8 {
        match n {
            0 => 0,
            1..=10 => self.gp[n as usize - 1],
            _ => self.gp[10 + (n as usize - 11) * 2],
        }
    }
    pub fn set_br(&mut self, n: u8, v: u8) {
        match n {
            0 => (),
            1..=10 => self.gp[n as usize - 1] = v,
            _ => {
                self.gp[10 + (n as usize - 11) * 2] = v;
                self.gp[11 + (n as usize - 11) * 2] = 0;
            }
        }
    }
    pub fn wr(&self, n: u8) -> u16 {
        match n {
            0 => 0,
            1..=10 => u16::from_le_bytes([self.gp[n as usize * 2 - 2], self.gp[n as usize * 2 - 1]]),
            11 => self.rs,
            12 => self.rl,
            13 => self.rf,
            14 => self.rp,
            _ => self.rh,
        }
    }
    pub fn set_wr(&mut self, n: u8, v: u16) {
        match n {
            0 => (),
            1..=10 => {
                self.gp[n as usize * 2 - 2] = v as u8;
                self.gp[n as usize * 2 - 1] = (v >> 8) as u8;
            }
            11 => self.rs = v,
            12 => self.rl = v,
            13 => self.rf = v,
            14 => self.rp = v,
            _ => self.rh = v,
        }
    }
    pub fn show(&self) -> String {
        let mut s = String::new();
        for i in 1..=10 {
            s += &format!("r{i}={:04x} ", self.wr(i));
        }
        let f = &self.f;
        let mut fs = String::new();
        for (b, n) in [
            (f.user, "U"),
            (f.trap, "T"),
            (f.vm, "V"),
            (f.c, "c"),
            (f.s, "s"),
            (f.o, "o"),
            (f.z, "z"),
        ] {
            fs.push_str(if b { n } else { "-" });
        }
        format!(
            "{s}rs={:04x} rl={:04x} rf={:04x} rp={:04x} rh={:04x} pc={:04x} {fs}",
            self.rs, self.rl, self.rf, self.rp, self.rh, self.pc
        )
    }
    /// the names of differing components
    pub fn diff(&self, o: &St) -> Vec<String> {
        let mut v = Vec::new();
        for i in 1..=15u8 {
            if self.wr(i) != o.wr(i) {
                v.push(spec::wide_reg_name(i));
            }
        }
        if self.pc != o.pc {
            v.push("pc".into());
        }
        let (a, b) = (&self.f, &o.f);
        for (x, y, n) in [
            (a.user, b.user, "user mode"),
            (a.trap, b.trap, "trap flag"),
            (a.vm, b.vm, "virtual mode"),
            (a.res, b.res, "reserved flag"),
            (a.c, b.c, "carry"),
            (a.s, b.s, "sign"),
            (a.o, b.o, "overflow"),
            (a.z, b.z, "zero"),
        ] {
            if x != y {
                v.push(n.into());
            }
        }
        v
    }
}

/// What the model needs of memory. `get` of data happens exactly once per byte.
pub trait Bus {
    fn get(&mut self, a: u32) -> u8;
    fn put(&mut self, a: u32, v: u8);
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Acc {
    R,
    W,
    X,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Res {
    Done,
    /// one of these must be reported or delivered
    Trap(Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Out {
    pub res: Res,
    pub st: St,
    pub len: u16,
    pub op: Option<u8>,
    /// physical data bytes read, in address order
    pub reads: Vec<u32>,
    pub writes: Vec<(u32, u8)>,
    /// every byte of every page table entry involved
    pub ptes: Vec<u32>,
    /// page table bytes that get the dirty flag: (address, new value)
    pub dirty: Vec<(u32, u8)>,
    pub fetched: Vec<u32>,
    /// when the instruction traps: data bytes that may have been written before (address, value)
    pub maybe: Vec<(u32, u8)>,
    /// and page table bytes that may have got their dirty flag
    pub maybe_dirty: Vec<(u32, u8)>,
    /// and data bytes that may have been read
    pub maybe_reads: Vec<u32>,
    /// registers (wide numbers) the instruction names as destination
    pub dests: Vec<u8>,
    /// physical memory instruction (pload or pstore) address
    pub phys: Option<u32>,
}

pub struct Walk {
    pub pa: u32,
    pub e1: u32,
    pub e2: u32,
    pub b1: u8,
    pub b2: u8,
}

pub const P: u8 = 1;
pub const R: u8 = 2;
pub const W: u8 = 4;
pub const X: u8 = 8;
pub const D: u8 = 0x10;
pub const U: u8 = 0x20;

fn get32<B: Bus + ?Sized>(b: &mut B, a: u32) -> u32 {
    u32::from_le_bytes(std::array::from_fn(|i| b.get(a + i as u32)))
}

fn deny(e: u32, user: bool, acc: Acc, absent: u8, out: &mut Vec<u8>) -> bool {
    let e = e as u8;
    if e & P == 0 {
        out.push(absent);
        return true;
    }
    let n = out.len();
    if user && e & U == 0 {
        out.push(trap::ILL_OP);
    }
    match acc {
        Acc::R if e & R == 0 => out.push(trap::ILL_READ),
        Acc::W if e & W == 0 => out.push(trap::ILL_WRITE),
        Acc::X if e & X == 0 => out.push(trap::ILL_EXEC),
        _ => (),
    }
    out.len() > n
}

/// Page table walk without side effects. Err: all reasons that apply.
pub fn walk<B: Bus + ?Sized>(
    st: &St,
    b: &mut B,
    va: u16,
    acc: Acc,
    ptes: &mut Vec<u32>,
) -> Result<Option<Walk>, Vec<u8>> {
    if !st.f.vm {
        return Ok(None);
    }
    let e1 = st.rp as u32 + ((va as u32 >> 12) << 2);
    ptes.extend(e1..e1 + 4);
    let w1 = get32(b, e1);
    let mut why = Vec::new();
    let absent1 = w1 as u8 & P == 0;
    deny(w1, st.f.user, acc, trap::L1PF, &mut why);
    if absent1 {
        return Err(why);
    }
    let e2 = ((w1 >> 15) << 7) + (((va as u32 >> 7) & 31) << 2);
    ptes.extend(e2..e2 + 4);
    let w2 = get32(b, e2);
    deny(w2, st.f.user, acc, trap::L2PF, &mut why);
    if !why.is_empty() {
        return Err(why);
    }
    Ok(Some(Walk {
        pa: ((w2 >> 15) << 7) + (va as u32 & 0x7f),
        e1,
        e2,
        b1: w1 as u8,
        b2: w2 as u8,
    }))
}

fn add_all(set: &mut Vec<u8>, v: &[u8]) {
    for x in v {
        if !set.contains(x) {
            set.push(*x);
        }
    }
}

pub fn cond(n: u8, f: &Fl) -> bool {
    match n {
        spec::JEZ => f.z,
        spec::JLT => f.s != f.o,
        spec::JLE => f.s != f.o && f.z,
        spec::JGT => f.s == f.o && !f.z,
        spec::JGE => f.s == f.o,
        spec::JNZ => !f.z,
        spec::JO => f.o,
        spec::JNO => !f.o,
        spec::JA => !f.c && !f.z,
        spec::JAE => !f.c,
        spec::JB => f.c,
        _ => f.c || f.z,
    }
}

/// Result and flags (c, s, o, z) of a two-operand instruction of `bits` width
pub fn alu(n: u8, bits: u32, a: u16, b: u16) -> (u16, (bool, bool, bool, bool)) {
    let m = (1i64 << bits) - 1;
    let sx = |x: u16| {
        let x = x as i64;
        if x >> (bits - 1) & 1 == 1 {
            x - (1 << bits)
        } else {
            x
        }
    };
    let (ua, ub) = (a as i64, b as i64);
    let (sa, sb) = (sx(a), sx(b));
    let cnt = (b as u32 % bits) as i64;
    let inr = |v: i64| v >= -(1 << (bits - 1)) && v < (1 << (bits - 1));
    let (r, c, o) = match n {
        spec::ADD => (ua + ub, ua + ub > m, !inr(sa + sb)),
        spec::SUB => (ua - ub, ub > ua, !inr(sa - sb)),
        spec::AND => (ua & ub, false, false),
        spec::OR => (ua | ub, false, false),
        spec::XOR => (ua ^ ub, false, false),
        spec::SHL => (ua << cnt, false, false),
        spec::ASR => (sa >> cnt, false, false),
        _ => (ua >> cnt, false, false),
    };
    let r = (r & m) as u16;
    (r, (c, r >> (bits - 1) & 1 == 1, o, r == 0))
}

pub fn step<B: Bus + ?Sized>(st0: &St, b: &mut B) -> Out {
    let mut out = Out {
        res: Res::Done,
        st: st0.clone(),
        len: 0,
        op: None,
        reads: vec![],
        writes: vec![],
        ptes: vec![],
        dirty: vec![],
        fetched: vec![],
        maybe: vec![],
        maybe_dirty: vec![],
        maybe_reads: vec![],
        dests: vec![],
        phys: None,
    };
    let user = st0.f.user;
    let fetch = |b: &mut B, out: &mut Out, i: u16| -> Result<u8, Vec<u8>> {
        let va = st0.pc.wrapping_add(i);
        let w = walk(st0, b, va, Acc::X, &mut out.ptes)?;
        let pa = w.map_or(va as u32, |w| w.pa);
        out.fetched.push(pa);
        Ok(b.get(pa))
    };
    let opc = match fetch(b, &mut out, 0) {
        Ok(x) => x,
        Err(t) => {
            out.res = Res::Trap(t);
            return out;
        }
    };
    out.op = Some(opc);
    let Some(op) = spec::lookup(opc) else {
        out.res = Res::Trap(vec![trap::INVALID]);
        return out;
    };
    let mut why: Vec<u8> = Vec::new();
    let privileged = matches!(
        op.kind,
        Kind::Usr | Kind::Vmon | Kind::Vmoff | Kind::Pstore | Kind::Pload
    );
    if privileged && user {
        why.push(trap::ILL_OP);
    }
    match op.kind {
        Kind::Null => why.push(trap::INVALID),
        Kind::Halt => why.push(trap::HALT),
        Kind::Syscall => why.push(trap::SYSCALL),
        _ => (),
    }
    let n = spec::fmt_len(op.fmt);
    out.len = n + 1;
    let mut by: [Option<u8>; 3] = [None; 3];
    for i in 0..n {
        match fetch(b, &mut out, i + 1) {
            Ok(x) => by[i as usize] = Some(x),
            Err(t) => add_all(&mut why, &t),
        }
    }
    let is_jmp = op.kind == Kind::LdiJmp && by[0].is_some_and(|x| x & 15 == 1);
    if op.kind == Kind::LdiJmp {
        if by[0].is_some_and(|x| x & 15 > 1) {
            add_all(&mut why, &[trap::INVALID]);
        }
    } else if let Some(i) = spec::zero_nibble(op.fmt) {
        if by[i].is_some_and(|x| x & 15 != 0) {
            add_all(&mut why, &[trap::INVALID]);
        }
    }
    let mut regs: Vec<(u8, bool)> = Vec::new();
    for (i, &wide) in spec::reg_widths(op.fmt).iter().enumerate() {
        let Some(x) = by[i / 2] else { continue };
        let r = if i % 2 == 0 { x >> 4 } else { x & 15 };
        regs.push((r, wide));
        if user && wide && r >= 14 {
            add_all(&mut why, &[trap::ILL_OP]);
        }
    }
    // destinations
    let dn = match op.kind {
        Kind::Pop | Kind::Load | Kind::Ldi | Kind::Bin(_) | Kind::Pload => 1,
        Kind::LdiJmp if !is_jmp => 1,
        Kind::Mul | Kind::Div => 2,
        _ => 0,
    };
    for &(r, wide) in regs.iter().take(dn) {
        out.dests.push(if wide {
            r
        } else if r > 10 {
            r - 5
        } else {
            (r + 1) / 2
        });
    }
    if op.kind == Kind::Reth {
        if user {
            add_all(&mut why, &[trap::ILL_OP, trap::ILL_RETH]);
            if st0.f.trap {
                // it may get as far as reading the saved context
                for i in 0..34 {
                    if let Err(t) = walk(st0, b, st0.rs.wrapping_add(i), Acc::R, &mut Vec::new()) {
                        add_all(&mut why, &t);
                    }
                }
            }
        } else if !st0.f.trap {
            add_all(&mut why, &[trap::ILL_RETH]);
        }
        // what an actual handler return restores is not modelled here
    }
    let complete = by[..n as usize].iter().all(|x| x.is_some());
    let val = |i: usize| {
        let (r, wide) = regs[i];
        if wide {
            st0.wr(r)
        } else {
            st0.br(r) as u16
        }
    };
    let ib = spec::imm_bytes(op.fmt);
    let imm = match ib {
        0 => 0,
        1 => by[n as usize - 1].unwrap_or(0) as u16,
        _ => u16::from_le_bytes([by[n as usize - 2].unwrap_or(0), by[n as usize - 1].unwrap_or(0)]),
    };
    if !complete {
        out.res = Res::Trap(why);
        return out;
    }
    // data accesses: (address, is write, wide, value)
    let size = if op.wide { 2u16 } else { 1 };
    let access = match op.kind {
        Kind::Push => Some((st0.rs.wrapping_sub(size), true, val(0))),
        Kind::Pop => Some((st0.rs, false, 0)),
        Kind::Store => Some(match op.fmt {
            Fmt::WBi | Fmt::WWi => (val(0).wrapping_add(imm), true, val(1)),
            _ => (val(0).wrapping_add(val(1)), true, val(2)),
        }),
        Kind::Load => Some(match op.fmt {
            Fmt::BWi | Fmt::WWi => (val(1).wrapping_add(imm), false, 0),
            _ => (val(1).wrapping_add(val(2)), false, 0),
        }),
        _ => None,
    };
    let mut loaded = 0u16;
    if let Some((addr, write, v)) = access {
        let mut walks = Vec::new();
        for i in 0..size {
            let va = addr.wrapping_add(i);
            match walk(st0, b, va, if write { Acc::W } else { Acc::R }, &mut out.ptes) {
                Ok(w) => walks.push((i, w.as_ref().map_or(va as u32, |w| w.pa), w)),
                Err(t) => add_all(&mut why, &t),
            }
        }
        let mut dirty: Vec<(u32, u8)> = Vec::new();
        for (_, _, w) in &walks {
            if let (Some(w), true) = (w, write) {
                for (e, x) in [(w.e1, w.b1), (w.e2, w.b2)] {
                    if x & D == 0 && !dirty.iter().any(|d| d.0 == e) {
                        dirty.push((e, x | D));
                    }
                }
            }
        }
        if why.is_empty() {
            for &(i, pa, _) in &walks {
                if write {
                    let x = if i == 0 { v as u8 } else { (v >> 8) as u8 };
                    out.writes.push((pa, x));
                } else {
                    out.reads.push(pa);
                    loaded |= (b.get(pa) as u16) << (8 * i);
                }
            }
            // dirty flags first: a write that hits the tables itself then wins; such
            // accesses are kept out of the workloads that compare exactly
            for &(a, x) in &dirty {
                b.put(a, x);
            }
            for &(a, x) in &out.writes {
                b.put(a, x);
            }
            out.dirty = dirty;
        } else {
            for &(i, pa, _) in &walks {
                if write {
                    let x = if i == 0 { v as u8 } else { (v >> 8) as u8 };
                    out.maybe.push((pa, x));
                } else {
                    out.maybe_reads.push(pa);
                }
            }
            out.maybe_dirty = dirty;
        }
    }
    if op.kind == Kind::Div && val(3) == 0 {
        add_all(&mut why, &[trap::ZERODIV]);
    }
    if !why.is_empty() {
        out.res = Res::Trap(why);
        return out;
    }
    let st = &mut out.st;
    let next = st0.pc.wrapping_add(n + 1);
    st.pc = next;
    let bits = if op.wide { 16 } else { 8 };
    let set = |st: &mut St, i: usize, v: u16| {
        let (r, wide) = regs[i];
        if wide {
            st.set_wr(r, v)
        } else {
            st.set_br(r, v as u8)
        }
    };
    match op.kind {
        Kind::Null | Kind::Halt | Kind::Syscall => unreachable!(),
        Kind::Ctf => st.f.trap = false,
        Kind::Reth => (),
        Kind::Usr => st.f.user = true,
        Kind::Vmon => st.f.vm = true,
        Kind::Vmoff => st.f.vm = false,
        Kind::Pstore => {
            let a = (val(0) as u32) << 16 | val(1) as u32;
            out.phys = Some(a);
            out.writes.push((a, val(2) as u8));
            b.put(a, val(2) as u8);
        }
        Kind::Pload => {
            let a = (val(1) as u32) << 16 | val(2) as u32;
            out.phys = Some(a);
            out.reads.push(a);
            let v = b.get(a) as u16;
            set(st, 0, v);
        }
        Kind::Nop => (),
        Kind::Push => st.rs = st0.rs.wrapping_sub(size),
        Kind::Pop => {
            st.rs = st0.rs.wrapping_add(size);
            set(st, 0, loaded);
        }
        Kind::Call => {
            st.rl = next;
            st.pc = imm;
        }
        Kind::Ret => {
            st.rs = st0.rs.wrapping_add(imm);
            st.pc = st0.rl;
        }
        Kind::Store => (),
        Kind::Load => set(st, 0, loaded),
        Kind::Jcc(c) => {
            if cond(c, &st0.f) {
                st.pc = imm;
            }
        }
        Kind::Ldi => set(st, 0, imm),
        Kind::LdiJmp => {
            if is_jmp {
                st.pc = if regs[0].0 == 0 { imm } else { val(0) };
            } else {
                set(st, 0, imm);
            }
        }
        Kind::Bin(k) => {
            let (r, (c, s, o, z)) = alu(k, bits, val(1), val(2));
            st.f.c = c;
            st.f.s = s;
            st.f.o = o;
            st.f.z = z;
            set(st, 0, r);
        }
        Kind::Mul => {
            let p = val(2) as u32 * val(3) as u32;
            let (hi, lo) = ((p >> bits) as u16, (p & ((1 << bits) - 1)) as u16);
            st.f.c = hi != 0;
            st.f.o = hi != 0;
            st.f.z = lo == 0;
            st.f.s = lo >> (bits - 1) & 1 == 1;
            set(st, 0, hi);
            set(st, 1, lo);
        }
        Kind::Div => {
            set(st, 0, val(2) / val(3));
            set(st, 1, val(2) % val(3));
        }
    }
    out
}
