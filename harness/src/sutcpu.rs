//! Driving the real processor one instruction at a time next to the model.

use std::cell::RefCell;

use telda2::{
    blf4::{Blf4, ByteRegister, TrapMode, WideRegister},
    machine::Cpu,
    mem::MainMemory,
    U4,
};

use crate::{
    core::sut,
    cpu::{self, Bus, Fl, Out, Res, St},
    rng::Rng,
    spec::{self, trap, Fmt, Kind},
};

pub fn tnum(t: TrapMode) -> u8 {
    match t {
        TrapMode::Invalid => trap::INVALID,
        TrapMode::SysCall => trap::SYSCALL,
        TrapMode::ZeroDiv => trap::ZERODIV,
        TrapMode::Halt => trap::HALT,
        TrapMode::Level1PageFault => trap::L1PF,
        TrapMode::Level2PageFault => trap::L2PF,
        TrapMode::IllegalOperation => trap::ILL_OP,
        TrapMode::IllegalRead => trap::ILL_READ,
        TrapMode::IllegalWrite => trap::ILL_WRITE,
        TrapMode::IllegalExecute => trap::ILL_EXEC,
        TrapMode::IllegalHandlerReturn => trap::ILL_RETH,
        #[allow(unreachable_patterns)]
        _ => 0xfe,
    }
}

pub fn wr(n: u8) -> WideRegister {
    WideRegister(U4::new(n))
}
pub fn br(n: u8) -> ByteRegister {
    ByteRegister(U4::new(n))
}

/// Monitored memory: the full 24-bit space of plain bytes with an access log and undo
pub struct MonMem {
    pub bytes: Vec<u8>,
    pub log: Vec<(u32, Option<u8>)>,
    journal: Vec<(u32, u8)>,
    pub oob: Option<u32>,
    /// only record, at most this many
    pub log_on: bool,
}

pub const SPACE: u32 = 1 << 24;

impl MonMem {
    /// like real memory: zero until written
    pub fn zeroed() -> Self {
        MonMem { bytes: vec![0; SPACE as usize], log: vec![], journal: vec![], oob: None, log_on: true }
    }
    fn new() -> Self {
        let mut r = Rng::new(0xfeed);
        let mut bytes = Vec::with_capacity(SPACE as usize);
        while bytes.len() < SPACE as usize {
            bytes.extend_from_slice(&r.u64().to_le_bytes());
        }
        MonMem { bytes, log: vec![], journal: vec![], oob: None, log_on: true }
    }
    /// placeholder while the real one is lent out
    pub fn empty() -> Self {
        MonMem { bytes: vec![], log: vec![], journal: vec![], oob: None, log_on: true }
    }
    /// first address whose byte is not what it was at the mark
    pub fn changed_since(&self, mark: usize) -> Option<u32> {
        self.journal[mark..].iter().map(|x| x.0).find(|a| undo_value(self, mark, *a) != self.peek(*a))
    }
    pub fn peek(&self, a: u32) -> u8 {
        self.bytes.get(a as usize).copied().unwrap_or(0)
    }
    pub fn poke(&mut self, a: u32, v: u8) {
        if a < SPACE {
            self.journal.push((a, self.bytes[a as usize]));
            self.bytes[a as usize] = v;
        }
    }
    pub fn poke32(&mut self, a: u32, v: u32) {
        for (i, b) in v.to_le_bytes().into_iter().enumerate() {
            self.poke(a + i as u32, b);
        }
    }
    pub fn mark(&self) -> usize {
        self.journal.len()
    }
    pub fn undo(&mut self, mark: usize) {
        while self.journal.len() > mark {
            let (a, v) = self.journal.pop().unwrap();
            self.bytes[a as usize] = v;
        }
    }
}

impl MainMemory for MonMem {
    fn read(&mut self, addr: u32) -> u8 {
        if addr >= SPACE {
            self.oob.get_or_insert(addr);
            return 0;
        }
        if self.log_on {
            self.log.push((addr, None));
        }
        self.bytes[addr as usize]
    }
    fn write(&mut self, addr: u32, byte: u8) {
        if addr >= SPACE {
            self.oob.get_or_insert(addr);
            return;
        }
        if self.log_on {
            self.log.push((addr, Some(byte)));
        }
        self.poke(addr, byte);
    }
}

thread_local! {
    static RIG: RefCell<Option<Rig>> = const { RefCell::new(None) };
}

/// A processor with monitored memory
pub struct Rig {
    pub mem: MonMem,
    pub cpu: Blf4,
}

/// Run with the rig of this thread; all changes to memory are undone afterwards
pub fn with_rig<T>(f: impl FnOnce(&mut Rig) -> T) -> T {
    RIG.with(|r| {
        let mut r = r.borrow_mut();
        let rig = r.get_or_insert_with(|| Rig { mem: MonMem::new(), cpu: Blf4::new() });
        rig.cpu = Blf4::new();
        let t = f(rig);
        rig.mem.undo(0);
        rig.mem.log.clear();
        rig.mem.oob = None;
        rig.mem.log_on = true;
        t
    })
}

pub struct ModelBus<'a> {
    pub m: &'a MonMem,
    pub over: Vec<(u32, u8)>,
}
impl Bus for ModelBus<'_> {
    fn get(&mut self, a: u32) -> u8 {
        for (x, v) in self.over.iter().rev() {
            if *x == a {
                return *v;
            }
        }
        self.m.peek(a)
    }
    fn put(&mut self, a: u32, v: u8) {
        self.over.push((a, v));
    }
}

pub fn load_state(cpu: &mut Blf4, st: &St) {
    cpu.flags.user_mode = false;
    for n in 1..=10 {
        let _ = cpu.write_wr(wr(n), st.wr(n));
    }
    cpu.stack = st.rs;
    cpu.link = st.rl;
    cpu.frame = st.rf;
    cpu.page = st.rp;
    cpu.trap_handler = st.rh;
    cpu.program_counter = st.pc;
    cpu.flags.user_mode = st.f.user;
    cpu.flags.trap = st.f.trap;
    cpu.flags.virtual_mode = st.f.vm;
    cpu.flags.reserved = st.f.res;
    cpu.flags.carry = st.f.c;
    cpu.flags.sign = st.f.s;
    cpu.flags.overflow = st.f.o;
    cpu.flags.zero = st.f.z;
}

pub fn save_state(cpu: &Blf4) -> St {
    let mut st = St::default();
    for n in 1..=10 {
        st.set_wr(n, cpu.read_wr(wr(n)).unwrap_or(0xdead));
    }
    st.rs = cpu.stack;
    st.rl = cpu.link;
    st.rf = cpu.frame;
    st.rp = cpu.page;
    st.rh = cpu.trap_handler;
    st.pc = cpu.program_counter;
    let f = &cpu.flags;
    st.f = Fl {
        user: f.user_mode,
        trap: f.trap,
        vm: f.virtual_mode,
        res: f.reserved,
        c: f.carry,
        s: f.sign,
        o: f.overflow,
        z: f.zero,
    };
    st
}

/// The register file as the byte and wide names show it, against the model
pub fn check_views(cpu: &mut Blf4, st: &St) -> Result<(), String> {
    for n in 0..16 {
        let got = cpu.read_br(br(n));
        if got != st.br(n) {
            return Err(format!(
                "byte register {} reads {got:02x}, documented layout gives {:02x} ({})",
                spec::byte_reg_name(n),
                st.br(n),
                st.show()
            ));
        }
        if n < 14 {
            let got = cpu.read_wr(wr(n)).ok();
            if got != Some(st.wr(n)) {
                return Err(format!(
                    "wide register {} reads {got:04x?}, expected {:04x} ({})",
                    spec::wide_reg_name(n),
                    st.wr(n),
                    st.show()
                ));
            }
        }
    }
    Ok(())
}

pub struct Step {
    pub out: Out,
    pub after: St,
    /// reported trap
    pub err: Option<u8>,
    /// trap delivered to the installed handler
    pub delivered: Option<u8>,
    /// the comparison was not possible
    pub skipped: bool,
}

pub fn decode(bytes: &[u8]) -> String {
    let h: Vec<String> = bytes.iter().map(|b| format!("{b:02x}")).collect();
    let name = spec::lookup(bytes[0]).map_or("undefined", |o| o.name);
    format!("{} [{name}]", h.join(" "))
}

fn names(v: &[u8]) -> String {
    v.iter().map(|t| trap::name(*t)).collect::<Vec<_>>().join(" or ")
}

/// Execute one instruction of the real processor from `st` and compare with the model
pub fn lockstep(rig: &mut Rig, st: &St) -> Result<Step, String> {
    let Rig { mem, cpu } = rig;
    let out = cpu::step(st, &mut ModelBus { m: mem, over: vec![] });
    load_state(cpu, st);
    mem.log.clear();
    let mark = mem.mark();
    let r = sut(|| cpu.execute_instruction(mem));
    let ctx = |mem: &MonMem, what: String| {
        let code: Vec<u8> = out.fetched.iter().map(|a| mem.peek(*a)).collect();
        let code = if code.is_empty() { "(unfetchable)".into() } else { decode(&code) };
        let log: Vec<String> = mem
            .log
            .iter()
            .take(40)
            .map(|(a, w)| match w {
                Some(v) => format!("W{a:06x}={v:02x}"),
                None => format!("R{a:06x}"),
            })
            .collect();
        format!("{what}\n  instruction {code}\n  before {}\n  accesses {}", st.show(), log.join(" "))
    };
    let r = match r {
        Err(p) => return Err(ctx(mem, format!("the emulator aborts: {p}"))),
        Ok(r) => r.map_err(tnum),
    };
    if let Some(a) = mem.oob.take() {
        return Err(ctx(mem, format!("physical address {a:#x} outside the 24-bit space accessed")));
    }
    let after = save_state(cpu);
    let mut step = Step { out: out.clone(), after: after.clone(), err: r.err(), delivered: None, skipped: false };
    if self_hit(&out) {
        // the access hits page table bytes of the same instruction: the outcome depends on the
        // order of byte accesses, which is not specified
        step.skipped = true;
        return Ok(step);
    }
    let reth = out.op == Some(0x0d) && out.res == Res::Done;
    let stack_sensitive = reth;
    match (&out.res, r) {
        (Res::Done, Ok(())) => {
            if !stack_sensitive {
                let d = out.st.diff(&after);
                if !d.is_empty() {
                    return Err(ctx(
                        mem,
                        format!("wrong {} after the instruction\n  expected {}\n  got      {}", d.join(", "), out.st.show(), after.show()),
                    ));
                }
                check_views(cpu, &out.st).map_err(|e| ctx(mem, e))?;
                mem_exact(mem, mark, &out).map_err(|e| ctx(mem, e))?;
            }
        }
        (Res::Done, Err(t)) => {
            if !reth {
                return Err(ctx(mem, format!("traps with {} instead of completing", trap::name(t))));
            }
        }
        (Res::Trap(set), Ok(())) => {
            if st.rh == 0 {
                return Err(ctx(
                    mem,
                    format!("completes instead of trapping with {}\n  after {}", names(set), after.show()),
                ));
            }
            let got = set.iter().find(|t| after.wr(1) == **t as u16);
            if after.pc != st.rh || after.f.user || !after.f.trap || got.is_none() {
                return Err(ctx(
                    mem,
                    format!("trap {} is not delivered to the handler\n  after {}", names(set), after.show()),
                ));
            }
            if after.rp != st.rp || after.rh != st.rh || after.f.vm != st.f.vm {
                return Err(ctx(mem, format!("trap delivery changes system state\n  after {}", after.show())));
            }
            step.delivered = got.copied();
        }
        (Res::Trap(set), Err(t)) => {
            if st.rh != 0 {
                // only when the context cannot be saved on the stack
                // the instruction may have moved the stack pointer before it trapped
                let top = if out.op == Some(0x0d) { 34 } else { 2 };
                let ok = !out.dests.contains(&11) && frame(mem, st, st.rs.wrapping_sub(40), 40 + top).is_some()
                    && !out.maybe.iter().any(|(a, _)| near_tables(mem, st, *a));
                if ok {
                    return Err(ctx(
                        mem,
                        format!("trap {} goes past the installed handler", trap::name(t)),
                    ));
                }
                return Ok(step);
            }
            if !set.contains(&t) {
                return Err(ctx(mem, format!("traps with {} instead of {}", trap::name(t), names(set))));
            }
            let op = out.op.and_then(spec::lookup);
            let exp = trapped_state(st, &out, set, t, &after);
            let d = exp.diff(&after);
            if !d.is_empty() {
                return Err(ctx(
                    mem,
                    format!("{} changed by an instruction that traps with {}\n  after {}", d.join(", "), trap::name(t), after.show()),
                ));
            }
            // memory: only what may have been written before the trap
            let strict = t == trap::INVALID || t == trap::ZERODIV;
            for &(a, w) in &mem.log {
                match w {
                    Some(v) => {
                        let ok = !strict
                            && (out.maybe.contains(&(a, v))
                                || out.maybe_dirty.contains(&(a, v))
                                || out.ptes.contains(&a) && undo_value(mem, mark, a) == v);
                        if !ok {
                            return Err(ctx(
                                mem,
                                format!("memory at {a:06x} written by an instruction that traps with {}", trap::name(t)),
                            ));
                        }
                    }
                    None => {
                        if !(out.fetched.contains(&a)
                            || out.ptes.contains(&a)
                            || out.maybe_reads.contains(&a)
                            || op.is_some_and(|o| o.kind == Kind::Reth))
                        {
                            return Err(ctx(
                                mem,
                                format!("memory at {a:06x} read by an instruction that traps with {}", trap::name(t)),
                            ));
                        }
                    }
                }
            }
        }
    }
    Ok(step)
}

/// What must hold of the state after an instruction that traps with `t`: components the
/// specification leaves open are taken from `after`
pub fn trapped_state(st: &St, out: &Out, set: &[u8], t: u8, after: &St) -> St {
    let mut exp = st.clone();
    exp.pc = after.pc;
    exp.f.user = after.f.user;
    exp.f.trap = after.f.trap;
    let op = out.op.and_then(spec::lookup);
    if let (Some(op), false) = (op, set == [trap::ZERODIV]) {
        if t != trap::INVALID {
            // a push moves the stack pointer before it writes, a pop only after it has read
            if matches!(op.kind, Kind::Push | Kind::Reth) || op.kind == Kind::Pop && t == trap::ILL_OP {
                exp.rs = after.rs;
            }
            if t == trap::ILL_OP {
                exp.f = Fl { vm: st.f.vm, ..after.f };
                for &d in &out.dests {
                    if d < 14 {
                        exp.set_wr(d, after.wr(d));
                    }
                }
                if op.kind == Kind::Reth {
                    exp = St { rp: st.rp, rh: st.rh, ..after.clone() };
                    exp.f.vm = st.f.vm;
                }
            }
        }
    }
    exp
}

fn near_tables(mem: &MonMem, st: &St, a: u32) -> bool {
    frame(mem, st, st.rs.wrapping_sub(40), 40).is_none_or(|(_, ptes)| ptes.contains(&a))
}

/// The physical bytes a supervisor writes at `from`..+n, and the page table bytes on the way, if
/// all can be written and no write disturbs a translation
pub fn frame(mem: &MonMem, st: &St, from: u16, n: u16) -> Option<(Vec<u32>, Vec<u32>)> {
    let mut sup = st.clone();
    sup.f.user = false;
    let mut bus = ModelBus { m: mem, over: vec![] };
    let mut ptes = Vec::new();
    let mut pas = Vec::new();
    for i in 0..n {
        let va = from.wrapping_add(i);
        match cpu::walk(&sup, &mut bus, va, cpu::Acc::W, &mut ptes) {
            Ok(Some(w)) => pas.push(w.pa),
            Ok(None) => pas.push(va as u32),
            Err(_) => return None,
        }
        cpu::walk(&sup, &mut bus, va, cpu::Acc::R, &mut ptes).ok()?;
    }
    tables_sound(&ptes).then_some(())?;
    let mut s = pas.clone();
    s.sort();
    s.dedup();
    if s.len() != pas.len() || pas.iter().any(|p| ptes.contains(p)) {
        return None;
    }
    Some((pas, ptes))
}

/// no dirty flag of one entry lies inside another entry (`ptes` in groups of four)
pub fn tables_sound(ptes: &[u32]) -> bool {
    let flags: std::collections::HashSet<u32> = ptes.iter().step_by(4).copied().collect();
    ptes.iter().enumerate().all(|(i, p)| i % 4 == 0 || !flags.contains(p))
}

/// value of `a` before the journal mark
pub fn undo_value(m: &MonMem, mark: usize, a: u32) -> u8 {
    for (x, v) in &m.journal[mark..] {
        if *x == a {
            return *v;
        }
    }
    m.peek(a)
}

/// accesses hit page table bytes of the same instruction: outcome depends on byte order
pub fn self_hit(out: &Out) -> bool {
    !tables_sound(&out.ptes)
        || out.writes.iter().chain(&out.maybe).any(|(a, _)| out.ptes.contains(a))
        || (out.writes.len() == 2 && out.writes[0].0 == out.writes[1].0)
        || out.dirty.iter().any(|(a, _)| out.writes.iter().any(|w| w.0 == *a) || out.reads.contains(a))
}

pub fn mem_exact(mem: &MonMem, mark: usize, out: &Out) -> Result<(), String> {
    for &(a, w) in &mem.log {
        match w {
            Some(_) => {
                if !out.writes.iter().any(|x| x.0 == a) && !out.ptes.contains(&a) {
                    return Err(format!("writes to memory at {a:06x}, which the instruction does not address"));
                }
            }
            None => {
                if !out.reads.contains(&a) && !out.ptes.contains(&a) && !out.fetched.contains(&a) {
                    return Err(format!("reads memory at {a:06x}, which the instruction does not address"));
                }
            }
        }
    }
    for &(a, v) in &out.writes {
        let n = mem.log.iter().filter(|l| l.0 == a && l.1.is_some()).count();
        if n != 1 {
            return Err(format!("writes {n} times to {a:06x} instead of once"));
        }
        if mem.peek(a) != v {
            return Err(format!("memory at {a:06x} is {:02x} instead of {v:02x}", mem.peek(a)));
        }
    }
    for &a in &out.reads {
        if out.ptes.contains(&a) || out.fetched.contains(&a) {
            continue;
        }
        let n = mem.log.iter().filter(|l| l.0 == a && l.1.is_none()).count();
        if n != 1 {
            return Err(format!("reads {n} times from {a:06x} instead of once"));
        }
    }
    for &a in &out.ptes {
        let exp = out.dirty.iter().find(|d| d.0 == a).map_or_else(|| undo_value(mem, mark, a), |d| d.1);
        if mem.peek(a) != exp {
            return Err(format!(
                "page table byte at {a:06x} is {:02x} instead of {exp:02x} (was {:02x})",
                mem.peek(a),
                undo_value(mem, mark, a)
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- workloads

pub fn rand_state(r: &mut Rng) -> St {
    let mut st = St::default();
    for n in 1..=10 {
        let v = r.corner16();
        st.set_wr(n, v);
    }
    st.rs = r.corner16();
    st.rl = r.corner16();
    st.rf = r.corner16();
    st.rp = r.corner16();
    st.pc = match r.below(6) {
        0 => r.corner16(),
        1 => 0xfffa + r.below(6) as u16,
        _ => 0x80 + r.below(0xff00) as u16,
    };
    st.f = rand_flags(r);
    st
}
pub fn rand_flags(r: &mut Rng) -> Fl {
    let x = r.u8();
    Fl { user: false, trap: false, vm: false, res: x & 0x70 == 0x70, c: x & 1 != 0, s: x & 2 != 0, o: x & 4 != 0, z: x & 8 != 0 }
}

/// random operand bytes for an opcode, reserved nibbles zero
pub fn rand_operands(r: &mut Rng, op: &spec::Op) -> Vec<u8> {
    let mut v = vec![op.code];
    let n = spec::fmt_len(op.fmt) as usize;
    for _ in 0..n {
        let b = if r.chance(1, 3) { r.corner8() } else { r.u8() };
        v.push(b);
    }
    if op.kind == Kind::LdiJmp {
        v[1] = v[1] & 0xf0 | r.below(2) as u8;
    } else if let Some(i) = spec::zero_nibble(op.fmt) {
        v[i + 1] &= 0xf0;
    }
    // keep rp and rh rare as operands: user code may not name them
    if r.chance(7, 8) {
        for (i, &wide) in spec::reg_widths(op.fmt).iter().enumerate() {
            let b = &mut v[1 + i / 2];
            let n = if i % 2 == 0 { *b >> 4 } else { *b & 15 };
            if wide && n >= 14 {
                let m = n - 4;
                if i % 2 == 0 {
                    *b = *b & 15 | m << 4
                } else {
                    *b = *b & 0xf0 | m
                }
            }
        }
    }
    let _ = Fmt::None;
    v
}

pub fn op(code: u8) -> &'static spec::Op {
    spec::lookup(code).expect("opcode")
}

/// Page table entries planted so far in this address space
#[derive(Default)]
pub struct Planted {
    pub l1: Vec<(u16, u32)>,
    pub l2: Vec<u16>,
}

pub fn entry(ppn: u32, reserved: u32, flags: u8) -> u32 {
    ppn << 15 | (reserved & 0x7f) << 8 | flags as u32
}

pub fn rand_ppn(r: &mut Rng) -> u32 {
    match r.below(8) {
        0 => 0x1ffff - r.below(3) as u32,
        1 => r.below(4) as u32,
        2 => 0x200 + r.below(0x200) as u32,
        _ => r.u32() & 0x1ffff,
    }
}

/// Make `va` translate, with the given flags for entries not planted before
pub fn plant(mem: &mut MonMem, r: &mut Rng, st: &St, va: u16, f1: u8, f2: u8, p: &mut Planted) -> u32 {
    let i1 = va >> 12;
    let e1 = st.rp as u32 + ((i1 as u32) << 2);
    let t2 = match p.l1.iter().find(|x| x.0 == i1) {
        Some(x) => x.1,
        None => {
            let ppn = rand_ppn(r);
            mem.poke32(e1, entry(ppn, r.u32(), f1));
            p.l1.push((i1, ppn << 7));
            ppn << 7
        }
    };
    let e2 = t2 + (((va as u32 >> 7) & 31) << 2);
    if !p.l2.contains(&(va >> 7)) {
        let ppn = rand_ppn(r);
        mem.poke32(e2, entry(ppn, r.u32(), f2));
        p.l2.push(va >> 7);
    }
    u32::from_le_bytes(std::array::from_fn(|i| mem.peek(e2 + i as u32))) >> 15 << 7 | (va as u32 & 0x7f)
}

/// physical address of va whatever the permissions say
pub fn raw_translate(mem: &MonMem, st: &St, va: u16) -> u32 {
    if !st.f.vm {
        return va as u32;
    }
    let g = |a: u32| u32::from_le_bytes(std::array::from_fn(|i| mem.peek(a + i as u32)));
    let w1 = g(st.rp as u32 + ((va as u32 >> 12) << 2));
    let w2 = g(((w1 >> 15) << 7) + (((va as u32 >> 7) & 31) << 2));
    ((w2 >> 15) << 7) | (va as u32 & 0x7f)
}

pub fn place_code(mem: &mut MonMem, st: &St, at: u16, code: &[u8]) {
    for (i, &b) in code.iter().enumerate() {
        let pa = raw_translate(mem, st, at.wrapping_add(i as u16));
        mem.poke(pa, b);
    }
}
