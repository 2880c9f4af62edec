//! C12-C14: the loader, the emulated kernel and containment of loaded programs.

use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    io::Cursor,
};

use telda2::{
    aalv::{obj::Object, AalvReader},
    blf4::Blf4,
    machine::Machine,
    mem::{Io, LazyMain, MainMemory},
};

use crate::{
    core::{sut, Case, Run},
    cpu::{self, Res, St, D, P, R, U, W, X},
    objfmt::{self, Obj, DATA, HEAP, RODATA, TEXT, ZERO},
    rng::{hash_bytes, mix, Rng},
    spec::{self, trap, Kind},
    vm::{expected, heap_size, stack_size},
    sutcpu::{self, decode, load_state, rand_operands, save_state, tnum, undo_value, ModelBus, MonMem},
};

fn object(o: &Obj) -> Result<Object, String> {
    sut(|| Object::from_aalv_reader(&mut AalvReader::new(Cursor::new(o.encode()))?))
        .map_err(|p| format!("reading a valid object aborts: {p}"))?
        .map_err(|e| format!("a valid object is refused: {e}"))
}

pub fn gen_layout(r: &mut Rng, for_run: bool) -> Option<Obj> {
    let mut o = Obj::default();
    if r.chance(1, 2) {
        o.flags = Some(r.bool());
    }
    if r.chance(2, 3) {
        o.stack = Some(match r.below(6) {
            0 => 0,
            1 => 1 + r.below(4) as u16,
            2 => 0x7f + r.below(3) as u16,
            3 => 0x1000,
            4 => {
                let most = if r.chance(1, 4) { 0x1_0000 } else { 0x4000 };
                r.below(most) as u16
            }
            _ => 0x80 * r.below(20) as u16,
        });
    }
    if r.chance(2, 3) {
        o.heap = Some(match r.below(5) {
            0 => 1 + r.below(4) as u16,
            1 => 0x7f + r.below(3) as u16,
            2 => {
                let most = if r.chance(1, 4) { 0x1_0000 } else { 0x6000 };
                r.below(most) as u16
            }
            3 => 0x80 * r.below(20) as u16,
            _ => r.below(0x300) as u16,
        });
    }
    let mut kinds = vec![TEXT, DATA, RODATA, HEAP, ZERO];
    r.shuffle(&mut kinds);
    kinds.truncate(1 + r.below(5));
    if for_run && !kinds.contains(&TEXT) {
        kinds[0] = TEXT;
    }
    // bytes of segments do not overlap; pages may
    let mut at: u32 = match r.below(4) {
        0 => r.below(4) as u32,
        1 => 0x80,
        2 => r.below(0x1000) as u32,
        _ => r.below(0xe000) as u32,
    };
    let n = kinds.len();
    for (i, t) in kinds.into_iter().enumerate() {
        let mut len = match r.below(6) {
            0 => 1 + r.below(3),
            1 => 0x7e + r.below(5),
            2 => 0xfe + r.below(5),
            3 => 1 + r.below(0x1800),
            _ => 1 + r.below(0x180),
        } as u32;
        if i == n - 1 && r.chance(1, 8) {
            // up to the very top
            at = 0x1_0000 - len;
        }
        if at + len > 0x1_0000 {
            len = 0x1_0000u32.saturating_sub(at);
        }
        if len == 0 {
            break;
        }
        if t == HEAP && r.chance(1, 4) && o.heap != Some(0) {
            len = 0;
        }
        if t == HEAP && at + heap_size(&o) > 0x1_0000 {
            o.heap = Some((0x1_0000 - at).min(0xffff) as u16);
        }
        let b: Vec<u8> = (0..len).map(|_| r.u8() | 1).collect();
        o.segs.push((t, at as u16, b));
        at += len;
        at += match r.below(5) {
            0 => 0,
            1 => r.below(8) as u32,
            2 => (0x80 - at % 0x80) % 0x80,
            3 => r.below(0x2000) as u32,
            _ => r.below(0x200) as u32,
        };
        if at >= 0x1_0000 {
            break;
        }
    }
    if for_run && o.seg(TEXT).is_none() {
        return None;
    }
    // the entry point
    let s = r.pick(&o.segs).clone();
    let s = if for_run { o.seg(TEXT).unwrap().clone() } else { s };
    o.entry = Some((s.0, s.1.wrapping_add(r.below(s.2.len().max(1)) as u16)));
    o.segs.sort();
    Some(o)
}

pub struct Mapped {
    /// virtual page -> (frame, effective permissions)
    pub pages: BTreeMap<u16, (u32, u8)>,
    /// table pages (with the root)
    pub tables: BTreeSet<u32>,
    /// addresses of present entries: (address, all four bytes)
    pub entries: Vec<(u32, u32)>,
}

/// Walk all tables by hand
fn walk_all(root: u16, mut get: impl FnMut(u32) -> u8) -> Result<Mapped, String> {
    let mut m = Mapped { pages: BTreeMap::new(), tables: BTreeSet::new(), entries: vec![] };
    let mut g32 = |a: u32| u32::from_le_bytes(std::array::from_fn(|i| get(a + i as u32)));
    let root = root as u32;
    m.tables.insert(root & !0x7f);
    m.tables.insert((root + 63) & !0x7f);
    for i in 0..16u32 {
        let e1 = g32(root + 4 * i);
        if e1 as u8 & P == 0 {
            continue;
        }
        m.entries.push((root + 4 * i, e1));
        let t2 = (e1 >> 15) << 7;
        if !m.tables.insert(t2) {
            return Err(format!("two first-level entries share the table at {t2:06x}"));
        }
        for k in 0..32u32 {
            let e2 = g32(t2 + 4 * k);
            if e2 as u8 & P == 0 {
                continue;
            }
            m.entries.push((t2 + 4 * k, e2));
            m.pages.insert((i * 32 + k) as u16, ((e2 >> 15) << 7, e1 as u8 & e2 as u8));
        }
    }
    Ok(m)
}

struct NoIo;
thread_local! {
    static TOUCHED: RefCell<u32> = const { RefCell::new(0) };
}
impl Io for NoIo {
    fn read(&mut self, _: u8) -> u8 {
        TOUCHED.with(|t| *t.borrow_mut() += 1);
        0
    }
    fn write(&mut self, _: u8, _: u8) {
        TOUCHED.with(|t| *t.borrow_mut() += 1);
    }
}

fn perm_text(p: u8) -> String {
    [(P, 'P'), (R, 'R'), (W, 'W'), (X, 'X'), (D, 'D'), (U, 'U')]
        .iter()
        .map(|(b, c)| if p & b != 0 { *c } else { '-' })
        .collect()
}

pub fn show(o: &Obj) -> String {
    let s: Vec<String> = o
        .segs
        .iter()
        .map(|(t, a, b)| format!("{} {a:04x}+{:x}", objfmt::seg_name(*t), b.len()))
        .collect();
    format!("segments [{}] flags {:?} stack {:x?} heap {:x?} entry {:x?}", s.join(", "), o.flags, o.stack, o.heap, o.entry)
}

fn load_case(c: &mut Case) {
    let Some(o) = gen_layout(&mut c.rng, false) else { return };
    let obj = match object(&o) {
        Ok(x) => x,
        Err(e) => return c.violation(e),
    };
    TOUCHED.with(|t| *t.borrow_mut() = 0);
    let mut m = Machine::new(LazyMain::new(NoIo), Blf4::new());
    if c.rng.chance(1, 3) {
        // loading does not depend on a ROM
        m.memory = m.memory.with_rom(&[0xff; 300]);
    }
    c.eval(1);
    if let Err(p) = sut(|| m.load_user_binary(&obj)) {
        return c.violation(format!("loading aborts: {p}\n  {}", show(&o)));
    }
    if let Err(e) = check_loaded(&o, &mut m) {
        return c.violation(format!("{e}\n  {}", show(&o)));
    }
    if TOUCHED.with(|t| *t.borrow()) != 0 {
        return c.violation("loading touches a device");
    }
    let exp = expected(&o);
    c.count("pages mapped", exp.len() as u64);
    c.count("segments loaded", o.segs.len() as u64);
    c.nontrivial(hash_bytes(show(&o).as_bytes()));
    c.sample("layout", || format!("{} -> {} pages", show(&o), exp.len()));
}

fn check_loaded<M: MainMemory>(o: &Obj, m: &mut Machine<M, Blf4>) -> Result<(), String> {
    let st = save_state(&m.cpu);
    if !st.f.user || !st.f.vm || st.f.trap {
        return Err("the program does not start in user and virtual mode".into());
    }
    if st.pc != o.entry.unwrap().1 {
        return Err(format!("the program starts at {:04x} instead of {:04x}", st.pc, o.entry.unwrap().1));
    }
    if st.rs != 0xffff {
        return Err(format!("the stack pointer starts as {:04x}", st.rs));
    }
    if st.rh != 0 {
        return Err("a trap handler inside the machine is installed".into());
    }
    let map = walk_all(st.rp, |a| m.memory.read(a))?;
    let exp = expected(o);
    for (p, want) in &exp {
        let va = p << 7;
        let Some((_, got)) = map.pages.get(p) else {
            return Err(format!("page {va:04x} is not mapped, expected {}", perm_text(*want)));
        };
        if got & !D != *want {
            return Err(format!("page {va:04x} is mapped {} instead of {}", perm_text(*got), perm_text(*want)));
        }
    }
    for (p, (_, got)) in &map.pages {
        if !exp.contains_key(p) {
            return Err(format!("page {:04x} is mapped {} but holds nothing", p << 7, perm_text(*got)));
        }
    }
    let mut frames = BTreeSet::new();
    for (p, (f, _)) in &map.pages {
        if !frames.insert(*f) {
            return Err(format!("page {:04x} shares its frame {f:06x} with another page", p << 7));
        }
        if map.tables.contains(f) {
            return Err(format!("page {:04x} maps the page table at {f:06x}", p << 7));
        }
        if *f < 0x8000 {
            return Err(format!("page {:04x} is mapped to {f:06x}, which is not RAM", p << 7));
        }
    }
    if let Some(t) = map.tables.iter().find(|t| **t < 0x8000) {
        return Err(format!("page table at {t:06x}, which is not RAM"));
    }
    // contents
    for (p, (f, _)) in &map.pages {
        for i in 0..128u32 {
            let va = ((*p as u32) << 7) + i;
            let mut want = 0;
            for (_, at, b) in &o.segs {
                let at = *at as u32;
                if va >= at && va < at + b.len() as u32 {
                    want = b[(va - at) as usize];
                }
            }
            let got = m.memory.read(f + i);
            if got != want {
                return Err(format!("memory at {va:04x} holds {got:02x} instead of {want:02x}"));
            }
        }
    }
    Ok(())
}

/// A machine whose memory and processor were used before is loaded
fn load_again(c: &mut Case) {
    let mut m = Machine::new(LazyMain::new(NoIo), Blf4::new());
    let n = c.rng.range(1, 4);
    let mut before = String::new();
    if c.rng.chance(1, 4) {
        // anything in RAM
        for _ in 0..c.rng.below(40) {
            let a = 0x8000 + c.rng.below(0x4000) as u32;
            m.memory.write(a, c.rng.u8());
        }
        before += "bytes in RAM; ";
    }
    for k in 0..=n {
        let Some(o) = gen_layout(&mut c.rng, false) else { return };
        let obj = match object(&o) {
            Ok(x) => x,
            Err(e) => return c.violation(e),
        };
        c.eval(1);
        if let Err(p) = sut(|| m.load_user_binary(&obj)) {
            return c.violation(format!("loading aborts: {p}\n  {before}{}", show(&o)));
        }
        if let Err(e) = check_loaded(&o, &mut m) {
            return c.violation(format!("{e}\n  {}\n  before that: {before}", show(&o)));
        }
        c.count(if k > 0 { "loaded over another program" } else { "loaded first" }, 1);
        before += &format!("{}; ", show(&o));
        // it runs, or leaves other traces
        for _ in 0..c.rng.below(60) {
            if sut(|| m.execute_once()).map_or(true, |r| r.is_err()) {
                c.count("programs ended by a trap", 1);
                break;
            }
        }
        if c.rng.chance(1, 3) {
            let mut st = save_state(&m.cpu);
            st.rh = c.rng.u16();
            st.rp = c.rng.u16();
            load_state(&mut m.cpu, &st);
        }
    }
    c.nontrivial(hash_bytes(before.as_bytes()));
}

pub fn c12(run: &Run) {
    run.cases("loaded again", run.n(4_000, 100_000), load_again);
    run.cases("layouts", run.n(25_000, 600_000), load_case);
    // every stack size, every alignment of a segment
    run.cases("stack sizes", run.n(256, 1024), |c| {
        let base = c.index * if run.thorough { 64 } else { 256 };
        for k in 0..if run.thorough { 64 } else { 256 } {
            let n = base + k;
            if !run.thorough && n > 0x400 && !matches!(k, 0 | 1 | 0x7e..=0x81 | 0xff) && !c.rng.chance(1, 50) {
                continue;
            }
            let o = Obj {
                stack: Some(n as u16),
                segs: vec![(TEXT, 0x100, vec![0x0a])],
                entry: Some((TEXT, 0x100)),
                ..Default::default()
            };
            small(c, &o);
        }
    });
    run.cases("segment spans", 128, |c| {
        for len in [1usize, 2, 0x7f, 0x80, 0x81, 0x100, 0x101] {
            for t in objfmt::SEGS {
                let at = 0x0f80 + c.index as u16;
                let mut o = Obj {
                    segs: vec![(t, at, (0..len).map(|i| mix(i as u64) as u8 | 1).collect())],
                    entry: Some((t, at)),
                    ..Default::default()
                };
                o.heap = Some(*c.rng.pick(&[1, 0x80, 0x81, 0x400, 0x1000]));
                small(c, &o);
                if t == HEAP && len < 3 {
                    // from the lowest page to the very top
                    let at = c.index as u16;
                    o.segs[0].1 = at;
                    o.entry = Some((t, at));
                    o.heap = Some((0x1_0000 - at as u32).min(0xffff) as u16);
                    small(c, &o);
                }
            }
        }
    });
    run.exhaustive("every alignment of a single segment of each type with seven lengths");
}

fn small(c: &mut Case, o: &Obj) {
    if c.failed() {
        return;
    }
    let obj = match object(o) {
        Ok(x) => x,
        Err(e) => return c.violation(e),
    };
    let mut m = Machine::new(LazyMain::new(NoIo), Blf4::new());
    c.eval(1);
    if let Err(p) = sut(|| m.load_user_binary(&obj)) {
        return c.violation(format!("loading aborts: {p}\n  {}", show(o)));
    }
    c.nontrivial(hash_bytes(show(o).as_bytes()));
    if let Err(e) = check_loaded(o, &mut m) {
        c.violation(format!("{e}\n  {}", show(o)));
    }
}

// ------------------------------------------------------------------ monitored machines

thread_local! {
    static ZMEM: RefCell<Option<MonMem>> = const { RefCell::new(None) };
}

/// A loaded machine over monitored memory, undone afterwards
fn with_machine(c: &mut Case, o: &Obj, f: impl FnOnce(&mut Case, &mut Machine<MonMem, Blf4>, &Mapped)) {
    let obj = match object(o) {
        Ok(x) => x,
        Err(e) => return c.violation(e),
    };
    let mem = ZMEM.with(|z| z.borrow_mut().take()).unwrap_or_else(MonMem::zeroed);
    let mut m = Machine::new(mem, Blf4::new());
    m.memory.log_on = false;
    let r = sut(|| m.load_user_binary(&obj));
    m.memory.log_on = true;
    match r {
        Err(p) => c.violation(format!("loading aborts: {p}\n  {}", show(o))),
        Ok(()) => match walk_all(m.cpu.page, |a| m.memory.peek(a)) {
            Err(e) => c.violation(e),
            Ok(map) => f(c, &mut m, &map),
        },
    }
    let mut mem = m.memory;
    mem.undo(0);
    mem.log.clear();
    mem.oob = None;
    ZMEM.with(|z| *z.borrow_mut() = Some(mem));
}

fn access_text(m: &MonMem) -> String {
    m.log
        .iter()
        .take(40)
        .map(|(a, w)| match w {
            Some(v) => format!("W{a:06x}={v:02x}"),
            None => format!("R{a:06x}"),
        })
        .collect::<Vec<_>>()
        .join(" ")
}

/// One step of a loaded machine compared with the model of processor and kernel.
/// `handler`: the registered error handler. Ok(None): the comparison was not possible.
fn kernel_step(
    m: &mut Machine<MonMem, Blf4>,
    st: &St,
    handler: &mut u16,
    input: u8,
) -> Result<Option<(Option<u8>, St)>, String> {
    for a in 0..0x80 {
        m.memory.poke(a, input);
    }
    load_state(&mut m.cpu, st);
    let out = cpu::step(st, &mut ModelBus { m: &m.memory, over: vec![] });
    m.memory.log.clear();
    let mark = m.memory.mark();
    let r = sut(|| m.execute_once());
    let after = save_state(&m.cpu);
    let h0 = *handler;
    let mem = &mut m.memory;
    let oob = mem.oob.take();
    let fail = |mem: &MonMem, what: String| {
        let code: Vec<u8> = out.fetched.iter().map(|a| mem.peek(*a)).collect();
        let code = if code.is_empty() { "(unfetchable)".into() } else { decode(&code) };
        Err(format!(
            "{what}\n  instruction {code}, error handler {h0:04x}\n  before {}\n  after  {}\n  accesses {}",
            st.show(),
            after.show(),
            access_text(mem)
        ))
    };
    let r = match r {
        Err(p) => return fail(mem, format!("the emulator aborts: {p}")),
        Ok(r) => r.map_err(tnum),
    };
    if let Some(a) = oob {
        return fail(mem, format!("physical address {a:#x} outside the 24-bit space accessed"));
    }
    if sutcpu::self_hit(&out) {
        return Ok(None);
    }
    let ports: Vec<(u32, Option<u8>)> = mem.log.iter().filter(|l| l.0 < 0x80).copied().collect();
    let syscall = out.res == Res::Trap(vec![trap::SYSCALL]);
    let number = st.wr(1);
    match (&out.res, r) {
        (Res::Done, Ok(())) => {
            if out.op == Some(0x0d) {
                return Ok(None);
            }
            let d = out.st.diff(&after);
            if !d.is_empty() {
                return fail(mem, format!("wrong {} after the instruction", d.join(", ")));
            }
            if let Err(e) = sutcpu::mem_exact(mem, mark, &out) {
                return fail(mem, e);
            }
            Ok(Some((None, after)))
        }
        (Res::Done, Err(t)) => fail(mem, format!("the machine stops with {} instead of executing the instruction", trap::name(t))),
        (Res::Trap(_), r) if syscall => {
            let known = matches!(number, 0 | 3 | 4 | 15);
            match r {
                Err(t) => {
                    if known {
                        return fail(mem, format!("system call {number} stops the machine with {}", trap::name(t)));
                    }
                    if t != trap::SYSCALL {
                        return fail(mem, format!("unknown system call {number} stops the machine with {}", trap::name(t)));
                    }
                    if !ports.is_empty() {
                        return fail(mem, "an unknown system call touches a device".into());
                    }
                    return Ok(Some((Some(trap::SYSCALL), after)));
                }
                Ok(()) => {
                    if !known {
                        return fail(mem, format!("unknown system call {number} does not stop the machine"));
                    }
                }
            }
            let mut exp = st.clone();
            exp.pc = st.pc.wrapping_add(1);
            exp.f.trap = false;
            exp.f.user = true;
            let want: Vec<Option<u8>> = match number {
                3 => {
                    exp.set_br(1, input);
                    vec![None]
                }
                4 => vec![Some(st.br(3))],
                15 => {
                    *handler = st.wr(2);
                    vec![]
                }
                _ => vec![],
            };
            let got: Vec<Option<u8>> = ports.iter().map(|p| p.1).collect();
            if got != want {
                return fail(mem, format!("system call {number} accesses devices as {got:02x?} instead of {want:02x?} (None: a read)"));
            }
            let d = exp.diff(&after);
            if !d.is_empty() {
                return fail(mem, format!("wrong {} after system call {number}", d.join(", ")));
            }
            for (a, w) in &mem.log {
                if *a >= 0x80 && w.is_some() && undo_value(mem, mark, *a) != mem.peek(*a) {
                    let a = *a;
                    return fail(mem, format!("system call {number} changes memory at {a:06x}"));
                }
            }
            Ok(Some((Some(trap::SYSCALL), after)))
        }
        (Res::Trap(set), r) => {
            if !ports.is_empty() {
                return fail(mem, "a device is touched without a system call".into());
            }
            // which of the possible traps was it
            let halt = set.contains(&trap::HALT);
            match r {
                Err(t) => {
                    if !set.contains(&t) {
                        return fail(mem, format!("the machine stops with {} instead of one of {:?}", trap::name(t), set.iter().map(|t| trap::name(*t)).collect::<Vec<_>>()));
                    }
                    if h0 != 0 && t != trap::HALT && t != trap::SYSCALL {
                        return fail(mem, format!("trap {} stops the machine although an error handler is registered", trap::name(t)));
                    }
                    let exp = sutcpu::trapped_state(st, &out, set, t, &after);
                    let d = exp.diff(&after);
                    if !d.is_empty() {
                        return fail(mem, format!("{} changed by an instruction that traps with {}", d.join(", "), trap::name(t)));
                    }
                    Ok(Some((Some(t), after)))
                }
                Ok(()) => {
                    if (h0 == 0 && after.pc != 0) || (halt && set.len() == 1) {
                        return fail(mem, format!("the machine goes on after {:?}", set.iter().map(|t| trap::name(*t)).collect::<Vec<_>>()));
                    }
                    let t = after.wr(1);
                    if !set.iter().any(|x| *x as u16 == t) || t == trap::HALT as u16 {
                        return fail(mem, format!("the error handler gets trap number {t:#x} instead of one of {:?}", set.iter().map(|t| trap::name(*t)).collect::<Vec<_>>()));
                    }
                    if after.pc != h0 || !after.f.user || after.f.trap {
                        return fail(mem, "the error handler is not entered in user mode at its address".into());
                    }
                    let mut exp = sutcpu::trapped_state(st, &out, set, t as u8, &after);
                    exp.set_wr(1, t);
                    exp.f.user = true;
                    exp.f.trap = false;
                    let d = exp.diff(&after);
                    if !d.is_empty() {
                        return fail(mem, format!("{} changed on the way to the error handler", d.join(", ")));
                    }
                    Ok(Some((Some(t as u8), after)))
                }
            }
        }
    }
}

/// Registers biased to what loaded programs can hit
fn program_state(r: &mut Rng, o: &Obj, base: &St) -> St {
    let mut st = base.clone();
    for n in 1..=13 {
        let v = interesting(r, o);
        st.set_wr(n, v);
    }
    let x = r.u8();
    st.f.c = x & 1 != 0;
    st.f.s = x & 2 != 0;
    st.f.o = x & 4 != 0;
    st.f.z = x & 8 != 0;
    st
}

fn interesting(r: &mut Rng, o: &Obj) -> u16 {
    match r.below(8) {
        0 => r.corner16(),
        1 => 0x8000 + r.below(0x1000) as u16,
        2 => r.below(0x80) as u16,
        3 => (0xffff - r.below(0x200)) as u16,
        4 => 0u16.wrapping_sub(stack_size(o) as u16).wrapping_add(r.below(8) as u16).wrapping_sub(4),
        _ => {
            let s = r.pick(&o.segs);
            match r.below(3) {
                0 => s.1.wrapping_add(r.below(8) as u16).wrapping_sub(4),
                1 => s.1.wrapping_add(s.2.len() as u16).wrapping_add(r.below(8) as u16).wrapping_sub(4),
                _ => s.1.wrapping_add(r.below(s.2.len().max(1)) as u16),
            }
        }
    }
}

/// Instructions to fill a text segment with; returns the instruction starts
fn fill_text(r: &mut Rng, o: &mut Obj) -> Vec<u16> {
    let o2 = o.clone();
    let Some(s) = o.segs.iter_mut().find(|s| s.0 == TEXT) else { return vec![] };
    let mut starts = Vec::new();
    let mut b: Vec<u8> = Vec::new();
    while b.len() < s.2.len() {
        starts.push(s.1.wrapping_add(b.len() as u16));
        match r.below(13) {
            0 => b.push(0x0c),
            1 => {
                // a system call with its number
                b.extend([0x40, 0x10, *r.pick(&[3u8, 4, 15, 0, 3, 4, 15, 1, 2, 77]), 0]);
                starts.push(s.1.wrapping_add(b.len() as u16));
                b.push(0x0c);
            }
            2 => {
                let v = interesting(r, &o2).to_le_bytes();
                b.extend([0x40, (1 + r.below(13) as u8) << 4, v[0], v[1]]);
            }
            3 => b.push(*r.pick(&[0x0a, 0x00, 0x0d, 0x10, 0x12, 0x0b, 0x60, 0xff])),
            4 => {
                // a jump inside the text
                let v = s.1.wrapping_add(r.below(s.2.len()) as u16).to_le_bytes();
                let j = *r.pick(&[0x25u8, 0x2f, 0x34, 0x33, 0x38, 0x40]);
                if j == 0x40 {
                    b.extend([0x40, 0x01, v[0], v[1]]);
                } else {
                    b.extend([j, v[0], v[1]]);
                }
            }
            5 | 10..=12 => {
                let k = *r.pick(&[0x21u8, 0x22, 0x23, 0x24, 0x27, 0x28, 0x2b, 0x2c, 0x29, 0x2a, 0x2d, 0x2e]);
                let mut v = rand_operands(r, sutcpu::op(k));
                if v.len() == 4 {
                    // small offsets from interesting registers
                    v[2] = r.below(3) as u8;
                    v[3] = 0;
                }
                b.extend(v);
            }
            6 if r.chance(1, 4) => b.extend([r.u8(), r.u8()]),
            _ => {
                let k = spec::OPS[r.below(spec::OPS.len())];
                if matches!(k.kind, Kind::Halt) {
                    continue;
                }
                b.extend(rand_operands(r, &k));
            }
        }
    }
    b.truncate(s.2.len());
    s.2 = b;
    starts
}

pub fn c13(run: &Run) {
    run.cases("calls and traps", run.n(15_000, 400_000), |c| {
        let Some(mut o) = gen_layout(&mut c.rng, true) else { return };
        let starts = fill_text(&mut c.rng, &mut o);
        with_machine(c, &o, |c, m, _| {
            let base = save_state(&m.cpu);
            let mut handler = 0;
            for _ in 0..60 {
                let mut st = program_state(&mut c.rng, &o, &base);
                st.pc = *c.rng.pick(&starts);
                if c.rng.chance(1, 3) {
                    st.pc = interesting(&mut c.rng, &o);
                }
                if c.rng.chance(2, 3) {
                    let v = *c.rng.pick(&[0u16, 3, 4, 15, 3, 4, 15, 1, 2, 5, 6, 14, 16, 0x103, 0x303, 0x400, 0xf00, 0x8003, 0xffff]);
                    st.set_wr(1, v);
                }
                if st.wr(2) == 0 && c.rng.chance(1, 2) {
                    st.set_wr(2, 0x100);
                }
                if st.wr(1) == 0 && c.rng.chance(7, 8) {
                    // printing the memory map is slow
                    st.set_wr(1, 4);
                }
                let input = c.rng.u8();
                let h0 = handler;
                c.eval(1);
                match kernel_step(m, &st, &mut handler, input) {
                    Err(e) => return c.violation(format!("{e}\n  {}", show(&o))),
                    Ok(None) => (),
                    Ok(Some((t, _))) => {
                        let what = match t {
                            Some(trap::SYSCALL) => format!("system call {}", match st.wr(1) { n @ (0 | 3 | 4 | 15) => n.to_string(), _ => "unknown".into() }),
                            Some(t) => format!("{} {}", trap::name(t), if h0 != 0 { "with a handler registered" } else { "without handler" }),
                            None => "other instruction".into(),
                        };
                        if t.is_some() {
                            c.nontrivial(mix(st.pc as u64 | (st.wr(1) as u64) << 16 | (st.wr(2) as u64) << 32 | (input as u64) << 48 | (t.unwrap() as u64) << 56));
                        }
                        c.sample("step", || format!("{what} at {:04x}, r1={:04x} r2={:04x}", st.pc, st.wr(1), st.wr(2)));
                        c.count(&what, 1);
                    }
                }
            }
        });
    });
    // running on, so that calls and traps follow each other
    run.cases("runs", run.n(6_000, 200_000), |c| {
        let Some(mut o) = gen_layout(&mut c.rng, true) else { return };
        let starts = fill_text(&mut c.rng, &mut o);
        with_machine(c, &o, |c, m, _| {
            let base = save_state(&m.cpu);
            let mut handler = 0;
            let mut st = program_state(&mut c.rng, &o, &base);
            st.pc = *c.rng.pick(&starts);
            let mut zero_calls = 0;
            for n in 0..120 {
                if st.wr(2) == 0 {
                    st.set_wr(2, *c.rng.pick(&starts) | 1);
                }
                if n % 10 == 0 {
                    st.set_wr(2, *c.rng.pick(&starts));
                    if st.wr(2) == 0 || c.rng.chance(1, 12) {
                        st.set_wr(2, c.rng.bool() as u16);
                    }
                }
                if st.wr(1) == 0 {
                    zero_calls += 1;
                    if zero_calls > 3 {
                        st.set_wr(1, 15);
                    }
                }
                let input = c.rng.u8();
                c.eval(1);
                match kernel_step(m, &st, &mut handler, input) {
                    Err(e) => return c.violation(format!("{e}\n  step {n} of a run\n  {}", show(&o))),
                    Ok(None) => {
                        st = save_state(&m.cpu);
                        break;
                    }
                    Ok(Some((t, after))) => {
                        st = after;
                        if let Some(t) = t {
                            c.count(&format!("in runs: {}", trap::name(t)), 1);
                            c.nontrivial(mix(n << 40 | (st.pc as u64) << 16 | t as u64) ^ c.index);
                        }
                        if !st.f.user || st.f.trap {
                            // stopped
                            st.f.user = true;
                            st.f.trap = false;
                            st.pc = *c.rng.pick(&starts);
                        }
                    }
                }
            }
            let _ = st;
        });
    });
}

// ------------------------------------------------------------------ C14

pub fn c14(run: &Run) {
    run.cases("programs", run.n(15_000, 500_000), |c| {
        let Some(mut o) = gen_layout(&mut c.rng, true) else { return };
        let mut starts = vec![];
        if c.rng.chance(4, 5) {
            starts = fill_text(&mut c.rng, &mut o);
        } else {
            // arbitrary bytes as code
            for s in &mut o.segs {
                for b in &mut s.2 {
                    *b = c.rng.u8();
                }
            }
        }
        contained(c, &o, 250, starts);
    });
}

fn contained(c: &mut Case, o: &Obj, steps: usize, starts: Vec<u16>) {
    with_machine(c, o, |c, m, map| {
        let base = save_state(&m.cpu);
        let mut st = program_state(&mut c.rng, o, &base);
        st.rs = if c.rng.bool() { 0xffff } else { st.rs };
        st.pc = base.pc;
        let frames: BTreeMap<u32, u8> = map.pages.values().copied().collect();
        let mut restarts = 0;
        let (mut reads, mut writes, mut exec, mut denied, mut dev) = (0u64, 0u64, 0u64, 0u64, 0u64);
        let mut first = true;
        for n in 0..steps {
            if first {
                load_state(&mut m.cpu, &st);
                first = false;
            } else if c.rng.chance(1, 4) {
                // go on with other registers, mostly at an instruction
                let mut s2 = program_state(&mut c.rng, o, &base);
                if !starts.is_empty() && c.rng.chance(9, 10) {
                    s2.pc = *c.rng.pick(&starts);
                }
                load_state(&mut m.cpu, &s2);
            }
            let st = save_state(&m.cpu);
            let out = cpu::step(&st, &mut ModelBus { m: &m.memory, over: vec![] });
            for a in 0..0x80 {
                m.memory.bytes[a] = c.rng.u8();
            }
            m.memory.log.clear();
            let mark = m.memory.mark();
            let r = sut(|| m.execute_once());
            c.eval(1);
            let after = save_state(&m.cpu);
            let mem = &mut m.memory;
            let fail = |what: String, mem: &MonMem| {
                let code: Vec<u8> = out.fetched.iter().map(|a| mem.peek(*a)).collect();
                let code = if code.is_empty() { "(unfetchable)".into() } else { decode(&code) };
                format!("{what}\n  step {n}, instruction {code}\n  before {}\n  after  {}\n  accesses {}\n  {}", st.show(), after.show(), access_text(mem), show(o))
            };
            let r = match r {
                Err(p) => return c.violation(fail(format!("the emulator aborts: {p}"), mem)),
                Ok(r) => r,
            };
            if let Some(a) = mem.oob {
                return c.violation(fail(format!("physical address {a:#x} outside the 24-bit space accessed"), mem));
            }
            let call = (out.op == Some(0x0c)).then_some(st.wr(1));
            let mut port = Vec::new();
            for &(a, w) in &mem.log {
                let f = a & !0x7f;
                if a < 0x80 {
                    port.push(w.is_some());
                    continue;
                }
                match w {
                    Some(v) => {
                        if map.tables.contains(&f) {
                            let old = undo_value(mem, mark, a);
                            if map.entries.iter().any(|e| e.0 == a) && (v == old || v == old | D) {
                                continue;
                            }
                            return c.violation(fail(format!("the page table at {a:06x} is changed from {old:02x} to {v:02x}"), mem));
                        }
                        match frames.get(&f) {
                            Some(p) if p & (W | U) == W | U => writes += 1,
                            Some(p) => return c.violation(fail(format!("writes to {a:06x} in a frame mapped {}", perm_text(*p)), mem)),
                            None => return c.violation(fail(format!("writes to {a:06x}, which is not mapped"), mem)),
                        }
                    }
                    None => {
                        if map.tables.contains(&f) || call == Some(0) {
                            continue;
                        }
                        let need = if out.fetched.contains(&a) { X } else { R };
                        match frames.get(&f) {
                            Some(p) if p & (need | U) == need | U => {
                                if need == X {
                                    exec += 1
                                } else {
                                    reads += 1
                                }
                            }
                            Some(p) => {
                                return c.violation(fail(format!("reads {} from {a:06x} in a frame mapped {}", if need == X { "code" } else { "data" }, perm_text(*p)), mem))
                            }
                            None => return c.violation(fail(format!("reads {a:06x}, which is not mapped"), mem)),
                        }
                    }
                }
            }
            if !port.is_empty() {
                let ok = match call {
                    Some(3) => port == [false],
                    Some(4) => port == [true],
                    _ => false,
                };
                if !ok {
                    return c.violation(fail(format!("devices are accessed (writes: {port:?})"), mem));
                }
                dev += 1;
            }
            if after.rp != base.rp || after.rh != base.rh || !after.f.vm {
                return c.violation(fail("the page-table root, the trap handler or virtual mode changes".into(), mem));
            }
            match r {
                Ok(()) => {
                    if !after.f.user {
                        return c.violation(fail("the program goes on outside user mode".into(), mem));
                    }
                    if after.wr(1) <= 0x1f && out.res != Res::Done && call.is_none() {
                        denied += 1;
                    }
                }
                Err(_) => {
                    denied += 1;
                    restarts += 1;
                    if restarts > 60 {
                        break;
                    }
                    // start again somewhere with other registers
                    let mut s2 = program_state(&mut c.rng, o, &base);
                    if c.rng.chance(3, 4) {
                        let t = o.seg(TEXT).unwrap();
                        s2.pc = t.1.wrapping_add(c.rng.below(t.2.len()) as u16);
                    } else {
                        s2.pc = interesting(&mut c.rng, o);
                    }
                    load_state(&mut m.cpu, &s2);
                }
            }
        }
        // nothing but dirty flags changed in the tables
        match walk_all(base.rp, |a| m.memory.peek(a)) {
            Err(e) => return c.violation(e),
            Ok(now) => {
                let strip = |v: &[(u32, u32)]| v.iter().map(|(a, e)| (*a, e & !(D as u32))).collect::<Vec<_>>();
                if strip(&now.entries) != strip(&map.entries) {
                    return c.violation(format!("the mapping of the program changed while it ran\n  {}", show(o)));
                }
            }
        }
        c.nontrivial(mix(c.index) ^ reads ^ writes << 20 ^ exec << 40);
        c.count("data bytes read in readable frames", reads);
        c.count("data bytes written in writable frames", writes);
        c.count("code bytes fetched in executable frames", exec);
        c.count("device accesses by system calls", dev);
        c.count("instructions that trapped", denied);
        c.sample("run", || format!("{}: {reads} reads, {writes} writes, {exec} fetches, {dev} device accesses, {denied} traps", show(o)));
    });
}
