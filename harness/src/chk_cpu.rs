//! C01-C10: the processor, instruction by instruction, in lockstep with the model.

use telda2::machine::Cpu;

use crate::{
    core::{sut, Case, Run},
    cpu::{self, St, D, P, R, U, W, X},
    rng::mix,
    spec::{self, trap, Kind},
    sutcpu::*,
};

pub(crate) fn h(parts: &[u64]) -> u64 {
    parts.iter().fold(0x1234, |a, b| mix(a ^ b))
}

fn ops(f: impl Fn(&spec::Op) -> bool) -> Vec<&'static spec::Op> {
    spec::OPS.iter().filter(|o| f(o)).collect()
}

/// place an instruction in direct mode, run it, report, undo. Non-trivial = completed or trapped as the model says
fn direct(c: &mut Case, rig: &mut Rig, st: &St, code: &[u8]) -> Option<Step> {
    let m = rig.mem.mark();
    place_code(&mut rig.mem, st, st.pc, code);
    c.eval(1);
    let r = lockstep(rig, st);
    let res = match r {
        Ok(s) => {
            c.sample("execution", || {
                format!(
                    "{} from {} -> {}",
                    decode(code),
                    st.show(),
                    match s.err.or(s.delivered) {
                        Some(t) => trap::name(t).to_string(),
                        None => s.after.show(),
                    }
                )
            });
            Some(s)
        }
        Err(e) => {
            c.violation(e);
            None
        }
    };
    rig.mem.undo(m);
    res
}

fn tally(c: &mut Case, s: &Step) {
    match s.err.or(s.delivered) {
        Some(t) => c.count(&format!("trap {}", trap::name(t)), 1),
        None => c.count("completed", 1),
    }
}

// ------------------------------------------------------------------ C01

pub fn c01(run: &Run) {
    let arith = ops(|o| matches!(o.kind, Kind::Bin(_) | Kind::Mul | Kind::Div));
    // all pairs of byte operands for each byte operation
    let byte_ops: Vec<_> = arith.iter().filter(|o| !o.wide).copied().collect();
    run.cases("byte-pairs", (byte_ops.len() * 256) as u64, |c| {
        let o = byte_ops[c.index as usize / 256];
        let a = (c.index % 256) as u8;
        with_rig(|rig| {
            let mut st = rand_state(&mut c.rng);
            st.pc = 0x100 + c.rng.u16() % 0xf000;
            for b in 0..=255u8 {
                // sources and destinations distinct: r1l <- r2l, r3l ; mul/div also r4l
                let (s1, s2) = (3, 5);
                st.set_br(s1, a);
                st.set_br(s2, b);
                st.f = rand_flags(&mut c.rng);
                let code = match o.kind {
                    Kind::Bin(_) => vec![o.code, 0x10 | s1, s2 << 4],
                    _ => vec![o.code, 0x17, s1 << 4 | s2],
                };
                let Some(s) = direct(c, rig, &st, &code) else { return };
                c.nontrivial(h(&[o.code as u64, a as u64, b as u64]));
                if b == 0 {
                    tally(c, &s);
                }
                c.count(o.name, 1);
            }
        });
    });
    run.exhaustive("all 65536 operand pairs of the ten byte operations");
    // every choice of registers
    let reg_ops: Vec<_> = arith.clone();
    run.cases("register-choices", (reg_ops.len() * 256) as u64, |c| {
        let o = reg_ops[c.index as usize / 256];
        let b0 = (c.index % 256) as u8;
        with_rig(|rig| {
            for b1 in 0..=255u8 {
                let b1 = match o.kind {
                    Kind::Bin(_) if b1 & 15 != 0 => continue,
                    _ => b1,
                };
                let mut st = rand_state(&mut c.rng);
                if c.rng.chance(1, 4) {
                    // the same value in several registers, so that coinciding results matter
                    let v = c.rng.corner16();
                    for n in 1..=10 {
                        if c.rng.bool() {
                            st.set_wr(n, v);
                        }
                    }
                }
                // rp and rh as ordinary registers: the code is in direct mode, a trap is not expected
                if (b0 >> 4 == 15 || b0 & 15 == 15 || b1 >> 4 == 15 || b1 & 15 == 15) && o.wide {
                    st.rh = c.rng.corner16();
                    if st.rh != 0 && o.kind == Kind::Div {
                        // a trap would be delivered: stack in plain memory
                        st.rs = 0x9000;
                    }
                }
                let Some(s) = direct(c, rig, &st, &[o.code, b0, b1]) else { return };
                c.nontrivial(h(&[o.code as u64, b0 as u64, b1 as u64, 1]));
                tally(c, &s);
            }
        });
    });
    run.exhaustive("every choice of the four (three) operand registers of each arithmetic instruction");
    // wide values
    let wide_ops: Vec<_> = arith.iter().filter(|o| o.wide).copied().collect();
    run.cases("wide-values", run.n(3000, 60_000), |c| {
        with_rig(|rig| {
            for i in 0..500 {
                let o = wide_ops[i % wide_ops.len()];
                let mut st = rand_state(&mut c.rng);
                let (a, mut b) = (c.rng.corner16(), c.rng.corner16());
                if c.rng.chance(1, 5) {
                    b = c.rng.below(40) as u16;
                }
                if c.rng.chance(1, 8) {
                    b = a.wrapping_add(c.rng.below(3) as u16).wrapping_sub(1);
                }
                st.set_wr(3, a);
                st.set_wr(4, b);
                let code = match o.kind {
                    Kind::Bin(_) => vec![o.code, 0x13, 0x40],
                    _ => vec![o.code, 0x12, 0x34],
                };
                let Some(s) = direct(c, rig, &st, &code) else { return };
                c.nontrivial(h(&[o.code as u64, a as u64, b as u64, 2]));
                tally(c, &s);
            }
        });
    });
    // shift counts: every count for every width
    run.cases("shift-counts", 6 * 64, |c| {
        let o = [0x4b, 0x4c, 0x4d, 0x4e, 0x4f, 0x50][(c.index / 64) as usize];
        let o = op(o);
        with_rig(|rig| {
            for k in 0..if o.wide { 1024u32 } else { 4 } {
                let cnt = (c.index % 64) as u16 | (k as u16) << 6;
                let mut st = rand_state(&mut c.rng);
                let x = c.rng.corner16();
                st.set_wr(3, x);
                st.set_wr(4, cnt);
                let code = if o.wide { vec![o.code, 0x13, 0x40] } else { vec![o.code, 0x15, 0x70] };
                if direct(c, rig, &st, &code).is_none() {
                    return;
                }
                c.nontrivial(h(&[o.code as u64, cnt as u64, 3]));
                c.count("shift counts", 1);
            }
        });
    });
    run.exhaustive("all 256 byte and 65536 wide shift counts");
    // in user and virtual mode nothing differs
    run.cases("modes", run.n(400, 10_000), |c| {
        random_steps(c, 200, &arith, true);
    });
}

/// random instructions from `pool` in random modes with planted page tables
fn random_steps(c: &mut Case, n: usize, pool: &[&'static spec::Op], full_perms: bool) {
    with_rig(|rig| {
        for _ in 0..n {
            let m = rig.mem.mark();
            let o = *c.rng.pick(pool);
            let mut st = rand_state(&mut c.rng);
            st.f.vm = c.rng.chance(2, 3);
            st.f.user = c.rng.bool();
            if !st.f.vm && st.pc < 0x80 {
                st.pc += 0x80;
            }
            let code = rand_operands(&mut c.rng, o);
            if matches!(o.kind, Kind::Pload | Kind::Pstore) {
                st.f.user = c.rng.chance(1, 8);
                // a physical address in each part of the map, whatever the mode
                let a = match c.rng.below(6) {
                    0 => c.rng.u32() & 0x7f,
                    1 => c.rng.u32() & 0x7fff,
                    2 => c.rng.u32() & 0xffff,
                    3 => (c.rng.u32() & 0xff) << 16 | *c.rng.pick(&[0u32, 1, 0x7f, 0x80, 0x7fff, 0x8000, 0xffff]),
                    4 => st.rp as u32 + (c.rng.u32() & 0x3f),
                    _ => c.rng.u32() & 0xff_ffff,
                };
                let (hi, lo) = if o.kind == Kind::Pload { (code[1] & 15, code[2] >> 4) } else { (code[1] >> 4, code[1] & 15) };
                st.set_br(hi, (a >> 16) as u8);
                if lo < 14 {
                    st.set_wr(lo, a as u16);
                }
            }
            let fl = |c: &mut Case| {
                if full_perms || c.rng.chance(5, 6) {
                    P | R | W | X | U | if c.rng.bool() { D } else { 0 }
                } else {
                    c.rng.u8() & 0x3f
                }
            };
            if st.f.vm {
                let mut p = Planted::default();
                for i in [0u16, 3] {
                    let (a, b) = (fl(c), fl(c));
                    plant(&mut rig.mem, &mut c.rng, &st, st.pc.wrapping_add(i), a, b, &mut p);
                }
                place_code(&mut rig.mem, &st, st.pc, &code);
                // data pages by what the model would address
                for va in data_addresses(&st, &code) {
                    let (a, b) = (fl(c), fl(c));
                    plant(&mut rig.mem, &mut c.rng, &st, va, a, b, &mut p);
                }
                place_code(&mut rig.mem, &st, st.pc, &code);
            } else {
                place_code(&mut rig.mem, &st, st.pc, &code);
            }
            c.eval(1);
            match lockstep(rig, &st) {
                Ok(s) => {
                    tally(c, &s);
                    if s.skipped {
                        c.count("order-dependent access skipped", 1);
                    }
                    c.count(if st.f.vm { "virtual mode" } else { "direct mode" }, 1);
                    if st.f.vm && s.err.is_none() {
                        c.nontrivial(h(&[code_hash(&code), st.pc as u64, st.rp as u64, st.f.user as u64]));
                    } else {
                        c.nontrivial(h(&[code_hash(&code), st.pc as u64, 7]));
                    }
                    c.sample("execution", || format!("{} from {}", decode(&code), st.show()));
                }
                Err(e) => {
                    c.violation(e);
                    return;
                }
            }
            rig.mem.undo(m);
        }
    });
}

fn code_hash(c: &[u8]) -> u64 {
    crate::rng::hash_bytes(c)
}

/// virtual addresses of the data the instruction will access
fn data_addresses(st: &St, code: &[u8]) -> Vec<u16> {
    let Some(o) = spec::lookup(code[0]) else { return vec![] };
    let b = |i: usize| code.get(i).copied().unwrap_or(0);
    let w = |n: u8| st.wr(n);
    let a = match o.kind {
        Kind::Push => st.rs.wrapping_sub(if o.wide { 2 } else { 1 }),
        Kind::Pop => st.rs,
        Kind::Store => match o.fmt {
            spec::Fmt::WBi | spec::Fmt::WWi => w(b(1) >> 4).wrapping_add(u16::from_le_bytes([b(2), b(3)])),
            _ => w(b(1) >> 4).wrapping_add(w(b(1) & 15)),
        },
        Kind::Load => match o.fmt {
            spec::Fmt::BWi | spec::Fmt::WWi => w(b(1) & 15).wrapping_add(u16::from_le_bytes([b(2), b(3)])),
            _ => w(b(1) & 15).wrapping_add(w(b(2) >> 4)),
        },
        _ => return vec![],
    };
    if o.wide {
        vec![a, a.wrapping_add(1)]
    } else {
        vec![a]
    }
}

// ------------------------------------------------------------------ C02

pub fn c02(run: &Run) {
    // every writing instruction, every destination register
    let writers = ops(|o| {
        matches!(
            o.kind,
            Kind::Bin(_) | Kind::Mul | Kind::Div | Kind::Ldi | Kind::LdiJmp | Kind::Load | Kind::Pop | Kind::Pload
        )
    });
    run.cases("destinations", (writers.len() * 16) as u64, |c| {
        let o = writers[c.index as usize / 16];
        let d = (c.index % 16) as u8;
        with_rig(|rig| {
            for _ in 0..if run.thorough { 2000 } else { 200 } {
                let mut st = rand_state(&mut c.rng);
                if !matches!(o.kind, Kind::Div) {
                    st.rh = c.rng.corner16() & if d == 15 { 0xffff } else { 0 };
                }
                let mut code = rand_operands(&mut c.rng, o);
                code[1] = code[1] & 0x0f | d << 4;
                if o.kind == Kind::LdiJmp {
                    code[1] &= 0xf0;
                }
                if matches!(o.kind, Kind::Mul | Kind::Div) && c.rng.bool() {
                    // second destination
                    code[1] = code[1] >> 4 | code[1] << 4;
                }
                let Some(s) = direct(c, rig, &st, &code) else { return };
                c.nontrivial(h(&[code_hash(&code), st.wr(1) as u64, st.wr(2) as u64]));
                tally(c, &s);
                c.count("views of all 30 register names compared", 1);
            }
        });
    });
    // r0 and byte names through the register interface and through instruction sequences
    run.cases("sequences", run.n(2000, 40_000), |c| {
        with_rig(|rig| {
            let mut st = rand_state(&mut c.rng);
            load_state(&mut rig.cpu, &st);
            for _ in 0..200 {
                let n = c.rng.below(16) as u8;
                c.eval(1);
                if c.rng.bool() {
                    let v = c.rng.corner8();
                    rig.cpu.write_br(br(n), v);
                    st.set_br(n, v);
                } else {
                    let v = c.rng.corner16();
                    if rig.cpu.write_wr(wr(n), v).is_err() {
                        c.violation(format!("writing {} in supervisor mode fails", spec::wide_reg_name(n)));
                        return;
                    }
                    st.set_wr(n, v);
                }
                let got = save_state(&rig.cpu);
                let d = st.diff(&got);
                if !d.is_empty() {
                    c.violation(format!(
                        "after writing register {n}: {} differ\n  expected {}\n  got {}",
                        d.join(", "),
                        st.show(),
                        got.show()
                    ));
                    return;
                }
                if let Err(e) = check_views(&mut rig.cpu, &st) {
                    c.violation(e);
                    return;
                }
                c.nontrivial(h(&[n as u64, st.wr(1) as u64, st.wr(6) as u64, st.wr(3) as u64]));
                c.count("register writes", 1);
            }
        });
    });
    run.cases("random-programs", run.n(1000, 30_000), |c| {
        // straight-line runs of register instructions on one processor
        with_rig(|rig| {
            let pool = ops(|o| {
                matches!(o.kind, Kind::Bin(_) | Kind::Mul | Kind::Div | Kind::Ldi | Kind::LdiJmp | Kind::Nop | Kind::Push | Kind::Pop)
            });
            let mut st = rand_state(&mut c.rng);
            st.pc = 0x1000;
            st.rs = 0x9000 + c.rng.u16() % 0x1000;
            st.rh = 0;
            for _ in 0..300 {
                let o = *c.rng.pick(&pool);
                let mut code = rand_operands(&mut c.rng, o);
                if o.kind == Kind::LdiJmp {
                    code[1] &= 0xf0;
                }
                if code[1..].iter().any(|b| b >> 4 == 15 || b & 15 == 15) && o.wide {
                    continue;
                }
                let Some(s) = direct(c, rig, &st, &code) else { return };
                tally(c, &s);
                if s.err.is_none() {
                    st = s.after.clone();
                    c.nontrivial(h(&[code_hash(&code), st.wr(1) as u64]));
                }
                st.rh = 0;
                st.f.trap = false;
            }
        });
    });
}

// ------------------------------------------------------------------ C03

pub fn c03(run: &Run) {
    let pool = ops(|o| matches!(o.kind, Kind::Load | Kind::Store | Kind::Push | Kind::Pop));
    let phys = ops(|o| matches!(o.kind, Kind::Pload | Kind::Pstore));
    run.cases("direct", (pool.len() * 64) as u64, |c| {
        let o = pool[c.index as usize % pool.len()];
        with_rig(|rig| {
            for _ in 0..if run.thorough { 20_000 } else { 500 } {
                let mut st = rand_state(&mut c.rng);
                st.pc = 0x100 + c.rng.u16() % 0x7000;
                // effective addresses near the wrap-around and everywhere else
                let ea = match c.rng.below(4) {
                    0 => 0xfffe_u16.wrapping_add(c.rng.below(4) as u16),
                    1 => c.rng.corner16(),
                    _ => c.rng.u16(),
                };
                let off = c.rng.corner16();
                let base = ea.wrapping_sub(off);
                let mut code = rand_operands(&mut c.rng, o);
                match o.fmt {
                    spec::Fmt::WBi | spec::Fmt::WWi => {
                        st.set_wr(3, base);
                        code[1] = code[1] & 0x0f | 0x30;
                        code[2..4].copy_from_slice(&off.to_le_bytes());
                    }
                    spec::Fmt::BWi => {
                        st.set_wr(3, base);
                        code[1] = code[1] & 0xf0 | 0x03;
                        code[2..4].copy_from_slice(&off.to_le_bytes());
                    }
                    _ => match o.kind {
                        Kind::Push => st.rs = ea.wrapping_add(if o.wide { 2 } else { 1 }),
                        Kind::Pop => st.rs = ea,
                        _ => (),
                    },
                }
                let Some(s) = direct(c, rig, &st, &code) else { return };
                tally(c, &s);
                c.nontrivial(h(&[code_hash(&code), ea as u64, off as u64]));
                for a in s.out.reads.iter().chain(s.out.writes.iter().map(|w| &w.0)) {
                    if *a < 2 || *a > 0xfffd {
                        c.count("accesses at the wrap-around", 1);
                    }
                }
                c.count("data bytes observed", (s.out.reads.len() + s.out.writes.len()) as u64);
            }
        });
    });
    run.cases("virtual", run.n(2000, 40_000), |c| {
        random_steps(c, 300, &pool, true);
    });
    run.cases("physical", run.n(600, 12_000), |c| {
        random_steps(c, 300, &phys, true);
    });
    run.cases("stack-sequences", run.n(2000, 40_000), |c| {
        // pushes and pops against a shadow stack
        with_rig(|rig| {
            let pool = ops(|o| matches!(o.kind, Kind::Push | Kind::Pop));
            let mut st = rand_state(&mut c.rng);
            st.pc = 0x4000;
            let mut depth = 0i32;
            for _ in 0..200 {
                let o = *c.rng.pick(&pool);
                let mut code = rand_operands(&mut c.rng, o);
                if o.wide && code[1] >> 4 >= 11 {
                    code[1] = 0x10;
                }
                let m = rig.mem.mark();
                place_code(&mut rig.mem, &st, st.pc, &code);
                c.eval(1);
                match lockstep(rig, &st) {
                    Ok(s) => {
                        tally(c, &s);
                        depth += if o.kind == Kind::Push { 1 } else { -1 };
                        c.nontrivial(h(&[st.rs as u64, depth as u64, code_hash(&code)]));
                        if s.out.writes.iter().any(|w| w.0 >= 0x3ff0 && w.0 < 0x4010) {
                            rig.mem.undo(m);
                            return;
                        }
                        st = s.after;
                        st.pc = 0x4000;
                    }
                    Err(e) => {
                        c.violation(e);
                        return;
                    }
                }
            }
        });
    });
}

// ------------------------------------------------------------------ C04

pub fn c04(run: &Run) {
    let jcc = ops(|o| matches!(o.kind, Kind::Jcc(_)));
    run.cases("conditions", (jcc.len() * 16) as u64, |c| {
        let o = jcc[c.index as usize / 16];
        let f = c.index % 16;
        with_rig(|rig| {
            for _ in 0..if run.thorough { 4000 } else { 200 } {
                let mut st = rand_state(&mut c.rng);
                st.f.c = f & 1 != 0;
                st.f.s = f & 2 != 0;
                st.f.o = f & 4 != 0;
                st.f.z = f & 8 != 0;
                let t = c.rng.corner16();
                let code = [o.code, t as u8, (t >> 8) as u8];
                let Some(s) = direct(c, rig, &st, &code) else { return };
                tally(c, &s);
                c.count(if s.after.pc == t { "jumps taken" } else { "jumps not taken" }, 1);
                c.nontrivial(h(&[o.code as u64, f, t as u64, st.pc as u64]));
            }
        });
    });
    run.exhaustive("all 16 flag combinations of the 12 conditional jumps");
    let flow = ops(|o| matches!(o.kind, Kind::Call | Kind::Ret | Kind::LdiJmp));
    run.cases("transfers", run.n(1000, 20_000), |c| {
        with_rig(|rig| {
            for _ in 0..400 {
                let o = *c.rng.pick(&flow);
                let mut st = rand_state(&mut c.rng);
                let mut code = rand_operands(&mut c.rng, o);
                if o.kind == Kind::LdiJmp {
                    code[1] = code[1] & 0xf0 | 1;
                    if c.rng.chance(1, 3) {
                        code[1] = 1;
                    }
                }
                if st.rh != 0 {
                    st.rh = 0;
                }
                let Some(s) = direct(c, rig, &st, &code) else { return };
                tally(c, &s);
                c.count(o.name, 1);
                c.nontrivial(h(&[code_hash(&code), st.pc as u64, st.rl as u64]));
            }
        });
    });
    // lengths: every instruction at every kind of place
    let all = ops(|o| !matches!(o.kind, Kind::Reth));
    run.cases("lengths", (all.len() * 8) as u64, |c| {
        let o = all[c.index as usize % all.len()];
        with_rig(|rig| {
            for i in 0..if run.thorough { 4000u16 } else { 150 } {
                let mut st = rand_state(&mut c.rng);
                st.pc = if i < 8 { 0xfff9u16.wrapping_add(i) } else { c.rng.corner16() };
                let code = rand_operands(&mut c.rng, o);
                let Some(s) = direct(c, rig, &st, &code) else { return };
                tally(c, &s);
                c.nontrivial(h(&[code_hash(&code), st.pc as u64]));
                if st.pc > 0xfff8 {
                    c.count("at the top of the address space", 1);
                }
            }
        });
    });
    run.cases("virtual", run.n(1000, 30_000), |c| {
        let pool = ops(|o| matches!(o.kind, Kind::Call | Kind::Ret | Kind::LdiJmp | Kind::Jcc(_) | Kind::Nop | Kind::Ldi));
        random_steps(c, 300, &pool, true);
    });
}

// ------------------------------------------------------------------ C05

pub fn c05(run: &Run) {
    // every opcode with every first operand byte, in all four modes
    run.cases("opcodes", 256, |c| {
        let opc = c.index as u8;
        with_rig(|rig| {
            for b1 in 0..=255u8 {
                for mode in 0..4 {
                    for rep in 0..if run.thorough { 8 } else { 1 } {
                        let m = rig.mem.mark();
                        let mut st = rand_state(&mut c.rng);
                        st.f.vm = mode & 1 != 0;
                        st.f.user = mode & 2 != 0;
                        st.f.trap = c.rng.chance(1, 4);
                        if rep > 0 {
                            st.pc = c.rng.u16();
                        }
                        let code = [opc, b1, c.rng.corner8(), c.rng.u8()];
                        if st.f.vm {
                            let full = P | R | W | X | U;
                            let mut p = Planted::default();
                            for va in [st.pc, st.pc.wrapping_add(3)] {
                                plant(&mut rig.mem, &mut c.rng, &st, va, full, full, &mut p);
                            }
                            place_code(&mut rig.mem, &st, st.pc, &code);
                            for va in data_addresses(&st, &code) {
                                if c.rng.bool() {
                                    plant(&mut rig.mem, &mut c.rng, &st, va, full, full, &mut p);
                                }
                            }
                        }
                        place_code(&mut rig.mem, &st, st.pc, &code);
                        c.eval(1);
                        match lockstep(rig, &st) {
                            Ok(s) => {
                                tally(c, &s);
                                c.nontrivial(h(&[code_hash(&code), mode, st.f.trap as u64]));
                            }
                            Err(e) => {
                                c.violation(e);
                                return;
                            }
                        }
                        rig.mem.undo(m);
                    }
                }
            }
        });
    });
    run.exhaustive("all 65536 (opcode, first operand byte) pairs in the four combinations of user and virtual mode");
    // arbitrary states: whatever is in memory is code and page tables, one processor keeps running
    run.cases("wild", run.n(4000, 100_000), |c| {
        with_rig(|rig| {
            let mut st = rand_state(&mut c.rng);
            st.f.vm = c.rng.bool();
            st.f.user = c.rng.bool();
            st.f.trap = c.rng.bool();
            if c.rng.bool() {
                st.rh = c.rng.corner16();
            }
            if st.f.vm {
                // some of the address space is mapped
                let mut p = Planted::default();
                for _ in 0..c.rng.below(12) {
                    let va = c.rng.u16();
                    let (a, b) = (c.rng.u8() | P | X, c.rng.u8() | P | X);
                    plant(&mut rig.mem, &mut c.rng, &st, va, a & 0x3f, b & 0x3f, &mut p);
                }
                for va in [st.pc, st.pc.wrapping_add(100), st.rh, st.rs.wrapping_sub(4)] {
                    let f = P | R | W | X | U;
                    plant(&mut rig.mem, &mut c.rng, &st, va, f, f, &mut p);
                }
            }
            load_state(&mut rig.cpu, &st);
            rig.mem.log_on = false;
            let mut last = None;
            for i in 0..400 {
                c.eval(1);
                let pc = rig.cpu.program_counter;
                let Rig { mem, cpu } = rig;
                match sut(|| cpu.execute_instruction(mem)) {
                    Err(p) => {
                        c.violation(format!("the emulator aborts: {p}\n  at pc {pc:04x}, step {i}, state {}", save_state(&rig.cpu).show()));
                        return;
                    }
                    Ok(Ok(())) => c.count("completed or delivered", 1),
                    Ok(Err(t)) => {
                        c.count(&format!("trap {}", trap::name(tnum(t))), 1);
                        c.nontrivial(h(&[pc as u64, tnum(t) as u64, i, c.index]));
                        last = Some(t);
                        // go on somewhere else
                        rig.cpu.program_counter = c.rng.u16();
                        if c.rng.bool() {
                            rig.cpu.flags.user_mode = true;
                        }
                        if c.rng.chance(1, 3) {
                            rig.cpu.flags.virtual_mode = c.rng.bool();
                        }
                    }
                }
                if rig.mem.oob.is_some() {
                    c.violation(format!("physical address beyond the 24-bit space: {:x?}", rig.mem.oob));
                    return;
                }
            }
            let _ = last;
        });
    });
    run.cases("lockstep", run.n(1500, 40_000), |c| {
        let all = ops(|_| true);
        random_steps(c, 300, &all, false);
    });
    run.cases("nibbles", 256, |c| {
        // a set reserved nibble: nothing may change
        let Some(o) = spec::lookup(c.index as u8) else { return };
        if spec::zero_nibble(o.fmt).is_none() {
            return;
        }
        let z = spec::zero_nibble(o.fmt).unwrap();
        with_rig(|rig| {
            for i in 0..if run.thorough { 3000 } else { 150 } {
                let mut st = rand_state(&mut c.rng);
                st.pc = 0x80 + c.rng.u16() % 0xf000;
                st.f.user = c.rng.chance(1, 4);
                let mut code = rand_operands(&mut c.rng, o);
                let lo = if o.kind == Kind::LdiJmp { 2 } else { 1 };
                code[z + 1] = code[z + 1] & 0xf0 | c.rng.range(lo, 15) as u8;
                let Some(s) = direct(c, rig, &st, &code) else { return };
                if s.err.is_none() {
                    c.violation(format!("{} with a reserved nibble set completes", decode(&code)));
                    return;
                }
                tally(c, &s);
                c.nontrivial(h(&[code_hash(&code), i]));
            }
        });
    });
}

// ------------------------------------------------------------------ C06

pub fn c06(run: &Run) {
    let all = ops(|o| !matches!(o.kind, Kind::Reth | Kind::Pload | Kind::Pstore));
    run.cases("translation", run.n(2500, 60_000), |c| {
        random_steps(c, 300, &all, true);
    });
    run.cases("absent", run.n(1000, 30_000), |c| {
        random_steps(c, 300, &all, false);
    });
    // every virtual page once: index split of the address
    run.cases("all-pages", run.n(40, 1000), |c| {
        with_rig(|rig| {
            for page in 0..512u16 {
                let m = rig.mem.mark();
                let mut st = rand_state(&mut c.rng);
                st.f.vm = true;
                st.f.user = c.rng.bool();
                let off = *c.rng.pick(&[0u16, 1, 126, 127, 64]);
                let va = page << 7 | off;
                let o = op(*c.rng.pick(&[0x2b, 0x2c, 0x27, 0x28]));
                st.set_wr(3, va.wrapping_sub(5));
                let mut code = rand_operands(&mut c.rng, o);
                code[1] = if o.kind == Kind::Load { 0x13 } else { 0x31 };
                code[2] = 5;
                code[3] = 0;
                let full = P | R | W | X | U;
                let mut p = Planted::default();
                for v in [st.pc, st.pc.wrapping_add(3), va, va.wrapping_add(1)] {
                    plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
                }
                place_code(&mut rig.mem, &st, st.pc, &code);
                c.eval(1);
                match lockstep(rig, &st) {
                    Ok(s) => {
                        tally(c, &s);
                        c.nontrivial(h(&[va as u64, code_hash(&code), st.rp as u64]));
                    }
                    Err(e) => return c.violation(e),
                }
                rig.mem.undo(m);
            }
        });
    });
    run.exhaustive("all 512 virtual pages as load and store targets");
    // the processor keeps running while tables, root and mode change
    run.cases("changing-tables", run.n(4000, 100_000), |c| changing(c));
    run.cases("self-mapped", run.n(2000, 50_000), |c| self_mapped(c));
}

/// The root page is also one of its own second-level tables, so that the program sees its tables as
/// data: one entry serves both levels, tables are read and written through translations that use them,
/// and accesses that follow use what was written.
fn self_mapped(c: &mut Case) {
    with_rig(|rig| {
        let mut st = rand_state(&mut c.rng);
        st.f.vm = true;
        st.f.user = c.rng.chance(1, 3);
        let full = P | R | W | X | U;
        // the root in the second half of block 0, and pages that do not overlap
        let mut pages: Vec<u32> = Vec::new();
        let mut fresh = |c: &mut Case, low: bool| loop {
            let p = if low { 0x100 + (c.rng.u32() & 0xff) } else { 0x200 + (c.rng.u32() & 0xffff) };
            if !pages.contains(&p) {
                pages.push(p);
                return p;
            }
        };
        let root = fresh(c, true);
        st.rp = (root << 7) as u16;
        let slot = c.rng.u16() & 15;
        let put = |rig: &mut Rig, c: &mut Case, table: u32, i: u32, ppn: u32| {
            let d = if c.rng.bool() { D } else { 0 };
            let v = entry(ppn, c.rng.u32(), full | d);
            rig.mem.poke32((table << 7) + (i << 2), v);
        };
        put(rig, c, root, slot as u32, root);
        // two more regions with a table each, of which one also holds the code
        let mut regions: Vec<(u16, u32)> = Vec::new();
        while regions.len() < 2 {
            let i = c.rng.u16() & 15;
            if i != slot && regions.iter().all(|r| r.0 != i) {
                let t = fresh(c, false);
                put(rig, c, root, i as u32, t);
                for k in 0..32 {
                    if c.rng.chance(1, 2) {
                        let d = fresh(c, false);
                        put(rig, c, t, k, d);
                    }
                }
                regions.push((i, t));
            }
        }
        // the other half of the root page, reachable as second-level entries only
        for k in 16..32 {
            if c.rng.bool() {
                let d = fresh(c, false);
                put(rig, c, root, k, d);
            }
        }
        let (ci, ct) = regions[0];
        let k = 3 + c.rng.u16() % 20;
        for k in [k, k + 1] {
            let d = fresh(c, false);
            put(rig, c, ct, k as u32, d);
        }
        let code_at = ci << 12 | k << 7 | c.rng.u16() & 0x7f;
        for step in 0..60u64 {
            st.pc = code_at;
            let what = c.rng.below(6);
            let any = c.rng.u16() & 0x7f;
            let va = match what {
                // the root through itself
                0 => slot << 12 | slot << 7 | any,
                // a second-level table through the root
                1 => slot << 12 | c.rng.pick(&regions).0 << 7 | any,
                // a page of the other half of the root
                2 => slot << 12 | (16 + c.rng.u16() % 16) << 7 | any,
                // any page that is reached through the root as a table
                3 => slot << 12 | c.rng.u16() & 0xfff,
                // ordinary data
                _ => regions[1].0 << 12 | c.rng.u16() & 0xfff,
            };
            if c.rng.chance(1, 4) {
                // dirty flags go
                for k in 0..32 {
                    if c.rng.bool() {
                        let a = (root << 7) + (k << 2);
                        let v = rig.mem.peek(a) & !D;
                        rig.mem.poke(a, v);
                    }
                }
            }
            let o = op(*c.rng.pick(&[0x2b, 0x2c, 0x27, 0x28, 0x27, 0x28]));
            st.set_wr(3, va);
            // what is written where tables are is an entry, or a part of one
            let table = what < 2;
            let v = if table && c.rng.bool() { (c.rng.u16() & 0xff00) | (full | c.rng.u8() & D) as u16 } else { c.rng.u16() };
            st.set_wr(5, v);
            if table && o.kind == Kind::Store && what == 0 {
                // not the entries that the code and the root itself need
                let i = (va & 0x7f) >> 2;
                if i == slot || i == ci || (o.wide && ((va & 0x7f) + 1) >> 2 == slot) || (o.wide && ((va & 0x7f) + 1) >> 2 == ci) {
                    st.set_wr(3, slot << 12 | slot << 7 | 0x40 | va & 0x3e);
                }
            }
            let mut code = rand_operands(&mut c.rng, o);
            code[1] = match (o.kind, o.wide) {
                (Kind::Load, _) => 0x13,
                (_, true) => 0x35,
                _ => 0x39,
            };
            code[2] = 0;
            code[3] = 0;
            place_code(&mut rig.mem, &st, code_at, &code);
            c.eval(1);
            match lockstep(rig, &st) {
                Ok(s) => {
                    tally(c, &s);
                    let how = ["root", "table", "page of the second half", "through the root", "data", "data"][what];
                    c.count(&format!("{how} {}{}", if o.kind == Kind::Load { "read" } else { "written" }, if s.skipped { ", order-dependent" } else if s.err.is_some() { ", denied" } else { "" }), 1);
                    if s.out.ptes.len() >= 8 && s.err.is_none() && !s.skipped {
                        c.count("dirty flags set", s.out.dirty.len() as u64);
                    }
                    c.nontrivial(h(&[va as u64, step, code_hash(&code), c.index]));
                    if s.skipped {
                        // the tables are whatever the order of accesses made of them
                        return;
                    }
                    if s.err.is_none() {
                        st = s.after;
                    }
                    st.f.trap = false;
                    st.f.user = c.rng.chance(1, 3);
                }
                Err(e) => return c.violation(format!("step {step}, root page {root:x} in slot {slot}: {e}")),
            }
        }
    });
}

/// One processor, never reloaded: tables are rewritten behind it and by it, the root and the
/// mode are switched, and every instruction must use the tables of that moment.
fn changing(c: &mut Case) {
    with_rig(|rig| {
        let mut st = rand_state(&mut c.rng);
        st.f.vm = true;
        st.f.user = false;
        st.rp = 0x8000 + (c.rng.u16() & 0x3f80);
        st.set_wr(3, 0x5000);
        let full = P | R | W | X | U;
        // code page, data pages
        st.pc = c.rng.u16() & 0xff80;
        let mut p = Planted::default();
        let data: Vec<u16> = (0..4).map(|_| c.rng.u16()).collect();
        for v in [st.pc, st.pc.wrapping_add(0x80), st.pc.wrapping_add(0x100)] {
            plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
        }
        for v in &data {
            for k in 0..2 {
                plant(&mut rig.mem, &mut c.rng, &st, v.wrapping_add(k), full, full, &mut p);
            }
        }
        for step in 0..60 {
            // change something
            let what = c.rng.below(8);
            let full = P | R | W | X | U;
            match what {
                0 => {
                    // a data page moves: its second-level entry is rewritten in memory
                    let va = *c.rng.pick(&data);
                    remap(rig, c, &st, va, full);
                }
                1 => {
                    // a page disappears
                    let va = *c.rng.pick(&data);
                    let f = c.rng.u8() & 0x3e;
                    remap(rig, c, &st, va, f);
                }
                2 => {
                    // another root with fresh tables
                    st.rp = 0x8000 + (c.rng.u16() & 0x3fff);
                    let mut p = Planted::default();
                    for v in [st.pc, st.pc.wrapping_add(0x80)] {
                        plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
                    }
                    for v in &data {
                        plant(&mut rig.mem, &mut c.rng, &st, *v, full, full, &mut p);
                    }
                }
                3 => st.f.user = !st.f.user,
                4 => {
                    // the whole first-level entry moves to another table
                    let va = *c.rng.pick(&data);
                    let e1 = st.rp as u32 + ((va as u32 >> 12) << 2);
                    let v = entry(rand_ppn(&mut c.rng), c.rng.u32(), full);
                    rig.mem.poke32(e1, v);
                    let mut p = Planted { l1: vec![(va >> 12, v >> 15 << 7)], l2: vec![] };
                    for v in [va, st.pc, st.pc.wrapping_add(3)] {
                        plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
                    }
                }
                5 => st.f.vm = c.rng.chance(3, 4),
                _ => (),
            }
            if !st.f.vm && st.pc < 0x80 {
                st.pc = 0x200;
            }
            // an access to one of the data pages
            let va = c.rng.pick(&data).wrapping_add(c.rng.below(3) as u16);
            let o = op(*c.rng.pick(&[0x2b, 0x2c, 0x27, 0x28, 0x2b, 0x27, 0x20, 0x3f]));
            let mut code = rand_operands(&mut c.rng, o);
            st.set_wr(3, va);
            if matches!(o.kind, Kind::Load | Kind::Store) {
                code[1] = if o.kind == Kind::Load { 0x13 } else { 0x31 };
                code[2] = 0;
                code[3] = 0;
            }
            place_code(&mut rig.mem, &st, st.pc, &code);
            c.eval(1);
            match lockstep(rig, &st) {
                Ok(s) => {
                    tally(c, &s);
                    c.count(
                        ["entry moved", "entry removed", "root switched", "user mode toggled", "table replaced", "mode switched", "unchanged", "unchanged"][what],
                        1,
                    );
                    c.nontrivial(h(&[code_hash(&code), va as u64, step, st.rp as u64, c.index]));
                    if s.err.is_none() {
                        st = s.after;
                    } else {
                        st.pc = st.pc & 0xff80;
                    }
                    if (st.pc & 0x7f) > 0x70 {
                        st.pc &= 0xff80;
                    }
                }
                Err(e) => return c.violation(format!("step {step} after {what}: {e}")),
            }
        }
    });
}

/// where the second-level entry of a page is
fn raw_entry(mem: &MonMem, root: u16, va: u16) -> u32 {
    let e1 = root as u32 + ((va as u32 >> 12) << 2);
    let w1 = u32::from_le_bytes(std::array::from_fn(|i| mem.peek(e1 + i as u32)));
    ((w1 >> 15) << 7) + (((va as u32 >> 7) & 31) << 2)
}

fn remap(rig: &mut Rig, c: &mut Case, st: &St, va: u16, flags: u8) {
    let e1 = st.rp as u32 + ((va as u32 >> 12) << 2);
    let w1 = u32::from_le_bytes(std::array::from_fn(|i| rig.mem.peek(e1 + i as u32)));
    let e2 = ((w1 >> 15) << 7) + (((va as u32 >> 7) & 31) << 2);
    let v = entry(rand_ppn(&mut c.rng), c.rng.u32(), flags);
    rig.mem.poke32(e2, v);
}

// ------------------------------------------------------------------ C07 / C08

/// one access with chosen flags on both levels of the page(s) it uses
#[allow(clippy::too_many_arguments)]
fn flagged(c: &mut Case, rig: &mut Rig, kind: usize, user: bool, f1: u8, f2: u8, second: bool, wide: bool) -> Option<Step> {
    let m = rig.mem.mark();
    let mut st = rand_state(&mut c.rng);
    st.f.vm = true;
    st.f.user = user;
    let full = P | R | W | X | U;
    // the page under test and, for straddling, a permitted neighbour
    let page = c.rng.u16() & 0xff80;
    let other = loop {
        let o = c.rng.u16() & 0xff80;
        // in another first-level region than the page and its neighbour
        if o >> 12 != page >> 12 && o >> 12 != page.wrapping_sub(1) >> 12 && o >> 12 != page.wrapping_add(0x80) >> 12 {
            break o;
        }
    };
    let mut p = Planted::default();
    plant(&mut rig.mem, &mut c.rng, &st, page, f1, f2, &mut p);
    // `second`: the access starts in the page before and only its second byte is under test
    let va = if second { page.wrapping_sub(1) } else { page | c.rng.u16() & 0x7f };
    if second || wide {
        // a neighbour in the same region shares the first-level entry
        for v in [page.wrapping_sub(1), page.wrapping_add(0x80)] {
            plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
        }
    }
    let code: Vec<u8> = match kind {
        0 => {
            st.pc = va;
            // operands in the page too, or (second) only operands
            let o = op(*c.rng.pick(&[0x20, 0x3f, 0x40, 0x42, 0x21, 0x25]));
            let o2 = op(*c.rng.pick(&[0x3f, 0x40, 0x42, 0x25]));
            let mut code = rand_operands(&mut c.rng, if second { o2 } else { o });
            if code[0] == 0x40 {
                code[1] &= 0xf0;
            }
            if code[0] == 0x21 {
                st.rs = other | 0x40;
                plant(&mut rig.mem, &mut c.rng, &st, other, full, full, &mut p);
            }
            for v in [st.pc, st.pc.wrapping_add(3)] {
                plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
            }
            code
        }
        _ => {
            st.pc = other | c.rng.u16() & 0x3f;
            plant(&mut rig.mem, &mut c.rng, &st, other, full, full, &mut p);
            let w = wide || second;
            match (kind, c.rng.below(3)) {
                (1, 0) => {
                    st.rs = va;
                    vec![if w { 0x24 } else { 0x23 }, 0x10]
                }
                (1, 1) => {
                    st.set_wr(3, va);
                    st.set_wr(4, 0);
                    vec![if w { 0x2e } else { 0x2d }, 0x13, 0x40]
                }
                (1, _) => {
                    st.set_wr(3, va.wrapping_sub(9));
                    vec![if w { 0x2c } else { 0x2b }, 0x13, 9, 0]
                }
                (_, 0) => {
                    st.rs = va.wrapping_add(if w { 2 } else { 1 });
                    vec![if w { 0x22 } else { 0x21 }, 0x10]
                }
                (_, 1) => {
                    st.set_wr(3, va);
                    st.set_wr(4, 0);
                    vec![if w { 0x2a } else { 0x29 }, 0x34, 0x50]
                }
                (_, _) => {
                    st.set_wr(3, va.wrapping_sub(9));
                    vec![if w { 0x28 } else { 0x27 }, 0x35, 9, 0]
                }
            }
        }
    };
    place_code(&mut rig.mem, &st, st.pc, &code);
    c.eval(1);
    let r = lockstep(rig, &st);
    let s = match r {
        Ok(s) => {
            tally(c, &s);
            c.count(["fetch", "read", "write"][kind], 1);
            if s.err.is_none() {
                c.count("permitted", 1);
                if s.out.dirty.is_empty() && kind == 2 {
                    c.count("writes with both dirty flags already set", 1);
                }
                c.count("dirty flags set", s.out.dirty.len() as u64);
            } else {
                c.count("denied", 1);
            }
            c.nontrivial(h(&[kind as u64, user as u64, f1 as u64, f2 as u64, second as u64, wide as u64, code[0] as u64]));
            c.sample("access", || {
                format!(
                    "{} with level-1 flags {f1:02x}, level-2 flags {f2:02x}, user {user}: {}",
                    decode(&code),
                    s.err.map_or("done", trap::name)
                )
            });
            Some(s)
        }
        Err(e) => {
            c.violation(format!("level-1 flags {f1:02x}, level-2 flags {f2:02x}: {e}"));
            None
        }
    };
    rig.mem.undo(m);
    s
}

pub fn c07(run: &Run) {
    let reps = run.n(3, 40);
    run.cases("flag-pairs", 4096, |c| {
        let (f1, f2) = ((c.index & 63) as u8, (c.index >> 6) as u8);
        with_rig(|rig| {
            for _ in 0..reps {
                for kind in 0..3 {
                    for user in [false, true] {
                        for (second, wide) in [(false, false), (false, true), (true, true)] {
                            if flagged(c, rig, kind, user, f1, f2, second, wide).is_none() {
                                return;
                            }
                        }
                    }
                }
            }
        });
    });
    run.exhaustive("all 4096 combinations of level-1 and level-2 flags x fetch, read, write x user, supervisor x first or second byte");
    run.cases("random", run.n(1500, 40_000), |c| {
        let all = ops(|o| !matches!(o.kind, Kind::Reth));
        random_steps(c, 300, &all, false);
    });
    run.cases("changing-tables", run.n(1000, 30_000), |c| changing(c));
}

pub fn c08(run: &Run) {
    let reps = run.n(3, 40);
    run.cases("flag-pairs", 4096, |c| {
        let (f1, f2) = ((c.index & 63) as u8, (c.index >> 6) as u8);
        with_rig(|rig| {
            for _ in 0..reps {
                for kind in 0..3 {
                    for user in [false, true] {
                        for (second, wide) in [(false, false), (false, true), (true, true)] {
                            if flagged(c, rig, kind, user, f1, f2, second, wide).is_none() {
                                return;
                            }
                        }
                    }
                }
            }
            // permitted writes with every dirty combination and random other bits
            for d in 0..4 {
                let base = P | W | U;
                let f1 = base | c.rng.u8() & (R | X) | if d & 1 != 0 { D } else { 0 };
                let f2 = base | c.rng.u8() & (R | X) | if d & 2 != 0 { D } else { 0 };
                for wide in [false, true] {
                    if flagged(c, rig, 2, true, f1, f2, false, wide).is_none() {
                        return;
                    }
                }
            }
        });
    });
    run.exhaustive("all 4096 combinations of level-1 and level-2 flags for reads, writes and fetches");
    // runs in which the same pages are written again and again, dirty flags cleared at random
    run.cases("repeated", run.n(3000, 60_000), |c| {
        with_rig(|rig| {
            let mut st = rand_state(&mut c.rng);
            st.f.vm = true;
            st.rp = 0x8000 + (c.rng.u16() & 0x3ffc);
            let full = P | R | W | X | U;
            let mut p = Planted::default();
            st.pc = c.rng.u16();
            let pages: Vec<u16> = (0..3).map(|_| c.rng.u16() & 0xff80).collect();
            for v in [st.pc, st.pc.wrapping_add(3)] {
                plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
            }
            for v in &pages {
                plant(&mut rig.mem, &mut c.rng, &st, *v, full, full, &mut p);
                plant(&mut rig.mem, &mut c.rng, &st, v.wrapping_add(0x80), full, full, &mut p);
            }
            for step in 0..60 {
                st.f.user = c.rng.bool();
                let va = c.rng.pick(&pages).wrapping_add(c.rng.below(130) as u16);
                if c.rng.chance(1, 3) {
                    // the kernel clears a dirty flag
                    let e1 = st.rp as u32 + ((va as u32 >> 12) << 2);
                    let w1 = u32::from_le_bytes(std::array::from_fn(|i| rig.mem.peek(e1 + i as u32)));
                    let e2 = ((w1 >> 15) << 7) + (((va as u32 >> 7) & 31) << 2);
                    let e = if c.rng.bool() { e1 } else { e2 };
                    let v = rig.mem.peek(e) & !D;
                    rig.mem.poke(e, v);
                    c.count("dirty flags cleared", 1);
                }
                let o = op(*c.rng.pick(&[0x2b, 0x2c, 0x27, 0x28, 0x27, 0x28]));
                st.set_wr(3, va);
                let mut code = rand_operands(&mut c.rng, o);
                code[1] = if o.kind == Kind::Load { 0x13 } else { 0x35 };
                code[2] = 0;
                code[3] = 0;
                let pc = st.pc;
                place_code(&mut rig.mem, &st, pc, &code);
                c.eval(1);
                match lockstep(rig, &st) {
                    Ok(s) => {
                        tally(c, &s);
                        c.count("dirty flags set", s.out.dirty.len() as u64);
                        c.nontrivial(h(&[va as u64, step, code_hash(&code), c.index]));
                        if s.err.is_none() {
                            st = s.after;
                        }
                        st.f.trap = false;
                        st.pc = pc;
                    }
                    Err(e) => return c.violation(e),
                }
            }
        });
    });
    run.cases("self-mapped", run.n(1000, 30_000), |c| self_mapped(c));
}

// ------------------------------------------------------------------ C09

pub fn c09(run: &Run) {
    // every instruction that names a privileged register, and the privileged instructions
    let all = ops(|_| true);
    run.cases("privileged", (all.len() * 16) as u64, |c| {
        let o = all[c.index as usize / 16];
        with_rig(|rig| {
            for i in 0..if run.thorough { 2000 } else { 120 } {
                let m = rig.mem.mark();
                let mut st = rand_state(&mut c.rng);
                st.f.user = true;
                st.f.trap = c.rng.chance(1, 3);
                st.f.vm = c.rng.bool();
                if st.pc < 0x80 {
                    st.pc += 0x80;
                }
                let handler = c.rng.chance(1, 3);
                if handler {
                    st.rh = c.rng.u16() | 1;
                }
                let mut code = rand_operands(&mut c.rng, o);
                let ws = spec::reg_widths(o.fmt);
                let mut named = false;
                for (k, &wide) in ws.iter().enumerate() {
                    if wide && c.rng.chance(1, 2) {
                        let r = 14 + c.rng.below(2) as u8;
                        let b = &mut code[1 + k / 2];
                        *b = if k % 2 == 0 { *b & 15 | r << 4 } else { *b & 0xf0 | r };
                        named = true;
                    }
                }
                let full = P | R | W | X | U;
                if st.f.vm {
                    let mut p = Planted::default();
                    for v in [st.pc, st.pc.wrapping_add(3), st.rs.wrapping_sub(1), st.rs.wrapping_sub(40), st.rs] {
                        plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
                    }
                    for v in data_addresses(&st, &code) {
                        plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
                    }
                }
                place_code(&mut rig.mem, &st, st.pc, &code);
                c.eval(1);
                match lockstep(rig, &st) {
                    Ok(s) => {
                        tally(c, &s);
                        if named || matches!(o.kind, Kind::Usr | Kind::Vmon | Kind::Vmoff | Kind::Pload | Kind::Pstore | Kind::Reth) {
                            c.count("privileged attempts", 1);
                            c.nontrivial(h(&[code_hash(&code), st.f.vm as u64, st.f.trap as u64, handler as u64]));
                        }
                        if s.skipped {
                            rig.mem.undo(m);
                            continue;
                        }
                        let d = &s.after;
                        if d.rp != st.rp || d.rh != st.rh || d.f.vm != st.f.vm {
                            return c.violation(format!("{} in user mode changes system state: {} -> {}", decode(&code), st.show(), d.show()));
                        }
                        if !d.f.user && s.err.is_none() && s.delivered.is_none() {
                            return c.violation(format!("{} leaves user mode without a trap: {}", decode(&code), st.show()));
                        }
                        c.sample("attempt", || format!("{} -> {}", decode(&code), s.err.or(s.delivered).map_or("done", trap::name)));
                        let _ = i;
                    }
                    Err(e) => return c.violation(e),
                }
                rig.mem.undo(m);
            }
        });
    });
    // user code running on: user mode ends only with a trap
    run.cases("runs", run.n(4000, 100_000), |c| {
        with_rig(|rig| {
            let mut st = rand_state(&mut c.rng);
            st.f.user = true;
            st.f.vm = c.rng.bool();
            st.f.trap = c.rng.chance(1, 3);
            if st.pc < 0x80 {
                st.pc += 0x80;
            }
            st.rh = if c.rng.bool() { 0x7000 | c.rng.u16() & 0xfff } else { 0 };
            let full = P | R | W | X | U;
            let mut p = Planted::default();
            // a code region of random instructions
            let base = st.pc;
            let mut code = Vec::new();
            while code.len() < 200 {
                let o = spec::OPS[c.rng.below(spec::OPS.len())];
                code.extend(rand_operands(&mut c.rng, &o));
            }
            if st.f.vm {
                for v in (0..256).step_by(64) {
                    plant(&mut rig.mem, &mut c.rng, &st, base.wrapping_add(v), full, full, &mut p);
                }
                for v in [st.rs, st.rs.wrapping_sub(60), st.rh] {
                    plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
                }
            }
            place_code(&mut rig.mem, &st, base, &code);
            for _ in 0..60 {
                c.eval(1);
                match lockstep(rig, &st) {
                    Ok(s) => {
                        tally(c, &s);
                        c.count("user mode steps", 1);
                        c.nontrivial(h(&[s.after.pc as u64, c.index, s.after.wr(1) as u64]));
                        if s.skipped {
                            return;
                        }
                        let d = &s.after;
                        if d.rp != st.rp || d.rh != st.rh || d.f.vm != st.f.vm {
                            return c.violation(format!("user code changes system state: {} -> {}", st.show(), d.show()));
                        }
                        if !d.f.user {
                            if s.err.is_none() && s.delivered.is_none() {
                                return c.violation(format!("user mode left without a trap: {} -> {}", st.show(), d.show()));
                            }
                            if s.delivered.is_some() && d.pc != st.rh {
                                return c.violation(format!("supervisor mode entered outside the handler: {}", d.show()));
                            }
                            // back to user code at the next instruction
                            let pc = base.wrapping_add(c.rng.below(190) as u16);
                            st.pc = pc;
                            st.rs = c.rng.corner16();
                            continue;
                        }
                        st = s.after;
                        if st.pc.wrapping_sub(base) > 190 {
                            st.pc = base.wrapping_add(c.rng.below(190) as u16);
                        }
                    }
                    Err(e) => return c.violation(e),
                }
            }
        });
    });
}

// ------------------------------------------------------------------ C10

pub fn c10(run: &Run) {
    run.cases("delivery", run.n(40_000, 1_500_000), |c| {
        with_rig(|rig| {
            for _ in 0..10 {
                if !delivery(c, rig) {
                    return;
                }
            }
        });
    });
    run.cases("nested", run.n(4_000, 200_000), |c| {
        with_rig(|rig| {
            for _ in 0..5 {
                if !nested(c, rig) {
                    return;
                }
            }
        });
    });
    run.cases("reth-outside", run.n(64, 2000), |c| {
        with_rig(|rig| {
            for _ in 0..20 {
                let mut st = rand_state(&mut c.rng);
                if st.pc < 0x80 {
                    st.pc += 0x80;
                }
                st.f.trap = false;
                st.f.user = c.rng.chance(1, 4);
                let Some(s) = direct(c, rig, &st, &[0x0d]) else { return };
                c.nontrivial(h(&[st.pc as u64, st.rs as u64]));
                tally(c, &s);
                if !st.f.user && s.err != Some(trap::ILL_RETH) {
                    return c.violation(format!("handler return outside a trap gives {:?}", s.err.map(trap::name)));
                }
            }
        });
    });
}

/// Handlers that trap themselves: the inner handler returns, or drops its context and goes on in the outer one;
/// in the end the stack is as the outermost one found it when it returns
fn nested(c: &mut Case, rig: &mut Rig) -> bool {
    let m0 = rig.mem.mark();
    let mut st = rand_state(&mut c.rng);
    st.f.vm = c.rng.chance(1, 3);
    st.f.user = c.rng.bool();
    st.f.trap = c.rng.chance(1, 5);
    st.pc = 0x8000 + c.rng.u16() % 0x800;
    st.rs = 0xa000 + c.rng.u16() % 0x2000;
    let handler = 0x9000 + c.rng.u16() % 0x400;
    let depth = 2 + c.rng.below(3) as usize;
    if st.f.vm {
        // every page somewhere of its own; the handlers and their stack need no user flag
        let full = P | R | W | X | U;
        let sys = if c.rng.bool() { P | R | W | X } else { full };
        let mut p = Planted::default();
        let mut used: Vec<u32> = (0..2).map(|k| (st.rp as u32 >> 7) + k).collect();
        let area = |from: u16, n: u16, f: u8| (0..n).step_by(32).map(move |i| (from.wrapping_add(i), f));
        let vas: Vec<(u16, u8)> = area(st.pc, 64, full).chain(area(st.rs.wrapping_sub(480), 544, sys)).chain(area(handler, 0x100 * depth as u16 + 64, sys)).collect();
        for (va, f) in vas {
            let new = !p.l2.contains(&(va >> 7));
            let tables = p.l1.len();
            // first-level entries are shared by pages with and without the user flag
            let pa = plant(&mut rig.mem, &mut c.rng, &st, va, full, f, &mut p);
            if new {
                used.push(pa >> 7);
            }
            if p.l1.len() > tables {
                used.push(p.l1[tables].1 >> 7);
            }
        }
        let n = used.len();
        used.sort();
        used.dedup();
        if used.len() != n {
            c.count("overlapping frames, skipped", 1);
            rig.mem.undo(m0);
            return true;
        }
    }
    let trapping = |c: &mut Case| -> Vec<u8> {
        match c.rng.below(4) {
            0 => vec![0x0c],
            1 => vec![0x0a],
            2 => vec![*c.rng.pick(&[0x00, 0x01, 0x15, 0x3b, 0x55, 0xff, 0x60])],
            _ => vec![0x52, 0x12, 0x30], // division by r0
        }
    };
    let main = trapping(c);
    let pc = st.pc;
    place_code(&mut rig.mem, &st, pc, &main);
    let m1 = rig.mem.mark();
    st.rh = 0;
    c.eval(1);
    let a = match lockstep(rig, &st) {
        Ok(s) => s,
        Err(e) => {
            c.violation(e);
            return false;
        }
    };
    rig.mem.undo(m1);
    let Some(t) = a.err else {
        c.violation(format!("{} does not trap", decode(&main)));
        return false;
    };
    let at = |k: usize| handler + 0x100 * k as u16;
    // whether the handler of this level drops its context instead of returning
    let drops: Vec<bool> = (0..depth).map(|k| k > 0 && c.rng.bool()).collect();
    let saved = |k: usize| 10 - k as u8; // register that keeps the stack pointer at the entry of this level
    let mut traps = 1;
    let mut flag_after = vec![true; depth]; // is the trap flag set when this level goes on after its inner one
    for k in (0..depth).rev() {
        let mut b = Vec::new();
        let clobber = |c: &mut Case, b: &mut Vec<u8>| {
            for _ in 0..c.rng.below(4) {
                let r = 1 + c.rng.below(5) as u8;
                match c.rng.below(3) {
                    0 => b.extend([0x40, r << 4, c.rng.u8(), c.rng.u8()]),
                    1 => b.extend([*c.rng.pick(&[0x42u8, 0x44]), r << 4 | 3, 0x20]),
                    _ => b.extend([0x22, r << 4, 0x24, r << 4]),
                }
            }
        };
        b.extend([0x42, saved(k) << 4 | 11, 0]);
        clobber(c, &mut b);
        if k + 1 < depth {
            let [l, hi] = at(k + 1).to_le_bytes();
            b.extend([0x40, 0xf0, l, hi]);
            b.extend(trapping(c));
            traps += 1;
            // the inner one goes on here
            let on = at(k) + b.len() as u16;
            if drops[k + 1] {
                let [l, hi] = on.to_le_bytes();
                let d = [0x42, 0xb0 | saved(k), 0, 0x40, 0x01, l, hi];
                let end = at(k + 1) + 0xc0;
                place_code(&mut rig.mem, &st, end, &d);
            }
            flag_after[k] = drops[k + 1] && flag_after[k + 1];
            clobber(c, &mut b);
        }
        if drops[k] {
            let [l, hi] = (at(k) + 0xc0).to_le_bytes();
            b.extend([0x40, 0x01, l, hi]);
        } else if flag_after[k] {
            b.extend([0x42, 0xb0 | saved(k), 0, 0x0d]);
        } else {
            // returning is not possible outside a trap, which is a trap itself
            let x = at(k) + 0xd0;
            let [l, hi] = x.to_le_bytes();
            b.extend([0x40, 0xf0, l, hi, 0x0d]);
            traps += 1;
            place_code(&mut rig.mem, &st, x, &[0x42, 0xb0 | saved(k), 0, 0x0d]);
        }
        place_code(&mut rig.mem, &st, at(k), &b);
    }
    st.rh = handler;
    load_state(&mut rig.cpu, &st);
    rig.mem.log_on = false;
    let mut trail: Vec<u16> = Vec::new();
    let mut exp = a.after.clone();
    exp.rh = handler;
    exp.f.user = st.f.user;
    exp.f.trap = false;
    let mut outcome = Err("the outermost handler does not return".to_string());
    for _ in 0..400 {
        let Rig { mem, cpu } = &mut *rig;
        match sut(|| cpu.execute_instruction(mem)) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => {
                outcome = Err(format!("trap {} reported although a handler is installed", trap::name(tnum(e))));
                break;
            }
            Err(p) => {
                outcome = Err(format!("the emulator aborts: {p}"));
                break;
            }
        }
        let pc = rig.cpu.program_counter;
        trail.push(pc);
        if !(handler..handler + 0x100 * depth as u16).contains(&pc) {
            let df = exp.diff(&save_state(&rig.cpu));
            outcome = if df.is_empty() { Ok(()) } else { Err(format!("after {depth} nested handlers, {} differ from the interrupted context", df.join(", "))) };
            break;
        }
    }
    rig.mem.log_on = true;
    c.eval(traps);
    if let Err(e) = outcome {
        let t: Vec<String> = trail.iter().rev().take(24).rev().map(|p| format!("{p:04x}")).collect();
        c.violation(format!(
            "{e}\n  {} traps with {}; handlers at {handler:04x} and every 100 after it\n  before {}\n  now    {}\n  expect {}\n  last program counters {}",
            decode(&main), trap::name(a.err.unwrap_or(0)), st.show(), save_state(&rig.cpu).show(), exp.show(), t.join(" ")
        ));
        return false;
    }
    c.count(&format!("nested {depth} deep, {traps} traps"), 1);
    if st.f.vm {
        c.count("nested in virtual mode", 1);
    }
    c.count("inner handlers that dropped their context", drops.iter().filter(|d| **d).count() as u64);
    c.nontrivial(h(&[t as u64, st.pc as u64, st.rs as u64, depth as u64, trail.len() as u64, st.f.user as u64]));
    rig.mem.undo(m0);
    true
}

/// A trapping instruction on twin machines, without and with a handler, then the handler returns
fn delivery(c: &mut Case, rig: &mut Rig) -> bool {
    let m0 = rig.mem.mark();
    let mut st = rand_state(&mut c.rng);
    st.f.vm = c.rng.chance(3, 5);
    st.f.user = c.rng.bool();
    st.f.trap = c.rng.chance(1, 5);
    st.pc = 0x1000 + c.rng.u16() % 0x3000;
    let mut handler = 0x6000 + c.rng.u16() % 0x800;
    // a handler that turns virtual mode on and off; its pages and the stack are mapped to themselves
    let switching = c.rng.chance(1, 4);
    if switching {
        handler |= 0x8000;
    }
    // the stack: mapped and away from the code
    st.rs = 0xa000 + c.rng.u16() % 0x2000;
    if !switching && c.rng.chance(1, 6) {
        st.rs = c.rng.u16() % 0x30;
    }
    if switching {
        st.rp = 0x8000 + (c.rng.u16() & 0xfff);
    }
    // an instruction that traps for one of many reasons
    let full = P | R | W | X | U;
    let mut p = Planted::default();
    let mut code_flags = (full, full);
    let mut unmapped_tail = false;
    let why = c.rng.below(10);
    let mut code: Vec<u8> = match why {
        0 => vec![0x0c],
        1 => vec![0x0a],
        2 => vec![*c.rng.pick(&[0x00, 0x01, 0x15, 0x3b, 0x55, 0xff, 0x60])],
        3 => {
            st.set_br(4, 0);
            st.set_wr(4, 0);
            let wide = c.rng.bool();
            if wide {
                vec![0x52, 0x12, 0x34]
            } else {
                st.set_br(4, 0);
                vec![0x51, 0x12, 0x34]
            }
        }
        4 => {
            // reserved nibble
            let o = *c.rng.pick(&[0x21u8, 0x41, 0x44, 0x3f, 0x2a, 0x2d, 0x24]);
            let o = op(o);
            let mut v = rand_operands(&mut c.rng, o);
            let z = spec::zero_nibble(o.fmt).unwrap();
            v[z + 1] |= 3;
            v
        }
        5 | 6 => {
            // denied or absent data page
            st.f.vm = true;
            let k = c.rng.below(6);
            let va = 0xd000 + c.rng.u16() % 0x2000;
            let (f1, f2) = match c.rng.below(4) {
                0 => (0, full),
                1 => (full, 0),
                2 => (full, c.rng.u8() & (P | R | W | X | U | D)),
                _ => (c.rng.u8() & 0x3f, c.rng.u8() & 0x3f),
            };
            plant(&mut rig.mem, &mut c.rng, &st, va, f1, f2, &mut p);
            st.set_wr(5, va);
            match k {
                0 => vec![0x2b, 0x15, 0, 0],
                1 => vec![0x2c, 0x15, 0, 0],
                2 => vec![0x27, 0x51, 0, 0],
                3 => vec![0x28, 0x51, 0, 0],
                4 => vec![0x2a, 0x50, 0x20],
                _ => vec![0x2d, 0x15, 0x00],
            }
        }
        7 => {
            // the opcode itself cannot be fetched
            st.f.vm = true;
            code_flags = match c.rng.below(4) {
                0 => (0, full),
                1 => (full, 0),
                2 => (full, full & !X),
                _ => (full & !U, full),
            };
            if code_flags.0 == full & !U {
                st.f.user = true;
            }
            vec![0x20]
        }
        8 => {
            // operands on a page that cannot be fetched
            st.f.vm = true;
            st.pc |= 0x7f;
            unmapped_tail = true;
            let o = op(*c.rng.pick(&[0x25, 0x3f, 0x40, 0x42, 0x2f, 0x26, 0x21]));
            let mut v = rand_operands(&mut c.rng, o);
            if v[0] == 0x40 {
                v[1] &= 0xf0;
            }
            v
        }
        _ => {
            // privileged instruction, or privileged register, in user mode; or reth outside a trap
            if c.rng.chance(1, 4) {
                st.f.trap = false;
                st.f.user = false;
                vec![0x0d]
            } else {
                st.f.user = true;
                match c.rng.below(4) {
                    0 => vec![*c.rng.pick(&[0x10u8, 0x11, 0x12])],
                    1 => vec![0x40, 0xe0, 1, 2],
                    2 => vec![0x42, 0x1e, 0x10],
                    _ => vec![0x22, 0xf0],
                }
            }
        }
    };
    if st.f.vm {
        let pc = st.pc;
        plant(&mut rig.mem, &mut c.rng, &st, pc, code_flags.0, code_flags.1, &mut p);
        if unmapped_tail {
            let (a, b) = match c.rng.below(3) {
                0 => (full, 0),
                1 => (full, full & !X),
                _ => (full, if st.f.user { full & !U } else { 0 }),
            };
            plant(&mut rig.mem, &mut c.rng, &st, pc.wrapping_add(1), a, b, &mut p);
        } else {
            plant(&mut rig.mem, &mut c.rng, &st, pc.wrapping_add(3), full, full, &mut p);
        }
        // supervisor needs no user flag on its stack and handler pages
        let sys = if c.rng.bool() { P | W | R | X } else { full };
        for k in 0..2u16 {
            for v in [st.rs.wrapping_sub(k * 80), st.rs.wrapping_add(k * 4), handler.wrapping_add(k * 100)] {
                plant(&mut rig.mem, &mut c.rng, &st, v, sys, sys, &mut p);
            }
        }
    }
    if switching {
        for v in (0..16u16).map(|k| st.rs.wrapping_sub(72).wrapping_add(k * 8)).chain((0..12u16).map(|k| handler.wrapping_add(k * 8))) {
            let pa = plant(&mut rig.mem, &mut c.rng, &st, v, full, full, &mut p);
            if pa != v as u32 {
                // the entry is there now: let it point to its own number
                let e = raw_entry(&rig.mem, st.rp, v);
                rig.mem.poke32(e, entry(v as u32 >> 7, c.rng.u32(), full));
            }
        }
    }
    if !code.is_empty() {
        let pc = st.pc;
        place_code(&mut rig.mem, &st, pc, &code);
    }
    // handler body: clobbers registers and flags, uses the stack in balance, then returns
    let mut body: Vec<u8> = Vec::new();
    let mut mode = st.f.vm;
    let mut switches = 0;
    for _ in 0..if switching { 1 + c.rng.below(7) } else { c.rng.below(7) } {
        if switching && c.rng.bool() {
            let on = c.rng.chance(1, 5) == mode;
            body.push(if on { 0x11 } else { 0x12 });
            switches += (on != mode) as u64;
            mode = on;
        }
        match c.rng.below(6) {
            0 => {
                let r = 1 + c.rng.below(10) as u8;
                body.extend([0x40, r << 4, c.rng.u8(), c.rng.u8()]);
            }
            1 => {
                let (a, b) = (1 + c.rng.below(10) as u8, 1 + c.rng.below(10) as u8);
                body.extend([*c.rng.pick(&[0x42u8, 0x44, 0x48, 0x4a]), a << 4 | b, b << 4]);
            }
            2 => {
                let r = 1 + c.rng.below(10) as u8;
                body.extend([0x22, r << 4]);
                let r = 1 + c.rng.below(10) as u8;
                body.extend([0x24, r << 4]);
            }
            3 => body.extend([0x3f, (c.rng.below(16) as u8) << 4, c.rng.u8()]),
            4 => body.extend([0x40, if c.rng.bool() { 0xc0 } else { 0xd0 }, c.rng.u8(), c.rng.u8()]),
            _ => body.push(0x20),
        }
    }
    if c.rng.chance(1, 4) {
        // another handler
        body.extend([0x40, 0xf0, c.rng.u8(), c.rng.u8()]);
    }
    if !mode && c.rng.chance(1, 4) {
        // another root, not in use now
        body.extend([0x40, 0xe0, c.rng.u8(), c.rng.u8()]);
    }
    let steps = {
        // number of instructions in the body
        let mut n = 0;
        let mut i = 0;
        while i < body.len() {
            i += 1 + spec::fmt_len(op(body[i]).fmt) as usize;
            n += 1;
        }
        n
    };
    body.push(0x0d);
    place_code(&mut rig.mem, &st, handler, &body);
    code.truncate(8);

    let m1 = rig.mem.mark();
    // twin A: nothing installed
    st.rh = 0;
    c.eval(1);
    let a = match lockstep(rig, &st) {
        Ok(s) => s,
        Err(e) => {
            c.violation(e);
            return false;
        }
    };
    let fetched: Vec<u8> = a.out.fetched.iter().map(|x| rig.mem.peek(*x)).collect();
    if a.skipped || !code.starts_with(&fetched) || (a.out.op == Some(0x0d) && a.out.res == cpu::Res::Done) {
        // the random frames alias: another instruction than the planted one
        c.count("aliased, skipped", 1);
        rig.mem.undo(m0);
        return true;
    }
    let out_writes: Vec<u32> = a.out.maybe.iter().map(|w| w.0).collect();
    rig.mem.undo(m1);
    let Some(t) = a.err else {
        // the planted reason did not apply after all
        c.count("did not trap", 1);
        rig.mem.undo(m0);
        return true;
    };
    // twin B: same machine with a handler
    st.rh = handler;
    // the frame must not land on the tables, the code or the page of the handler
    let frame_ok = match frame(&rig.mem, &st, st.rs.wrapping_sub(64), 68) {
        None => false,
        Some((pas, mut ptes)) => {
            let mut sup = st.clone();
            sup.f.user = false;
            let mut bus = ModelBus { m: &rig.mem, over: vec![] };
            let mut ok = true;
            let mut body_at = Vec::new();
            ptes.extend(&a.out.ptes);
            for i in 0..body.len() as u16 {
                let va = handler.wrapping_add(i);
                match cpu::walk(&sup, &mut bus, va, cpu::Acc::X, &mut ptes) {
                    Ok(w) => {
                        let pa = w.map_or(va as u32, |w| w.pa);
                        body_at.push(pa);
                        if pas.contains(&pa) || bus.m.peek(pa) != body[i as usize] {
                            ok = false
                        }
                    }
                    Err(_) => ok = false,
                }
            }
            ok && tables_sound(&ptes)
                && !pas.iter().any(|x| ptes.contains(x))
                && !out_writes.iter().any(|w| ptes.contains(w) || pas.contains(w) || body_at.contains(w))
                && !body_at.iter().any(|b| ptes.contains(b))
        }
    };
    // and in both modes when the handler switches
    let frame_ok = frame_ok && (!switching || {
        let mut sup = st.clone();
        sup.f.user = false;
        sup.f.vm = true;
        frame(&rig.mem, &sup, st.rs.wrapping_sub(64), 68).is_some_and(|(pas, mut ptes)| {
            let mut same = pas.iter().enumerate().all(|(i, pa)| *pa == st.rs.wrapping_sub(64).wrapping_add(i as u16) as u32);
            let mut bus = ModelBus { m: &rig.mem, over: vec![] };
            for i in 0..body.len() as u16 {
                let va = handler.wrapping_add(i);
                let w = cpu::walk(&sup, &mut bus, va, cpu::Acc::X, &mut ptes);
                same &= matches!(w, Ok(Some(w)) if w.pa == va as u32) && rig.mem.peek(va as u32) == body[i as usize];
            }
            same && tables_sound(&ptes)
                && !pas.iter().any(|x| ptes.contains(x))
                && !out_writes.iter().any(|w| ptes.contains(w))
                && !(0..body.len() as u16).any(|i| ptes.contains(&(handler.wrapping_add(i) as u32)))
        })
    });
    if !frame_ok {
        c.count(if switching { "switching handler not usable, skipped" } else { "stack or handler not usable, skipped" }, 1);
        rig.mem.undo(m0);
        return true;
    }
    load_state(&mut rig.cpu, &st);
    rig.mem.log_on = false;
    let info = |what: &str, rig: &Rig| {
        format!("{what}\n  {} traps with {}\n  before {}\n  now    {}", decode(&code), trap::name(t), st.show(), save_state(&rig.cpu).show())
    };
    let exec = |rig: &mut Rig| {
        let Rig { mem, cpu } = rig;
        sut(|| cpu.execute_instruction(mem))
    };
    c.eval(1);
    match exec(rig) {
        Err(p) => {
            c.violation(info(&format!("the emulator aborts: {p}"), rig));
            return false;
        }
        Ok(Err(e)) => {
            c.violation(info(&format!("trap {} reported although a handler is installed", trap::name(tnum(e))), rig));
            return false;
        }
        Ok(Ok(())) => (),
    }
    let d = save_state(&rig.cpu);
    if d.pc != handler || d.f.user || !d.f.trap || d.wr(1) != t as u16 || d.f.vm != st.f.vm || d.rp != st.rp || d.rh != st.rh {
        c.violation(info("trap delivery: expected the handler in supervisor mode with the trap flag set and the trap number in r1", rig));
        return false;
    }
    for i in 0..=steps {
        match exec(rig) {
            Ok(Ok(())) => (),
            Ok(Err(e)) => {
                c.violation(info(&format!("instruction {i} of the handler traps with {}", trap::name(tnum(e))), rig));
                return false;
            }
            Err(p) => {
                c.violation(info(&format!("the emulator aborts: {p}"), rig));
                return false;
            }
        }
    }
    let back = save_state(&rig.cpu);
    let mut exp = a.after.clone();
    exp.rh = handler;
    exp.f.user = st.f.user;
    exp.f.trap = false;
    let df = exp.diff(&back);
    if !df.is_empty() {
        c.violation(info(&format!("after the handler returned, {} differ from the interrupted context\n  expected {}", df.join(", "), exp.show()), rig));
        return false;
    }
    if t == trap::SYSCALL && back.pc != st.pc.wrapping_add(1) {
        c.violation(info("a system call does not resume at the next instruction", rig));
        return false;
    }
    if back.pc.wrapping_sub(st.pc) > 4 {
        c.violation(info("the restored program counter is not at the interrupted instruction", rig));
        return false;
    }
    rig.mem.log_on = true;
    c.count(&format!("delivered and returned: {}", trap::name(t)), 1);
    if switches > 0 {
        c.count(
            match (st.f.vm, mode) {
                (false, true) => "returned from virtual mode to direct mode",
                (true, false) => "returned from direct mode to virtual mode",
                _ => "returned in the mode of the trap after switching",
            },
            1,
        );
    }
    c.nontrivial(h(&[t as u64, st.pc as u64, st.rs as u64, why as u64, st.f.vm as u64, st.f.user as u64]));
    c.sample("delivery", || format!("{} -> {} delivered, {} handler instructions, context restored", decode(&code), trap::name(t), steps));
    rig.mem.undo(m0);
    true
}
