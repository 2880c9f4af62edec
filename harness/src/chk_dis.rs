//! C20, C21: the disassembler, in process, next to the assembler and the processor.

use std::mem;

use telda2::{blf4::Blf4, disassemble::{disassemble_instruction, DisassembledInstruction}, machine::Machine};

use crate::{
    asm::{rand_ins, Enc, Form, Imm, Ins, FORMS, O},
    chk_cpu::h,
    core::{sut, Case, Run},
    disline::{assemblable, names, parse_line, parse_op},
    cpu::{self, Acc, Res, St, D, P, R, U, W, X},
    objfmt::{parse, TEXT},
    rng::{hash_bytes, Rng},
    spec::trap,
    sutcpu::{load_state, place_code, plant, rand_operands, rand_state, raw_translate, save_state, tables_sound, tnum, with_rig, ModelBus, MonMem, Planted, Rig},
    tools::{clip, write},
};

fn on_machine<T>(rig: &mut Rig, f: impl FnOnce(&mut Machine<MonMem, Blf4>) -> T) -> T {
    let mem = mem::replace(&mut rig.mem, MonMem::empty());
    let cpu = mem::replace(&mut rig.cpu, Blf4::new());
    let mut m = Machine::new(mem, cpu);
    let t = f(&mut m);
    rig.mem = m.memory;
    rig.cpu = m.cpu;
    t
}

fn hex_b(op: &str) -> bool {
    parse_op(op).is_some_and(|(_, a)| a.iter().any(|a| a.starts_with("0x") && a.ends_with('b')))
}

type Dis = Result<Result<DisassembledInstruction, u8>, String>;

fn disassemble(m: &mut Machine<MonMem, Blf4>, label: Option<(u16, &str)>) -> Dis {
    sut(|| disassemble_instruction(m, |a| label.filter(|l| l.0 == a).map(|l| l.1))).map(|r| r.map_err(tnum))
}

/// Disassembles `i` at `at` in direct mode; what is shown
fn shown(c: &mut Case, m: &mut Machine<MonMem, Blf4>, i: &Ins, at: u16, label: Option<(u16, &str)>) -> Option<String> {
    let (code, _) = i.encode();
    for (k, b) in code.iter().enumerate() {
        m.memory.poke(at as u32 + k as u32, *b);
    }
    m.cpu.program_counter = at;
    c.eval(1);
    let ctx = |e: String| format!("{e}\n  {} ({}) at {at:04x}", i.show(), crate::sutcpu::decode(&code));
    match disassemble(m, label) {
        Err(p) => c.violation(ctx(format!("disassembling aborts: {p}"))),
        Ok(Err(t)) => c.violation(ctx(format!("disassembling fails with {}", trap::name(t)))),
        Ok(Ok(d)) => match parse_line(&d.annotated_source, code.len()) {
            None => c.violation(ctx(format!("no address and {} bytes in {:?}", code.len(), d.annotated_source))),
            Some(l) => {
                if l.addr != at {
                    c.violation(ctx(format!("address {:04x} is shown: {:?}", l.addr, d.annotated_source)));
                } else if l.bytes != code {
                    c.violation(ctx(format!("other bytes are shown: {:?}", d.annotated_source)));
                } else {
                    let lab = label.filter(|l| i.imm == Imm::Num(l.0) && i.form.imm() == Some(O::Iw)).map(|l| l.1);
                    if let Err(e) = names(&l.op, i, lab) {
                        c.violation(ctx(format!("{e}: {:?}", d.annotated_source)));
                    } else {
                        c.nontrivial(hash_bytes(&code));
                        c.count(&format!("shown as {}", i.form.names[0]), 1);
                        return Some(l.op);
                    }
                }
            }
        },
    }
    None
}

fn rand_at(r: &mut Rng) -> u16 {
    match r.below(4) {
        0 => 0x80 + r.below(4) as u16,
        1 => 0xfff0 + r.below(12) as u16,
        _ => r.range(0x80, 0xfff0) as u16,
    }
}

/// Assembles the shown texts again
fn reassemble(c: &mut Case, v: &[(Ins, String)]) {
    if v.is_empty() {
        return;
    }
    let dir = c.dir();
    let mut s = String::from(".seg text\n");
    for (_, t) in v {
        s += t;
        s.push('\n');
    }
    write(&dir, "d.t", &s);
    let out = c.run.tool("tc", &dir).arg("d.t").run();
    if !out.ok() {
        let lines = crate::chk_lines::named_lines(&out.err(), "d.t");
        let l = lines.iter().next().and_then(|n| v.get(n.wrapping_sub(2)));
        return match l {
            Some((i, t)) => c.violation(format!("the text shown for {} is refused by the assembler: {t:?}\n{}", i.show(), clip(&out.err(), 400))),
            None => c.violation(format!("the texts shown are refused by the assembler\n{}", out.show())),
        };
    }
    let b = std::fs::read(dir.join("d.to")).unwrap_or_default();
    let o = match parse(&b, true) {
        Ok(o) => o,
        Err(e) => return c.violation(format!("the assembler's object: {e}")),
    };
    let text = o.seg(TEXT).map(|s| s.2.clone()).unwrap_or_default();
    let mut k = 0;
    for (i, t) in v {
        let e = i.encode().0;
        let g = text.get(k..k + e.len());
        if g != Some(&e[..]) {
            return c.violation(format!(
                "{} ({}) is shown as {t:?}, which assembles to {:02x?}",
                i.show(),
                crate::sutcpu::decode(&e),
                &text[k.min(text.len())..(k + e.len()).min(text.len())]
            ));
        }
        k += e.len();
        c.count("texts assembled back", 1);
    }
    if k != text.len() {
        c.violation(format!("the texts shown assemble to {} bytes instead of {k}", text.len()));
    }
}

/// One text whose number ends in the hexadecimal digit b
fn reassemble_hex_b(c: &mut Case, i: &Ins, t: &str) {
    let dir = c.dir();
    write(&dir, "b.t", format!(".seg text\n{t}\n"));
    let out = c.run.tool("tc", &dir).arg("b.t").run();
    c.count("texts with a number ending in b assembled back", 1);
    let e = i.encode().0;
    if !out.ok() {
        if i.form.imm() == Some(O::Iw) && out.fails() {
            return c.known("hex-b", format!("{t:?}, shown for {:02x?}, is refused by the assembler", e));
        }
        return c.violation(format!("the text shown for {} is refused: {t:?}\n{}", i.show(), out.show()));
    }
    let text = parse(&std::fs::read(dir.join("b.to")).unwrap_or_default(), true).ok().and_then(|o| o.seg(TEXT).map(|s| s.2.clone()));
    match text {
        Some(g) if g == e => (),
        Some(g) if i.form.imm() == Some(O::Ib) && g[..g.len() - 1] == e[..e.len() - 1] && g.last() == Some(&(e[e.len() - 1] >> 4)) => {
            c.known("hex-b", format!("{t:?}, shown for {e:02x?}, assembles to {g:02x?}"))
        }
        g => c.violation(format!("{t:?}, shown for {e:02x?}, assembles to {g:02x?}")),
    }
    let _ = std::fs::remove_file(dir.join("b.to"));
}

fn batch(c: &mut Case, all: Vec<Ins>) {
    let mut v = Vec::new();
    let mut hb = Vec::new();
    with_rig(|rig| {
        on_machine(rig, |m| {
            let mut r = c.rng.clone();
            for i in all {
                let mark = m.memory.mark();
                let at = rand_at(&mut r);
                if let Some(t) = shown(c, m, &i, at, None) {
                    if hex_b(&t) {
                        hb.push((i.clone(), t));
                    } else {
                        v.push((i.clone(), t));
                    }
                }
                // the same with labels
                if let (Some(O::Iw), Imm::Num(n)) = (i.form.imm(), &i.imm) {
                    let mut taken = Default::default();
                    let name = crate::asm::rand_name(&mut r, &mut taken);
                    let at_label = if r.chance(2, 3) { *n } else { r.corner16() };
                    shown(c, m, &i, at, Some((at_label, &name)));
                    c.count("shown with labels", 1);
                }
                m.memory.undo(mark);
                m.memory.log.clear();
                if c.failed() {
                    break;
                }
            }
        })
    });
    if c.failed() {
        return;
    }
    for w in v.chunks(12_000) {
        reassemble(c, w);
        if c.failed() {
            return;
        }
    }
    // the class of the known finding, a few of each batch
    for (i, t) in hb.iter().take(3) {
        reassemble_hex_b(c, i, t);
    }
}

pub fn c20(run: &Run) {
    // all register combinations of every form
    run.cases("registers", FORMS.len() as u64, |c| {
        let f = &FORMS[c.index as usize];
        let n = f.nregs() as u32;
        let mut v = Vec::new();
        for k in 0..16u32.pow(n) {
            let regs: Vec<u8> = (0..n).map(|i| (k >> (4 * i) & 15) as u8).collect();
            if f.enc == Enc::JmpReg && regs[0] == 0 {
                continue;
            }
            // four registers: all pairs in every position, the rest random in the quick run
            if n == 4 && !c.run.thorough && !c.rng.chance(1, 6) {
                continue;
            }
            let mut i = rand_ins(&mut c.rng, f, &[], 0);
            i.regs = regs;
            if n == 4 || !c.run.thorough && n == 3 && c.rng.bool() {
                v.push(i);
                continue;
            }
            v.push(i);
        }
        // all byte immediates
        if f.imm() == Some(O::Ib) {
            for b in 0..=255u16 {
                for _ in 0..4 {
                    let mut i = rand_ins(&mut c.rng, f, &[], 0);
                    i.imm = Imm::Num(b);
                    v.push(i);
                }
            }
        }
        c.sample("form", || v[0].show());
        batch(c, v);
    });
    run.exhaustive("every mnemonic form with every combination of up to three registers (four in the thorough tier), every byte immediate");
    let wide: Vec<&'static Form> = FORMS.iter().filter(|f| f.imm() == Some(O::Iw)).collect();
    // all wide immediates
    run.cases("immediates", 64, |c| {
        let lo = c.index as u16 * 1024;
        let mut v = Vec::new();
        for k in 0..1024 {
            let forms: Vec<&'static Form> = if c.run.thorough { wide.clone() } else { vec![wide[c.rng.below(wide.len())]] };
            for f in forms {
                let mut i = rand_ins(&mut c.rng, f, &[], 0);
                i.imm = Imm::Num(lo + k);
                v.push(i);
            }
        }
        batch(c, v);
    });
    run.exhaustive("every 16-bit immediate (with every wide-immediate mnemonic in the thorough tier)");
    run.cases("mixed", run.n(150, 3000), |c| {
        let v = (0..600)
            .map(|_| {
                let f = c.rng.below(FORMS.len());
                rand_ins(&mut c.rng, &FORMS[f], &[], 0)
            })
            .collect();
        batch(c, v);
    });
}

// ---------------------------------------------------------------- C21

/// The instruction these bytes are, if the assembler can produce them
fn observe(c: &mut Case, rig: &mut Rig, st: &St, n: usize) {
    // where the processor would fetch from, byte by byte
    let mut fetch: Vec<Result<u32, Vec<u8>>> = Vec::new();
    let mut ptes = Vec::new();
    for k in 0..4u16 {
        let va = st.pc.wrapping_add(k);
        let mut bus = ModelBus { m: &rig.mem, over: vec![] };
        fetch.push(match cpu::walk(st, &mut bus, va, Acc::X, &mut ptes) {
            Ok(Some(w)) => Ok(w.pa),
            Ok(None) => Ok(va as u32),
            Err(e) => Err(e),
        });
    }
    // code or tables in the device page are excluded; without a program there disassembling has
    // no defined result
    if fetch.iter().flatten().any(|a| *a < 0x80) || ptes.iter().any(|a| *a < 0x80) {
        c.count("excluded: device page", 1);
        return;
    }
    let avail: Vec<u8> = fetch.iter().map_while(|f| f.as_ref().ok().map(|a| rig.mem.peek(*a))).collect();
    load_state(&mut rig.cpu, st);
    rig.mem.log.clear();
    let before = save_state(&rig.cpu);
    let mark = rig.mem.mark();
    c.eval(1);
    let name = "lbl";
    let target = c.rng.u16();
    let res = on_machine(rig, |m| disassemble(m, Some((target, name))));
    let ctx = |rig: &Rig, e: String| {
        let b: Vec<String> = avail.iter().map(|b| format!("{b:02x}")).collect();
        let log: Vec<String> = rig.mem.log.iter().take(30).map(|(a, w)| format!("{}{a:06x}", if w.is_some() { "W" } else { "R" })).collect();
        format!("{e}\n  fetchable bytes {} ({n})\n  before {}\n  accesses {}", b.join(" "), before.show(), log.join(" "))
    };
    let res = match res {
        Err(p) => return c.violation(ctx(rig, format!("disassembling aborts: {p}"))),
        Ok(r) => r,
    };
    // purity
    let after = save_state(&rig.cpu);
    let d = before.diff(&after);
    if !d.is_empty() {
        return c.violation(ctx(rig, format!("disassembling changes {}\n  after {}", d.join(", "), after.show())));
    }
    if let Err(e) = crate::sutcpu::check_views(&mut rig.cpu, &before) {
        return c.violation(ctx(rig, format!("disassembling changes a register: {e}")));
    }
    if let Some(a) = rig.mem.changed_since(mark) {
        return c.violation(ctx(rig, format!("disassembling changes memory at {a:06x}")));
    }
    if let Some((a, _)) = rig.mem.log.iter().find(|l| l.0 < 0x80) {
        return c.violation(ctx(rig, format!("disassembling touches the device at {a:02x}")));
    }
    if let Some(a) = rig.mem.oob.take() {
        return c.violation(ctx(rig, format!("disassembling reads outside the address space at {a:#x}")));
    }
    let form = if avail.is_empty() { None } else { assemblable(&avail) };
    // how long the instruction is if its operands can only partly be fetched
    let need = match avail.first() {
        None => 1,
        Some(op) => FORMS.iter().filter(|f| f.code == *op).map(form_len).max().unwrap_or(1),
    };
    let known = avail.first().is_some_and(|op| FORMS.iter().any(|f| f.code == *op));
    match res {
        Err(t) => {
            c.count("failed disassemblies", 1);
            if avail.len() == 4 || known && avail.len() >= need {
                return c.violation(ctx(rig, format!("disassembling fails with {}, though every byte can be fetched", trap::name(t))));
            }
            let why = fetch.iter().find_map(|f| f.as_ref().err()).expect("some byte cannot be fetched");
            if !why.contains(&t) {
                return c.violation(ctx(rig, format!("disassembling fails with {}, which is not why a byte cannot be fetched", trap::name(t))));
            }
            c.nontrivial(h(&[1, st.pc as u64, st.rp as u64, avail.len() as u64, t as u64]));
        }
        Ok(d) => {
            if avail.is_empty() || known && avail.len() < need {
                return c.violation(ctx(
                    rig,
                    format!("disassembling succeeds ({:?}), though a byte of the instruction cannot be fetched", d.annotated_source),
                ));
            }
            c.count("disassemblies", 1);
            let Some((f, len)) = form else {
                c.count("other bytes", 1);
                return;
            };
            let ctx = |rig: &Rig, e: String| ctx(rig, format!("{e}, for {:?}", d.annotated_source));
            match parse_line(&d.annotated_source, len) {
                Some(l) if l.addr == st.pc && l.bytes == avail[..len] => (),
                _ => return c.violation(ctx(rig, "the address or bytes shown are not those of the machine".into())),
            }
            let next = st.pc.wrapping_add(len as u16);
            if d.next_instruction_location != next {
                return c.violation(ctx(rig, format!("the next instruction is reported at {:04x}, not {next:04x}", d.next_instruction_location)));
            }
            let nest = match f.code {
                0x25 => 1,
                0x26 => -1,
                _ => 0,
            };
            if d.nesting_difference != nest {
                return c.violation(ctx(rig, format!("nesting difference {} instead of {nest}", d.nesting_difference)));
            }
            let ends = matches!(f.code, 0x00 | 0x0a | 0x0d | 0x26) || matches!(f.enc, Enc::JmpImm | Enc::JmpReg);
            if d.ends_block != ends {
                return c.violation(ctx(rig, format!("end of block is reported as {}", d.ends_block)));
            }
            // the real processor goes on there
            let out = cpu::step(st, &mut ModelBus { m: &rig.mem, over: vec![] });
            let jumps = matches!(f.code, 0x0d | 0x25 | 0x26 | 0x2f..=0x3a) || matches!(f.enc, Enc::JmpImm | Enc::JmpReg);
            if out.res == Res::Done && !jumps && !crate::sutcpu::self_hit(&out) {
                rig.mem.log.clear();
                let r = {
                    let Rig { mem, cpu } = &mut *rig;
                    sut(|| telda2::machine::Cpu::execute_instruction(cpu, mem))
                };
                match r {
                    Ok(Ok(())) if rig.cpu.program_counter == d.next_instruction_location => {
                        c.count("followed by the processor", 1);
                    }
                    Ok(Ok(())) => {
                        let pc = rig.cpu.program_counter;
                        return c.violation(ctx(rig, format!("the processor continues at {pc:04x}, not {:04x}", d.next_instruction_location)));
                    }
                    // left to the checks of the processor
                    _ => c.count("processor differs from the model", 1),
                }
            }
            c.count(if st.f.vm { "in virtual mode" } else { "in direct mode" }, 1);
            c.nontrivial(h(&[hash_bytes(&avail[..len]), st.pc as u64, st.f.vm as u64, st.f.user as u64]));
            c.sample("line", || d.annotated_source.clone());
        }
    }
}

fn form_len(f: &Form) -> usize {
    let regs = vec![0; f.nregs()];
    let imm = if f.imm().is_some() { Imm::Num(0) } else { Imm::No };
    let i = Ins { form: in_table(f), regs, imm };
    i.len()
}
/// forms are all in the table
fn in_table(f: &Form) -> &'static Form {
    FORMS.iter().find(|g| std::ptr::eq(*g, f)).expect("form")
}

fn random(c: &mut Case, n: usize, rough: bool) {
    with_rig(|rig| {
        for k in 0..n {
            let m = rig.mem.mark();
            let r = &mut c.rng;
            let mut st = rand_state(r);
            st.f.vm = r.chance(3, 4);
            st.f.user = r.bool();
            st.f.trap = r.chance(1, 8);
            st.rh = if r.bool() { r.corner16() } else { 0 };
            if r.chance(1, 4) {
                // just before a page boundary
                st.pc = (st.pc & !0x7f).wrapping_sub(r.range(1, 3) as u16);
            }
            if !st.f.vm {
                st.pc = rand_at(r);
            }
            let code: Vec<u8> = match r.below(4) {
                0 => (0..4).map(|_| r.u8()).collect(),
                1 => {
                    let o = *r.pick(&[0x00u8, 0x0a, 0x0b, 0x0c, 0x0d, 0x20, 0x25, 0x26, 0x2f, 0x40, 0x51, 0x53, 0x42, 0x3f]);
                    let mut v = rand_operands(r, crate::sutcpu::op(o));
                    v.push(r.u8());
                    v
                }
                _ => {
                    let f = r.below(FORMS.len());
                    rand_ins(r, &FORMS[f], &[], 0).encode().0
                }
            };
            if st.f.vm {
                let mut p = Planted::default();
                let fl = |r: &mut Rng| {
                    if !rough || r.chance(3, 5) {
                        P | R | W | X | U | if r.bool() { D } else { 0 }
                    } else {
                        r.u8() & 0x3f
                    }
                };
                for i in [0u16, 3] {
                    let (a, b) = (fl(r), fl(r));
                    plant(&mut rig.mem, r, &st, st.pc.wrapping_add(i), a, b, &mut p);
                }
                let pas: Vec<u32> = (0..code.len() as u16).map(|i| raw_translate(&rig.mem, &st, st.pc.wrapping_add(i))).collect();
                let mut ptes = Vec::new();
                let mut bus = ModelBus { m: &rig.mem, over: vec![] };
                for i in [0u16, 3] {
                    let _ = cpu::walk(&st, &mut bus, st.pc.wrapping_add(i), Acc::X, &mut ptes);
                }
                if !tables_sound(&ptes) || pas.iter().any(|p| ptes.contains(p)) {
                    rig.mem.undo(m);
                    continue;
                }
            }
            place_code(&mut rig.mem, &st, st.pc, &code);
            observe(c, rig, &st, k);
            rig.mem.undo(m);
            rig.mem.log.clear();
            if c.failed() {
                return;
            }
        }
    });
}

pub fn c21(run: &Run) {
    run.cases("mapped", run.n(6000, 120_000), |c| random(c, 100, false));
    run.cases("partly mapped", run.n(9000, 200_000), |c| random(c, 100, true));
    // every form at every distance from a boundary that cannot be crossed
    run.cases("boundaries", FORMS.len() as u64, |c| {
        let f = &FORMS[c.index as usize];
        with_rig(|rig| {
            for back in 1..=5u16 {
                for second in 0..64u8 {
                    for user in [false, true] {
                        let m = rig.mem.mark();
                        let r = &mut c.rng;
                        let mut st = rand_state(r);
                        st.f.vm = true;
                        st.f.user = user;
                        st.pc = (r.u16() & !0x7f).wrapping_sub(back);
                        let code = rand_ins(r, f, &[], 0).encode().0;
                        let mut p = Planted::default();
                        plant(&mut rig.mem, r, &st, st.pc, P | R | X | U, P | R | X | U, &mut p);
                        plant(&mut rig.mem, r, &st, st.pc.wrapping_add(back), P | R | X | U, second, &mut p);
                        place_code(&mut rig.mem, &st, st.pc, &code);
                        observe(c, rig, &st, second as usize);
                        rig.mem.undo(m);
                        rig.mem.log.clear();
                        if c.failed() {
                            return;
                        }
                    }
                }
            }
        });
    });
    run.exhaustive("every mnemonic form at distances 1 to 5 before a page boundary with all 64 flag combinations of the next page, user and supervisor");
    // every opcode byte, everywhere near the top in direct mode
    run.cases("top", 256, |c| {
        with_rig(|rig| {
            for at in 0xfff8..=0xffffu16 {
                let m = rig.mem.mark();
                let mut st = rand_state(&mut c.rng);
                st.pc = at;
                st.f.user = c.rng.bool();
                let mut code = vec![c.index as u8];
                if let Some(o) = crate::spec::lookup(c.index as u8) {
                    code = rand_operands(&mut c.rng, o);
                }
                for (i, b) in code.iter().enumerate() {
                    if at as usize + i <= 0xffff {
                        rig.mem.poke(at as u32 + i as u32, *b);
                    }
                }
                observe_top(c, rig, &st);
                rig.mem.undo(m);
                rig.mem.log.clear();
                if c.failed() {
                    return;
                }
            }
        });
    });
}

/// At the top in direct mode the bytes after the last address are in the device page; only those
/// that end before it are judged
fn observe_top(c: &mut Case, rig: &mut Rig, st: &St) {
    let op = rig.mem.peek(st.pc as u32);
    let need = FORMS.iter().filter(|f| f.code == op).map(form_len).max().unwrap_or(1);
    if st.pc as usize + need > 0x1_0000 {
        c.count("excluded: device page", 1);
        return;
    }
    load_state(&mut rig.cpu, st);
    rig.mem.log.clear();
    let mark = rig.mem.mark();
    c.eval(1);
    let res = on_machine(rig, |m| disassemble(m, None));
    let known = FORMS.iter().any(|f| f.code == op);
    match res {
        Err(p) if known => return c.violation(format!("disassembling opcode {op:02x} at {:04x} aborts: {p}", st.pc)),
        Err(_) => {
            c.count("excluded: device page", 1);
            return;
        }
        Ok(Err(t)) => {
            if known {
                return c.violation(format!("disassembling opcode {op:02x} at {:04x} in direct mode fails with {}", st.pc, trap::name(t)));
            }
        }
        Ok(Ok(d)) => {
            let bytes: Vec<u8> = (st.pc as u32..0x1_0000).map(|a| rig.mem.peek(a)).collect();
            if let Some((_, len)) = assemblable(&bytes) {
                match parse_line(&d.annotated_source, len) {
                    Some(l) if l.addr == st.pc && l.bytes == bytes[..len] => (),
                    _ => return c.violation(format!("wrong line at {:04x} for {bytes:02x?}: {:?}", st.pc, d.annotated_source)),
                }
                if d.next_instruction_location != st.pc.wrapping_add(len as u16) {
                    return c.violation(format!("next instruction reported at {:04x} for {:?}", d.next_instruction_location, d.annotated_source));
                }
            }
        }
    }
    let after = save_state(&rig.cpu);
    let dd = st.diff(&after);
    if !dd.is_empty() {
        return c.violation(format!("disassembling at {:04x} changes {}", st.pc, dd.join(", ")));
    }
    if rig.mem.changed_since(mark).is_some() || rig.mem.log.iter().any(|l| l.0 < 0x80) {
        return c.violation(format!("disassembling opcode {op:02x} at {:04x} writes memory or touches the device", st.pc));
    }
    c.count("at the top", 1);
    c.nontrivial(h(&[op as u64, st.pc as u64, 99]));
}
