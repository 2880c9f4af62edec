//! C33: the listing of the memory map (system call 0). The emulator writes it to the standard
//! output, so machines run in a child process of their own, which writes what the tables say
//! after each listing; the parent compares the two.

use std::{
    collections::BTreeMap,
    io::{Cursor, Write},
    process::{Command, Stdio},
};

use telda2::{
    aalv::{obj::Object, AalvReader},
    blf4::Blf4,
    machine::Machine,
};

use crate::{
    chk_load::{gen_layout, show},
    core::{sut, Case, Run},
    cpu::{Fl, St, D, P, R, U, W, X},
    objfmt::{Obj, TEXT},
    rng::{hash_bytes, Rng},
    sutcpu::{entry, load_state, rand_ppn, rand_state, save_state, MonMem},
    vm::expected,
};

const ROUNDS: u64 = 40;
const SYSCALL: u8 = 0x0c;

/// virtual page -> (frame address, flags of the first and the second level)
type Map = BTreeMap<u16, (u32, u8, u8)>;

fn tables(mem: &MonMem, root: u16) -> Map {
    let g = |a: u32| u32::from_le_bytes(std::array::from_fn(|i| mem.peek(a + i as u32)));
    let mut m = Map::new();
    for p in 0..512u32 {
        let e1 = g(root as u32 + ((p >> 5) << 2));
        if e1 as u8 & P == 0 {
            continue;
        }
        let e2 = g(((e1 >> 15) << 7) + ((p & 31) << 2));
        if e2 as u8 & P == 0 {
            continue;
        }
        m.insert(p as u16, ((e2 >> 15) << 7, e1 as u8, e2 as u8));
    }
    m
}

/// Random tables in memory, with an executable page for user code at `pc`
fn random_tables(mem: &mut MonMem, r: &mut Rng, pc: u16) -> u16 {
    let root = match r.below(3) {
        0 => 0x8000,
        1 => 0x100 + (r.below(0xfe00) as u16 & !3),
        _ => 0x80 + r.below(0xff00) as u16,
    };
    // the tables stay clear of the root and of the device page
    let clear = |r: &mut Rng| loop {
        let f = rand_ppn(r);
        let (a, b) = (f << 7, (f + 1) << 7);
        if f != 0 && (b <= root as u32 || a >= root as u32 + 64) {
            return f;
        }
    };
    for i in 0..16u32 {
        mem.poke32(root as u32 + 4 * i, 0);
    }
    let few = [1 + r.below(4), 16][r.below(2)];
    let mut seconds: Vec<u32> = Vec::new();
    for i in 0..16u32 {
        let code = i == (pc >> 12) as u32;
        if !code && (r.below(16) >= few || r.chance(1, 6)) {
            continue;
        }
        let f = match seconds.first() {
            // two first-level entries may use one second-level table
            Some(_) if r.chance(1, 8) => *r.pick(&seconds),
            _ => clear(r),
        };
        let mut flags = (r.u8() & 0x3f) | P;
        if r.chance(1, 10) {
            flags &= !P;
        }
        if code {
            flags |= P | X | U;
        }
        mem.poke32(root as u32 + 4 * i, entry(f, r.u32(), flags));
        if seconds.contains(&f) {
            continue;
        }
        seconds.push(f);
        let dense = r.below(3);
        for k in 0..32u32 {
            let present = match dense {
                0 => r.chance(1, 12),
                1 => r.bool(),
                _ => true,
            };
            if !present {
                // what an absent entry contains otherwise does not matter
                let v = if r.bool() { 0 } else { r.u32() & !1 };
                mem.poke32((f << 7) + 4 * k, v);
                continue;
            }
            mem.poke32((f << 7) + 4 * k, entry(rand_ppn(r), r.u32(), (r.u8() & 0x3f) | P));
        }
    }
    let g = |mem: &MonMem, a: u32| u32::from_le_bytes(std::array::from_fn(|i| mem.peek(a + i as u32)));
    let t2 = (g(mem, root as u32 + ((pc as u32 >> 12) << 2)) >> 15) << 7;
    // the code itself is away from all tables
    let frame = loop {
        let f = clear(r);
        if !seconds.contains(&f) {
            break f;
        }
    };
    mem.poke32(t2 + (((pc as u32 >> 7) & 31) << 2), entry(frame, 0, P | X | U));
    mem.poke((frame << 7) + (pc as u32 & 0x7f), SYSCALL);
    root
}

/// One case per round: writes `#round`, the listing, `#tables` and what the tables say
fn round(r: &mut Rng, mem: MonMem) -> (MonMem, Option<String>) {
    let mut o = loop {
        if let Some(o) = gen_layout(r, true) {
            break o;
        }
    };
    let k = r.below(o.seg(TEXT).unwrap().2.len());
    o.segs.iter_mut().find(|s| s.0 == TEXT).unwrap().2[k] = SYSCALL;
    let mut pc = o.seg(TEXT).unwrap().1.wrapping_add(k as u16);
    let obj = match sut(|| Object::from_aalv_reader(&mut AalvReader::new(Cursor::new(o.encode()))?)) {
        Ok(Ok(x)) => x,
        Ok(Err(e)) => return (mem, Some(format!("a valid object is refused: {e}"))),
        Err(p) => return (mem, Some(format!("reading a valid object aborts: {p}"))),
    };
    let mut m = Machine::new(mem, Blf4::new());
    m.memory.log_on = false;
    let bad = 'b: {
        if let Err(p) = sut(|| m.load_user_binary(&obj)) {
            break 'b Some(format!("loading aborts: {p}\n  {}", show(&o)));
        }
        let mut st: St = rand_state(r);
        let loaded = save_state(&m.cpu);
        st.rp = loaded.rp;
        let own = r.bool();
        if own {
            pc = r.u16();
            st.rp = random_tables(&mut m.memory, r, pc);
        }
        for _ in 0..1 + r.below(3) {
            st.set_wr(1, 0);
            st.pc = pc;
            st.f = Fl { user: true, vm: true, ..Default::default() };
            load_state(&mut m.cpu, &st);
            let t = tables(&m.memory, st.rp);
            println!("#round");
            if let Err(p) = sut(|| m.execute_once()) {
                break 'b Some(format!("listing the memory map aborts: {p}"));
            }
            let after = tables(&m.memory, st.rp);
            println!("#tables");
            for (p, (f, a, b)) in &t {
                println!("{p:x} {f:x} {a:x} {b:x}");
            }
            if t != after {
                break 'b Some("listing the memory map changes it".into());
            }
            if !own {
                let e = expected(&o);
                let is: BTreeMap<u16, u8> = t.iter().map(|(p, (_, a, b))| (*p, a & b & !D)).collect();
                if e != is {
                    break 'b Some(format!("the tables are not those of the program\n  {}", show(&o)));
                }
            }
            if own && r.bool() {
                // the tables change between two listings
                let p = r.below(16) as u16;
                let e = st.rp as u32 + 4 * p as u32;
                if p != pc >> 12 && e > 0x80 {
                    let v = m.memory.peek(e) ^ (1 << r.below(6)) as u8;
                    m.memory.poke(e, v);
                }
            }
            println!("#end");
        }
        None
    };
    let mut mem = m.memory;
    mem.undo(0);
    (mem, bad)
}

/// The child process
pub fn child(seed: u64) {
    let mut r = Rng::new(seed);
    let mut mem = MonMem::zeroed();
    for _ in 0..ROUNDS {
        let (m, bad) = round(&mut r, mem);
        if let Some(e) = bad {
            println!("#bad {}", e.replace('\n', " "));
            break;
        }
        mem = m;
    }
    println!("#done");
    let _ = std::io::stdout().flush();
}

/// A line of the listing: page address, frame address, flags as they are shown
fn parse_line(l: &str) -> Option<(u32, u32, &str)> {
    let (a, b) = l.split_once("=>")?;
    let h = |s: &str| u32::from_str_radix(s.trim().strip_suffix('_')?, 16).ok().map(|x| x << 4);
    let (f, p) = b.split_once('(')?;
    Some((h(a)?, h(f)?, p.trim_end().strip_suffix(')')?))
}

/// Permissions of the two levels as the letters show them: (first, second)
fn letters(s: &str) -> Result<(u8, u8), String> {
    let (mut a, mut b) = (0, 0);
    let mut last = 0;
    for c in s.chars() {
        let bit = match c.to_ascii_uppercase() {
            'U' => U,
            'X' => X,
            'W' => W,
            'R' => R,
            ' ' => continue,
            '!' => {
                if last == 0 {
                    return Err("a mark without a letter".into());
                }
                a &= !last;
                last = 0;
                continue;
            }
            _ => return Err(format!("unknown letter {c:?}")),
        };
        if (a | b) & bit != 0 {
            return Err(format!("letter {c:?} twice"));
        }
        a |= bit;
        last = 0;
        if c.is_ascii_uppercase() {
            b |= bit;
            last = bit;
        }
    }
    Ok((a, b))
}

fn names(a: u8, b: u8) -> String {
    let t = |p: u8| -> String { [(U, 'U'), (X, 'X'), (W, 'W'), (R, 'R')].iter().map(|(x, c)| if p & x != 0 { *c } else { '-' }).collect() };
    format!("first level {} second level {}", t(a), t(b))
}

fn compare(listing: &[&str], t: &[&str]) -> Result<usize, String> {
    let want: Vec<(u32, u32, u8, u8)> = t
        .iter()
        .map(|l| {
            let v: Vec<u32> = l.split(' ').map(|x| u32::from_str_radix(x, 16).unwrap()).collect();
            (v[0] << 7, v[1], v[2] as u8 & (U | X | W | R), v[3] as u8 & (U | X | W | R))
        })
        .collect();
    let got: Vec<(u32, u32, &str)> = listing
        .iter()
        .map(|l| parse_line(l).ok_or(format!("not a line of a memory map: {l:?}")))
        .collect::<Result<_, _>>()?;
    for (k, (w, g)) in want.iter().zip(&got).enumerate() {
        // the last digit is not shown
        if (w.0 & !15, w.1 & !15) != (g.0, g.1) {
            return Err(format!("line {} is {:?}, but the next mapped page is {:04x}, in the frame {:06x}", k + 1, listing[k], w.0, w.1));
        }
        let (a, b) = letters(g.2).map_err(|e| format!("{e} in {:?}", listing[k]))?;
        if (a, b) != (w.2, w.3) {
            return Err(format!("line {:?}: shows {} but the entries have {}", listing[k], names(a, b), names(w.2, w.3)));
        }
    }
    if got.len() != want.len() {
        return Err(format!("{} pages are listed, {} are mapped", got.len(), want.len()));
    }
    Ok(want.len())
}

fn case(c: &mut Case) {
    let seed = c.rng.u64();
    let exe = std::env::current_exe().expect("own path");
    let out = Command::new(exe)
        .args(["--map-child", &seed.to_string()])
        .stdin(Stdio::null())
        .stderr(Stdio::piped())
        .output()
        .expect("child process");
    let text = String::from_utf8_lossy(&out.stdout).into_owned();
    let mut lines = text.lines().peekable();
    let mut rounds = 0;
    while let Some(l) = lines.next() {
        match l {
            "#done" => {
                c.count("machines", ROUNDS);
                return;
            }
            "#round" => {
                let mut a = Vec::new();
                let mut b = Vec::new();
                while let Some(l) = lines.next_if(|l| !l.starts_with("#")) {
                    a.push(l);
                }
                if lines.next_if_eq(&"#tables").is_none() {
                    let e = lines.next().unwrap_or("the process ends");
                    return c.violation(format!("round {rounds}: {e}"));
                }
                while let Some(l) = lines.next_if(|l| !l.starts_with("#")) {
                    b.push(l);
                }
                c.eval(1);
                match compare(&a, &b) {
                    Err(e) => return c.violation(format!("listing {rounds}: {e}\n  {}", a.iter().take(6).cloned().collect::<Vec<_>>().join("\n  "))),
                    Ok(n) => {
                        c.count("pages listed", n as u64);
                        c.nontrivial(hash_bytes(b.join(";").as_bytes()));
                    }
                }
                if rounds < 2 {
                    c.sample("listing", || a.iter().take(5).cloned().collect::<Vec<_>>().join(" / "));
                }
                rounds += 1;
            }
            "#end" => (),
            l => return c.violation(format!("round {rounds}: {}", l.trim_start_matches("#bad "))),
        }
    }
    let err = String::from_utf8_lossy(&out.stderr).into_owned();
    if err.contains("harness") {
        panic!("{err}");
    }
    c.violation(format!("listing the memory map ends the process ({:?}): {}", out.status, err.trim()));
}

pub fn c33(run: &Run) {
    run.cases("listings", run.n(150, 4000), case);
}
