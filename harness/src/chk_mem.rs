//! C11: the physical memory map.

use std::{cell::RefCell, collections::HashMap, rc::Rc};

use telda2::mem::{Io, LazyMain, MainMemory, ROM_SIZE};

use crate::{
    core::{sut, Case, Run},
    rng::{mix, Rng},
};

/// A device that records every access; a read gives a value that depends on port and count
#[derive(Clone, Default)]
struct Dev(Rc<RefCell<Vec<(u8, Option<u8>, u8)>>>);

fn dev_value(port: u8, n: usize) -> u8 {
    mix((port as u64) << 32 | n as u64) as u8
}

impl Io for Dev {
    fn read(&mut self, addr: u8) -> u8 {
        let mut l = self.0.borrow_mut();
        let v = dev_value(addr, l.len());
        l.push((addr, None, v));
        v
    }
    fn write(&mut self, addr: u8, val: u8) {
        self.0.borrow_mut().push((addr, Some(val), val));
    }
}

const ROM_AT: u32 = 0x80;
const RAM_AT: u32 = 0x8000;
const TOP: u32 = 1 << 24;

struct Ram {
    rom: Vec<u8>,
    ram: HashMap<u32, u8>,
}

fn check_read(m: &mut LazyMain<Dev>, dev: &Dev, model: &Ram, a: u32) -> Result<(), String> {
    let n = dev.0.borrow().len();
    let v = sut(|| m.read(a)).map_err(|p| format!("reading {a:06x} aborts: {p}"))?;
    let log = dev.0.borrow();
    if a < ROM_AT {
        if log.len() != n + 1 || log[n].0 != a as u8 || log[n].1.is_some() {
            return Err(format!("a read of port {a:02x} reached the device as {:x?}", &log[n..]));
        }
        if v != log[n].2 {
            return Err(format!("port {a:02x} gave {:02x} but {v:02x} was read", log[n].2));
        }
        return Ok(());
    }
    if log.len() != n {
        return Err(format!("a read of {a:06x} reached the device as {:x?}", &log[n..]));
    }
    let exp = if a < RAM_AT {
        model.rom.get((a - ROM_AT) as usize).copied().unwrap_or(0)
    } else {
        model.ram.get(&a).copied().unwrap_or(0)
    };
    if v != exp {
        return Err(format!("{a:06x} reads {v:02x} instead of {exp:02x}"));
    }
    Ok(())
}

fn do_write(m: &mut LazyMain<Dev>, dev: &Dev, model: &mut Ram, a: u32, v: u8) -> Result<(), String> {
    let n = dev.0.borrow().len();
    sut(|| m.write(a, v)).map_err(|p| format!("writing {a:06x} aborts: {p}"))?;
    let log = dev.0.borrow();
    if a < ROM_AT {
        if log.len() != n + 1 || log[n] != (a as u8, Some(v), v) {
            return Err(format!("a write of {v:02x} to port {a:02x} reached the device as {:x?}", &log[n..]));
        }
        return Ok(());
    }
    if log.len() != n {
        return Err(format!("a write to {a:06x} reached the device as {:x?}", &log[n..]));
    }
    if a >= RAM_AT {
        model.ram.insert(a, v);
    }
    Ok(())
}

fn address(r: &mut Rng, near: &[u32]) -> u32 {
    let base = match r.below(8) {
        0 => r.below(0x80) as u32,
        1 => ROM_AT + r.below(0x7f80) as u32,
        2 => RAM_AT + r.below(0x8000) as u32,
        3 => (r.below(256) as u32) << 16 | r.below(4) as u32,
        4 => ((r.below(256) as u32) << 16).wrapping_sub(1 + r.below(4) as u32),
        5 => *r.pick(&[0x7f, 0x80, 0x7fff, 0x8000, 0xffff, 0x10000, 0x17fff, 0x18000, 0x01ffff, 0xffffff, 0xff0000, 0xff7fff]),
        _ => r.u32(),
    };
    let a = if !near.is_empty() && r.chance(3, 5) {
        let n = *r.pick(near);
        match r.below(4) {
            // one bit away: where wrong masks or shifts alias
            0 | 1 => n ^ 1 << r.below(24),
            2 => n ^ 0x8000 ^ (1 << (16 + r.below(8))),
            _ => n,
        }
    } else {
        base
    };
    a & (TOP - 1)
}

fn history(c: &mut Case) {
    let dev = Dev::default();
    let mut m = LazyMain::new(dev.clone());
    let mut model = Ram { rom: vec![], ram: HashMap::new() };
    if c.rng.chance(3, 4) {
        let n = match c.rng.below(6) {
            0 => 0,
            1 => ROM_SIZE,
            2 => ROM_SIZE - 1 - c.rng.below(3),
            3 => 1 + c.rng.below(4),
            _ => c.rng.below(ROM_SIZE + 1),
        };
        model.rom = (0..n).map(|_| c.rng.u8() | 1).collect();
        match sut(|| m.with_rom(&model.rom)) {
            Ok(x) => m = x,
            Err(p) => return c.violation(format!("loading a ROM of {n} bytes aborts: {p}")),
        }
    }
    let mut near = Vec::new();
    for _ in 0..1500 {
        let a = address(&mut c.rng, &near);
        if near.len() < 40 {
            near.push(a)
        } else {
            let k = c.rng.below(40);
            near[k] = a
        }
        c.eval(1);
        let r = if c.rng.bool() {
            let v = c.rng.u8();
            c.nontrivial((a as u64) << 8 | v as u64);
            do_write(&mut m, &dev, &mut model, a, v)
        } else {
            check_read(&mut m, &dev, &model, a)
        };
        if let Err(e) = r {
            return c.violation(e);
        }
        let k = if a < ROM_AT { "port accesses" } else if a < RAM_AT { "ROM accesses" } else { "RAM accesses" };
        c.count(k, 1);
    }
    // everything written is still there
    let all: Vec<u32> = model.ram.keys().copied().collect();
    for a in all {
        if let Err(e) = check_read(&mut m, &dev, &model, a) {
            return c.violation(format!("at the end of the history: {e}"));
        }
    }
    c.sample("history", || {
        format!("ROM of {} bytes, {} RAM bytes written, {} device accesses", model.rom.len(), model.ram.len(), dev.0.borrow().len())
    });
}

/// every address once: fresh reads, then unique writes, then all read back
fn sweep(c: &mut Case) {
    let dev = Dev::default();
    let mut m = LazyMain::new(dev.clone());
    let key = c.rng.u64();
    let val = |a: u32| mix(key ^ a as u64) as u8;
    let rom: Vec<u8> = (0..ROM_SIZE as u32).map(|a| val(a) | 1).collect();
    let with_rom = c.index & 1 == 0;
    if with_rom {
        m = match sut(|| m.with_rom(&rom)) {
            Ok(m) => m,
            Err(p) => return c.violation(format!("loading a full ROM aborts: {p}")),
        };
    }
    let order = |i: u32| if c.index & 2 == 0 { i } else { i.wrapping_mul(0x9e3779b1) & (TOP - 1) };
    let rom_at = |a: u32| if with_rom { rom[(a - ROM_AT) as usize] } else { 0 };
    let r = sut(|| -> Result<(), String> {
        for i in 0..TOP {
            let a = order(i);
            if a < ROM_AT {
                continue;
            }
            let v = m.read(a);
            let exp = if a < RAM_AT { rom_at(a) } else { 0 };
            if v != exp {
                return Err(format!("{a:06x} reads {v:02x} instead of {exp:02x} before anything is written"));
            }
        }
        for i in 0..TOP {
            let a = order(i);
            if a >= ROM_AT {
                m.write(a, val(a));
            }
        }
        for i in 0..TOP {
            let a = order(i);
            if a < ROM_AT {
                continue;
            }
            let v = m.read(a);
            let exp = if a < RAM_AT { rom_at(a) } else { val(a) };
            if v != exp {
                return Err(format!("{a:06x} reads {v:02x} instead of {exp:02x} after all addresses were written"));
            }
        }
        Ok(())
    });
    c.eval(3 * TOP as u64);
    c.nontrivial(key);
    match r {
        Err(p) => return c.violation(format!("memory aborts: {p}")),
        Ok(Err(e)) => return c.violation(e),
        Ok(Ok(())) => (),
    }
    if !dev.0.borrow().is_empty() {
        return c.violation(format!("memory accesses reached the device: {:x?}", &dev.0.borrow()[..1]));
    }
    let model = Ram { rom: vec![], ram: HashMap::new() };
    let mut model = model;
    for p in 0..0x80 {
        let a = c.rng.u8();
        for e in [do_write(&mut m, &dev, &mut model, p, a), check_read(&mut m, &dev, &model, p)] {
            if let Err(e) = e {
                return c.violation(e);
            }
        }
    }
}

pub fn c11(run: &Run) {
    run.cases("sweep", run.n(4, 16), sweep);
    run.exhaustive("every address of the 24-bit space read fresh, written and read back, with and without ROM, in two orders");
    run.cases("histories", run.n(3_000, 120_000), history);
    // every ROM size
    run.cases("rom sizes", (ROM_SIZE / 64) as u64 + 1, |c| {
        for k in 0..64 {
            let n = c.index as usize * 64 + k;
            if n > ROM_SIZE {
                break;
            }
            if !run.thorough && k % 16 != 0 && n != ROM_SIZE {
                continue;
            }
            let rom: Vec<u8> = (0..n).map(|_| c.rng.u8() | 1).collect();
            let m = sut(|| LazyMain::new(Dev::default()).with_rom(&rom));
            let Ok(mut m) = m else { return c.violation(format!("loading a ROM of {n} bytes aborts")) };
            c.eval(1);
            c.nontrivial(n as u64 | 1 << 40);
            for a in (n.saturating_sub(3)..n + 3).chain([0, ROM_SIZE - 1]) {
                if a < ROM_SIZE {
                    let e = rom.get(a).copied().unwrap_or(0);
                    match sut(|| m.read(ROM_AT + a as u32)) {
                        Ok(v) if v == e => (),
                        r => return c.violation(format!("ROM of {n} bytes: offset {a} reads {r:?} instead of {e}")),
                    }
                }
            }
        }
    });
}
