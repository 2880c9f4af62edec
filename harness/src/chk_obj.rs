//! C22, C23: the object file library, watched from an independent codec.

use std::{
    collections::BTreeMap,
    fs,
    io::{BufReader, Cursor},
    path::Path,
};

use telda2::aalv::{
    obj::{
        Entry, Flags, HeapSize, Object, RelocationEntry, RelocationTable, SegmentType, StackSize,
        SymbolDefinition, SymbolTable,
    },
    read_archive, AalvReader,
};

use crate::{
    core::{sut, Case, Run},
    objfmt::{self, encode_sections, Obj, Sym, DATA, HEAP, MAGIC, RODATA, SAVN, SEGS, TEXT, UNKNOWN, ZERO},
    rng::{hash_bytes, Rng},
};

fn st(t: u8) -> SegmentType {
    match t {
        ZERO => SegmentType::Zero,
        DATA => SegmentType::Data,
        RODATA => SegmentType::RoData,
        TEXT => SegmentType::Text,
        HEAP => SegmentType::Heap,
        UNKNOWN => SegmentType::Unknown,
        t => panic!("segment type {t}"),
    }
}
fn ts(s: SegmentType) -> u8 {
    match s {
        SegmentType::Zero => ZERO,
        SegmentType::Data => DATA,
        SegmentType::RoData => RODATA,
        SegmentType::Text => TEXT,
        SegmentType::Heap => HEAP,
        SegmentType::Unknown => UNKNOWN,
    }
}

fn to_lib(o: &Obj) -> Object {
    Object {
        file_offset: o.preamble.len() as u64,
        entry: o.entry.map(|(s, l)| Entry(st(s), l)),
        flags: o.flags.map(|f| Flags { readable_text: f }),
        stack_size: o.stack.map(StackSize),
        heap_size: o.heap.map(HeapSize),
        segs: o.segs.iter().map(|(t, a, b)| (st(*t), (*a, b.clone()))).collect(),
        symbols: SymbolTable(
            o.syms
                .iter()
                .map(|s| SymbolDefinition {
                    name: s.name.as_str().into(),
                    is_global: s.global,
                    segment_type: st(s.seg),
                    location: s.loc,
                })
                .collect(),
        ),
        relocation_table: RelocationTable(
            o.relocs
                .iter()
                .map(|&(s, l, y)| RelocationEntry { reference_segment: st(s), reference_location: l, symbol_index: y })
                .collect(),
        ),
    }
}

/// The preamble is known by its length only
fn from_lib(o: &Object) -> (u64, Obj) {
    (
        o.file_offset,
        Obj {
            preamble: Vec::new(),
            entry: o.entry.map(|Entry(s, l)| (ts(s), l)),
            flags: o.flags.map(|f| f.readable_text),
            stack: o.stack_size.map(|s| s.0),
            heap: o.heap_size.map(|s| s.0),
            segs: o.segs.iter().map(|(t, (a, b))| (ts(*t), *a, b.clone())).collect(),
            syms: o
                .symbols
                .0
                .iter()
                .map(|s| Sym { name: s.name.to_string(), global: s.is_global, seg: ts(s.segment_type), loc: s.location })
                .collect(),
            relocs: o
                .relocation_table
                .0
                .iter()
                .map(|r| (ts(r.reference_segment), r.reference_location, r.symbol_index))
                .collect(),
        },
    )
}

/// What differs, ignoring the preamble and the order of segments
pub fn differ(want: &Obj, got: &Obj) -> Option<String> {
    let mut d = Vec::new();
    if want.entry != got.entry {
        d.push(format!("entry {:x?}, not {:x?}", got.entry, want.entry));
    }
    if want.flags != got.flags {
        d.push(format!("flags {:?}, not {:?}", got.flags, want.flags));
    }
    if want.stack != got.stack {
        d.push(format!("stack size {:x?}, not {:x?}", got.stack, want.stack));
    }
    if want.heap != got.heap {
        d.push(format!("heap size {:x?}, not {:x?}", got.heap, want.heap));
    }
    let m = |o: &Obj| -> BTreeMap<u8, (u16, Vec<u8>)> { o.segs.iter().map(|(t, a, b)| (*t, (*a, b.clone()))).collect() };
    let (a, b) = (m(want), m(got));
    for t in SEGS {
        match (a.get(&t), b.get(&t)) {
            (x, y) if x == y => (),
            (x, y) => {
                let s = |v: Option<&(u16, Vec<u8>)>| match v {
                    None => "absent".to_string(),
                    Some((a, b)) => format!("{} bytes at {a:#06x} (hash {:x})", b.len(), hash_bytes(b) >> 32),
                };
                d.push(format!("{} segment {}, not {}", objfmt::seg_name(t), s(y), s(x)));
            }
        }
    }
    if want.syms != got.syms {
        let i = (0..).find(|&i| want.syms.get(i) != got.syms.get(i)).unwrap();
        d.push(format!(
            "symbol {i} of {}: {:?}, not {:?} of {}",
            got.syms.len(),
            got.syms.get(i),
            want.syms.get(i),
            want.syms.len()
        ));
    }
    if want.relocs != got.relocs {
        let i = (0..).find(|&i| want.relocs.get(i) != got.relocs.get(i)).unwrap();
        d.push(format!(
            "relocation {i} of {}: {:x?}, not {:x?} of {}",
            got.relocs.len(),
            got.relocs.get(i),
            want.relocs.get(i),
            want.relocs.len()
        ));
    }
    if d.is_empty() {
        None
    } else {
        Some(d.join("; "))
    }
}

fn contains(h: &[u8], n: &[u8]) -> bool {
    h.windows(n.len()).any(|w| w == n)
}

fn rand_preamble(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0..=2 => return Vec::new(),
        3 => r.range(1, 8),
        4 => r.range(9, 300),
        5 => 4096 + r.below(9) - 4,
        6 => 8192 + r.below(17) - 8,
        _ if r.chance(1, 20) => r.range(60_000, 140_000),
        _ => r.range(1, 20000),
    };
    if r.chance(1, 3) {
        let mut p = b"#!/bin/env t\n".to_vec();
        p.truncate(r.range(1, 13));
        return p;
    }
    let mut v: Vec<u8> = Vec::new();
    while v.len() < n {
        match r.below(5) {
            // pieces of the magic
            0 => {
                let k = r.below(MAGIC.len());
                v.extend(&MAGIC[..k]);
            }
            1 => {
                let k = r.below(MAGIC.len());
                v.extend(&MAGIC[k..]);
            }
            2 => v.extend(b"_seg\0\x03\0\0\0\x20"),
            3 => v.push(0),
            _ => (0..1 + r.below(40)).for_each(|_| v.push(r.u8())),
        }
    }
    v.truncate(n);
    while contains(&[&v[..], MAGIC].concat()[..v.len() + MAGIC.len() - 1], MAGIC) {
        let i = objpos(&v);
        v[i] = b'x';
    }
    v
}
fn objpos(v: &[u8]) -> usize {
    v.windows(MAGIC.len()).position(|w| w == MAGIC).expect("found before")
}

fn rand_symname(r: &mut Rng) -> String {
    const P: [&str; 16] = [
        "a", "Z", "_", "_start", ".loop", "æ", "λ", "🦀", " ", "x y", "\t", "\n", "\u{1}", "\u{7f}", "é", "0",
    ];
    let n = match r.below(8) {
        0 => 0,
        1 => 1,
        7 => r.below(200),
        _ => r.range(1, 6),
    };
    (0..n).map(|_| *r.pick(&P)).collect()
}

fn rand_seg(r: &mut Rng) -> u8 {
    *r.pick(&SEGS)
}

fn rand_sym(r: &mut Rng) -> Sym {
    let global = r.bool();
    let mut name = rand_symname(r);
    while global && name.starts_with(' ') {
        name.remove(0);
    }
    Sym { name, global, seg: rand_seg(r), loc: r.corner16() }
}

pub struct Size {
    seg: usize,
    syms: usize,
    relocs: usize,
}

/// Any subset of the parts; `s` bounds the tables
fn rand_obj(r: &mut Rng, s: &Size) -> Obj {
    let mut o = Obj { preamble: rand_preamble(r), ..Default::default() };
    if r.bool() {
        o.entry = Some((rand_seg(r), r.corner16()));
    }
    if r.bool() {
        o.flags = Some(r.bool());
    }
    if r.bool() {
        o.stack = Some(r.corner16());
    }
    if r.bool() {
        o.heap = Some(r.corner16());
    }
    for t in SEGS {
        if r.chance(2, 5) {
            let n = match r.below(6) {
                0 => 0,
                1 => r.below(4),
                2 => r.below(s.seg + 1),
                _ => r.below(200.min(s.seg) + 1),
            };
            let mut b: Vec<u8> = (0..n).map(|_| r.u8()).collect();
            if n > 40 && r.chance(1, 4) {
                // contents that look like structure
                let k = r.below(n - 30);
                b[k..k + MAGIC.len()].copy_from_slice(MAGIC);
                b[k + 10..k + 16].copy_from_slice(b"_entry");
            }
            o.segs.push((t, r.corner16(), b));
        }
    }
    if r.bool() {
        let n = r.below(s.syms + 1);
        o.syms = (0..n).map(|_| rand_sym(r)).collect();
    }
    if r.bool() {
        let n = r.below(s.relocs + 1);
        o.relocs = (0..n).map(|_| (rand_seg(r), r.corner16(), r.corner16())).collect();
    }
    o
}

fn shape(o: &Obj) -> u64 {
    let s = format!(
        "{} {:?} {:?} {:?} {:?} {:?} {} {} {}",
        o.preamble.len(),
        o.entry,
        o.flags,
        o.stack,
        o.heap,
        o.segs.iter().map(|s| (s.0, s.1, s.2.len())).collect::<Vec<_>>(),
        o.syms.len(),
        o.relocs.len(),
        hash_bytes(&o.encode())
    );
    hash_bytes(s.as_bytes())
}

fn show(o: &Obj) -> String {
    format!(
        "preamble {} bytes, entry {:x?}, flags {:?}, stack {:x?}, heap {:x?}, segments {:?}, {} symbols, {} relocations",
        o.preamble.len(),
        o.entry,
        o.flags,
        o.stack,
        o.heap,
        o.segs.iter().map(|s| format!("{} at {:#x} {} bytes", objfmt::seg_name(s.0), s.1, s.2.len())).collect::<Vec<_>>(),
        o.syms.len(),
        o.relocs.len()
    )
}

fn read_file(p: &Path) -> Result<Result<Object, String>, String> {
    sut(|| Object::from_file(p)).map(|r| r.map_err(|e| e.to_string()))
}
fn read_mem(b: &[u8]) -> Result<Result<Object, String>, String> {
    sut(|| Object::from_aalv_reader(&mut AalvReader::new(Cursor::new(b))?)).map(|r| r.map_err(|e: std::io::Error| e.to_string()))
}

/// What was in the file before the object is written
fn prepare(c: &mut Case, p: &Path, o: &Obj, sz: &Size) -> Vec<u8> {
    let _ = fs::remove_file(p);
    match c.rng.below(5) {
        // no file: the preamble is filled
        0 => vec![0; o.preamble.len()],
        1 => {
            fs::write(p, &o.preamble).expect("scratch");
            o.preamble.clone()
        }
        // an older object behind it, longer or shorter
        2 | 3 => {
            let mut old = rand_obj(&mut c.rng, sz);
            old.preamble = o.preamble.clone();
            fs::write(p, old.encode()).expect("scratch");
            o.preamble.clone()
        }
        _ => {
            let mut b = o.preamble.clone();
            b.extend((0..c.rng.below(3000)).map(|_| c.rng.u8()).collect::<Vec<_>>());
            fs::write(p, b).expect("scratch");
            o.preamble.clone()
        }
    }
}

fn round_trip(c: &mut Case, o: &Obj, sz: &Size) {
    let p = c.dir().join("o.to");
    let pre = prepare(c, &p, o, sz);
    c.eval(1);
    let lib = to_lib(o);
    match sut(|| lib.write_to_file(&p)) {
        Err(m) => return c.violation(format!("writing aborts: {m}\n{}", show(o))),
        Ok(Err(e)) => return c.violation(format!("writing an object the format can represent is refused: {e}\n{}", show(o))),
        Ok(Ok(())) => (),
    }
    let b = fs::read(&p).unwrap_or_default();
    if b.get(..pre.len()) != Some(&pre[..]) {
        return c.violation(format!("the preamble is not kept\n{}", show(o)));
    }
    // independent decoding of what was written
    match objfmt::parse(&b[pre.len()..], true) {
        Err(e) => return c.violation(format!("the file written is not a whole object: {e}\n{}", show(o))),
        Ok(g) => {
            if !g.preamble.is_empty() {
                return c.violation(format!("{} bytes between preamble and object\n{}", g.preamble.len(), show(o)));
            }
            if let Some(d) = differ(o, &g) {
                return c.violation(format!("the file contains: {d}\n{}", show(o)));
            }
        }
    }
    // and by the library, from the file
    match read_file(&p) {
        Err(m) => c.violation(format!("reading back aborts: {m}\n{}", show(o))),
        Ok(Err(e)) => c.violation(format!("reading back fails: {e}\n{}", show(o))),
        Ok(Ok(g)) => {
            let (off, g) = from_lib(&g);
            if off != pre.len() as u64 {
                return c.violation(format!("read back with a preamble of {off} bytes\n{}", show(o)));
            }
            if let Some(d) = differ(o, &g) {
                c.violation(format!("read back with: {d}\n{}", show(o)));
            }
        }
    }
    c.nontrivial(shape(o));
    c.count("objects written and read back", 1);
    c.count("symbols compared", o.syms.len() as u64);
    c.count("relocations compared", o.relocs.len() as u64);
    c.count("segment bytes compared", o.segs.iter().map(|s| s.2.len() as u64).sum());
    if !o.preamble.is_empty() {
        c.count("objects behind a preamble", 1);
    }
    c.sample("object", || show(o));
}

/// Symbols whose table has exactly `n` bytes
fn syms_of_len(r: &mut Rng, n: usize) -> Vec<Sym> {
    let mut v = Vec::new();
    let mut left = n;
    while left > 0 {
        // name + 0 + 3, a local one has a space more
        let global = r.bool();
        let over = if global { 4 } else { 5 };
        let take = if left <= 2000 { left } else { r.range(10, 1000) };
        if take < over {
            // too little is left for another entry: take it back
            let s: Sym = v.pop().expect("first entry is big");
            left += s.name.len() + if s.global { 4 } else { 5 };
            continue;
        }
        v.push(Sym {
            name: "n".repeat(take - over),
            global,
            seg: rand_seg(r),
            loc: r.u16(),
        });
        left -= take;
    }
    v
}

/// Sizes at the 16-bit limit: what is over and by how much
fn limits(c: &mut Case) {
    let mut o = rand_obj(&mut c.rng, &Size { seg: 40, syms: 4, relocs: 4 });
    let kind = c.index % 3;
    let delta = match c.rng.below(3) {
        0 => c.rng.range(1, 6),
        1 => c.rng.range(1, 70000),
        // a length that is small again when cut to 16 bits
        _ => 1 + c.rng.below(40),
    };
    let fits = c.rng.chance(2, 5);
    let size = if fits { 0xffff - c.rng.below(9) } else { 0xffff + delta };
    let what;
    match kind {
        0 => {
            let t = rand_seg(&mut c.rng);
            o.segs.retain(|s| s.0 != t);
            let b: Vec<u8> = (0..size - 3).map(|_| c.rng.u8()).collect();
            o.segs.push((t, c.rng.corner16(), b));
            o.segs.sort_by_key(|s| s.0);
            what = format!("{} segment of {} bytes", objfmt::seg_name(t), size - 3);
        }
        1 => {
            let n = if c.index % 2 == 1 && !fits { size.max(0x10004) } else { size };
            o.syms = syms_of_len(&mut c.rng, n);
            what = format!("symbol table of {n} bytes");
        }
        _ => {
            let n = if fits { 13107 - c.rng.below(3) } else { 13108 + delta / 5 };
            o.relocs = (0..n).map(|_| (rand_seg(&mut c.rng), c.rng.u16(), c.rng.u16())).collect();
            what = format!("{n} relocations");
        }
    }
    if fits {
        c.count("objects at the format limit", 1);
        round_trip(c, &o, &Size { seg: 100, syms: 4, relocs: 4 });
    } else {
        refused(c, &o, &what);
    }
}

fn refused(c: &mut Case, o: &Obj, what: &str) {
    let p = c.dir().join("o.to");
    prepare(c, &p, o, &Size { seg: 100, syms: 4, relocs: 4 });
    c.eval(1);
    c.count("unrepresentable objects", 1);
    c.nontrivial(hash_bytes(what.as_bytes()) ^ shape(&Obj { segs: vec![], syms: vec![], relocs: vec![], ..o.clone() }));
    c.sample("unrepresentable", || what.to_string());
    let lib = to_lib(o);
    let before = fs::read(&p).ok();
    match sut(|| lib.write_to_file(&p)) {
        Err(m) => return c.violation(format!("writing an object with a {what} aborts: {m}")),
        Ok(Ok(())) => return c.violation(format!("writing an object with a {what} succeeds, though the format cannot represent it")),
        Ok(Err(_)) => (),
    }
    if fs::read(&p).ok() == before {
        // what was there before may well read as an object
        c.count("files left as they were by a refused write", 1);
    } else if p.exists() {
        match read_file(&p) {
            Err(m) => c.violation(format!("reading what a refused write left aborts: {m} ({what})")),
            Ok(Ok(g)) => {
                let (_, g) = from_lib(&g);
                c.violation(format!(
                    "a refused write ({what}) leaves a file that reads as an object: {}",
                    show(&g)
                ));
            }
            Ok(Err(_)) => (),
        }
    }
}

fn bad_names(c: &mut Case) {
    let mut o = rand_obj(&mut c.rng, &Size { seg: 40, syms: 6, relocs: 4 });
    let i = c.rng.below(o.syms.len() + 1);
    let mut s = rand_sym(&mut c.rng);
    if c.rng.bool() {
        let mut k = c.rng.below(s.name.len() + 1);
        while !s.name.is_char_boundary(k) {
            k -= 1;
        }
        s.name.insert(k, '\0');
        // what follows may look like an entry of its own
        if c.rng.bool() {
            s.name.insert_str(k + 1, "\u{20}ab");
        }
    } else {
        s.global = true;
        s.name.insert(0, ' ');
    }
    let what = format!("{} symbol named {:?}", if s.global { "global" } else { "local" }, s.name);
    o.syms.insert(i, s);
    refused(c, &o, &what);
}

pub fn c22(run: &Run) {
    run.cases("objects", run.n(4000, 60000), |c| {
        let sz = Size { seg: 3000, syms: 30, relocs: 60 };
        let o = rand_obj(&mut c.rng, &sz);
        round_trip(c, &o, &sz);
    });
    run.cases("large", run.n(120, 3000), |c| {
        let sz = Size { seg: 0xfffc, syms: 900, relocs: 6000 };
        let o = rand_obj(&mut c.rng, &sz);
        round_trip(c, &o, &sz);
    });
    // as many symbols and relocations as a table can hold, or almost
    run.cases("tables", run.n(60, 1000), |c| {
        let sz = Size { seg: 300, syms: 10, relocs: 10 };
        let mut o = rand_obj(&mut c.rng, &sz);
        let len = *c.rng.pick(&[1, 2, 5, 40, 254, 255, 256, 257, 1000, 20_000]);
        let room = 0xffff - c.rng.below(2) * c.rng.below(0x8000);
        let mut used = 0;
        o.syms.clear();
        loop {
            let n = if c.rng.bool() { len } else { c.rng.range(1, len) };
            let global = c.rng.bool();
            if used + n + 4 + !global as usize > room {
                break;
            }
            used += n + 4 + !global as usize;
            let name = (0..n).map(|_| *c.rng.pick(&['a', 'b', '_', 'Z', '9', '.'])).collect();
            o.syms.push(Sym { name, global, seg: rand_seg(&mut c.rng), loc: c.rng.u16() });
        }
        if c.rng.bool() {
            // to the last byte
            let global = c.rng.bool();
            if let Some(k) = (room - used).checked_sub(4 + !global as usize).filter(|k| *k > 0) {
                o.syms.push(Sym { name: "f".repeat(k), global, seg: rand_seg(&mut c.rng), loc: c.rng.u16() });
            }
        }
        if c.rng.chance(1, 3) {
            // a segment that fills its section
            if let Some(s) = o.segs.first_mut() {
                s.2 = (0..0xffff - 3).map(|_| c.rng.u8()).collect();
            }
        }
        let n = *c.rng.pick(&[0, 1, 256, 4096, 13_000, 13_107]);
        o.relocs = (0..n).map(|_| (rand_seg(&mut c.rng), c.rng.u16(), c.rng.u16())).collect();
        round_trip(c, &o, &sz);
    });
    // every subset of the parts
    run.cases("subsets", 4096, |c| {
        let sz = Size { seg: 30, syms: 3, relocs: 3 };
        let k = c.index;
        let r = &mut c.rng;
        let mut o = Obj::default();
        let bit = |i: u32| k >> i & 1 == 1;
        if bit(0) {
            o.entry = Some((rand_seg(r), r.u16()));
        }
        if bit(1) {
            o.flags = Some(r.bool());
        }
        if bit(2) {
            o.stack = Some(r.u16());
        }
        if bit(3) {
            o.heap = Some(r.u16());
        }
        for (i, t) in SEGS.into_iter().enumerate() {
            if bit(4 + i as u32) {
                let n = r.below(30);
                o.segs.push((t, r.u16(), (0..n).map(|_| r.u8()).collect()));
            }
        }
        if bit(10) {
            o.syms = (0..1 + r.below(4)).map(|_| rand_sym(r)).collect();
        }
        if bit(11) {
            o.relocs = (0..1 + r.below(4)).map(|_| (rand_seg(r), r.u16(), r.u16())).collect();
        }
        round_trip(c, &o, &sz);
    });
    run.exhaustive("all 4096 subsets of the parts of an object (entry, flags, stack, heap, six segment types, symbols, relocations)");
    // the same file rewritten again and again
    run.cases("rewrites", run.n(150, 3000), |c| {
        let sz = Size { seg: 600, syms: 12, relocs: 12 };
        let p = c.dir().join("o.to");
        let pre = rand_preamble(&mut c.rng);
        fs::write(&p, &pre).expect("scratch");
        for k in 0..6 {
            let mut o = rand_obj(&mut c.rng, &sz);
            o.preamble = pre.clone();
            c.eval(1);
            let lib = if k == 0 {
                to_lib(&o)
            } else {
                // what was read, changed: the offset is the one the reader found
                match read_file(&p) {
                    Ok(Ok(l)) => {
                        let off = l.file_offset;
                        let mut n = to_lib(&o);
                        n.file_offset = off;
                        n
                    }
                    e => return c.violation(format!("rewrite {k}: reading back: {e:?}")),
                }
            };
            if let Err(e) = sut(|| lib.write_to_file(&p)).and_then(|r| r.map_err(|e| e.to_string())) {
                return c.violation(format!("rewrite {k}: writing: {e}\n{}", show(&o)));
            }
            let b = fs::read(&p).expect("scratch");
            match objfmt::parse(&b, true) {
                Ok(g) => {
                    if g.preamble != pre {
                        return c.violation(format!("rewrite {k}: the preamble became {} bytes, not {}", g.preamble.len(), pre.len()));
                    }
                    if let Some(d) = differ(&o, &g) {
                        return c.violation(format!("rewrite {k}: {d}"));
                    }
                }
                Err(e) => return c.violation(format!("rewrite {k}: {e}\n{}", show(&o))),
            }
            c.nontrivial(shape(&o));
        }
        c.count("files rewritten six times", 1);
    });
    run.cases("limits", run.n(240, 4000), limits);
    run.cases("names", run.n(600, 20000), bad_names);
}

// ---------------------------------------------------------------- C23

/// Reasons of the strict parser for which the property demands an error
fn must_refuse(e: &str) -> bool {
    e.contains("cut off")
        || e.contains("no magic")
        || e.contains("twice")
        || e.contains("two ")
        || e.contains("unknown segment type")
        || e.contains("reserved section")
        || e.contains("without end")
}

/// Reads `b` by the library and compares with the independent reading. `must`: has to be refused
fn judge(c: &mut Case, b: &[u8], must: Option<&str>, via_file: bool) {
    c.eval(1);
    let got = if via_file {
        let p = c.dir().join("d.to");
        fs::write(&p, b).expect("scratch");
        read_file(&p)
    } else {
        read_mem(b)
    };
    let dump = |b: &[u8]| -> String {
        let s: String = b.iter().take(400).map(|x| format!("{x:02x}")).collect();
        format!("{} bytes: {s}", b.len())
    };
    let own = objfmt::raw_sections(b).and_then(|(_, _, end)| objfmt::parse(&b[..end], true));
    match (got, own) {
        (Err(m), _) => c.violation(format!("reading aborts: {m}\n{}", dump(b))),
        (Ok(Ok(g)), own) => {
            c.count("read as an object", 1);
            if let Some(w) = must {
                return c.violation(format!("{w} is read as an object: {}\n{}", show(&from_lib(&g).1), dump(b)));
            }
            match own {
                Ok(o) => {
                    let (off, g) = from_lib(&g);
                    if off != o.preamble.len() as u64 {
                        c.violation(format!("preamble of {off} bytes, not {}\n{}", o.preamble.len(), dump(b)));
                    }
                    if let Some(d) = differ(&o, &g) {
                        c.violation(format!("misread: {d}\n{}", dump(b)));
                    }
                }
                Err(e) if must_refuse(&e) => {
                    c.violation(format!("read as an object ({}) although: {e}\n{}", show(&from_lib(&g).1), dump(b)))
                }
                Err(_) => c.count("outcome not prescribed", 1),
            }
        }
        (Ok(Err(e)), Ok(o)) => {
            if must.is_none() {
                c.violation(format!("a well-formed object is refused: {e}\n{}\n{}", show(&o), dump(b)));
            } else {
                c.count("refused", 1);
            }
        }
        (Ok(Err(_)), Err(_)) => c.count("refused", 1),
    }
}

fn prefixes(c: &mut Case, sz: &Size) {
    let o = rand_obj(&mut c.rng, sz);
    let b = o.encode();
    c.nontrivial(hash_bytes(&b));
    c.count("objects truncated at every byte", 1);
    judge(c, &b, None, true);
    let step = if b.len() > 6000 { b.len() / 3000 } else { 1 };
    let mut k = 0;
    while k < b.len() {
        let from_file = (k * 7 + c.index as usize) % 64 == 0;
        judge(c, &b[..k], Some("a proper prefix of an object"), from_file);
        if c.failed() {
            return;
        }
        // every byte at the ends, in long files steps between
        k += if k < 2000 || b.len() - k < 2000 { 1 } else { step };
    }
}

fn damaged_sections(c: &mut Case) {
    let r = &mut c.rng;
    let mut o = rand_obj(r, &Size { seg: 60, syms: 5, relocs: 5 });
    // make sure there is what is to be damaged
    let kind = c.index % 9;
    let mut s: Vec<(String, Vec<u8>)>;
    let what: String;
    let bad_type = loop {
        let t = r.u8();
        if !SEGS.contains(&t) {
            break t;
        }
    };
    let own = |o: &Obj| -> Vec<(String, Vec<u8>)> { o.sections().into_iter().map(|(n, b)| (n.to_string(), b)).collect() };
    match kind {
        0 => {
            // unknown reserved section
            s = own(&o);
            const N: [&str; 12] = [
                "_", "__", "_entr", "_entry ", "_Entry", "_segs", "_sym", "_reloc2", "_stack", "_heapsize", "_æ", "_debug_lines",
            ];
            let n = r.pick(&N).to_string();
            let len = r.below(9);
            let b = (0..len).map(|_| r.u8()).collect();
            let at = r.below(s.len() + 1);
            what = format!("an object with the unknown reserved section {n}");
            s.insert(at, (n, b));
        }
        1 => {
            // a reserved section twice
            full(r, &mut o);
            s = own(&o);
            let i = r.below(s.len());
            let mut d = s[i].clone();
            let at = r.below(s.len() + 1);
            if d.0 != "_seg" && r.bool() {
                if let Some(x) = d.1.last_mut() {
                    if d.0 != "_flags" {
                        *x ^= 1;
                    }
                }
            }
            what = format!("an object with the section {} twice", d.0);
            s.insert(at, d);
        }
        2 => {
            // two segments of one type with other contents
            full(r, &mut o);
            let t = o.segs[r.below(o.segs.len())].0;
            let len = r.below(30);
            let dup = (t, r.u16(), (0..len).map(|_| r.u8()).collect());
            let at = r.below(o.segs.len() + 1);
            o.segs.insert(at, dup);
            what = format!("an object with two {} segments", objfmt::seg_name(t));
            s = own(&o);
        }
        3 => {
            // cut contents, length field correct for it
            full(r, &mut o);
            s = own(&o);
            let i = loop {
                let i = r.below(s.len());
                if s[i].0 != "_flags" {
                    break i;
                }
            };
            let need = match &s[i].0[..] {
                "_entry" | "_seg" => 3,
                "_stack_size" | "_heap_size" => 2,
                // into the last entry
                "_syms" => s[i].1.len(),
                _ => s[i].1.len(),
            };
            let len = match &s[i].0[..] {
                "_syms" => {
                    let last = o.syms.last().expect("full");
                    let l = last.name.len() + if last.global { 4 } else { 5 };
                    // at least the first byte of the entry stays
                    need - r.range(1, l - 1)
                }
                "_reloc" => need - r.range(1, 4),
                _ => r.below(need),
            };
            s[i].1.truncate(len);
            what = format!("an object whose section {} has only {len} bytes", s[i].0);
        }
        4 => {
            full(r, &mut o);
            s = own(&o);
            let i = s.iter().position(|s| s.0 == "_entry").expect("full");
            s[i].1[0] = bad_type;
            what = format!("an entry in segment type {bad_type:#x}");
        }
        5 => {
            full(r, &mut o);
            s = own(&o);
            let segs: Vec<usize> = (0..s.len()).filter(|&i| s[i].0 == "_seg").collect();
            let i = *r.pick(&segs);
            s[i].1[2] = bad_type;
            what = format!("a segment of type {bad_type:#x}");
        }
        6 => {
            full(r, &mut o);
            s = own(&o);
            let i = s.iter().position(|s| s.0 == "_syms").expect("full");
            let k = r.below(o.syms.len());
            let mut at = 0;
            for y in &o.syms[..k] {
                at += y.name.len() + if y.global { 4 } else { 5 };
            }
            at += o.syms[k].name.len() + if o.syms[k].global { 1 } else { 2 };
            s[i].1[at] = bad_type;
            what = format!("a symbol of segment type {bad_type:#x}");
        }
        7 => {
            full(r, &mut o);
            s = own(&o);
            let i = s.iter().position(|s| s.0 == "_reloc").expect("full");
            let k = r.below(o.relocs.len());
            s[i].1[k * 5] = bad_type;
            what = format!("a relocation in segment type {bad_type:#x}");
        }
        _ => {
            // a section that claims more than there is: nothing may follow to be eaten
            full(r, &mut o);
            let secs = own(&o);
            let n = secs.len();
            let mut b = o.preamble.clone();
            b.extend(MAGIC);
            let total: usize = secs.iter().map(|s| s.0.len() + 3 + s.1.len()).sum();
            for (i, (name, bytes)) in secs.iter().enumerate() {
                b.extend(name.as_bytes());
                b.push(0);
                let len = if i == n - 1 { bytes.len() + 2 + r.below(1000) + total } else { bytes.len() };
                b.extend((len.min(0xffff) as u16).to_le_bytes());
                b.extend(bytes);
            }
            b.push(0);
            c.nontrivial(hash_bytes(&b));
            c.count("sections longer than the file", 1);
            let f = c.rng.chance(1, 8);
            return judge(c, &b, Some("an object with a section longer than the file"), f);
        }
    }
    let b = encode_sections(&o.preamble, &s);
    c.nontrivial(hash_bytes(&b));
    c.count(&format!("damage kind {kind}"), 1);
    c.sample("damaged", || what.clone());
    let f = c.rng.chance(1, 8);
    judge(c, &b, Some(&what), f);
}

/// All parts present
fn full(r: &mut Rng, o: &mut Obj) {
    o.entry.get_or_insert((TEXT, 0x100));
    o.flags.get_or_insert(true);
    o.stack.get_or_insert(0x200);
    o.heap.get_or_insert(0x200);
    if o.segs.is_empty() {
        let n = r.below(20);
        o.segs.push((rand_seg(r), r.u16(), (0..n).map(|_| r.u8()).collect()));
    }
    while o.syms.is_empty() || (r.chance(2, 3) && o.syms.len() < 6) {
        o.syms.push(rand_sym(r));
    }
    while o.relocs.is_empty() || (r.chance(2, 3) && o.relocs.len() < 6) {
        o.relocs.push((rand_seg(r), r.u16(), r.u16()));
    }
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>) {
    for _ in 0..1 + r.below(4) {
        if b.is_empty() {
            return;
        }
        let i = if r.bool() { r.below(b.len()) } else { r.below(b.len().min(60)) };
        match r.below(7) {
            0 => b[i] ^= 1 << r.below(8),
            1 => b[i] = r.u8(),
            2 => b[i] = r.corner8(),
            3 => {
                b.remove(i);
            }
            4 => b.insert(i, r.u8()),
            5 => {
                let n = r.below(20).min(b.len() - i);
                b.drain(i..i + n);
            }
            _ => {
                let n = r.below(20).min(b.len() - i);
                let piece = b[i..i + n].to_vec();
                let at = r.below(b.len());
                b.splice(at..at, piece);
            }
        }
    }
}

/// All members, or how reading ended
fn read_members(p: &Path) -> Result<(Vec<(u64, Obj)>, Option<String>), String> {
    sut(|| {
        let mut v = Vec::new();
        let mut it = match read_archive(p) {
            Ok(i) => i,
            Err(e) => return (v, Some(e.to_string())),
        };
        for _ in 0..10_000 {
            match it.next(|a: &mut AalvReader<BufReader<fs::File>>| Object::from_aalv_reader(a)) {
                Ok(Some(o)) => v.push(from_lib(&o)),
                Ok(None) => return (v, None),
                Err(e) => return (v, Some(e.to_string())),
            }
        }
        panic!("the archive does not end after 10000 members")
    })
}

fn archives(c: &mut Case, n: usize, sz: &Size) {
    let members: Vec<Obj> = (0..n).map(|_| rand_obj(&mut c.rng, sz)).collect();
    let b = objfmt::encode_archive(&members);
    let p = c.dir().join("a.savn");
    let mut ends = vec![SAVN.len()];
    for m in &members {
        ends.push(ends.last().unwrap() + m.encode().len());
    }
    c.nontrivial(hash_bytes(&b));
    let step = (b.len() / 400).max(1);
    let mut cuts: Vec<usize> = (0..b.len()).step_by(step).collect();
    cuts.extend(&ends);
    for e in &ends {
        cuts.extend([e - 1, e + 1, e + 2]);
    }
    cuts.retain(|k| *k <= b.len());
    for k in cuts {
        fs::write(&p, &b[..k]).expect("scratch");
        c.eval(1);
        let whole = ends.iter().filter(|e| **e <= k).count().saturating_sub(1);
        match read_members(&p) {
            Err(m) => return c.violation(format!("reading an archive cut to {k} of {} bytes aborts: {m}", b.len())),
            Ok((v, e)) => {
                if v.len() != whole {
                    return c.violation(format!("an archive cut to {k} of {} bytes yields {} members, {whole} are whole", b.len(), v.len()));
                }
                for (i, (m, (off, g))) in members.iter().zip(&v).enumerate() {
                    if let Some(d) = differ(m, g) {
                        return c.violation(format!("member {i} of an archive is misread: {d}"));
                    }
                    let _ = off;
                }
                let at_end = ends[1..].contains(&k);
                if at_end && e.is_some() {
                    return c.violation(format!("a whole archive of {whole} members ends with an error: {}", e.unwrap()));
                }
                if !at_end && k != SAVN.len() && e.is_none() {
                    return c.violation(format!("an archive cut inside a member (to {k} of {} bytes) is read without an error", b.len()));
                }
                c.count(if at_end { "whole archives read" } else { "cut archives refused" }, 1);
            }
        }
    }
}

pub fn c23(run: &Run) {
    run.cases("prefixes", run.n(900, 12000), |c| prefixes(c, &Size { seg: 150, syms: 8, relocs: 10 }));
    run.cases("long prefixes", run.n(16, 300), |c| prefixes(c, &Size { seg: 40000, syms: 500, relocs: 3000 }));
    run.exhaustive("every truncation point of every generated small object file (prefixes)");
    run.cases("sections", run.n(9000, 200_000), damaged_sections);
    run.cases("bytes", run.n(40_000, 1_500_000), |c| {
        let mut o = rand_obj(&mut c.rng, &Size { seg: 60, syms: 6, relocs: 6 });
        if c.rng.chance(3, 4) {
            o.preamble.clear();
        }
        let mut b = o.encode();
        mutate(&mut c.rng, &mut b);
        c.nontrivial(hash_bytes(&b));
        let f = c.rng.chance(1, 40);
        judge(c, &b, None, f);
    });
    run.cases("soup", run.n(10_000, 300_000), |c| {
        let r = &mut c.rng;
        let mut b: Vec<u8> = if r.chance(9, 10) { MAGIC.to_vec() } else { Vec::new() };
        for _ in 0..r.below(12) {
            match r.below(8) {
                0..=3 => {
                    const N: [&str; 9] = ["_entry", "_flags", "_stack_size", "_heap_size", "_seg", "_syms", "_reloc", "x", "name"];
                    b.extend(r.pick(&N).as_bytes());
                    b.push(0);
                    let n = r.below(9);
                    let claimed = if r.chance(1, 5) { r.corner16() } else { n as u16 };
                    b.extend(claimed.to_le_bytes());
                    for _ in 0..n {
                        let t = *r.pick(&[0, 1, 0x10, 0x18, 0x20, 0x70, 0xff, b' ', b'R']);
                        b.push(t);
                    }
                }
                4 => b.push(0),
                5 => b.extend(MAGIC),
                _ => (0..r.below(10)).for_each(|_| b.push(r.u8())),
            }
        }
        if r.chance(2, 3) {
            b.push(0);
        }
        c.nontrivial(hash_bytes(&b));
        judge(c, &b, None, false);
    });
    run.cases("archives", run.n(24, 800), |c| {
        let n = c.rng.range(1, 5);
        archives(c, n, &Size { seg: 80, syms: 4, relocs: 5 })
    });
    run.cases("damaged archives", run.n(3000, 60_000), |c| {
        let n = c.rng.range(1, 4);
        let members: Vec<Obj> = (0..n).map(|_| rand_obj(&mut c.rng, &Size { seg: 60, syms: 4, relocs: 5 })).collect();
        let mut b = objfmt::encode_archive(&members);
        mutate(&mut c.rng, &mut b);
        let p = c.dir().join("a.savn");
        fs::write(&p, &b).expect("scratch");
        c.eval(1);
        c.nontrivial(hash_bytes(&b));
        match read_members(&p) {
            Err(m) => c.violation(format!("reading a damaged archive aborts: {m}")),
            Ok((v, None)) => {
                c.count("damaged archives read", 1);
                if let Ok(own) = objfmt::parse_archive(&b) {
                    if own.len() != v.len() {
                        return c.violation(format!("{} members, not {}", v.len(), own.len()));
                    }
                    for (i, (m, (_, g))) in own.iter().zip(&v).enumerate() {
                        if let Some(d) = differ(m, g) {
                            return c.violation(format!("member {i} misread: {d}"));
                        }
                    }
                }
            }
            Ok((_, Some(_))) => c.count("damaged archives refused", 1),
        }
    });
}
