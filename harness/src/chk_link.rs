//! C25-C29: linker, archives and stripping, run as processes on generated objects.

use std::{
    collections::{BTreeMap, BTreeSet},
    fs,
    os::unix::fs::PermissionsExt,
    path::Path,
};

use crate::{
    core::{Case, Run},
    objfmt::{self, parse, parse_archive, seg_name, Obj, Sym, DATA, HEAP, RODATA, TEXT, UNKNOWN, ZERO},
    rng::{hash_bytes, Rng},
    tools::{clip, write, Out},
};

// ---------------------------------------------------------------- model

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum EntryReq {
    Sym(String),
    Hex(String),
}

#[derive(Clone, Debug)]
pub struct Opts {
    pub exe: bool,
    pub entry: Option<EntryReq>,
    pub strip: bool,
    pub align: Option<u16>,
}

impl Default for Opts {
    fn default() -> Self {
        Opts { exe: false, entry: None, strip: false, align: None }
    }
}

impl Opts {
    fn align(&self) -> u32 {
        self.align.unwrap_or(128) as u32
    }
    pub fn args(&self, r: &mut Rng) -> Vec<String> {
        let mut v: Vec<Vec<String>> = Vec::new();
        let s = |x: &str| x.to_string();
        if self.exe {
            v.push(vec![s(*r.pick(&["-e", "--executable"]))]);
        }
        match &self.entry {
            Some(EntryReq::Sym(n) | EntryReq::Hex(n)) => match r.below(3) {
                0 => v.push(vec![s("-E"), n.clone()]),
                1 => v.push(vec![s("--set-entry"), n.clone()]),
                _ => v.push(vec![format!("--set-entry={n}")]),
            },
            None => (),
        }
        if self.strip {
            v.push(vec![s(*r.pick(&["-S", "--strip-internal"]))]);
        }
        if let Some(a) = self.align {
            match r.below(3) {
                0 => v.push(vec![s("-A"), a.to_string()]),
                1 => v.push(vec![format!("-A{a}")]),
                _ => v.push(vec![s("--alignment"), a.to_string()]),
            }
        }
        r.shuffle(&mut v);
        v.concat()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Target {
    Global(String),
    Local(String, u8, u16),
}

/// Where every part of the inputs is in a link
pub struct Layout<'a> {
    inputs: &'a [Obj],
    /// offset of an input's bytes in the segment
    base: Vec<BTreeMap<u8, u32>>,
    pub size: BTreeMap<u8, u32>,
}

impl<'a> Layout<'a> {
    pub fn new(inputs: &'a [Obj]) -> Self {
        let mut size: BTreeMap<u8, u32> = BTreeMap::new();
        let mut base = Vec::new();
        for o in inputs {
            let mut b = BTreeMap::new();
            for (t, _, bytes) in &o.segs {
                let s = size.entry(*t).or_default();
                b.insert(*t, *s);
                *s += bytes.len() as u32;
            }
            base.push(b);
        }
        Layout { inputs, base, size }
    }
    fn addr(&self, start: &BTreeMap<u8, u32>, i: usize, seg: u8, loc: u16) -> Option<u16> {
        let (_, at, _) = self.inputs[i].seg(seg)?;
        Some((start.get(&seg)? + self.base[i][&seg]).wrapping_add(loc as u32).wrapping_sub(*at as u32) as u16)
    }
    pub fn total(&self) -> u32 {
        self.size.values().sum()
    }
}

/// Global name -> (input, symbol) of its definitions
fn definitions(inputs: &[Obj]) -> BTreeMap<&str, Vec<(usize, usize)>> {
    let mut m: BTreeMap<&str, Vec<(usize, usize)>> = BTreeMap::new();
    for (i, o) in inputs.iter().enumerate() {
        for (k, s) in o.syms.iter().enumerate() {
            if s.global {
                let e = m.entry(&s.name).or_default();
                if s.seg != UNKNOWN {
                    e.push((i, k));
                }
            }
        }
    }
    m
}

/// Why this link has to fail
pub fn reasons(inputs: &[Obj], o: &Opts) -> Vec<String> {
    let mut v = Vec::new();
    let defs = definitions(inputs);
    for (n, d) in &defs {
        if d.len() > 1 {
            v.push(format!("{n} is defined by two inputs"));
        }
    }
    if o.exe {
        for i in inputs {
            for (_, _, k) in &i.relocs {
                let s = &i.syms[*k as usize];
                if s.global && defs[&*s.name].is_empty() {
                    v.push(format!("{} is referenced and defined nowhere", s.name));
                }
            }
        }
        if o.entry.is_none() && inputs.iter().all(|i| i.entry.is_none()) {
            v.push("there is no entry point".into());
        }
    }
    match &o.entry {
        Some(EntryReq::Sym(n)) => {
            if defs.get(&**n).is_none_or(|d| d.is_empty()) {
                v.push(format!("the entry symbol {n} is not a defined global"));
            }
            if !o.exe {
                v.push("an entry point is requested without an executable".into());
            }
        }
        Some(EntryReq::Hex(h)) => {
            if u16::from_str_radix(&h[2..], 16).is_err() {
                v.push(format!("{h} is no address"));
            }
            if !o.exe {
                v.push("an entry point is requested without an executable".into());
            }
        }
        None => (),
    }
    v
}

/// Compare the linked object with an independent link of the same inputs
pub fn check_link(inputs: &[Obj], o: &Opts, out: &Obj) -> Result<(), String> {
    let lay = Layout::new(inputs);
    let defs = definitions(inputs);
    // layout
    let mut start: BTreeMap<u8, u32> = BTreeMap::new();
    let mut ranges: Vec<(u32, u32, u8)> = Vec::new();
    for (t, at, b) in &out.segs {
        let at = *at as u32;
        start.insert(*t, at);
        if *t == ZERO {
            if at != 0 {
                return Err(format!("the zero segment starts at {at:#06x}"));
            }
        } else {
            if at < 0x80 {
                return Err(format!("the {} segment starts at {at:#06x}, in the first page", seg_name(*t)));
            }
            if at % o.align() != 0 {
                return Err(format!("the {} segment starts at {at:#06x}, not a multiple of {}", seg_name(*t), o.align()));
            }
        }
        if !b.is_empty() {
            ranges.push((at, at + b.len() as u32, *t));
        }
    }
    ranges.sort();
    for w in ranges.windows(2) {
        if w[0].1 > w[1].0 {
            return Err(format!("the {} segment ({:#x}..{:#x}) overlaps {} at {:#x}", seg_name(w[0].2), w[0].0, w[0].1, seg_name(w[1].2), w[1].0));
        }
    }
    if let Some(r) = ranges.last() {
        if r.1 > 0x1_0000 {
            return Err(format!("the {} segment ends at {:#x}", seg_name(r.2), r.1));
        }
    }
    for (t, n) in &lay.size {
        if *n > 0 && !start.contains_key(t) {
            return Err(format!("no {} segment in the output", seg_name(*t)));
        }
    }
    let address = |i: usize, k: usize| -> Option<(u8, u16)> {
        let s = &inputs[i].syms[k];
        Some((s.seg, lay.addr(&start, i, s.seg, s.loc)?))
    };
    let target = |i: usize, k: usize| -> (Target, Option<u16>) {
        let s = &inputs[i].syms[k];
        if s.global {
            let d = defs[&*s.name].first();
            (Target::Global(s.name.clone()), d.and_then(|&(i, k)| address(i, k)).map(|a| a.1))
        } else {
            let a = address(i, k).map_or(s.loc, |a| a.1);
            (Target::Local(if o.strip { String::new() } else { s.name.clone() }, s.seg, a), Some(a))
        }
    };
    // contents and relocation places
    let mut want: BTreeMap<u8, Vec<Option<u8>>> = BTreeMap::new();
    let mut relocs: Vec<(u8, u16, Target)> = Vec::new();
    for (i, obj) in inputs.iter().enumerate() {
        for (t, at, b) in &obj.segs {
            let mut v: Vec<Option<u8>> = b.iter().map(|b| Some(*b)).collect();
            for &(rs, loc, k) in &obj.relocs {
                if rs != *t {
                    continue;
                }
                let p = (loc - at) as usize;
                let (tg, a) = target(i, k as usize);
                match a {
                    Some(a) => {
                        v[p] = Some(a as u8);
                        v[p + 1] = Some((a >> 8) as u8);
                    }
                    None => {
                        v[p] = None;
                        v[p + 1] = None;
                    }
                }
                relocs.push((rs, lay.addr(&start, i, rs, loc).expect("place"), tg));
            }
            want.entry(*t).or_default().extend(v);
        }
    }
    for (t, w) in &want {
        if w.is_empty() {
            continue;
        }
        let (_, at, got) = out.seg(*t).expect("checked");
        if got.len() != w.len() {
            return Err(format!("the {} segment has {} bytes instead of {}", seg_name(*t), got.len(), w.len()));
        }
        for (k, (w, g)) in w.iter().zip(got).enumerate() {
            if w.is_some_and(|w| w != *g) {
                let reloc = relocs.iter().find(|r| r.0 == *t && (r.1 as usize == *at as usize + k || r.1 as usize + 1 == *at as usize + k));
                return Err(format!(
                    "{} at {:#06x} (offset {k:#x}) is {g:02x} instead of {:02x}{}",
                    seg_name(*t),
                    *at as usize + k,
                    w.unwrap(),
                    reloc.map_or(String::new(), |r| format!(", in a reference to {:?}", r.2))
                ));
            }
        }
    }
    for (t, _, b) in &out.segs {
        if !b.is_empty() && !want.contains_key(t) {
            return Err(format!("the output has a {} segment, no input has", seg_name(*t)));
        }
    }
    // symbols
    let mut locals: Vec<(String, u8, u16)> = Vec::new();
    for (i, obj) in inputs.iter().enumerate() {
        for (k, s) in obj.syms.iter().enumerate() {
            if !s.global {
                let (seg, a) = address(i, k).unwrap_or((s.seg, s.loc));
                locals.push((if o.strip { String::new() } else { s.name.clone() }, seg, a));
            }
        }
    }
    let mut got: Vec<(String, u8, u16)> = out.syms.iter().filter(|s| !s.global).map(|s| (s.name.clone(), s.seg, s.loc)).collect();
    locals.sort();
    got.sort();
    if locals != got {
        let miss: Vec<_> = locals.iter().filter(|l| !got.contains(l)).take(3).collect();
        let more: Vec<_> = got.iter().filter(|l| !locals.contains(l)).take(3).collect();
        return Err(format!("local symbols differ ({} instead of {}): missing {miss:x?}, unexpected {more:x?}", got.len(), locals.len()));
    }
    let mut seen = BTreeSet::new();
    for s in out.syms.iter().filter(|s| s.global) {
        if !seen.insert(&*s.name) {
            return Err(format!("the global symbol {} is listed twice", s.name));
        }
        match defs.get(&*s.name) {
            None => return Err(format!("a global symbol {} appears from nowhere", s.name)),
            Some(d) => match d.first() {
                None if s.seg != UNKNOWN => return Err(format!("the undefined symbol {} is in segment {}", s.name, seg_name(s.seg))),
                None => (),
                Some(&(i, k)) => {
                    let a = address(i, k).expect("generated in a segment");
                    if (s.seg, s.loc) != a {
                        return Err(format!("symbol {} is at {} {:#06x} instead of {} {:#06x}", s.name, seg_name(s.seg), s.loc, seg_name(a.0), a.1));
                    }
                }
            },
        }
    }
    for (n, d) in &defs {
        // an executable need not keep a name that nothing uses and nothing defines
        if !seen.contains(n) && !(o.exe && d.is_empty()) {
            return Err(format!("the global symbol {n} is missing"));
        }
    }
    // relocations
    let mut got: Vec<(u8, u16, Target)> = Vec::new();
    for &(s, l, k) in &out.relocs {
        let y = out.syms.get(k as usize).ok_or_else(|| format!("a relocation refers to symbol {k} of {}", out.syms.len()))?;
        got.push((
            s,
            l,
            if y.global { Target::Global(y.name.clone()) } else { Target::Local(y.name.clone(), y.seg, y.loc) },
        ));
    }
    relocs.sort();
    got.sort();
    if relocs != got {
        let miss: Vec<_> = relocs.iter().filter(|l| !got.contains(l)).take(3).collect();
        let more: Vec<_> = got.iter().filter(|l| !relocs.contains(l)).take(3).collect();
        return Err(format!("relocations differ ({} instead of {}): missing {miss:x?}, unexpected {more:x?}", got.len(), relocs.len()));
    }
    // entry
    match &o.entry {
        Some(EntryReq::Hex(h)) => {
            let a = u16::from_str_radix(&h[2..], 16).expect("checked");
            if out.entry.map(|e| e.1) != Some(a) {
                return Err(format!("entry point {:x?} instead of {a:#x}", out.entry));
            }
        }
        Some(EntryReq::Sym(n)) => {
            let (i, k) = defs[&**n][0];
            if out.entry != address(i, k) {
                return Err(format!("entry point {:x?} instead of {n} at {:x?}", out.entry, address(i, k)));
            }
        }
        None => {
            let want = inputs.iter().enumerate().find_map(|(i, o)| o.entry.map(|e| (e.0, lay.addr(&start, i, e.0, e.1).expect("entry in a segment"))));
            if out.entry != want {
                return Err(format!("entry point {:x?} instead of {want:x?}", out.entry));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- workloads

const NAMES: [&str; 14] = [
    "a", "b", "main", "_start", "loop", "x1", "print", "f", "data_end", "λ", "end", "q", "loop2", "Main",
];

/// Anything the object format can hold as the name of a global symbol, and the command line as that of an entry
pub fn odd_name(r: &mut Rng) -> String {
    const P: [&str; 30] = [
        "a", "Z", "_", "_start", ".", ".l", "@", "@L1", "æ", "λ", "🦀", "x y", "\u{1}", "\u{7f}", "é", "0", "9", "r1", "#", ";", ":", "$",
        "%s", "{}", "<", "/", "\\", "main", "\u{301}", "UNDEFINED",
    ];
    loop {
        let n = match r.below(8) {
            0..=3 => 1,
            7 => r.range(1, 40),
            _ => r.range(1, 5),
        };
        let mut s: String = (0..n).map(|_| *r.pick(&P)).collect();
        if r.chance(1, 8) {
            s.push(*r.pick(&[' ', '\t', '\n']));
        }
        if !s.starts_with("0x") {
            return s;
        }
    }
}

/// Renames symbols without making different names equal; names that begin with @mark are marks and stay
fn odd_names(r: &mut Rng, objs: &mut [&mut Obj]) {
    if r.bool() {
        return;
    }
    let part = *r.pick(&[1, 3, 10]);
    let mut m: BTreeMap<String, String> = BTreeMap::new();
    let mut taken: BTreeSet<String> = objs.iter().flat_map(|o| o.syms.iter().map(|s| s.name.clone())).collect();
    for o in objs.iter_mut() {
        for s in o.syms.iter_mut().filter(|s| !s.name.is_empty() && !s.name.starts_with("@mark")) {
            let n = m.entry(s.name.clone()).or_insert_with(|| {
                if !r.chance(part, 10) {
                    return s.name.clone();
                }
                let n = odd_name(r);
                if taken.insert(n.clone()) {
                    n
                } else {
                    s.name.clone()
                }
            });
            s.name = n.clone();
        }
    }
}

#[derive(Clone)]
pub struct Shape {
    pub files: usize,
    /// definitions of one name by two files, names defined nowhere: chance in percent
    pub clash: usize,
    pub undefined: usize,
    pub max_seg: usize,
    pub zero: bool,
    pub entries: usize,
    pub preambles: bool,
}

/// Where a symbol is that is nowhere
fn nowhere(r: &mut Rng) -> u16 {
    match r.below(6) {
        0 => 0,
        1 => *r.pick(&[1, 0x80, 0xff, 0x100, 0xffff]),
        2 => r.u16(),
        _ => 0xfaff,
    }
}

pub fn gen_inputs(r: &mut Rng, s: &Shape) -> Vec<Obj> {
    let n = s.files;
    let mut objs: Vec<Obj> = Vec::new();
    for _ in 0..n {
        let mut o = Obj::default();
        if s.preambles && r.chance(1, 4) {
            o.preamble = (0..r.below(40)).map(|_| r.below(0x80) as u8).collect();
        }
        let mut kinds = vec![TEXT, DATA, RODATA, HEAP];
        if s.zero && r.chance(1, 4) {
            kinds.push(ZERO);
        }
        for t in kinds {
            if !r.chance(3, 5) && !(t == TEXT && o.segs.is_empty() && r.chance(2, 3)) {
                continue;
            }
            let len = match r.below(8) {
                0 => 0,
                1 => 1,
                2 => 2 + r.below(3),
                3 => 0x7e + r.below(5),
                4 => r.below(s.max_seg) + 1,
                _ => 2 + r.below(40),
            };
            let at = match r.below(4) {
                0 => 0,
                1 => 0x80 * r.below(0x100),
                2 => r.below(0x1000),
                _ => r.below(0x1_0000 - len - 1),
            };
            let at = at.min(0xffff - len);
            // few different values: swaps of equal bytes must not hide, so all are random
            o.segs.push((t, at as u16, (0..len).map(|_| r.u8()).collect()));
        }
        objs.push(o);
    }
    // who defines a name
    let place = |r: &mut Rng, o: &Obj| -> Option<(u8, u16)> {
        let with: Vec<_> = o.segs.iter().collect();
        if with.is_empty() {
            return None;
        }
        let (t, at, b) = with[r.below(with.len())];
        let off = match r.below(5) {
            0 => 0,
            1 => b.len(),
            _ => r.below(b.len() + 1),
        };
        Some((*t, at + off as u16))
    };
    let mut names: Vec<&str> = NAMES.to_vec();
    r.shuffle(&mut names);
    names.truncate(2 + r.below(9));
    for name in names {
        let mut definers: Vec<usize> = Vec::new();
        if !r.chance(s.undefined, 100) {
            definers.push(r.below(n));
            if r.chance(s.clash, 100) {
                definers.push(r.below(n));
            }
        }
        definers.dedup();
        for (i, o) in objs.iter_mut().enumerate() {
            let already = |o: &Obj| o.syms.iter().any(|s| s.name == name);
            if definers.contains(&i) {
                if let Some((seg, loc)) = place(r, o) {
                    if !already(o) {
                        o.syms.push(Sym { name: name.into(), global: true, seg, loc });
                    }
                }
            } else if r.chance(1, 2) {
                o.syms.push(Sym { name: name.into(), global: true, seg: UNKNOWN, loc: nowhere(r) });
            } else if r.chance(1, 3) {
                // a local of the same name
                if let Some((seg, loc)) = place(r, o) {
                    o.syms.push(Sym { name: name.into(), global: false, seg, loc });
                }
            }
        }
    }
    // more symbols than a byte counts, of one input or of all together
    let many = r.chance(1, 12);
    if many {
        let total = *r.pick(&[130, 255, 256, 257, 300, 600]);
        let all = r.bool();
        for k in 0..total {
            let name = format!("g{k}");
            let i = if all { k % n } else { 0 };
            let Some((seg, loc)) = place(r, &objs[i]) else { continue };
            objs[i].syms.push(Sym { name: name.clone(), global: true, seg, loc });
            let j = r.below(n);
            if j != i && r.bool() {
                objs[j].syms.push(Sym { name, global: true, seg: UNKNOWN, loc: nowhere(r) });
            }
        }
    }
    for o in objs.iter_mut() {
        let locals = if many && r.bool() { *r.pick(&[100, 255, 256, 300]) } else { r.below(5) };
        for _ in 0..locals {
            if let Some((seg, loc)) = place(r, o) {
                let name = match r.below(4) {
                    0 => String::new(),
                    1 => "loop".into(),
                    _ => format!(".l{}", r.below(6)),
                };
                if name == "loop" && o.syms.iter().any(|s| s.name == "loop") {
                    continue;
                }
                o.syms.push(Sym { name, global: false, seg, loc });
            }
        }
        r.shuffle(&mut o.syms);
        if !o.syms.is_empty() {
            for (t, at, b) in &o.segs {
                let mut k = 0usize;
                while k + 2 <= b.len() {
                    if r.chance(1, 6) {
                        o.relocs.push((*t, at + k as u16, r.below(o.syms.len()) as u16));
                        k += 2;
                    } else {
                        k += 1 + if b.len() > 300 { r.below(40) } else { 0 };
                    }
                }
                // the last place possible
                if b.len() >= 2 && k == b.len() - 1 && r.bool() && o.relocs.iter().all(|x| !(x.0 == *t && x.1 as usize + 2 > *at as usize + b.len() - 2)) {
                    o.relocs.push((*t, at + b.len() as u16 - 2, r.below(o.syms.len()) as u16));
                }
            }
            r.shuffle(&mut o.relocs);
        }
        if r.chance(s.entries, 100) {
            o.entry = place(r, o);
        }
        r.shuffle(&mut o.segs);
    }
    odd_names(r, &mut objs.iter_mut().collect::<Vec<_>>());
    objs
}

pub fn shape(r: &mut Rng) -> Shape {
    Shape {
        files: match r.below(5) {
            0 => 1,
            1 => 2,
            _ => r.range(2, 6),
        },
        clash: 0,
        undefined: 25,
        max_seg: *r.pick(&[60, 300, 300, 4000]),
        zero: true,
        entries: 40,
        preambles: true,
    }
}

pub fn rand_align(r: &mut Rng) -> Option<u16> {
    if r.bool() {
        None
    } else {
        Some(1 << r.below(13))
    }
}

/// Also one for which there may not be enough space
fn any_align(r: &mut Rng) -> Option<u16> {
    if r.chance(1, 8) {
        Some(1 << r.range(13, 15))
    } else {
        rand_align(r)
    }
}

pub fn show_inputs(v: &[Obj]) -> String {
    v.iter()
        .enumerate()
        .map(|(i, o)| {
            let segs: Vec<String> = o.segs.iter().map(|s| format!("{} {:#x}+{:#x}", seg_name(s.0), s.1, s.2.len())).collect();
            let syms: Vec<String> = o
                .syms
                .iter()
                .take(14)
                .map(|s| format!("{}{}={}:{:x}", if s.global { "" } else { "~" }, s.name, seg_name(s.seg), s.loc))
                .collect();
            format!("  input {i}: [{}] symbols [{}] {} relocations entry {:x?}", segs.join(", "), syms.join(" "), o.relocs.len(), o.entry)
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Sometimes an input is named twice
fn repeated(r: &mut Rng, mut v: Vec<Obj>) -> Vec<Obj> {
    if v.is_empty() || !r.chance(1, 12) {
        return v;
    }
    let i = r.below(v.len());
    if r.chance(3, 4) {
        // then it must not define what others see
        for s in v[i].syms.iter_mut().filter(|s| s.seg != UNKNOWN) {
            s.global = false;
        }
    }
    for _ in 0..r.range(1, 2) {
        let o = v[i].clone();
        v.insert(r.range(i, v.len()), o);
    }
    v
}

/// Inputs that are equal are one file
pub fn write_inputs(dir: &Path, v: &[Obj], prefix: &str) -> Vec<String> {
    v.iter()
        .map(|o| {
            let i = v.iter().position(|x| x == o).unwrap();
            let n = format!("{prefix}{i}.to");
            write(dir, &n, o.encode());
            n
        })
        .collect()
}

fn read_out(dir: &Path, name: &str) -> Result<Obj, String> {
    let b = fs::read(dir.join(name)).map_err(|e| format!("no output: {e}"))?;
    parse(&b, true).map_err(|e| format!("the output is not a whole object: {e}"))
}

/// Runs the linker on these files
fn link(c: &mut Case, dir: &Path, files: &[String], o: &Opts, more: &[String], out: &str) -> (Out, String) {
    let mut args = o.args(&mut c.rng);
    if c.rng.chance(1, 6) {
        // says more, but does the same
        args.push((*c.rng.pick(&["-v", "--verbose"])).into());
    }
    let outargs: Vec<String> = match c.rng.below(3) {
        _ if out == "a.to" => vec![],
        0 => vec!["-o".into(), out.into()],
        1 => vec![format!("--out={out}")],
        _ => vec!["--out".into(), out.into()],
    };
    let mut all: Vec<String> = Vec::new();
    if c.rng.bool() {
        all.append(&mut args);
        all.extend(outargs);
        all.extend(more.iter().cloned());
        all.extend(files.iter().cloned());
    } else {
        all.extend(files.iter().cloned());
        all.extend(more.iter().cloned());
        all.extend(outargs);
        all.append(&mut args);
    }
    let t = c.run.tool("tl", dir).args(&all);
    let cmd = t.show();
    c.eval(1);
    (t.run(), cmd)
}

fn link_hash(v: &[Obj], o: &Opts) -> u64 {
    let mut b = format!("{o:?}").into_bytes();
    for x in v {
        b.extend(x.encode());
    }
    hash_bytes(&b)
}

/// Link and compare with the model, whatever the outcome has to be
fn link_and_check(c: &mut Case, inputs: &[Obj], o: &Opts) -> Option<Obj> {
    let dir = c.dir();
    let files = write_inputs(&dir, inputs, "f");
    let out_name = *c.rng.pick(&["a.to", "out.to", "result", "sub/out.to"]);
    if out_name.starts_with("sub") {
        fs::create_dir_all(dir.join("sub")).expect("scratch");
    }
    let out_path = dir.join(out_name);
    let _ = fs::remove_file(&out_path);
    let old: Option<Vec<u8>> = if c.rng.chance(1, 4) {
        let mut b = Obj { stack: Some(7), segs: vec![(TEXT, 0x80, vec![1; 3000])], ..Default::default() }.encode();
        if c.rng.bool() {
            b = b"something else".to_vec();
        }
        fs::write(&out_path, &b).expect("scratch");
        Some(b)
    } else {
        None
    };
    let (out, cmd) = link(c, &dir, &files, o, &[], out_name);
    let ctx = |e: String| format!("{e}\n  {cmd}\n{}\n  said: {}", show_inputs(inputs), clip(&(out.err() + &out.out()), 600));
    if let Some(e) = out.abnormal() {
        c.violation(ctx(format!("the linker {e}")));
        return None;
    }
    let why = reasons(inputs, o);
    let lay = Layout::new(inputs);
    let fits = lay.total() + lay.size.len() as u32 * o.align() + 0x100 < 0xff00;
    let too_big = lay.total() > 0x1_0000
        || lay.total() - lay.size.get(&ZERO).copied().unwrap_or(0) > 0xff80;
    c.nontrivial(link_hash(inputs, o));
    if !why.is_empty() || too_big {
        let w = why.first().cloned().unwrap_or("the segments do not fit".into());
        c.count("links that have to fail", 1);
        if out.ok() {
            c.violation(ctx(format!("linking succeeds, though {w}")));
        } else if fs::read(&out_path).ok() != old && out_path.exists() {
            c.violation(ctx(format!("linking fails because {w}, but produces output")));
        }
        return None;
    }
    if !out.ok() {
        if fits {
            c.violation(ctx("linking fails, though nothing is wrong".into()));
        } else {
            c.count("links near the end of the address space refused", 1);
        }
        return None;
    }
    match read_out(&dir, out_name).and_then(|obj| check_link(inputs, o, &obj).map(|_| obj)) {
        Err(e) => {
            c.violation(ctx(e));
            None
        }
        Ok(obj) => {
            c.count("links compared", 1);
            c.count("symbols compared", obj.syms.len() as u64);
            c.count("relocations compared", obj.relocs.len() as u64);
            c.count("segment bytes compared", obj.segs.iter().map(|s| s.2.len() as u64).sum());
            let mode = fs::metadata(&out_path).map_or(0, |m| m.permissions().mode());
            if o.exe && (mode & 0o100 == 0 || (mode & 0o444) >> 2 & !mode != 0) {
                c.violation(ctx(format!("the executable has permissions {mode:o}")));
                return None;
            }
            c.sample("link", || format!("{cmd}\n{}", show_inputs(inputs)));
            Some(obj)
        }
    }
}

pub fn c25(run: &Run) {
    run.cases("links", run.n(2500, 50_000), |c| {
        let s = shape(&mut c.rng);
        let v = gen_inputs(&mut c.rng, &s);
        let v = repeated(&mut c.rng, v);
        let o = Opts { strip: c.rng.chance(1, 5), align: any_align(&mut c.rng), ..Default::default() };
        link_and_check(c, &v, &o);
    });
    run.cases("many", run.n(150, 3000), |c| {
        let s = Shape { files: c.rng.range(8, 24), max_seg: 200, undefined: 10, ..shape(&mut c.rng) };
        let v = gen_inputs(&mut c.rng, &s);
        let o = Opts { align: any_align(&mut c.rng), ..Default::default() };
        link_and_check(c, &v, &o);
    });
    run.cases("executables", run.n(800, 15_000), |c| {
        let s = Shape { undefined: 0, entries: 70, ..shape(&mut c.rng) };
        let v = gen_inputs(&mut c.rng, &s);
        let v = repeated(&mut c.rng, v);
        let o = Opts { exe: true, strip: c.rng.chance(1, 5), align: any_align(&mut c.rng), ..Default::default() };
        link_and_check(c, &v, &o);
    });
    // sizes around what fits
    run.cases("big", run.n(250, 4000), |c| {
        let s = Shape { max_seg: *c.rng.pick(&[20_000, 40_000, 60_000]), undefined: 10, ..shape(&mut c.rng) };
        let mut v = gen_inputs(&mut c.rng, &s);
        if c.rng.bool() {
            // add up over the limit by a little or a lot
            let lay = Layout::new(&v);
            let want = 0x1_0000 + c.rng.below(0x300) as u32;
            if lay.total() < want {
                let need = (want - lay.total()).min(60_000) as usize;
                let b = (0..need).map(|_| c.rng.u8()).collect();
                let t = *c.rng.pick(&[TEXT, DATA, HEAP]);
                v.push(Obj { segs: vec![(t, 0, b)], ..Default::default() });
            }
        }
        let o = Opts { align: if c.rng.bool() { None } else { Some(1) }, ..Default::default() };
        link_and_check(c, &v, &o);
    });
}

pub fn c26(run: &Run) {
    run.cases("resolution", run.n(4000, 80_000), |c| {
        let mut s = shape(&mut c.rng);
        s.max_seg = 60;
        s.clash = *c.rng.pick(&[0, 0, 10, 40]);
        s.undefined = *c.rng.pick(&[0, 0, 15, 60]);
        s.entries = *c.rng.pick(&[0, 30, 80]);
        let v = gen_inputs(&mut c.rng, &s);
        let v = repeated(&mut c.rng, v);
        let exe = c.rng.chance(2, 3);
        let entry = if exe && c.rng.chance(2, 5) || c.rng.chance(1, 20) {
            Some(rand_entry(&mut c.rng, &v))
        } else {
            None
        };
        let o = Opts { exe, entry, strip: c.rng.chance(1, 6), align: any_align(&mut c.rng) };
        tally(c, &v, &o);
        link_and_check(c, &v, &o);
    });
    // one defect each, in otherwise good links
    run.cases("single defects", run.n(2000, 40_000), |c| {
        let mut s = shape(&mut c.rng);
        s.max_seg = 60;
        s.undefined = 0;
        s.files = c.rng.range(2, 5);
        s.entries = 60;
        let mut v = gen_inputs(&mut c.rng, &s);
        // everything resolved: references without definition become local
        let defs: BTreeSet<String> = definitions(&v).iter().filter(|d| !d.1.is_empty()).map(|d| d.0.to_string()).collect();
        for o in v.iter_mut() {
            if let Some((t, at, _)) = o.segs.first().cloned() {
                for s in o.syms.iter_mut().filter(|s| s.global && s.seg == UNKNOWN && !defs.contains(&s.name)) {
                    s.global = false;
                    s.seg = t;
                    s.loc = at;
                }
            }
        }
        let mut o = Opts { exe: true, ..Default::default() };
        let holder = |v: &[Obj], r: &mut Rng| -> Option<usize> {
            let w: Vec<usize> = (0..v.len()).filter(|&i| v[i].segs.iter().any(|s| s.2.len() >= 2)).collect();
            if w.is_empty() {
                None
            } else {
                Some(w[r.below(w.len())])
            }
        };
        match c.index % 6 {
            0 => {
                // one more definition of a defined name
                let d: Vec<String> = defs.into_iter().collect();
                if let (false, Some(i)) = (d.is_empty(), holder(&v, &mut c.rng)) {
                    let n = c.rng.pick(&d).clone();
                    if !v[i].syms.iter().any(|s| s.name == n) {
                        let (t, at, _) = v[i].segs[0].clone();
                        v[i].syms.push(Sym { name: n, global: true, seg: t, loc: at });
                    }
                }
                o.exe = c.rng.bool();
            }
            1 => {
                // one reference to nothing, or to a local of another file
                if let Some(i) = holder(&v, &mut c.rng) {
                    let name = if c.rng.bool() { "nowhere".to_string() } else { ".l1".into() };
                    let k = v[i].syms.len() as u16;
                    let (t, at, b) = v[i].segs.iter().find(|s| s.2.len() >= 2).unwrap().clone();
                    v[i].syms.push(Sym { name, global: true, seg: UNKNOWN, loc: 0xfaff });
                    let p = at + c.rng.below(b.len() - 1) as u16;
                    if v[i].relocs.iter().all(|x| x.0 != t || x.1.abs_diff(p) >= 2) {
                        v[i].relocs.push((t, p, k));
                    }
                }
                o.exe = c.rng.chance(4, 5);
            }
            2 => {
                for x in v.iter_mut() {
                    x.entry = None;
                }
                o.exe = c.rng.chance(4, 5);
            }
            3 => o.entry = Some(rand_entry(&mut c.rng, &v)),
            4 => {
                // the same local name everywhere
                for x in v.iter_mut() {
                    if let Some((t, at, _)) = x.segs.first().cloned() {
                        if !x.syms.iter().any(|s| s.name == "same") {
                            x.syms.push(Sym { name: "same".into(), global: false, seg: t, loc: at });
                        }
                    }
                }
                // and once global
                if c.rng.bool() {
                    let i = c.rng.below(v.len());
                    if let Some(s) = v[i].syms.iter_mut().find(|s| s.name == "same") {
                        s.global = true;
                    }
                }
            }
            _ => (),
        }
        tally(c, &v, &o);
        link_and_check(c, &v, &o);
    });
    // more symbols or relocations together than one object can hold, or just as many
    run.cases("full tables", run.n(40, 800), |c| {
        const MAX: usize = 0xffff;
        let dir = c.dir();
        let k = c.rng.range(2, 4);
        let over = match c.rng.below(6) {
            0..=2 => 0,
            3 => 1,
            4 => c.rng.range(2, 10),
            _ => c.rng.range(10, 30_000),
        };
        let relocs = c.rng.bool();
        let strip = c.rng.chance(1, 4);
        let exe = c.rng.chance(2, 3);
        let mut v: Vec<Obj> = Vec::new();
        let (mut nsyms, mut nrelocs) = (0, 0);
        let mut size = 0;
        for i in 0..k {
            let mut o = Obj::default();
            let at = c.rng.corner16() & 0x7f80 | 0x80;
            let mut bytes = vec![0; 2];
            if relocs {
                let goal = MAX / 5 + over.div_ceil(5);
                let n = if i + 1 == k { goal - nrelocs } else { c.rng.below((goal - nrelocs).min(MAX / 5 - 1)) }.min(MAX / 5);
                o.syms.push(Sym { name: format!("s{i}"), global: c.rng.bool(), seg: TEXT, loc: at });
                bytes = vec![0; 2 * n + 2];
                o.relocs = (0..n).map(|j| (TEXT, at + 2 * j as u16, 0)).collect();
                nrelocs += n;
            } else {
                let goal = if i + 1 == k { MAX + over - size } else { c.rng.below((MAX + over - size) / 2) }.min(MAX);
                let mut here = 0;
                while here + 60 < goal {
                    let global = c.rng.bool();
                    let name = format!("n{i}_{}{}", o.syms.len(), "y".repeat(c.rng.below(20)));
                    here += if global || !strip { name.len() + 4 + !global as usize } else { 5 };
                    o.syms.push(Sym { name, global, seg: TEXT, loc: at });
                }
                if goal - here > 20 {
                    // the rest
                    let first = format!("last{i}_");
                    let name = format!("{first}{}", "z".repeat(goal - here - 4 - first.len()));
                    here += name.len() + 4;
                    o.syms.push(Sym { name, global: true, seg: TEXT, loc: at });
                }
                size += here;
            }
            // what is stripped takes more room in the input
            if o.syms.iter().map(|s| s.name.len() + 4 + !s.global as usize).sum::<usize>() > MAX {
                return;
            }
            nsyms += o.syms.len();
            o.segs.push((TEXT, at, bytes));
            if i == 0 {
                o.entry = Some((TEXT, at));
            }
            v.push(o);
        }
        let too_much = if relocs { nrelocs * 5 > MAX } else { size > MAX };
        let files = write_inputs(&dir, &v, "f");
        // the output is new, or something else, or the first input
        let out_name = c.rng.pick(&["new", "old", files[0].as_str()]).to_string();
        let old = (out_name != "new").then(|| {
            if out_name == "old" {
                write(&dir, "old", b"something else");
            }
            fs::read(dir.join(&out_name)).expect("scratch")
        });
        let o = Opts { exe, strip, ..Default::default() };
        let (out, cmd) = link(c, &dir, &files, &o, &[], &out_name);
        c.nontrivial(link_hash(&v, &o));
        let what = format!("{k} inputs with {nsyms} symbols and {nrelocs} relocations ({} bytes of them) linked into {out_name}: {cmd}", size + nrelocs * 5);
        if let Some(e) = out.abnormal() {
            return c.violation(format!("{what}: the linker {e}"));
        }
        if too_much {
            if !out.fails() {
                return c.violation(format!("{what}: the link succeeds, though no object can hold that"));
            }
            if fs::read(dir.join(&out_name)).ok() != old {
                return c.violation(format!("{what}: the link fails, but writes output"));
            }
            c.count("links whose tables do not fit", 1);
        } else {
            if !out.ok() {
                return c.violation(format!("{what}: {}", clip(&out.show(), 400)));
            }
            if let Err(e) = read_out(&dir, &out_name).and_then(|obj| check_link(&v, &o, &obj)) {
                return c.violation(format!("{what}: {e}"));
            }
            c.count("links whose tables just fit", 1);
        }
    });
}

fn tally(c: &mut Case, v: &[Obj], o: &Opts) {
    for w in reasons(v, o) {
        let k = if w.contains("two inputs") {
            "duplicate definition"
        } else if w.contains("nowhere") {
            "undefined reference"
        } else if w.contains("no entry") {
            "no entry point"
        } else if w.contains("entry symbol") {
            "bad entry symbol"
        } else {
            "bad option"
        };
        c.count(&format!("to fail: {k}"), 1);
    }
    if o.entry.is_some() {
        c.count("entry requested", 1);
    }
}

fn rand_entry(r: &mut Rng, v: &[Obj]) -> EntryReq {
    if r.chance(1, 4) {
        let h = match r.below(6) {
            0 => "0x".to_string(),
            1 => "0x10000".into(),
            2 => r.pick(&["0xg", "0x0x80", "0x80h", "0x 80", "0x-1", "0x80,", "0x_80"]).to_string(),
            _ => {
                let a = r.corner16();
                match r.below(3) {
                    0 => format!("0x{a:x}"),
                    1 => format!("0x{a:04X}"),
                    _ => format!("0x{a:06x}"),
                }
            }
        };
        return EntryReq::Hex(h);
    }
    let syms: Vec<&Sym> = v.iter().flat_map(|o| &o.syms).filter(|s| !s.name.is_empty()).collect();
    if syms.is_empty() || r.chance(1, 8) {
        return EntryReq::Sym("nothing".into());
    }
    let defined: Vec<&&Sym> = syms.iter().filter(|s| s.global && s.seg != UNKNOWN).collect();
    if !defined.is_empty() && r.chance(2, 3) {
        return EntryReq::Sym(defined[r.below(defined.len())].name.clone());
    }
    EntryReq::Sym(syms[r.below(syms.len())].name.clone())
}

// ---------------------------------------------------------------- C27

/// What two links must agree on. Places of undefined references are masked.
fn same_image(a: &Obj, b: &Obj) -> Result<(), String> {
    let mask = |o: &Obj| -> BTreeMap<u8, (u16, Vec<Option<u8>>)> {
        let mut m: BTreeMap<u8, (u16, Vec<Option<u8>>)> = o
            .segs
            .iter()
            .filter(|s| !s.2.is_empty())
            .map(|(t, at, b)| (*t, (*at, b.iter().map(|b| Some(*b)).collect())))
            .collect();
        for &(s, l, k) in &o.relocs {
            if o.syms.get(k as usize).is_some_and(|y| y.seg == UNKNOWN) {
                if let Some((at, v)) = m.get_mut(&s) {
                    let p = l.wrapping_sub(*at) as usize;
                    for q in [p, p + 1] {
                        if let Some(x) = v.get_mut(q) {
                            *x = None;
                        }
                    }
                }
            }
        }
        m
    };
    let (x, y) = (mask(a), mask(b));
    for t in objfmt::SEGS {
        match (x.get(&t), y.get(&t)) {
            (None, None) => (),
            (Some((p, u)), Some((q, v))) => {
                if p != q {
                    return Err(format!("the {} segment is at {q:#06x} instead of {p:#06x}", seg_name(t)));
                }
                if u != v {
                    let k = (0..).find(|&k| u.get(k) != v.get(k)).unwrap();
                    return Err(format!(
                        "the {} segment differs at {:#06x}: {:02x?} instead of {:02x?}",
                        seg_name(t),
                        *p as usize + k,
                        v.get(k),
                        u.get(k)
                    ));
                }
            }
            _ => return Err(format!("only one has a {} segment", seg_name(t))),
        }
    }
    if a.entry != b.entry {
        return Err(format!("entry point {:x?} instead of {:x?}", b.entry, a.entry));
    }
    let named = |o: &Obj| -> Vec<(String, bool, u8, u16)> {
        let mut v: Vec<_> = o
            .syms
            .iter()
            .filter(|s| !s.name.is_empty())
            .map(|s| (s.name.clone(), s.global, s.seg, if s.seg == UNKNOWN { 0 } else { s.loc }))
            .collect();
        v.sort();
        v
    };
    let (x, y) = (named(a), named(b));
    if x != y {
        let miss: Vec<_> = x.iter().filter(|l| !y.contains(l)).take(3).collect();
        let more: Vec<_> = y.iter().filter(|l| !x.contains(l)).take(3).collect();
        return Err(format!("named symbols differ: missing {miss:x?}, unexpected {more:x?}"));
    }
    let places = |o: &Obj| -> Vec<(u8, u16)> {
        let mut v: Vec<_> = o.relocs.iter().map(|r| (r.0, r.1)).collect();
        v.sort();
        v
    };
    let (x, y) = (places(a), places(b));
    if x != y {
        let miss: Vec<_> = x.iter().filter(|l| !y.contains(l)).take(3).collect();
        let more: Vec<_> = y.iter().filter(|l| !x.contains(l)).take(3).collect();
        return Err(format!("relocation places differ: missing {miss:x?}, unexpected {more:x?}"));
    }
    Ok(())
}

pub fn c27(run: &Run) {
    run.cases("steps", run.n(1500, 30_000), |c| {
        let mut s = shape(&mut c.rng);
        s.files = c.rng.range(2, 7);
        s.max_seg = *c.rng.pick(&[60, 300, 2000]);
        let v = gen_inputs(&mut c.rng, &s);
        let v = repeated(&mut c.rng, v);
        let dir = c.dir();
        let files = write_inputs(&dir, &v, "f");
        let mut o = Opts { strip: c.rng.chance(1, 6), align: rand_align(&mut c.rng), ..Default::default() };
        o.exe = c.rng.chance(1, 3) && reasons(&v, &Opts { exe: true, ..o.clone() }).is_empty();
        let (out, cmd) = link(c, &dir, &files, &o, &[], "all.to");
        if !reasons(&v, &o).is_empty() {
            return;
        }
        let once = match (out.ok(), read_out(&dir, "all.to")) {
            (true, Ok(x)) => x,
            (_, e) => return c.violation(format!("{cmd} fails: {e:?}\n{}\n{}", out.show(), show_inputs(&v))),
        };
        let mut trace = vec![cmd];
        let mut k = 0;
        let mut acc: Vec<String> = Vec::new();
        let mut step = 0;
        loop {
            let last = step > 0 && (c.rng.chance(1, 3) || k == v.len());
            if last {
                break;
            }
            let take = if step == 0 { c.rng.range(1, v.len()) } else { c.rng.range(0, v.len() - k) };
            let mut fs = acc.clone();
            fs.extend(files[k..k + take].iter().cloned());
            k += take;
            // in between, other alignments, and executables where they are possible
            let done = &v[..k];
            let mut p = Opts { align: if c.rng.bool() { o.align } else { rand_align(&mut c.rng) }, ..Default::default() };
            p.exe = c.rng.chance(1, 4) && reasons(done, &Opts { exe: true, ..Default::default() }).is_empty();
            let name = format!("step{step}.to");
            let (out, cmd) = link(c, &dir, &fs, &p, &[], &name);
            trace.push(cmd);
            if !out.ok() {
                return c.violation(format!("a step fails\n  {}\n{}\n{}", trace.join("\n  "), out.show(), show_inputs(&v)));
            }
            acc = vec![name];
            step += 1;
            if step > 5 {
                break;
            }
        }
        let mut fs = acc.clone();
        fs.extend(files[k..].iter().cloned());
        let (out, cmd) = link(c, &dir, &fs, &o, &[], "final.to");
        trace.push(cmd);
        let got = match (out.ok(), read_out(&dir, "final.to")) {
            (true, Ok(x)) => x,
            (_, e) => return c.violation(format!("the last step fails: {e:?}\n  {}\n{}\n{}", trace.join("\n  "), out.show(), show_inputs(&v))),
        };
        if let Err(e) = same_image(&once, &got) {
            return c.violation(format!("linked in steps: {e}\n  {}\n{}", trace.join("\n  "), show_inputs(&v)));
        }
        c.nontrivial(link_hash(&v, &o) ^ hash_bytes(trace.join("\n").as_bytes()));
        c.count("step-wise links compared", 1);
        c.count("intermediate links", step as u64);
        c.sample("steps", || trace.join("\n"));
    });
}

// ---------------------------------------------------------------- C28

/// Predicted members in the order the selection finds them
pub fn closure(inputs: &[Obj], members: &[Obj]) -> Vec<usize> {
    let globals = |o: &Obj| -> BTreeMap<String, bool> {
        let mut m = BTreeMap::new();
        for s in o.syms.iter().filter(|s| s.global) {
            *m.entry(s.name.clone()).or_insert(false) |= s.seg != UNKNOWN;
        }
        m
    };
    let mut input_defs = BTreeSet::new();
    let mut wanted = BTreeSet::new();
    for o in inputs {
        for (n, d) in globals(o) {
            if d {
                input_defs.insert(n);
            } else {
                wanted.insert(n);
            }
        }
    }
    let mut member_defs: BTreeSet<String> = BTreeSet::new();
    let mut chosen: Vec<usize> = Vec::new();
    loop {
        let next = (0..members.len()).filter(|i| !chosen.contains(i)).find(|&i| {
            globals(&members[i]).iter().any(|(n, d)| {
                if *d {
                    wanted.contains(n) && !input_defs.contains(n) && !member_defs.contains(n)
                } else {
                    input_defs.contains(n)
                }
            })
        });
        let Some(i) = next else { return chosen };
        for (n, d) in globals(&members[i]) {
            if d {
                member_defs.insert(n);
            } else {
                wanted.insert(n);
            }
        }
        chosen.push(i);
    }
}

pub fn gen_library(r: &mut Rng) -> (Vec<Obj>, Vec<Vec<Obj>>) {
    // a pool of names, each at home in at most one object (mostly)
    let pool: Vec<String> = (0..r.range(3, 14)).map(|i| format!("s{i}")).collect();
    let nin = r.range(1, 3);
    let narch = if r.chance(1, 8) { r.range(4, 9) } else { r.range(1, 3) };
    let mut counts: Vec<usize> = (0..narch).map(|_| r.range(1, 6)).collect();
    if r.chance(1, 3) {
        counts = vec![r.range(4, 12)];
    }
    let nmem: usize = counts.iter().sum();
    let total = nin + nmem;
    let mut objs: Vec<Obj> = (0..total)
        .map(|i| {
            let mut o = Obj::default();
            if r.chance(1, 4) {
                o.preamble = r.pick(&["#!/bin/env t\n", "x", "á", "álvur", "a preamble \0 with a zero"]).as_bytes().to_vec();
            }
            let n = r.range(6, 30);
            o.segs.push((TEXT, 0x80 * r.below(20) as u16, (0..n).map(|_| r.u8()).collect()));
            if r.bool() {
                let n = r.range(2, 30);
                let t = *r.pick(&[DATA, DATA, RODATA, ZERO, HEAP]);
                o.segs.push((t, r.below(0x8000) as u16, (0..n).map(|_| r.u8()).collect()));
            }
            // a local name tells the objects apart in the output
            let (t, at, _) = o.segs[0];
            o.syms.push(Sym { name: format!("@mark{i}"), global: false, seg: t, loc: at });
            if r.chance(1, 6) {
                o.entry = Some((t, at + 1));
            }
            o
        })
        .collect();
    let home: Vec<Vec<usize>> = pool
        .iter()
        .map(|_| {
            let mut h = vec![];
            if r.chance(9, 10) {
                h.push(if r.chance(1, 4) { r.below(nin) } else { r.range(nin, total - 1) });
            }
            if r.chance(1, 12) {
                h.push(r.below(total));
            }
            h
        })
        .collect();
    let density = r.range(1, 4);
    for (i, o) in objs.iter_mut().enumerate() {
        for (k, n) in pool.iter().enumerate() {
            if home[k].contains(&i) {
                let (t, at, b) = o.segs[r.below(o.segs.len())].clone();
                o.syms.push(Sym { name: n.clone(), global: true, seg: t, loc: at + r.below(b.len()) as u16 });
            } else if r.chance(density, 10) {
                o.syms.push(Sym { name: n.clone(), global: true, seg: UNKNOWN, loc: 0xfaff });
            } else if r.chance(1, 10) {
                let &(t, at, _) = r.pick(&o.segs);
                o.syms.push(Sym { name: n.clone(), global: false, seg: t, loc: at + 2 });
            }
        }
        r.shuffle(&mut o.syms);
        for (t, at, b) in &o.segs {
            for k in (0..b.len() - 1).step_by(2) {
                if r.chance(1, 3) {
                    o.relocs.push((*t, at + k as u16, r.below(o.syms.len()) as u16));
                }
            }
        }
    }
    odd_names(r, &mut objs.iter_mut().collect::<Vec<_>>());
    let members = objs.split_off(nin);
    let mut it = members.into_iter();
    let archives = counts.iter().map(|n| it.by_ref().take(*n).collect()).collect();
    (objs, archives)
}

pub fn chain_library(r: &mut Rng) -> (Vec<Obj>, Vec<Vec<Obj>>) {
    // each member needs the next; stored in an unfavourable order
    let n = if r.chance(1, 40) { r.range(40, 300) } else { r.range(3, 14) };
    let mk = |i: usize, def: Option<String>, refs: Vec<String>| -> Obj {
        let mut o = Obj::default();
        o.segs.push((TEXT, 0x100, (0..2 * refs.len() + 3).map(|k| (i * 31 + k) as u8).collect()));
        o.syms.push(Sym { name: format!("@mark{i}"), global: false, seg: TEXT, loc: 0x100 });
        if let Some(d) = def {
            o.syms.push(Sym { name: d, global: true, seg: TEXT, loc: 0x101 });
        }
        for (k, f) in refs.into_iter().enumerate() {
            o.relocs.push((TEXT, 0x100 + 2 * k as u16, o.syms.len() as u16));
            o.syms.push(Sym { name: f, global: true, seg: UNKNOWN, loc: 0xfaff });
        }
        o
    };
    let mut members: Vec<Obj> = (0..n)
        .map(|i| {
            let mut refs = vec![];
            if i + 1 < n {
                refs.push(format!("c{}", i + 1));
            }
            // cycles and shortcuts
            if r.chance(1, 3) {
                refs.push(format!("c{}", r.below(n)));
            }
            refs.retain(|x| *x != format!("c{i}"));
            refs.sort();
            refs.dedup();
            mk(i + 1, Some(format!("c{i}")), refs)
        })
        .collect();
    for k in 0..r.below(4) {
        // unconnected ones
        members.push(mk(1000 + k, Some(format!("u{k}")), vec![]));
    }
    match r.below(3) {
        0 => members.reverse(),
        1 => r.shuffle(&mut members),
        _ => (),
    }
    let first = r.below(n);
    let mut input = mk(0, None, vec![format!("c{first}")]);
    odd_names(r, &mut members.iter_mut().chain([&mut input]).collect::<Vec<_>>());
    let archives = if r.bool() {
        vec![members]
    } else {
        let k = r.below(members.len());
        let b = members.split_off(k);
        vec![members, b].into_iter().filter(|a| !a.is_empty()).collect()
    };
    (vec![input], archives)
}

/// An archive yields its members unchanged and in order, also one given twice
fn yields(c: &mut Case, dir: &Path, ar: &str, names: &[String], m: &[Obj]) -> bool {
    let t = c.run.tool("tar", dir).arg("-o").arg(ar).args(names);
    let cmd = t.show();
    c.eval(1);
    let out = t.run();
    if !out.ok() {
        c.violation(format!("{cmd} fails\n{}", out.show()));
        return false;
    }
    match parse_archive(&fs::read(dir.join(ar)).unwrap_or_default()) {
        Err(e) => c.violation(format!("{cmd}: {e}")),
        Ok(g) if g.len() != m.len() => c.violation(format!("{cmd}: {} members instead of {}", g.len(), m.len())),
        Ok(g) => match m.iter().zip(&g).position(|(x, y)| x != y) {
            None => {
                c.count("archives made", 1);
                return true;
            }
            Some(i) => {
                c.violation(format!("{cmd}: member {i} is not the input\n{}", show_inputs(&[m[i].clone(), g[i].clone()])))
            }
        },
    }
    false
}

fn archive_case(c: &mut Case, inputs: Vec<Obj>, archives: Vec<Vec<Obj>>) {
    let dir = c.dir();
    let files = write_inputs(&dir, &inputs, "in");
    let mut more = Vec::new();
    let mut all: Vec<Obj> = Vec::new();
    for (a, m) in archives.iter().enumerate() {
        let names = write_inputs(&dir, m, &format!("m{a}_"));
        let ar = format!("lib{a}.savn");
        if !yields(c, &dir, &ar, &names, m) {
            return;
        }
        if !m.is_empty() && c.rng.chance(1, 10) {
            // a member twice, in a row or not
            let (mut n2, mut m2) = (names.clone(), m.clone());
            let i = c.rng.below(m.len());
            let k = if c.rng.bool() { i + 1 } else { c.rng.range(i, m.len()) };
            n2.insert(k, names[i].clone());
            m2.insert(k, m[i].clone());
            if !yields(c, &dir, "twice.savn", &n2, &m2) {
                return;
            }
        }
        if c.rng.bool() {
            more.push("-l".to_string());
            more.push(ar);
        } else {
            more.push(format!("-l{ar}"));
        }
        all.extend(m.iter().cloned());
    }
    let want = closure(&inputs, &all);
    let o = Opts { exe: c.rng.chance(1, 4), align: rand_align(&mut c.rng), ..Default::default() };
    let mut set: Vec<Obj> = inputs.clone();
    set.extend(want.iter().map(|i| all[*i].clone()));
    let why = reasons(&set, &o);
    let (out, cmd) = link(c, &dir, &files, &o, &more, "out.to");
    let ctx = |e: String| {
        format!(
            "{e}\n  {cmd}\n  predicted members {want:?}\n{}\n members\n{}\n  said: {}",
            show_inputs(&inputs),
            show_inputs(&all),
            clip(&(out.err() + &out.out()), 500)
        )
    };
    if let Some(e) = out.abnormal() {
        return c.violation(ctx(format!("the linker {e}")));
    }
    c.nontrivial(link_hash(&inputs, &o) ^ link_hash(&all, &o).rotate_left(7));
    c.count("members available", all.len() as u64);
    c.count("members needed", want.len() as u64);
    if !why.is_empty() {
        c.count("links that have to fail", 1);
        if out.ok() {
            c.violation(ctx(format!("linking succeeds, though {}", why[0])));
        }
        return;
    }
    if !out.ok() {
        return c.violation(ctx("linking fails".into()));
    }
    let got = match read_out(&dir, "out.to") {
        Ok(g) => g,
        Err(e) => return c.violation(ctx(e)),
    };
    // which members are in, and in which order: by the address of their local names
    let n = inputs.len();
    let mut there: Vec<(u16, usize)> = Vec::new();
    for (i, m) in all.iter().enumerate() {
        let mark = m.syms.iter().find(|s| s.name.starts_with("@mark")).unwrap();
        let at: Vec<&Sym> = got.syms.iter().filter(|s| !s.global && s.name == mark.name).collect();
        if at.len() > 1 {
            return c.violation(ctx(format!("member {i} is included {} times", at.len())));
        }
        if let Some(s) = at.first() {
            there.push((s.loc, i));
        }
    }
    there.sort();
    let order: Vec<usize> = there.iter().map(|t| t.1).collect();
    let (mut x, mut y) = (order.clone(), want.clone());
    x.sort();
    y.sort();
    if x != y {
        return c.violation(ctx(format!("members {x:?} are included instead of {y:?}")));
    }
    let mut set: Vec<Obj> = inputs[..n].to_vec();
    set.extend(order.iter().map(|i| all[*i].clone()));
    if let Err(e) = check_link(&set, &o, &got) {
        return c.violation(ctx(format!("not the link of inputs and members {order:?}: {e}")));
    }
    // and the same as the explicit link by the tool itself
    if c.rng.chance(1, 4) {
        let names = write_inputs(&dir, &set[n..], "x");
        let mut f = files.clone();
        f.extend(names);
        let (out2, cmd2) = link(c, &dir, &f, &o, &[], "explicit.to");
        match read_out(&dir, "explicit.to") {
            Ok(g) => {
                if let Err(e) = same_image(&g, &got) {
                    c.violation(ctx(format!("differs from {cmd2}: {e}")));
                }
            }
            Err(e) => c.violation(format!("{cmd2}: {e}\n{}", out2.show())),
        }
    }
    c.count("links with archives compared", 1);
    c.sample("link with archives", || format!("{cmd} includes members {order:?} of {}", all.len()));
}

pub fn c28(run: &Run) {
    run.cases("graphs", run.n(1200, 25_000), |c| {
        let (i, a) = gen_library(&mut c.rng);
        archive_case(c, i, a);
    });
    run.cases("chains", run.n(600, 10_000), |c| {
        let (i, a) = chain_library(&mut c.rng);
        archive_case(c, i, a);
    });
}

// ---------------------------------------------------------------- C29

fn stripped(o: &Obj, all: bool) -> Obj {
    let mut s = o.clone();
    if all {
        s.syms.clear();
        s.relocs.clear();
    } else {
        for y in s.syms.iter_mut().filter(|y| !y.global) {
            y.name.clear();
        }
    }
    s
}

fn strip_diff(want: &Obj, got: &Obj) -> Option<String> {
    let seg = |o: &Obj| -> BTreeMap<u8, (u16, Vec<u8>)> { o.segs.iter().map(|s| (s.0, (s.1, s.2.clone()))).collect() };
    for (w, x, y) in [
        ("entry", format!("{:x?}", want.entry), format!("{:x?}", got.entry)),
        ("flags", format!("{:?}", want.flags), format!("{:?}", got.flags)),
        ("stack size", format!("{:?}", want.stack), format!("{:?}", got.stack)),
        ("heap size", format!("{:?}", want.heap), format!("{:?}", got.heap)),
        ("preamble", format!("{:02x?}", want.preamble), format!("{:02x?}", got.preamble)),
    ] {
        if x != y {
            return Some(format!("{w} {} instead of {}", clip(&y, 60), clip(&x, 60)));
        }
    }
    if seg(want) != seg(got) {
        return Some("segments differ".into());
    }
    if want.syms != got.syms {
        let k = (0..).find(|&k| want.syms.get(k) != got.syms.get(k)).unwrap();
        return Some(format!("symbol {k}: {:?} instead of {:?}", got.syms.get(k), want.syms.get(k)));
    }
    if want.relocs != got.relocs {
        return Some(format!("relocations {:x?} instead of {:x?}", got.relocs, want.relocs));
    }
    None
}

pub fn decorate(r: &mut Rng, o: &mut Obj) {
    if r.bool() {
        o.flags = Some(r.bool());
    }
    if r.bool() {
        o.stack = Some(r.u16());
    }
    if r.bool() {
        o.heap = Some(r.u16());
    }
    if r.chance(1, 3) {
        let n = if r.chance(1, 15) { r.range(65_530, 70_000) } else { *r.pick(&[1, 2, 13, 100, 5000]) };
        o.preamble = (0..n).map(|_| r.below(0x80) as u8).collect();
    }
}

fn strip_files(c: &mut Case) {
    let s = Shape { files: c.rng.range(1, 4), ..shape(&mut c.rng) };
    let mut v = gen_inputs(&mut c.rng, &s);
    for o in v.iter_mut() {
        decorate(&mut c.rng, o);
        if c.rng.chance(1, 8) {
            // one long name
            let k = c.rng.below(o.syms.len().max(1));
            let n = *c.rng.pick(&[100, 127, 128, 255, 256, 257, 300, 1000]);
            let room = o.syms.iter().map(|s| s.name.len() + 8).sum::<usize>() + n < 60_000;
            if let Some(s) = o.syms.get_mut(k).filter(|s| room && !s.name.is_empty()) {
                s.name = s.name.repeat(n / s.name.len() + 1);
                c.count("long names", 1);
            }
        }
    }
    let dir = c.dir();
    let files = write_inputs(&dir, &v, "f");
    let all = c.rng.bool();
    let force = all && c.rng.chance(1, 3);
    let mut args: Vec<String> = Vec::new();
    if all {
        args.push((*c.rng.pick(&["-a", "--all"])).into());
    }
    if force {
        args.push("-f".into());
    }
    let mut targets = files.clone();
    // one unreadable among them
    let bad = c.rng.chance(1, 6);
    if bad {
        let k = c.rng.below(targets.len() + 1);
        if c.rng.bool() {
            write(&dir, "bad.to", b"no object");
        }
        targets.insert(k, "bad.to".into());
    }
    let mode = *c.rng.pick(&[0o644, 0o755, 0o600]);
    for f in &files {
        fs::set_permissions(dir.join(f), fs::Permissions::from_mode(mode)).expect("scratch");
    }
    if c.rng.bool() {
        args.extend(targets);
    } else {
        targets.append(&mut args);
        args = targets;
    }
    let mut rounds = 1 + c.rng.below(2);
    let t = c.run.tool("tstrip", &dir).args(&args);
    let cmd = t.show();
    let refused: Vec<bool> = v.iter().map(|o| all && !force && o.entry.is_none()).collect();
    while rounds > 0 {
        c.eval(1);
        let out = c.run.tool("tstrip", &dir).args(&args).run();
        let ctx = |e: String| format!("{e}\n  {cmd}\n{}\n  said: {}", show_inputs(&v), clip(&out.err(), 400));
        if let Some(e) = out.abnormal() {
            return c.violation(ctx(format!("tstrip {e}")));
        }
        let fail = bad || refused.iter().any(|r| *r);
        if out.ok() == fail {
            return c.violation(ctx(format!("tstrip {}", if fail { "succeeds" } else { "fails" })));
        }
        for ((o, f), refused) in v.iter().zip(&files).zip(&refused) {
            let got = fs::read(dir.join(f)).unwrap_or_default();
            if *refused {
                if got != o.encode() {
                    return c.violation(ctx(format!("{f} was refused and changed nevertheless")));
                }
                c.count("refused without entry point", 1);
                continue;
            }
            let want = stripped(o, all);
            match parse(&got, true) {
                Err(e) => return c.violation(ctx(format!("{f} is no object any more: {e}"))),
                Ok(g) => {
                    if let Some(d) = strip_diff(&want, &g) {
                        return c.violation(ctx(format!("{f} after stripping: {d}")));
                    }
                }
            }
            if fs::metadata(dir.join(f)).map(|m| m.permissions().mode() & 0o777).unwrap_or(0) != mode {
                return c.violation(ctx(format!("the permissions of {f} changed")));
            }
            c.count(if all { "objects stripped of everything" } else { "objects stripped of local names" }, 1);
        }
        rounds -= 1;
    }
    c.nontrivial(link_hash(&v, &Opts::default()) ^ all as u64);
    c.sample("strip", || cmd.clone());
}

fn strip_and_link(c: &mut Case) {
    let mut s = shape(&mut c.rng);
    s.files = c.rng.range(1, 5);
    s.undefined = *c.rng.pick(&[0, 0, 20]);
    s.entries = 70;
    let v = gen_inputs(&mut c.rng, &s);
    let dir = c.dir();
    let mut o = Opts { align: rand_align(&mut c.rng), ..Default::default() };
    o.exe = reasons(&v, &Opts { exe: true, ..o.clone() }).is_empty() && c.rng.chance(2, 3);
    if !reasons(&v, &o).is_empty() {
        return;
    }
    let files = write_inputs(&dir, &v, "f");
    let run = |c: &mut Case, files: &[String], o: &Opts, out: &str| -> Option<Obj> {
        let (x, cmd) = link(c, &dir, files, o, &[], out);
        match (x.ok(), read_out(&dir, out)) {
            (true, Ok(g)) => Some(g),
            (_, e) => {
                c.violation(format!("{cmd} fails: {e:?}\n{}\n{}", x.show(), show_inputs(&v)));
                None
            }
        }
    };
    // after linking
    let Some(plain) = run(c, &files, &o, "plain.to") else { return };
    let Some(erased) = run(c, &files, &Opts { strip: true, ..o.clone() }, "erased.to") else { return };
    let strip = |c: &mut Case, args: &[&str]| -> bool {
        c.eval(1);
        let out = c.run.tool("tstrip", &dir).args(args).run();
        if !out.ok() {
            c.violation(format!("tstrip {} fails\n{}", args.join(" "), out.show()));
        }
        out.ok()
    };
    fs::copy(dir.join("plain.to"), dir.join("p2.to")).expect("scratch");
    if !strip(c, &["p2.to"]) {
        return;
    }
    let p2 = match read_out(&dir, "p2.to") {
        Ok(x) => x,
        Err(e) => return c.violation(format!("after stripping the linked object: {e}")),
    };
    if let Some(d) = strip_diff(&p2, &erased) {
        return c.violation(format!("linking with internal symbols erased is not stripping after linking: {d}\n{}", show_inputs(&v)));
    }
    if let Some(d) = strip_diff(&stripped(&plain, false), &p2) {
        return c.violation(format!("stripping the linked object: {d}\n{}", show_inputs(&v)));
    }
    // before linking: a random selection of the inputs
    let mut cp = Vec::new();
    for (i, f) in files.iter().enumerate() {
        let n = format!("s{i}.to");
        fs::copy(dir.join(f), dir.join(&n)).expect("scratch");
        if c.rng.chance(2, 3) && !strip(c, &[&n]) {
            return;
        }
        cp.push(n);
    }
    let Some(after) = run(c, &cp, &o, "after.to") else { return };
    // local names may be missing, nothing else
    if let Some(d) = strip_diff(&stripped(&plain, false), &stripped(&after, false)) {
        return c.violation(format!("stripped inputs link differently: {d}\n{}", show_inputs(&v)));
    }
    c.nontrivial(link_hash(&v, &o));
    c.count("links of stripped objects compared", 1);
    if o.exe && plain.entry.is_some() {
        fs::copy(dir.join("plain.to"), dir.join("all.to")).expect("scratch");
        if !strip(c, &["-a", "all.to"]) {
            return;
        }
        match read_out(&dir, "all.to") {
            Ok(g) => {
                if let Some(d) = strip_diff(&stripped(&plain, true), &g) {
                    return c.violation(format!("stripping everything from an executable: {d}"));
                }
                c.count("executables stripped of everything", 1);
            }
            Err(e) => c.violation(format!("after stripping everything: {e}")),
        }
    }
}

pub fn c29(run: &Run) {
    run.cases("strip", run.n(2000, 40_000), strip_files);
    run.cases("strip and link", run.n(800, 15_000), strip_and_link);
    crate::chk_run::strip_and_run(run);
}
