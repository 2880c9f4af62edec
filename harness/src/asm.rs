//! Source text generation and an independent model of the assembler.

use std::collections::{BTreeMap, BTreeSet};

use crate::{
    objfmt::{Obj, DATA, HEAP, RODATA, TEXT, UNKNOWN},
    rng::Rng,
    spec::{byte_reg_name, wide_reg_name},
};

/// Operands in the order of the source text
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum O {
    /// byte register, wide register
    B,
    W,
    /// byte immediate, wide immediate
    Ib,
    Iw,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Enc {
    /// opcode, registers in order, immediate
    Plain,
    /// load immediate wide: the second register is zero
    LdiW,
    /// jump to an immediate: registers zero and one
    JmpImm,
    /// jump to a register: that register and one, immediate zero
    JmpReg,
    /// return without operand: immediate zero
    Ret0,
}

pub struct Form {
    pub names: &'static [&'static str],
    pub ops: &'static [O],
    pub code: u8,
    pub enc: Enc,
}

const fn f(names: &'static [&'static str], ops: &'static [O], code: u8) -> Form {
    Form { names, ops, code, enc: Enc::Plain }
}
use O::*;
pub const FORMS: &[Form] = &[
    f(&["null"], &[], 0x00),
    f(&["halt"], &[], 0x0a),
    f(&["ctf"], &[], 0x0b),
    f(&["syscall"], &[], 0x0c),
    f(&["reth"], &[], 0x0d),
    f(&["nop"], &[], 0x20),
    f(&["push"], &[B], 0x21),
    f(&["push"], &[W], 0x22),
    f(&["pop"], &[B], 0x23),
    f(&["pop"], &[W], 0x24),
    f(&["call"], &[Iw], 0x25),
    f(&["ret"], &[Ib], 0x26),
    Form { names: &["ret"], ops: &[], code: 0x26, enc: Enc::Ret0 },
    f(&["store", "str"], &[W, Iw, B], 0x27),
    f(&["store", "str"], &[W, Iw, W], 0x28),
    f(&["store", "str"], &[W, W, B], 0x29),
    f(&["store", "str"], &[W, W, W], 0x2a),
    f(&["load"], &[B, W, Iw], 0x2b),
    f(&["load"], &[W, W, Iw], 0x2c),
    f(&["load"], &[B, W, W], 0x2d),
    f(&["load"], &[W, W, W], 0x2e),
    f(&["jez"], &[Iw], 0x2f),
    f(&["jlt"], &[Iw], 0x30),
    f(&["jle"], &[Iw], 0x31),
    f(&["jgt"], &[Iw], 0x32),
    f(&["jge"], &[Iw], 0x33),
    f(&["jnz", "jne"], &[Iw], 0x34),
    f(&["jo"], &[Iw], 0x35),
    f(&["jno"], &[Iw], 0x36),
    f(&["ja"], &[Iw], 0x37),
    f(&["jae", "jnc"], &[Iw], 0x38),
    f(&["jb", "jc"], &[Iw], 0x39),
    f(&["jbe"], &[Iw], 0x3a),
    f(&["ldi"], &[B, Ib], 0x3f),
    Form { names: &["ldi"], ops: &[W, Iw], code: 0x40, enc: Enc::LdiW },
    Form { names: &["jmp", "jump"], ops: &[Iw], code: 0x40, enc: Enc::JmpImm },
    Form { names: &["jmp", "jump"], ops: &[W], code: 0x40, enc: Enc::JmpReg },
    f(&["add"], &[B, B, B], 0x41),
    f(&["add"], &[W, W, W], 0x42),
    f(&["sub"], &[B, B, B], 0x43),
    f(&["sub"], &[W, W, W], 0x44),
    f(&["and"], &[B, B, B], 0x45),
    f(&["and"], &[W, W, W], 0x46),
    f(&["or"], &[B, B, B], 0x47),
    f(&["or"], &[W, W, W], 0x48),
    f(&["xor"], &[B, B, B], 0x49),
    f(&["xor"], &[W, W, W], 0x4a),
    f(&["shl"], &[B, B, B], 0x4b),
    f(&["shl"], &[W, W, W], 0x4c),
    f(&["asr"], &[B, B, B], 0x4d),
    f(&["asr"], &[W, W, W], 0x4e),
    f(&["lsr"], &[B, B, B], 0x4f),
    f(&["lsr"], &[W, W, W], 0x50),
    f(&["div"], &[B, B, B, B], 0x51),
    f(&["div"], &[W, W, W, W], 0x52),
    f(&["mul"], &[B, B, B, B], 0x53),
    f(&["mul"], &[W, W, W, W], 0x54),
];

pub fn form(name: &str, ops: &[O]) -> &'static Form {
    FORMS
        .iter()
        .find(|f| f.names.contains(&name) && f.ops == ops)
        .unwrap_or_else(|| panic!("no form {name} {ops:?}"))
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Imm {
    No,
    Num(u16),
    Label(String),
}

#[derive(Clone)]
pub struct Ins {
    pub form: &'static Form,
    pub regs: Vec<u8>,
    pub imm: Imm,
}

impl Form {
    pub fn nregs(&self) -> usize {
        self.ops.iter().filter(|o| matches!(o, B | W)).count()
    }
    pub fn imm(&self) -> Option<O> {
        self.ops.iter().copied().find(|o| matches!(o, Ib | Iw))
    }
}

impl Ins {
    pub fn new(name: &str, ops: &[O], regs: &[u8], imm: Imm) -> Ins {
        let form = form(name, ops);
        assert_eq!(form.nregs(), regs.len());
        Ins { form, regs: regs.into(), imm }
    }
    /// The bytes, and where in them the address of the label goes
    pub fn encode(&self) -> (Vec<u8>, Option<(usize, String)>) {
        let mut regs = self.regs.clone();
        let mut wide = self.form.imm() == Some(Iw);
        let mut byte = self.form.imm() == Some(Ib);
        match self.form.enc {
            Enc::Plain => (),
            Enc::LdiW => regs.push(0),
            Enc::JmpImm => regs.extend([0, 1]),
            Enc::JmpReg => {
                regs.push(1);
                wide = true;
            }
            Enc::Ret0 => byte = true,
        }
        let mut b = vec![self.form.code];
        for p in regs.chunks(2) {
            b.push(p[0] << 4 | p.get(1).copied().unwrap_or(0));
        }
        let mut label = None;
        let v = match &self.imm {
            Imm::No => 0,
            Imm::Num(n) => *n,
            Imm::Label(l) => {
                label = Some((b.len(), l.clone()));
                0
            }
        };
        if byte {
            b.push(v as u8);
        } else if wide {
            b.extend(v.to_le_bytes());
        }
        (b, label)
    }
    pub fn len(&self) -> usize {
        self.encode().0.len()
    }
    /// Operand texts in order
    pub fn operand_texts(&self, sp: &mut Speller) -> Vec<String> {
        let mut r = self.regs.iter();
        self.form
            .ops
            .iter()
            .map(|o| match o {
                B => byte_reg_name(*r.next().unwrap()),
                W => wide_reg_name(*r.next().unwrap()),
                Ib | Iw => match &self.imm {
                    Imm::No => unreachable!(),
                    Imm::Num(n) if *o == Ib => sp.byte(*n as u8, false),
                    Imm::Num(n) => sp.wide(*n),
                    Imm::Label(l) => l.clone(),
                },
            })
            .collect()
    }
    pub fn text(&self, sp: &mut Speller) -> String {
        let name = *sp.rng.pick(self.form.names);
        let ops = self.operand_texts(sp);
        sp.line(name, &ops)
    }
    pub fn show(&self) -> String {
        self.text(&mut Speller::plain())
    }
}

pub fn rand_ins(rng: &mut Rng, form: &'static Form, labels: &[String], label_p: usize) -> Ins {
    let regs = form
        .ops
        .iter()
        .filter(|o| matches!(o, B | W))
        .map(|_| {
            let r = rng.below(16) as u8;
            if form.enc == Enc::JmpReg && r == 0 {
                1 + rng.below(15) as u8
            } else {
                r
            }
        })
        .collect();
    let imm = match form.imm() {
        None => Imm::No,
        Some(Ib) => Imm::Num(rng.corner8() as u16),
        _ if !labels.is_empty() && rng.chance(label_p, 100) => Imm::Label(rng.pick(labels).clone()),
        _ => Imm::Num(rng.corner16()),
    };
    Ins { form, regs, imm }
}

/// Chooses among the spellings of the same thing
pub struct Speller {
    pub rng: Rng,
    /// always the simplest spelling
    pub plain: bool,
}

impl Speller {
    pub fn new(rng: Rng) -> Self {
        Speller { rng, plain: false }
    }
    pub fn plain() -> Self {
        Speller { rng: Rng::new(1), plain: true }
    }
    fn hex(&mut self, v: u64) -> String {
        let s = match self.rng.below(3) {
            0 => format!("{v:x}"),
            1 => format!("{v:04X}"),
            _ => format!("{v:03x}"),
        };
        // a final lower-case b is the byte suffix (known finding, probed separately)
        match s.strip_suffix('b') {
            Some(p) => format!("{p}B"),
            None => s,
        }
    }
    /// A number without suffix whose value modulo 2^bits is v
    fn number(&mut self, v: u16, bits: u32) -> String {
        let m = 1i64 << bits;
        let mut n = v as i64;
        match self.rng.below(6) {
            0 => n -= m,
            1 => n += m * self.rng.below((i32::MAX as i64 / m - 1) as usize) as i64,
            2 => n -= m * self.rng.below((i32::MAX as i64 / m) as usize) as i64,
            _ => (),
        }
        if n < 0 {
            let a = n.unsigned_abs();
            return match self.rng.below(6) {
                0 => format!("0x-{}", self.hex(a)),
                1 => format!("0b-{a:b}"),
                2 => format!("0o-{a:o}"),
                _ => format!("{n}"),
            };
        }
        match self.rng.below(6) {
            0 | 1 => format!("0x{}", self.hex(n as u64)),
            2 => format!("0b{n:b}"),
            3 => format!("0o{n:o}"),
            _ => format!("{}{n}", self.rng.pick(&["", "", "", "+", "0", "00"])),
        }
    }
    pub fn wide(&mut self, v: u16) -> String {
        if self.plain {
            return format!("{v}");
        }
        match self.rng.below(8) {
            0 => format!("{v}w"),
            1 => match (v as i16, self.rng.below(3)) {
                (n, 0) if n < 0 => match self.rng.below(3) {
                    0 => format!("0x-{:x}w", n.unsigned_abs()),
                    1 => format!("0b-{:b}w", n.unsigned_abs()),
                    _ => format!("0o-{:o}w", n.unsigned_abs()),
                },
                (n, _) => format!("{n}w"),
            },
            2 => format!("0x{}w", self.hex(v as u64)),
            3 => match self.rng.below(3) {
                0 => format!("0b{v:b}w"),
                1 => format!("0o{v:o}w"),
                _ => format!("+{v}w"),
            },
            _ => self.number(v, 16),
        }
    }
    pub fn byte(&mut self, v: u8, comma_ok: bool) -> String {
        if self.plain {
            return format!("{v}");
        }
        match self.rng.below(10) {
            // "0b" alone starts a binary number
            0 if v != 0 => format!("{v}b"),
            1 if v != 0 => match (v as i8, self.rng.below(3)) {
                (n, 0) if n < 0 => match self.rng.below(3) {
                    0 => format!("0x-{:x}b", n.unsigned_abs()),
                    1 => format!("0b-{:b}b", n.unsigned_abs()),
                    _ => format!("0o-{:o}b", n.unsigned_abs()),
                },
                (n, _) => format!("{n}b"),
            },
            2 => format!("0x{v:x}b"),
            3 => match self.rng.below(3) {
                0 => format!("0b{v:b}b"),
                1 => format!("0o{v:o}b"),
                _ => format!("+{v}b"),
            },
            4..=6 => self.chr(v, comma_ok),
            _ => self.number(v as u16, 8),
        }
    }
    pub fn chr(&mut self, v: u8, comma_ok: bool) -> String {
        let esc = match v {
            b'\r' => "\\r".into(),
            b'\t' => "\\t".into(),
            b'\n' => "\\n".into(),
            0 => "\\0".into(),
            b'\\' => "\\\\".into(),
            b'\'' => "\\'".into(),
            b'"' => "\\\"".into(),
            v if self.rng.bool() => format!("\\x{v:02x}"),
            v => format!("\\x{v:02X}"),
        };
        let raw = (0x20..0x7f).contains(&v) && v != b'\\' && v != b'\'' && (comma_ok || v != b',');
        if raw && self.rng.chance(3, 4) {
            format!("'{}'", v as char)
        } else if self.rng.chance(1, 4) {
            format!("'\\x{v:02x}'")
        } else {
            format!("'{esc}'")
        }
    }
    /// The argument of .string for these bytes; trailing blanks are escaped
    pub fn string(&mut self, b: &[u8]) -> String {
        let mut o = String::new();
        let n = b.len();
        let mut i = 0;
        while i < n {
            // raw UTF-8 where the bytes happen to be some
            if b[i] >= 0x80 {
                let s = &b[i..n.min(i + 4)];
                let ok = match std::str::from_utf8(s) {
                    Ok(s) => s,
                    Err(e) => std::str::from_utf8(&s[..e.valid_up_to()]).unwrap(),
                };
                if let Some(c) = ok.chars().next() {
                    if !c.is_whitespace() && self.rng.chance(3, 4) {
                        o.push(c);
                        i += c.len_utf8();
                        continue;
                    }
                }
            }
            let v = b[i];
            let plain = (0x21..0x7f).contains(&v) && v != b'\\' || v == b' ' && i + 1 < n && (i > 0 || self.rng.bool());
            if plain && !(v == b'\'' || v == b'"') || (plain && self.rng.bool()) {
                o.push(v as char);
            } else {
                match v {
                    b'\n' => o += "\\n",
                    b'\t' => o += "\\t",
                    b'\r' => o += "\\r",
                    0 if self.rng.bool() => o += "\\0",
                    b'\\' => o += "\\\\",
                    b'\'' => o += "\\'",
                    b'"' => o += "\\\"",
                    v if self.rng.bool() => o += &format!("\\x{v:02x}"),
                    v => o += &format!("\\x{v:02X}"),
                }
            }
            i += 1;
        }
        o
    }
    fn blanks(&mut self, s: &'static [&'static str]) -> &'static str {
        if self.plain {
            ""
        } else {
            self.rng.pick(s)
        }
    }
    pub fn line(&mut self, name: &str, ops: &[String]) -> String {
        let mut o = String::from(self.blanks(&["", "", "    ", "\t", "\t  "]));
        o += name;
        if !ops.is_empty() {
            o.push(' ');
            o += self.blanks(&["", "", " ", "\t", "   "]);
            for (i, p) in ops.iter().enumerate() {
                if i > 0 {
                    o += self.blanks(&["", "", "", " ", "\t"]);
                    o.push(',');
                    o += if self.plain { " " } else { self.blanks(&["", " ", " ", "\t", "  "]) };
                }
                o += p;
            }
        }
        o += self.blanks(&["", "", "", " ", "\t", "\r"]);
        o
    }
    pub fn comment(&mut self) -> String {
        let c = *self.rng.pick(&["", "   ", "; a comment", "// jmp nowhere", "# .seg bogus", "\t;x:", "//", "  # add r1", ";\u{e9}"]);
        c.into()
    }
}

#[derive(Clone)]
pub enum It {
    Seg(u8),
    Label(String),
    Entry,
    Global(String),
    Ref(String),
    /// index of the file and how it is written
    Include(usize, String),
    Bytes(Vec<u8>),
    Byte(u8),
    Wide(u16),
    WideLabel(String),
    Ins(Ins),
    Blank,
    /// text that is to be written exactly so (invalid lines)
    Raw(String),
}

#[derive(Clone, Default)]
pub struct Src {
    /// path relative to the directory the assembler is run in
    pub path: String,
    pub items: Vec<It>,
}

pub fn seg_word(s: u8) -> &'static str {
    match s {
        DATA => "data",
        RODATA => "rodata",
        TEXT => "text",
        HEAP => "heap",
        _ => panic!("segment {s}"),
    }
}

impl It {
    pub fn text(&self, sp: &mut Speller) -> String {
        let d = |sp: &mut Speller, names: &'static [&'static str], arg: &str| {
            let n = if sp.plain { names[0] } else { *sp.rng.pick(names) };
            let lead = sp.blanks(&["", "", "  ", "\t"]);
            let gap = sp.blanks(&["", "", "", " "]);
            let trail = sp.blanks(&["", "", " ", "\t"]);
            format!("{lead}{n} {gap}{arg}{trail}")
        };
        match self {
            It::Seg(s) => d(sp, &[".seg"], seg_word(*s)),
            It::Label(l) => format!("{}{l}:{}", sp.blanks(&["", "", " ", "\t"]), sp.blanks(&["", "", " "])),
            It::Entry => format!("{}.entry{}", sp.blanks(&["", " ", "\t"]), sp.blanks(&["", " "])),
            It::Global(l) => d(sp, &[".global", ".globl"], l),
            It::Ref(l) => d(sp, &[".ref", ".reference"], l),
            It::Include(_, p) => d(sp, &[".include"], p),
            It::Bytes(b) => {
                let s = sp.string(b);
                format!("{}.string {s}", sp.blanks(&["", "", " ", "\t"]))
            }
            It::Byte(b) => {
                let s = sp.byte(*b, true);
                d(sp, &[".byte"], &s)
            }
            It::Wide(w) => {
                let s = sp.wide(*w);
                d(sp, &[".wide", ".word"], &s)
            }
            It::WideLabel(l) => d(sp, &[".wide", ".word"], l),
            It::Ins(i) => i.text(sp),
            It::Blank => sp.comment(),
            It::Raw(s) => s.clone(),
        }
    }
}

impl Src {
    /// One line per item
    pub fn text(&self, sp: &mut Speller) -> String {
        let mut o = String::new();
        for (i, it) in self.items.iter().enumerate() {
            o += &it.text(sp);
            if i + 1 < self.items.len() || sp.plain || sp.rng.chance(3, 4) {
                o.push('\n');
            }
        }
        o
    }
}

/// What an object must be, relative to the segment starts
#[derive(Default, Clone, Debug)]
pub struct Model {
    pub segs: BTreeMap<u8, Vec<u8>>,
    /// label: segment and offset
    pub defs: BTreeMap<String, (u8, usize)>,
    pub globals: BTreeSet<String>,
    pub refs: BTreeSet<String>,
    pub used: BTreeSet<String>,
    /// segment, offset, label
    pub relocs: Vec<(u8, usize, String)>,
    pub entry: Option<(u8, usize)>,
}

impl Model {
    pub fn assemble(files: &[Src], root: usize) -> Model {
        let mut m = Model::default();
        m.file(files, root);
        m
    }
    fn file(&mut self, files: &[Src], i: usize) {
        let mut seg = UNKNOWN;
        for it in &files[i].items {
            match it {
                It::Seg(s) => seg = *s,
                It::Label(l) => {
                    let o = self.segs.get(&seg).map_or(0, |b| b.len());
                    self.defs.insert(l.clone(), (seg, o));
                }
                It::Entry => self.entry = Some((seg, self.segs.get(&seg).map_or(0, |b| b.len()))),
                It::Global(l) => {
                    self.globals.insert(l.clone());
                }
                It::Ref(l) => {
                    self.refs.insert(l.clone());
                }
                It::Include(f, _) => self.file(files, *f),
                It::Bytes(b) => self.put(seg, b),
                It::Byte(b) => self.put(seg, &[*b]),
                It::Wide(w) => self.put(seg, &w.to_le_bytes()),
                It::WideLabel(l) => {
                    self.reloc(seg, 0, l);
                    self.put(seg, &[0, 0]);
                }
                It::Ins(i) => {
                    let (b, l) = i.encode();
                    if let Some((o, l)) = l {
                        self.reloc(seg, o, &l);
                    }
                    self.put(seg, &b);
                }
                It::Blank | It::Raw(_) => (),
            }
        }
    }
    fn put(&mut self, seg: u8, b: &[u8]) {
        self.segs.entry(seg).or_default().extend(b);
    }
    fn reloc(&mut self, seg: u8, o: usize, l: &str) {
        let at = self.segs.get(&seg).map_or(0, |b| b.len()) + o;
        self.used.insert(l.into());
        self.relocs.push((seg, at, l.into()));
    }
    /// Space the segments need with a page of padding each
    pub fn footprint(&self) -> usize {
        self.segs.values().map(|b| b.len() + 128).sum::<usize>() + 128
    }

    /// Compare an object written by the assembler with the model
    pub fn check(&self, o: &Obj) -> Result<(), String> {
        let mut starts = BTreeMap::new();
        let mut spans: Vec<(usize, usize, u8)> = Vec::new();
        for (t, s, b) in &o.segs {
            starts.insert(*t, *s as usize);
            if b.is_empty() {
                continue;
            }
            if !self.segs.contains_key(t) {
                return Err(format!("segment {t:#x} that is not in the source"));
            }
            if *s < 0x80 || s % 0x80 != 0 {
                return Err(format!("segment {t:#x} starts at {s:#x}"));
            }
            spans.push((*s as usize, *s as usize + b.len(), *t));
        }
        spans.sort();
        for w in spans.windows(2) {
            if w[0].1 > w[1].0 {
                return Err(format!("segments overlap: {w:x?}"));
            }
        }
        if spans.last().is_some_and(|s| s.1 > 0x10000) {
            return Err("segments beyond the address space".into());
        }
        let addr = |(s, off): (u8, usize)| starts.get(&s).map(|b| (b + off) as u16);
        // contents
        for (t, b) in &self.segs {
            let Some((_, _, got)) = o.seg(*t) else {
                if b.is_empty() {
                    continue;
                }
                return Err(format!("segment {t:#x} missing"));
            };
            let mut want = b.clone();
            let mut got = got.clone();
            for (s, off, l) in &self.relocs {
                if s == t {
                    let a = match self.defs.get(l) {
                        Some(d) => addr(*d).ok_or("label in a missing segment")?,
                        // an undefined reference may hold anything
                        None if off + 2 <= got.len() => {
                            got[*off] = 0;
                            got[*off + 1] = 0;
                            0
                        }
                        None => 0,
                    };
                    want[*off..off + 2].copy_from_slice(&a.to_le_bytes());
                }
            }
            if got != want {
                let i = (0..).find(|i| got.get(*i) != want.get(*i)).unwrap();
                return Err(format!(
                    "segment {t:#x}: {} bytes instead of {}, first difference at offset {i:#x}: {:02x?} instead of {:02x?}",
                    got.len(),
                    want.len(),
                    &got[i.min(got.len())..got.len().min(i + 8)],
                    &want[i.min(want.len())..want.len().min(i + 8)]
                ));
            }
        }
        // symbols
        let mut seen = BTreeSet::new();
        for s in &o.syms {
            if !seen.insert(s.name.clone()) {
                return Err(format!("symbol {} twice", s.name));
            }
            match self.defs.get(&s.name) {
                Some(d) => {
                    let a = addr(*d).ok_or("label in a missing segment")?;
                    let g = self.globals.contains(&s.name);
                    if (s.seg, s.loc, s.global) != (d.0, a, g) {
                        return Err(format!("symbol {s:x?} instead of segment {:#x} address {a:#x} global {g}", d.0));
                    }
                }
                None => {
                    let declared = self.globals.contains(&s.name) || self.refs.contains(&s.name);
                    if !declared {
                        return Err(format!("symbol {s:x?} is not in the source"));
                    }
                    if s.seg != UNKNOWN || !s.global {
                        return Err(format!("undefined reference {s:x?} not marked as one"));
                    }
                }
            }
        }
        for l in self.defs.keys().chain(&self.used) {
            if !seen.contains(l) {
                return Err(format!("label {l} is no symbol"));
            }
        }
        // relocations
        let mut want: Vec<(u8, usize, &str)> = self.relocs.iter().map(|(s, o, l)| (*s, *o, l.as_str())).collect();
        let mut got = Vec::new();
        for (s, l, y) in &o.relocs {
            let base = *starts.get(s).ok_or(format!("relocation in segment {s:#x}, which does not exist"))?;
            let y = o.syms.get(*y as usize).ok_or(format!("relocation of symbol {y}, which does not exist"))?;
            got.push((*s, (*l as usize).wrapping_sub(base), y.name.as_str()));
        }
        want.sort();
        got.sort();
        if want != got {
            let w = want.iter().find(|w| !got.contains(w));
            let g = got.iter().find(|g| !want.contains(g));
            return Err(format!("relocations (segment, offset, label): missing {w:x?}, wrong {g:x?}, {} instead of {}", got.len(), want.len()));
        }
        // entry
        match (self.entry, o.entry) {
            (None, None) => (),
            (Some(e), Some(g)) => {
                let a = addr(e).ok_or("entry in a missing segment")?;
                if g != (e.0, a) {
                    return Err(format!("entry {g:x?} instead of {:x?}", (e.0, a)));
                }
            }
            (w, g) => return Err(format!("entry {g:x?} instead of {w:x?}")),
        }
        if o.flags == Some(true) || o.stack.is_some_and(|s| s != 0) || o.heap.is_some_and(|h| h != 0) {
            return Err(format!("flags {:?} stack {:?} heap {:?} from nowhere", o.flags, o.stack, o.heap));
        }
        Ok(())
    }
}

/// Names that are neither registers nor numbers
pub fn rand_name(rng: &mut Rng, taken: &mut BTreeSet<String>) -> String {
    const POOL: &[&str] = &[
        "a", "b", "w", "x", "loop", "main", "start", "_start", "add", "nop", "r11", "r0l", "r6l", "r1b", "data", "text",
        "é", "ñandú", "_", "__x", "a.b", "L1", "L10", "L100", "@x", "$v", "x-y", "end", "entry", "5x", "0xzz", "x'", "r",
        "ffw", "b0", "wb", "bw", "q?", "a:b", "<m>", "m+1", "\u{3bb}", "zz9", "print", "printx", "pri",
    ];
    loop {
        let n = if !taken.is_empty() && rng.chance(1, 8) {
            // almost a name there is already
            let of = rng.below(taken.len());
            let of = taken.iter().nth(of).unwrap().clone();
            match rng.below(8) {
                0 => of.to_uppercase(),
                1 => of.to_lowercase(),
                2 => format!("{of}{of}"),
                3 => format!("{of}{}", rng.pick(&["0", "_", ".", "b", "+1", "'", "@"])),
                4 => format!("{}{of}", rng.pick(&["_", "a", "x", "@", "%", "$", "&"])),
                5 => of.chars().skip(1).collect(),
                6 => of.chars().rev().skip(1).collect::<Vec<_>>().into_iter().rev().collect(),
                _ => of.chars().rev().collect(),
            }
        } else if rng.chance(1, 3) {
            rng.pick(POOL).to_string()
        } else {
            let mut s = String::new();
            let l = if rng.chance(1, 30) { rng.range(50, 300) } else { rng.range(1, 9) };
            for i in 0..l {
                let set: &[u8] = if i == 0 { b"abcdefghijklmnopqrstuvwxyz_ABCXYZ" } else { b"abcdefghijklmnopqrstuvwxyz_ABCXYZ0123456789." };
                s.push(*rng.pick(set) as char);
            }
            s
        };
        // a line that ends in a colon is a label, whatever its operands
        if !is_reserved(&n) && !n.ends_with(':') && n.len() <= 400 && taken.insert(n.clone()) {
            return n;
        }
    }
}

/// Would this operand be read as a register or a number?
pub fn is_reserved(s: &str) -> bool {
    for n in 0..16 {
        if s == byte_reg_name(n) || s == wide_reg_name(n) {
            return true;
        }
    }
    let (d, radix) = if let Some(d) = s.strip_prefix("0x") {
        (d, 16)
    } else if let Some(d) = s.strip_prefix("0b") {
        (d, 2)
    } else if let Some(d) = s.strip_prefix("0o") {
        (d, 8)
    } else {
        (s, 10)
    };
    let d = d.strip_prefix(['+', '-']).unwrap_or(d);
    let d2 = d.strip_suffix(['b', 'w']).unwrap_or(d);
    s.is_empty()
        || (!d.is_empty() && d.chars().all(|c| c.is_digit(radix)))
        || (!d2.is_empty() && d2.chars().all(|c| c.is_digit(radix)))
        || s.starts_with(['.', '\'', '#', ';', '+', '-'])
        || s.starts_with("//")
}

/// Generates whole sources
pub struct GenOpts {
    pub files: usize,
    pub items: usize,
    pub big: bool,
    pub undefined: bool,
    pub entry: bool,
}

/// How `to` is named in an include line of `from`
pub fn include_path(rng: &mut Rng, from: &str, to: &str) -> String {
    let depth = from.matches('/').count();
    match rng.below(4) {
        0 => format!("/{to}"),
        1 if depth == 0 => format!("./{to}"),
        _ => {
            let (fd, td) = (from.rsplit_once('/').map_or("", |x| x.0), to.rsplit_once('/').map_or("", |x| x.0));
            if fd == td && !fd.is_empty() && rng.bool() {
                to.rsplit_once('/').unwrap().1.into()
            } else {
                format!("{}{to}", "../".repeat(depth))
            }
        }
    }
}

pub fn rand_bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    match rng.below(4) {
        0 => (0..n).map(|_| rng.u8()).collect(),
        1 => {
            let mut v = Vec::new();
            while v.len() < n {
                let c = *rng.pick(&['a', ' ', 'ø', '\u{20ac}', '\u{1f600}', '\'', '"', '\\', ',', ';', ':', '#', '\n', '\0', 'x', '0']);
                v.extend(c.to_string().as_bytes());
            }
            v
        }
        _ => (0..n).map(|_| 0x20 + rng.below(0x5f) as u8).collect(),
    }
}

/// Valid sources: file 0 is the root
pub fn gen_sources(rng: &mut Rng, g: &GenOpts, prefix: &str) -> Vec<Src> {
    let mut taken = BTreeSet::new();
    let nf = rng.range(1, g.files);
    let ext = |rng: &mut Rng| *rng.pick(&["telda", "telda", "asm", "s", "v1.telda", "0.1", ""]);
    let dirs = ["", "", "lib/", "src/", "src/deep/"];
    let mut files: Vec<Src> = Vec::new();
    for i in 0..nf {
        let (d, e) = (*rng.pick(&dirs), ext(rng));
        files.push(Src { path: if e.is_empty() { format!("{d}{prefix}{i}") } else { format!("{d}{prefix}{i}.{e}") }, items: Vec::new() });
    }
    // files without labels may be included more than once
    let shared: Vec<bool> = (0..nf).map(|i| i > 0 && rng.chance(1, 4)).collect();
    let nlab = rng.range(0, 12);
    let labels: Vec<String> = (0..nlab).map(|_| rand_name(rng, &mut taken)).collect();
    let undef: Vec<String> = if g.undefined {
        (0..rng.below(4)).map(|_| rand_name(rng, &mut taken)).collect()
    } else {
        vec![]
    };
    let uses: Vec<String> = labels.iter().chain(&undef).cloned().collect();
    let mut todo: Vec<Vec<String>> = vec![Vec::new(); nf];
    for l in &labels {
        loop {
            let i = rng.below(nf);
            if !shared[i] {
                todo[i].push(l.clone());
                break;
            }
        }
    }
    let segs = [TEXT, DATA, RODATA, HEAP];
    for i in 0..nf {
        let n = rng.range(1, g.items);
        let mut items: Vec<It> = Vec::new();
        let mut seg = false;
        let mut empty_seg = false;
        let mut cur = UNKNOWN;
        let mut touched = BTreeSet::new();
        for _ in 0..n {
            if !seg {
                match rng.below(8) {
                    0 => {
                        items.push(It::Blank);
                        continue;
                    }
                    1 if !uses.is_empty() && !shared[i] => {
                        let l = rng.pick(&uses).clone();
                        items.push(if undef.contains(&l) && rng.bool() { It::Ref(l) } else { It::Global(l) });
                        continue;
                    }
                    _ => {
                        cur = *rng.pick(&segs);
                        items.push(It::Seg(cur));
                        seg = true;
                        empty_seg = !touched.contains(&cur);
                    }
                }
            }
            match rng.below(20) {
                0 => {
                    cur = *rng.pick(&segs);
                    items.push(It::Seg(cur));
                    empty_seg = !touched.contains(&cur);
                }
                1 => items.push(It::Blank),
                2 if !uses.is_empty() => {
                    let l = rng.pick(&uses).clone();
                    items.push(if undef.contains(&l) && rng.bool() { It::Ref(l) } else { It::Global(l) });
                }
                3 => {
                    let n = if g.big && rng.chance(1, 4) { rng.range(100, 6000) } else { rng.range(0, 12) };
                    let b = rand_bytes(rng, n);
                    empty_seg &= b.is_empty();
                    items.push(It::Bytes(b));
                }
                4 => {
                    items.push(It::Byte(rng.corner8()));
                    empty_seg = false;
                }
                5 => {
                    items.push(It::Wide(rng.corner16()));
                    empty_seg = false;
                }
                6 if !uses.is_empty() => {
                    items.push(It::WideLabel(rng.pick(&uses).clone()));
                    empty_seg = false;
                }
                7 | 8 | 9 if !todo[i].is_empty() => {
                    let l = todo[i].pop().unwrap();
                    items.push(It::Label(l));
                    // something follows every label
                    if empty_seg || rng.chance(2, 3) {
                        items.push(It::Ins(rand_ins(rng, &FORMS[0], &[], 0)));
                        empty_seg = false;
                    }
                }
                _ => {
                    let form = rng.pick(FORMS);
                    items.push(It::Ins(rand_ins(rng, form, &uses, 50)));
                    empty_seg = false;
                }
            }
            if !empty_seg {
                touched.insert(cur);
            }
        }
        // the rest of the labels, and one at the very end of the contents
        let rest: Vec<String> = todo[i].drain(..).collect();
        if !rest.is_empty() {
            items.push(It::Seg(TEXT));
            for l in rest {
                if rng.bool() {
                    items.push(It::Label(l));
                    items.push(It::Ins(rand_ins(rng, &FORMS[5], &[], 0)));
                } else {
                    items.push(It::Ins(rand_ins(rng, &FORMS[5], &[], 0)));
                    items.push(It::Label(l));
                }
            }
        }
        files[i].items = items;
    }
    // include each file from an earlier one, sometimes each from the one before
    let chain = rng.chance(1, 4);
    for i in 1..nf {
        let times = if shared[i] { rng.range(1, 3) } else { 1 };
        for _ in 0..times {
            // (a file that is included twice includes nothing that is not)
            let mut from = if chain { i - 1 } else { rng.below(i) };
            while shared[from] && !shared[i] {
                from = rng.below(i);
            }
            let p = include_path(rng, &files[from].path.clone(), &files[i].path.clone());
            let at = rng.range(0, files[from].items.len());
            files[from].items.insert(at, It::Include(i, p));
        }
    }
    // undefined labels are declared somewhere
    for l in undef {
        let i = loop {
            let i = rng.below(nf);
            if !shared[i] {
                break i;
            }
        };
        let at = rng.range(0, files[i].items.len());
        let it = if rng.bool() { It::Ref(l) } else { It::Global(l) };
        files[i].items.insert(at, it);
    }
    if g.entry {
        // before some item that has content
        let i = (0..nf).find(|i| !shared[*i]).unwrap();
        let cand: Vec<usize> = (0..files[i].items.len()).filter(|j| matches!(files[i].items[*j], It::Ins(_) | It::Byte(_) | It::Wide(_))).collect();
        if !cand.is_empty() {
            // or after it, possibly at the end of what the segment holds
            let at = *rng.pick(&cand) + rng.chance(1, 3) as usize;
            files[i].items.insert(at, It::Entry);
        }
    }
    files
}

pub fn write_sources(dir: &std::path::Path, files: &[Src], sp: &mut Speller) {
    for f in files {
        let t = f.text(sp);
        crate::tools::write(dir, &f.path, t);
    }
}
