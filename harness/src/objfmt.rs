//! Own reader and writer of the object format, written from the format description.

pub const MAGIC: &[u8] = "álvur2\n".as_bytes();
pub const SAVN: &[u8] = "álvasavn\n".as_bytes();

pub const ZERO: u8 = 0;
pub const DATA: u8 = 0x10;
pub const RODATA: u8 = 0x18;
pub const TEXT: u8 = 0x20;
pub const HEAP: u8 = 0x70;
pub const UNKNOWN: u8 = 0xff;
pub const SEGS: [u8; 6] = [ZERO, DATA, RODATA, TEXT, HEAP, UNKNOWN];

pub fn seg_name(t: u8) -> &'static str {
    match t {
        ZERO => "zero",
        DATA => "data",
        RODATA => "rodata",
        TEXT => "text",
        HEAP => "heap",
        _ => "unknown",
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Default, Hash, PartialOrd, Ord)]
pub struct Sym {
    pub name: String,
    pub global: bool,
    pub seg: u8,
    pub loc: u16,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct Obj {
    pub preamble: Vec<u8>,
    pub entry: Option<(u8, u16)>,
    /// Some(readable text)
    pub flags: Option<bool>,
    pub stack: Option<u16>,
    pub heap: Option<u16>,
    /// type, start, bytes
    pub segs: Vec<(u8, u16, Vec<u8>)>,
    pub syms: Vec<Sym>,
    /// segment, location in it, symbol
    pub relocs: Vec<(u8, u16, u16)>,
}

impl Obj {
    pub fn seg(&self, t: u8) -> Option<&(u8, u16, Vec<u8>)> {
        self.segs.iter().find(|s| s.0 == t)
    }
    pub fn sections(&self) -> Vec<(&'static str, Vec<u8>)> {
        let mut v: Vec<(&'static str, Vec<u8>)> = Vec::new();
        if let Some((s, l)) = self.entry {
            v.push(("_entry", [&[s][..], &l.to_le_bytes()].concat()));
        }
        if let Some(f) = self.flags {
            v.push(("_flags", if f { b"R".to_vec() } else { vec![] }));
        }
        if let Some(s) = self.stack {
            v.push(("_stack_size", s.to_le_bytes().to_vec()));
        }
        if let Some(s) = self.heap {
            v.push(("_heap_size", s.to_le_bytes().to_vec()));
        }
        for (t, o, b) in &self.segs {
            v.push(("_seg", [&o.to_le_bytes()[..], &[*t], b].concat()));
        }
        if !self.syms.is_empty() {
            let mut b = Vec::new();
            for s in &self.syms {
                if !s.global {
                    b.push(b' ');
                }
                b.extend(s.name.as_bytes());
                b.push(0);
                b.push(s.seg);
                b.extend(s.loc.to_le_bytes());
            }
            v.push(("_syms", b));
        }
        if !self.relocs.is_empty() {
            let mut b = Vec::new();
            for &(s, l, y) in &self.relocs {
                b.push(s);
                b.extend(l.to_le_bytes());
                b.extend(y.to_le_bytes());
            }
            v.push(("_reloc", b));
        }
        v
    }
    pub fn encode(&self) -> Vec<u8> {
        encode_sections(&self.preamble, &self.sections())
    }
}

pub fn encode_sections<S: AsRef<str>>(preamble: &[u8], s: &[(S, Vec<u8>)]) -> Vec<u8> {
    let mut o = preamble.to_vec();
    o.extend(MAGIC);
    for (n, b) in s {
        o.extend(n.as_ref().as_bytes());
        o.push(0);
        o.extend((b.len() as u16).to_le_bytes());
        o.extend(b);
    }
    o.push(0);
    o
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

/// The raw sections of a file: (preamble length, sections, end of the object in the file)
pub fn raw_sections(b: &[u8]) -> Result<(usize, Vec<(Vec<u8>, Vec<u8>)>, usize), String> {
    let start = find(b, MAGIC).ok_or("no magic")?;
    let mut i = start + MAGIC.len();
    let mut v = Vec::new();
    loop {
        let n = b[i..].iter().position(|x| *x == 0).ok_or("section name without end")?;
        let name = b[i..i + n].to_vec();
        i += n + 1;
        if n == 0 {
            return Ok((start, v, i));
        }
        if i + 2 > b.len() {
            return Err("section length cut off".into());
        }
        let len = u16::from_le_bytes([b[i], b[i + 1]]) as usize;
        i += 2;
        if i + len > b.len() {
            return Err("section contents cut off".into());
        }
        v.push((name, b[i..i + len].to_vec()));
        i += len;
    }
}

fn u16at(b: &[u8], i: usize) -> u16 {
    u16::from_le_bytes([b[i], b[i + 1]])
}

fn known_seg(t: u8) -> Result<u8, String> {
    if SEGS.contains(&t) {
        Ok(t)
    } else {
        Err(format!("unknown segment type {t:#x}"))
    }
}

/// Strict reading of one object; `whole`: nothing may follow it
pub fn parse(b: &[u8], whole: bool) -> Result<Obj, String> {
    let (start, secs, end) = raw_sections(b)?;
    if whole && end != b.len() {
        return Err(format!("{} bytes after the end of the object", b.len() - end));
    }
    let mut o = Obj { preamble: b[..start].to_vec(), ..Default::default() };
    let mut seen: Vec<&[u8]> = Vec::new();
    for (n, c) in &secs {
        if n != b"_seg" && n.starts_with(b"_") {
            if seen.contains(&&n[..]) {
                return Err(format!("section {} twice", String::from_utf8_lossy(n)));
            }
            seen.push(n);
        }
        let exact = |k: usize| {
            if c.len() == k {
                Ok(())
            } else if c.len() < k {
                Err(format!("section {} cut off", String::from_utf8_lossy(n)))
            } else {
                Err(format!("section {} of {} bytes", String::from_utf8_lossy(n), c.len()))
            }
        };
        match &n[..] {
            b"_entry" => {
                exact(3)?;
                o.entry = Some((known_seg(c[0])?, u16at(c, 1)));
            }
            b"_flags" => {
                if c.iter().any(|f| *f != b'R') {
                    return Err("unknown flag".into());
                }
                o.flags = Some(!c.is_empty());
            }
            b"_stack_size" => {
                exact(2)?;
                o.stack = Some(u16at(c, 0));
            }
            b"_heap_size" => {
                exact(2)?;
                o.heap = Some(u16at(c, 0));
            }
            b"_seg" => {
                if c.len() < 3 {
                    return Err("segment cut off".into());
                }
                let t = known_seg(c[2])?;
                if o.seg(t).is_some() {
                    return Err(format!("two {} segments", seg_name(t)));
                }
                o.segs.push((t, u16at(c, 0), c[3..].to_vec()));
            }
            b"_syms" => {
                let mut i = 0;
                while i < c.len() {
                    let n = c[i..].iter().position(|x| *x == 0).ok_or("symbol name without end")?;
                    let name = &c[i..i + n];
                    i += n + 1;
                    if i + 3 > c.len() {
                        return Err("symbol cut off".into());
                    }
                    let global = name.first() != Some(&b' ');
                    let name = String::from_utf8(name[!global as usize..].to_vec()).map_err(|e| e.to_string())?;
                    o.syms.push(Sym { name, global, seg: known_seg(c[i])?, loc: u16at(c, i + 1) });
                    i += 3;
                }
            }
            b"_reloc" => {
                if c.len() % 5 != 0 {
                    return Err("relocation cut off".into());
                }
                for r in c.chunks(5) {
                    o.relocs.push((known_seg(r[0])?, u16at(r, 1), u16at(r, 3)));
                }
            }
            n if n.starts_with(b"_") => return Err(format!("reserved section {}", String::from_utf8_lossy(n))),
            _ => (),
        }
    }
    Ok(o)
}

/// The members of an archive
pub fn parse_archive(b: &[u8]) -> Result<Vec<Obj>, String> {
    let mut rest = b.strip_prefix(SAVN).ok_or("no archive magic")?;
    let mut v = Vec::new();
    while !rest.is_empty() {
        let (_, _, end) = raw_sections(rest)?;
        v.push(parse(&rest[..end], true)?);
        rest = &rest[end..];
    }
    Ok(v)
}

pub fn encode_archive(m: &[Obj]) -> Vec<u8> {
    let mut b = SAVN.to_vec();
    for o in m {
        b.extend(o.encode());
    }
    b
}
