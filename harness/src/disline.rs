//! Reading the lines a disassembler shows, without the assembler.

use crate::{
    asm::{Enc, Form, Imm, Ins, FORMS, O},
    spec::{byte_reg_name, wide_reg_name},
};

pub struct Line {
    pub addr: u16,
    pub bytes: Vec<u8>,
    pub op: String,
}

/// `addr: bytes  instruction`, the number of bytes known
pub fn parse_line(s: &str, n: usize) -> Option<Line> {
    let (a, rest) = s.trim().split_once(':')?;
    let addr = u16::from_str_radix(a.trim(), 16).ok()?;
    let mut rest = rest.trim_start();
    let mut bytes = Vec::new();
    for _ in 0..n {
        let (b, r) = rest.split_once(char::is_whitespace)?;
        if b.len() != 2 {
            return None;
        }
        bytes.push(u8::from_str_radix(b, 16).ok()?);
        rest = r.trim_start();
    }
    Some(Line { addr, bytes, op: rest.trim().into() })
}

/// The instruction a text names, read without the assembler; the immediate may be a label
pub fn parse_op(op: &str) -> Option<(String, Vec<String>)> {
    let op = op.trim();
    match op.split_once(char::is_whitespace) {
        None => Some((op.into(), vec![])),
        Some((m, r)) => Some((m.into(), r.split(',').map(|s| s.trim().to_string()).collect())),
    }
}

pub fn number(s: &str) -> Option<u32> {
    match s.strip_prefix("0x") {
        Some(h) => u32::from_str_radix(h, 16).ok(),
        None => s.parse().ok(),
    }
}

/// Whether the text names this instruction, its registers in order and its immediate
pub fn names(op: &str, i: &Ins, label: Option<&str>) -> Result<(), String> {
    let (m, args) = parse_op(op).ok_or("no instruction is shown")?;
    if !i.form.names.contains(&&*m) {
        return Err(format!("mnemonic {m} instead of {}", i.form.names.join(" or ")));
    }
    let mut want: Vec<O> = i.form.ops.to_vec();
    // return without operand is the same as with zero
    if i.form.code == 0x26 && want.is_empty() && args.len() == 1 {
        want.push(O::Ib);
    }
    if i.form.code == 0x26 && want.len() == 1 && args.is_empty() && matches!(i.imm, Imm::Num(0)) {
        want.clear();
    }
    if args.len() != want.len() {
        return Err(format!("{} operands instead of {}", args.len(), want.len()));
    }
    let mut regs = i.regs.iter();
    for (a, o) in args.iter().zip(&want) {
        match o {
            O::B | O::W => {
                let n = *regs.next().unwrap();
                let w = if *o == O::B { byte_reg_name(n) } else { wide_reg_name(n) };
                if *a != w {
                    return Err(format!("{a} instead of {w}"));
                }
            }
            O::Ib | O::Iw => {
                let v = match i.imm {
                    Imm::Num(n) => n,
                    _ => 0,
                };
                match label {
                    Some(l) if *o == O::Iw => {
                        if a != l {
                            return Err(format!("{a} instead of the label {l}"));
                        }
                    }
                    _ => {
                        if number(a) != Some(v as u32) {
                            return Err(format!("immediate {a} instead of {v:#x}"));
                        }
                    }
                }
            }
        }
    }
    Ok(())
}


/// The form of the instruction with these bytes, if the assembler has one, and its length
pub fn assemblable(b: &[u8]) -> Option<(&'static Form, usize)> {
    for f in FORMS {
        if f.code != b[0] || f.enc == Enc::Ret0 {
            continue;
        }
        let nregs = f.nregs();
        let mut n = nregs;
        match f.enc {
            Enc::LdiW | Enc::JmpReg => n += 1,
            Enc::JmpImm => n += 2,
            _ => (),
        }
        let len = 1 + n.div_ceil(2)
            + match f.imm() {
                Some(O::Ib) => 1,
                Some(_) => 2,
                None if f.enc == Enc::JmpReg => 2,
                None => 0,
            };
        if b.len() < len {
            continue;
        }
        let nib = |i: usize| if i % 2 == 0 { b[1 + i / 2] >> 4 } else { b[1 + i / 2] & 15 };
        let ok = match f.enc {
            Enc::LdiW => nib(1) == 0,
            Enc::JmpImm => nib(0) == 0 && nib(1) == 1,
            Enc::JmpReg => nib(0) != 0 && nib(1) == 1 && b[2] == 0 && b[3] == 0,
            _ => n % 2 == 0 || nib(n) == 0,
        };
        if ok {
            return Some((f, len));
        }
    }
    None
}

/// The instruction with these bytes, if the assembler has one, and its length
pub fn decode(b: &[u8]) -> Option<(Ins, usize)> {
    let (f, len) = b.first().and_then(|_| assemblable(b))?;
    let nib = |i: usize| if i % 2 == 0 { b[1 + i / 2] >> 4 } else { b[1 + i / 2] & 15 };
    let regs = (0..f.nregs()).map(nib).collect();
    let imm = match f.imm() {
        Some(O::Iw) => Imm::Num(u16::from_le_bytes([b[len - 2], b[len - 1]])),
        Some(_) => Imm::Num(b[len - 1] as u16),
        None => Imm::No,
    };
    Some((Ins { form: f, regs, imm }, len))
}
