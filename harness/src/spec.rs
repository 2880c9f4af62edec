//! The instruction set as documented: opcodes and operand layouts.

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fmt {
    None,
    /// register nibble and a zero nibble
    B0,
    W0,
    I8,
    I16,
    /// two registers and a 16-bit immediate
    WBi,
    WWi,
    BWi,
    /// three registers and a zero nibble
    WWB0,
    WWW0,
    BWW0,
    BBB0,
    BWB0,
    BBW0,
    BBBB,
    WWWW,
    /// register, zero nibble, immediate
    B0i8,
    W0i16,
}
use Fmt::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Null,
    Halt,
    Ctf,
    Syscall,
    Reth,
    Usr,
    Vmon,
    Vmoff,
    Pstore,
    Pload,
    Nop,
    Push,
    Pop,
    Call,
    Ret,
    Store,
    Load,
    Jcc(u8),
    Ldi,
    LdiJmp,
    Bin(u8),
    Div,
    Mul,
}

#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub code: u8,
    pub name: &'static str,
    pub kind: Kind,
    pub fmt: Fmt,
    pub wide: bool,
}

const fn op(code: u8, name: &'static str, kind: Kind, fmt: Fmt, wide: bool) -> Op {
    Op { code, name, kind, fmt, wide }
}

pub const JEZ: u8 = 0;
pub const JLT: u8 = 1;
pub const JLE: u8 = 2;
pub const JGT: u8 = 3;
pub const JGE: u8 = 4;
pub const JNZ: u8 = 5;
pub const JO: u8 = 6;
pub const JNO: u8 = 7;
pub const JA: u8 = 8;
pub const JAE: u8 = 9;
pub const JB: u8 = 10;
pub const JBE: u8 = 11;

pub const ADD: u8 = 0;
pub const SUB: u8 = 1;
pub const AND: u8 = 2;
pub const OR: u8 = 3;
pub const XOR: u8 = 4;
pub const SHL: u8 = 5;
pub const ASR: u8 = 6;
pub const LSR: u8 = 7;

pub const OPS: &[Op] = &[
    op(0x00, "null", Kind::Null, None, false),
    op(0x0a, "halt", Kind::Halt, None, false),
    op(0x0b, "ctf", Kind::Ctf, None, false),
    op(0x0c, "syscall", Kind::Syscall, None, false),
    op(0x0d, "reth", Kind::Reth, None, false),
    op(0x10, "usr", Kind::Usr, None, false),
    op(0x11, "vmon", Kind::Vmon, None, false),
    op(0x12, "vmoff", Kind::Vmoff, None, false),
    op(0x13, "pstore", Kind::Pstore, BWB0, false),
    op(0x14, "pload", Kind::Pload, BBW0, false),
    op(0x20, "nop", Kind::Nop, None, false),
    op(0x21, "push", Kind::Push, B0, false),
    op(0x22, "push", Kind::Push, W0, true),
    op(0x23, "pop", Kind::Pop, B0, false),
    op(0x24, "pop", Kind::Pop, W0, true),
    op(0x25, "call", Kind::Call, I16, true),
    op(0x26, "ret", Kind::Ret, I8, true),
    op(0x27, "store", Kind::Store, WBi, false),
    op(0x28, "store", Kind::Store, WWi, true),
    op(0x29, "store", Kind::Store, WWB0, false),
    op(0x2a, "store", Kind::Store, WWW0, true),
    op(0x2b, "load", Kind::Load, BWi, false),
    op(0x2c, "load", Kind::Load, WWi, true),
    op(0x2d, "load", Kind::Load, BWW0, false),
    op(0x2e, "load", Kind::Load, WWW0, true),
    op(0x2f, "jez", Kind::Jcc(JEZ), I16, true),
    op(0x30, "jlt", Kind::Jcc(JLT), I16, true),
    op(0x31, "jle", Kind::Jcc(JLE), I16, true),
    op(0x32, "jgt", Kind::Jcc(JGT), I16, true),
    op(0x33, "jge", Kind::Jcc(JGE), I16, true),
    op(0x34, "jnz", Kind::Jcc(JNZ), I16, true),
    op(0x35, "jo", Kind::Jcc(JO), I16, true),
    op(0x36, "jno", Kind::Jcc(JNO), I16, true),
    op(0x37, "ja", Kind::Jcc(JA), I16, true),
    op(0x38, "jae", Kind::Jcc(JAE), I16, true),
    op(0x39, "jb", Kind::Jcc(JB), I16, true),
    op(0x3a, "jbe", Kind::Jcc(JBE), I16, true),
    op(0x3f, "ldi", Kind::Ldi, B0i8, false),
    op(0x40, "ldi", Kind::LdiJmp, W0i16, true),
    op(0x41, "add", Kind::Bin(ADD), BBB0, false),
    op(0x42, "add", Kind::Bin(ADD), WWW0, true),
    op(0x43, "sub", Kind::Bin(SUB), BBB0, false),
    op(0x44, "sub", Kind::Bin(SUB), WWW0, true),
    op(0x45, "and", Kind::Bin(AND), BBB0, false),
    op(0x46, "and", Kind::Bin(AND), WWW0, true),
    op(0x47, "or", Kind::Bin(OR), BBB0, false),
    op(0x48, "or", Kind::Bin(OR), WWW0, true),
    op(0x49, "xor", Kind::Bin(XOR), BBB0, false),
    op(0x4a, "xor", Kind::Bin(XOR), WWW0, true),
    op(0x4b, "shl", Kind::Bin(SHL), BBB0, false),
    op(0x4c, "shl", Kind::Bin(SHL), WWW0, true),
    op(0x4d, "asr", Kind::Bin(ASR), BBB0, false),
    op(0x4e, "asr", Kind::Bin(ASR), WWW0, true),
    op(0x4f, "lsr", Kind::Bin(LSR), BBB0, false),
    op(0x50, "lsr", Kind::Bin(LSR), WWW0, true),
    op(0x51, "div", Kind::Div, BBBB, false),
    op(0x52, "div", Kind::Div, WWWW, true),
    op(0x53, "mul", Kind::Mul, BBBB, false),
    op(0x54, "mul", Kind::Mul, WWWW, true),
];

pub const fn fmt_len(f: Fmt) -> u16 {
    match f {
        None => 0,
        B0 | W0 | I8 => 1,
        I16 | WWB0 | WWW0 | BWW0 | BBB0 | BWB0 | BBW0 | BBBB | WWWW | B0i8 => 2,
        WBi | WWi | BWi | W0i16 => 3,
    }
}

/// index of the operand byte whose low nibble must be zero
pub const fn zero_nibble(f: Fmt) -> Option<usize> {
    match f {
        B0 | W0 | B0i8 => Some(0),
        WWB0 | WWW0 | BWW0 | BBB0 | BWB0 | BBW0 => Some(1),
        _ => Option::None,
    }
}

static TABLE: [Option<&'static Op>; 256] = {
    let mut t: [Option<&'static Op>; 256] = [Option::None; 256];
    let mut i = 0;
    while i < OPS.len() {
        t[OPS[i].code as usize] = Some(&OPS[i]);
        i += 1;
    }
    t
};

pub fn lookup(code: u8) -> Option<&'static Op> {
    TABLE[code as usize]
}

/// Register numbers of the operand nibbles, in operand order; true = wide
pub fn reg_widths(f: Fmt) -> &'static [bool] {
    const W: bool = true;
    const B: bool = false;
    match f {
        None | I8 | I16 => &[],
        B0 | B0i8 => &[B],
        W0 | W0i16 => &[W],
        WBi => &[W, B],
        WWi => &[W, W],
        BWi => &[B, W],
        WWB0 => &[W, W, B],
        WWW0 => &[W, W, W],
        BWW0 => &[B, W, W],
        BBB0 => &[B, B, B],
        BWB0 => &[B, W, B],
        BBW0 => &[B, B, W],
        BBBB => &[B, B, B, B],
        WWWW => &[W, W, W, W],
    }
}

pub fn imm_bytes(f: Fmt) -> usize {
    match f {
        I8 | B0i8 => 1,
        I16 | WBi | WWi | BWi | W0i16 => 2,
        _ => 0,
    }
}

/// Trap numbers
pub mod trap {
    pub const INVALID: u8 = 0;
    pub const SYSCALL: u8 = 5;
    pub const ZERODIV: u8 = 8;
    pub const HALT: u8 = 0xa;
    pub const L1PF: u8 = 0xe;
    pub const L2PF: u8 = 0xf;
    pub const ILL_OP: u8 = 0x10;
    pub const ILL_READ: u8 = 0x11;
    pub const ILL_WRITE: u8 = 0x12;
    pub const ILL_EXEC: u8 = 0x13;
    pub const ILL_RETH: u8 = 0x1f;
    pub fn name(t: u8) -> &'static str {
        match t {
            INVALID => "Invalid",
            SYSCALL => "SysCall",
            ZERODIV => "ZeroDiv",
            HALT => "Halt",
            L1PF => "Level1PageFault",
            L2PF => "Level2PageFault",
            ILL_OP => "IllegalOperation",
            ILL_READ => "IllegalRead",
            ILL_WRITE => "IllegalWrite",
            ILL_EXEC => "IllegalExecute",
            ILL_RETH => "IllegalHandlerReturn",
            _ => "?",
        }
    }
    pub const ALL: [u8; 11] = [
        INVALID, SYSCALL, ZERODIV, HALT, L1PF, L2PF, ILL_OP, ILL_READ, ILL_WRITE, ILL_EXEC, ILL_RETH,
    ];
}

pub fn byte_reg_name(n: u8) -> String {
    match n {
        0 => "r0b".into(),
        1..=10 => format!("r{}{}", (n + 1) / 2, if n % 2 == 1 { 'l' } else { 'h' }),
        _ => format!("r{}b", n - 5),
    }
}
pub fn wide_reg_name(n: u8) -> String {
    match n {
        11 => "rs".into(),
        12 => "rl".into(),
        13 => "rf".into(),
        14 => "rp".into(),
        15 => "rh".into(),
        n => format!("r{n}"),
    }
}
