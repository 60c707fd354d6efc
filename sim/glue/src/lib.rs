//! The calls a user of raki makes, compiled with the same yield points as raki itself: code of raki
//! that is inlined or instantiated in its user's crate has them too.

use std::fmt;
use std::io;

use raki::{Decode, DecodingError, InstFormat, Instruction, Isa, OpcodeKind};

pub type Value = Result<Instruction, DecodingError>;

#[derive(Clone, Copy)]
pub enum How {
    Disp,
    Debug,
    DebugAlt,
    OpcDisp,
    OpcDebug,
    Padded,
}

fn isa(rv64: bool) -> Isa {
    if rv64 {
        Isa::Rv64
    } else {
        Isa::Rv32
    }
}

#[inline(never)]
pub fn decode32(w: &u32, rv64: bool) -> Value {
    w.decode(isa(rv64))
}

#[inline(never)]
pub fn decode16(w: &u16, rv64: bool) -> Value {
    w.decode(isa(rv64))
}

#[inline(never)]
pub fn try_from(x: usize) -> Value {
    Instruction::try_from(x)
}

#[inline(never)]
pub fn equal(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Ok(x), Ok(y)) => x == y && !(x != y),
        (Err(x), Err(y)) => x == y,
        _ => false,
    }
}

/// The same instruction with operands of the caller's choosing.
pub fn rework(v: &mut Value, w: u32) {
    if let Ok(i) = v {
        let h = w.wrapping_mul(0x9e37_79b1) ^ (w >> 15);
        let csr = matches!(i.inst_format, InstFormat::CsrFormat | InstFormat::CsrUiFormat);
        i.rd = Some((h & 31) as usize);
        i.rs1 = Some((h >> 5 & 31) as usize);
        i.rs2 = Some((h >> 10 & if csr { 0xfff } else { 31 }) as usize);
        i.imm = Some([i32::MIN, i32::MAX, -1, 0, h as i32, h as i32 >> 20, 1 << (h & 15), -2048][(h >> 22 & 7) as usize]);
    }
}

/// What the separate parsers return.
#[derive(Debug)]
pub struct Parts {
    pub opc: Result<OpcodeKind, DecodingError>,
    pub rest: Option<Rest>,
}

#[derive(Debug)]
pub struct Rest {
    pub rd: Result<Option<usize>, DecodingError>,
    pub rs1: Result<Option<usize>, DecodingError>,
    pub rs2: Result<Option<usize>, DecodingError>,
    pub imm: Result<Option<i32>, DecodingError>,
    pub format: InstFormat,
}

fn parts<D: Decode + Copy>(w: D, rv64: bool) -> Parts {
    let opc = w.parse_opcode(isa(rv64));
    let rest = match &opc {
        Ok(k) => Some(Rest {
            rd: w.parse_rd(k),
            rs1: w.parse_rs1(k),
            rs2: w.parse_rs2(k),
            imm: w.parse_imm(k, isa(rv64)),
            format: k.get_format(),
        }),
        Err(_) => None,
    };
    Parts { opc, rest }
}

#[inline(never)]
pub fn parts32(w: u32, rv64: bool) -> Parts {
    parts(w, rv64)
}

#[inline(never)]
pub fn parts16(w: u16, rv64: bool) -> Parts {
    parts(w, rv64)
}

macro_rules! render {
    ($w:expr, $how:expr, $v:expr) => {
        match $v {
            Ok(i) => match $how {
                How::Disp => write!($w, "{i}"),
                How::Debug => write!($w, "{i:?}"),
                How::DebugAlt => write!($w, "{i:#?}"),
                How::OpcDisp => write!($w, "{}", i.opc),
                How::OpcDebug => write!($w, "{:?} {:?}", i.opc, i.opc.get_format()),
                How::Padded => write!($w, "[{i:>36}|{i:<3}|{i:#}|{i:+07.2}|{:^+#012.4}]", i.opc),
            },
            Err(e) => match $how {
                How::DebugAlt => write!($w, "{e:#?}"),
                How::Padded => write!($w, "[{e:>30?}]"),
                _ => write!($w, "{e:?}"),
            },
        }
    };
}

#[inline(never)]
pub fn render(w: &mut dyn fmt::Write, how: How, v: &Value) -> fmt::Result {
    render!(w, how, v)
}

#[inline(never)]
pub fn render_io(w: &mut dyn io::Write, how: How, v: &Value) -> io::Result<()> {
    render!(w, how, v)
}
