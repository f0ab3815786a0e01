//! A decoder for the part of x86-64 an assembler of monoasm's scope can emit,
//! including the alternative encodings of each instruction.
use crate::inst::*;

#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    Truncated,
    Unknown(String),
}

struct D<'a> {
    b: &'a [u8],
    p: usize,
    p66: bool,
    f2: bool,
    f3: bool,
    rex: Option<u8>,
}

type R<T> = Result<T, Bad>;

fn unk<T>(s: impl Into<String>) -> R<T> {
    Err(Bad::Unknown(s.into()))
}

enum Rmv {
    Reg(u8),
    Mem(Mem),
}

impl<'a> D<'a> {
    fn u8(&mut self) -> R<u8> {
        let v = *self.b.get(self.p).ok_or(Bad::Truncated)?;
        self.p += 1;
        Ok(v)
    }
    fn le(&mut self, n: usize) -> R<u64> {
        let mut v = 0u64;
        for i in 0..n {
            v |= (self.u8()? as u64) << (8 * i);
        }
        Ok(v)
    }
    fn i8(&mut self) -> R<i64> {
        Ok(self.u8()? as i8 as i64)
    }
    fn i16(&mut self) -> R<i64> {
        Ok(self.le(2)? as u16 as i16 as i64)
    }
    fn i32(&mut self) -> R<i64> {
        Ok(self.le(4)? as u32 as i32 as i64)
    }
    fn w(&self) -> bool {
        self.rex.unwrap_or(0) & 8 != 0
    }
    fn rr(&self) -> u8 {
        (self.rex.unwrap_or(0) & 4) << 1
    }
    fn rx(&self) -> u8 {
        (self.rex.unwrap_or(0) & 2) << 2
    }
    fn rb(&self) -> u8 {
        (self.rex.unwrap_or(0) & 1) << 3
    }
    fn size(&self) -> u8 {
        if self.w() {
            8
        } else if self.p66 {
            2
        } else {
            4
        }
    }
    fn modrm(&mut self) -> R<(u8, Rmv)> {
        let m = self.u8()?;
        let (md, reg, rm) = (m >> 6, (m >> 3) & 7, m & 7);
        let reg = reg | self.rr();
        if md == 3 {
            return Ok((reg, Rmv::Reg(rm | self.rb())));
        }
        let mut mem = Mem {
            base: Base::None,
            index: None,
            disp: 0,
        };
        let mut nobase = false;
        if rm == 4 {
            let s = self.u8()?;
            let (sc, ix, bs) = (s >> 6, (s >> 3) & 7, s & 7);
            let ix = ix | self.rx();
            if ix != 4 {
                mem.index = Some((ix, 1 << sc));
            }
            if bs == 5 && md == 0 {
                nobase = true;
            } else {
                mem.base = Base::Reg(bs | self.rb());
            }
        } else if rm == 5 && md == 0 {
            mem.base = Base::Rip;
            nobase = true;
        } else {
            mem.base = Base::Reg(rm | self.rb());
        }
        mem.disp = match md {
            0 if nobase => self.i32()?,
            0 => 0,
            1 => self.i8()?,
            _ => self.i32()?,
        };
        Ok((reg, Rmv::Mem(mem)))
    }
    fn g(&self, size: u8, n: u8) -> Opnd {
        if size == 1 && self.rex.is_none() && (4..8).contains(&n) {
            Opnd::High(n - 4)
        } else {
            Opnd::R(size, n)
        }
    }
    fn grm(&self, size: u8, rm: Rmv) -> Opnd {
        match rm {
            Rmv::Reg(n) => self.g(size, n),
            Rmv::Mem(m) => Opnd::M(size, m),
        }
    }
    fn xrm(&self, msize: u8, rm: Rmv) -> Opnd {
        match rm {
            Rmv::Reg(n) => Opnd::X(n),
            Rmv::Mem(m) => Opnd::M(msize, m),
        }
    }
    /// immediate of operand size (max 32 bits, sign extended)
    fn immz(&mut self, size: u8) -> R<i64> {
        match size {
            1 => self.i8(),
            2 => self.i16(),
            _ => self.i32(),
        }
    }
}

/// Decode one instruction; returns it and its length.
pub fn decode(b: &[u8]) -> R<(Instr, usize)> {
    let mut d = D {
        b,
        p: 0,
        p66: false,
        f2: false,
        f3: false,
        rex: None,
    };
    let op;
    loop {
        let c = d.u8()?;
        match c {
            0x66 => d.p66 = true,
            0xf2 => d.f2 = true,
            0xf3 => d.f3 = true,
            0x40..=0x4f => {
                d.rex = Some(c);
                op = d.u8()?;
                break;
            }
            0x26 | 0x2e | 0x36 | 0x3e | 0x64 | 0x65 | 0x67 | 0xf0 => return unk(format!("prefix {c:#x}")),
            _ => {
                op = c;
                break;
            }
        }
        if d.p > 14 {
            return unk("too many prefixes");
        }
    }
    if matches!(op, 0x66 | 0xf2 | 0xf3 | 0x40..=0x4f) {
        return unk("prefix after REX");
    }
    let i = if op == 0x0f {
        let op2 = d.u8()?;
        decode_0f(&mut d, op2)?
    } else {
        if d.f2 || (d.f3 && op != 0x90 && op != 0xc3) {
            return unk(format!("repeat prefix on opcode {op:#x}"));
        }
        decode_1(&mut d, op)?
    };
    if d.p > 15 {
        return unk("instruction longer than 15 bytes");
    }
    Ok((i, d.p))
}

fn shift_of(n: u8) -> Sh {
    match n & 7 {
        0 => Sh::Rol,
        1 => Sh::Ror,
        2 => Sh::Rcl,
        3 => Sh::Rcr,
        4 | 6 => Sh::Shl,
        5 => Sh::Shr,
        _ => Sh::Sar,
    }
}

fn decode_1(d: &mut D, op: u8) -> R<Instr> {
    let sz = d.size();
    Ok(match op {
        0x00..=0x3f if op & 7 < 6 => {
            let a = Op::Alu(ALU[(op >> 3) as usize]);
            let s = if op & 1 == 0 { 1 } else { sz };
            match op & 7 {
                0 | 1 => {
                    let (r, rm) = d.modrm()?;
                    Instr::new(a, &[d.grm(s, rm), d.g(s, r)])
                }
                2 | 3 => {
                    let (r, rm) = d.modrm()?;
                    Instr::new(a, &[d.g(s, r), d.grm(s, rm)])
                }
                _ => {
                    let v = d.immz(s)?;
                    Instr::new(a, &[Opnd::R(s, 0), Opnd::I(v)])
                }
            }
        }
        0x50..=0x57 => push_pop(d, Op::Push, op)?,
        0x58..=0x5f => push_pop(d, Op::Pop, op)?,
        0x63 => {
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Movsx, &[d.g(sz, r), d.grm(4, rm)])
        }
        0x68 => {
            let v = d.i32()?;
            Instr::new(Op::Push, &[Opnd::I(v)])
        }
        0x6a => {
            let v = d.i8()?;
            Instr::new(Op::Push, &[Opnd::I(v)])
        }
        0x69 | 0x6b => {
            let (r, rm) = d.modrm()?;
            let m = d.grm(sz, rm);
            let v = if op == 0x69 { d.immz(sz)? } else { d.i8()? };
            Instr::new(Op::Imul, &[d.g(sz, r), m, Opnd::I(v)])
        }
        0x70..=0x7f => {
            let v = d.i8()?;
            Instr::new(Op::Jcc(op & 15), &[Opnd::Rel(v)])
        }
        0x80 | 0x81 | 0x83 => {
            let s = if op == 0x80 { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            let a = Op::Alu(ALU[(r & 7) as usize]);
            let m = d.grm(s, rm);
            let v = if op == 0x81 { d.immz(s)? } else { d.i8()? };
            Instr::new(a, &[m, Opnd::I(v)])
        }
        0x84 | 0x85 => {
            let s = if op == 0x84 { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Test, &[d.grm(s, rm), d.g(s, r)])
        }
        0x86 | 0x87 => {
            let s = if op == 0x86 { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Xchg, &[d.grm(s, rm), d.g(s, r)])
        }
        0x88 | 0x89 => {
            let s = if op == 0x88 { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Mov, &[d.grm(s, rm), d.g(s, r)])
        }
        0x8a | 0x8b => {
            let s = if op == 0x8a { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Mov, &[d.g(s, r), d.grm(s, rm)])
        }
        0x8d => {
            let (r, rm) = d.modrm()?;
            match rm {
                Rmv::Mem(m) => Instr::new(Op::Lea, &[d.g(sz, r), Opnd::M(0, m)]),
                _ => return unk("lea with register"),
            }
        }
        0x8f => {
            let (r, rm) = d.modrm()?;
            if r & 7 != 0 {
                return unk("8f /n");
            }
            let s = if d.p66 && !d.w() { 2 } else { 8 };
            Instr::new(Op::Pop, &[d.grm(s, rm)])
        }
        0x90..=0x97 => {
            let n = (op & 7) | d.rb();
            if n == 0 {
                if d.f3 {
                    return unk("pause");
                }
                Instr::new(Op::Nop, &[])
            } else {
                Instr::new(Op::Xchg, &[Opnd::R(sz, n), Opnd::R(sz, 0)])
            }
        }
        0x98 => Instr::new(Op::Cdqe(sz), &[]),
        0x99 => Instr::new(Op::Cxd(sz), &[]),
        0xa8 => {
            let v = d.i8()?;
            Instr::new(Op::Test, &[Opnd::R(1, 0), Opnd::I(v)])
        }
        0xa9 => {
            let v = d.immz(sz)?;
            Instr::new(Op::Test, &[Opnd::R(sz, 0), Opnd::I(v)])
        }
        0xb0..=0xb7 => {
            let n = (op & 7) | d.rb();
            let v = d.i8()?;
            Instr::new(Op::Mov, &[d.g(1, n), Opnd::I(v)])
        }
        0xb8..=0xbf => {
            let n = (op & 7) | d.rb();
            let v = match sz {
                8 => d.le(8)? as i64,
                s => d.immz(s)?,
            };
            Instr::new(Op::Mov, &[Opnd::R(sz, n), Opnd::I(v)])
        }
        0xc0 | 0xc1 | 0xd0..=0xd3 => {
            let s = if op & 1 == 0 { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            let m = d.grm(s, rm);
            let c = match op {
                0xc0 | 0xc1 => Opnd::I(d.u8()? as i64),
                0xd0 | 0xd1 => Opnd::I(1),
                _ => Opnd::R(1, 1),
            };
            Instr::new(Op::Shift(shift_of(r)), &[m, c])
        }
        0xc3 => Instr::new(Op::Ret, &[]),
        0xc6 | 0xc7 => {
            let s = if op == 0xc6 { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            if r & 7 != 0 {
                return unk("c7 /n");
            }
            let m = d.grm(s, rm);
            let v = d.immz(s)?;
            Instr::new(Op::Mov, &[m, Opnd::I(v)])
        }
        0xc9 => Instr::new(Op::Leave, &[]),
        0xcc => Instr::new(Op::Int3, &[]),
        0xe8 | 0xe9 => {
            if d.p66 {
                return unk("66 on rel32 branch");
            }
            let v = d.i32()?;
            Instr::new(if op == 0xe8 { Op::Call } else { Op::Jmp }, &[Opnd::Rel(v)])
        }
        0xeb => {
            let v = d.i8()?;
            Instr::new(Op::Jmp, &[Opnd::Rel(v)])
        }
        0xf6 | 0xf7 => {
            let s = if op == 0xf6 { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            let m = d.grm(s, rm);
            match r & 7 {
                0 | 1 => {
                    let v = d.immz(s)?;
                    Instr::new(Op::Test, &[m, Opnd::I(v)])
                }
                2 => Instr::new(Op::Not, &[m]),
                3 => Instr::new(Op::Neg, &[m]),
                4 => Instr::new(Op::Mul1, &[m]),
                5 => Instr::new(Op::Imul1, &[m]),
                6 => Instr::new(Op::Div, &[m]),
                _ => Instr::new(Op::Idiv, &[m]),
            }
        }
        0xfe | 0xff => {
            let s = if op == 0xfe { 1 } else { sz };
            let (r, rm) = d.modrm()?;
            match r & 7 {
                0 => Instr::new(Op::Inc, &[d.grm(s, rm)]),
                1 => Instr::new(Op::Dec, &[d.grm(s, rm)]),
                2 if op == 0xff => Instr::new(Op::Call, &[d.grm(8, rm)]),
                4 if op == 0xff => Instr::new(Op::Jmp, &[d.grm(8, rm)]),
                6 if op == 0xff => {
                    let s = if d.p66 && !d.w() { 2 } else { 8 };
                    Instr::new(Op::Push, &[d.grm(s, rm)])
                }
                _ => return unk("ff /n"),
            }
        }
        _ => return unk(format!("opcode {op:#04x}")),
    })
}

fn push_pop(d: &mut D, o: Op, op: u8) -> R<Instr> {
    let s = if d.p66 && !d.w() { 2 } else { 8 };
    Ok(Instr::new(o, &[Opnd::R(s, (op & 7) | d.rb())]))
}

fn decode_0f(d: &mut D, op: u8) -> R<Instr> {
    let sz = d.size();
    // mandatory prefix: F2/F3 win over 66
    let pfx = if d.f2 {
        0xf2
    } else if d.f3 {
        0xf3
    } else if d.p66 {
        0x66
    } else {
        0u8
    };
    if d.f2 && d.f3 {
        return unk("both repeat prefixes");
    }
    Ok(match (pfx, op) {
        (0, 0x05) => Instr::new(Op::Syscall, &[]),
        (_, 0x10) | (_, 0x11) => {
            let (r, rm) = d.modrm()?;
            let (o, ms) = match pfx {
                0xf2 => (Op::Movsd, 8),
                0xf3 => (Op::Movss, 4),
                _ => (Op::Movap, 16),
            };
            let x = d.xrm(ms, rm);
            if op == 0x10 {
                Instr::new(o, &[Opnd::X(r), x])
            } else {
                Instr::new(o, &[x, Opnd::X(r)])
            }
        }
        (0, 0x1f) => {
            d.modrm()?;
            Instr::new(Op::Nop, &[])
        }
        (0, 0x28) | (0x66, 0x28) => {
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Movap, &[Opnd::X(r), d.xrm(16, rm)])
        }
        (0, 0x29) | (0x66, 0x29) => {
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Movap, &[d.xrm(16, rm), Opnd::X(r)])
        }
        (0xf2, 0x2a) => {
            let (r, rm) = d.modrm()?;
            let s = if d.w() { 8 } else { 4 };
            Instr::new(Op::Cvtsi2sd, &[Opnd::X(r), d.grm(s, rm)])
        }
        (0xf2, 0x2c) | (0xf2, 0x2d) => {
            let (r, rm) = d.modrm()?;
            let s = if d.w() { 8 } else { 4 };
            Instr::new(
                if op == 0x2c { Op::Cvttsd2si } else { Op::Cvtsd2si },
                &[Opnd::R(s, r), d.xrm(8, rm)],
            )
        }
        (0x66, 0x2e) | (0x66, 0x2f) => {
            let (r, rm) = d.modrm()?;
            Instr::new(
                Op::Sse(if op == 0x2e { Sse::Ucomisd } else { Sse::Comisd }),
                &[Opnd::X(r), d.xrm(8, rm)],
            )
        }
        (0 | 0x66, 0x40..=0x4f) => {
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Cmov(op & 15), &[d.g(sz, r), d.grm(sz, rm)])
        }
        (_, 0x51) | (_, 0x54..=0x59) | (_, 0x5c..=0x5f) => {
            let (r, rm) = d.modrm()?;
            let (o, ms) = match (pfx, op) {
                (0x66, 0x51) => (Sse::Sqrtpd, 16),
                (0xf2, 0x51) => (Sse::Sqrtsd, 8),
                (0 | 0x66, 0x54) => (Sse::Andp, 16),
                (0 | 0x66, 0x55) => (Sse::Andnp, 16),
                (0 | 0x66, 0x56) => (Sse::Orp, 16),
                (0 | 0x66, 0x57) => (Sse::Xorp, 16),
                (0xf2, 0x58) => (Sse::Addsd, 8),
                (0xf2, 0x59) => (Sse::Mulsd, 8),
                (0xf2, 0x5c) => (Sse::Subsd, 8),
                (0xf2, 0x5d) => (Sse::Minsd, 8),
                (0xf2, 0x5e) => (Sse::Divsd, 8),
                (0xf2, 0x5f) => (Sse::Maxsd, 8),
                (0xf2 | 0xf3, 0x54..=0x57) => return unk("repeat prefix on SIMD logic"),
                (p, o) => (Sse::Other(p, o), if p == 0xf3 { 4 } else { 16 }),
            };
            Instr::new(Op::Sse(o), &[Opnd::X(r), d.xrm(ms, rm)])
        }
        (0x66, 0x6e) => {
            let (r, rm) = d.modrm()?;
            if d.w() {
                match d.grm(8, rm) {
                    m @ Opnd::M(..) => Instr::new(Op::Movq, &[Opnd::X(r), m]),
                    g => Instr::new(Op::Movq, &[Opnd::X(r), g]),
                }
            } else {
                Instr::new(Op::Movd, &[Opnd::X(r), d.grm(4, rm)])
            }
        }
        (0x66, 0x7e) => {
            let (r, rm) = d.modrm()?;
            if d.w() {
                Instr::new(Op::Movq, &[d.grm(8, rm), Opnd::X(r)])
            } else {
                Instr::new(Op::Movd, &[d.grm(4, rm), Opnd::X(r)])
            }
        }
        (0xf3, 0x7e) => {
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Movq, &[Opnd::X(r), d.xrm(8, rm)])
        }
        (0x66, 0xd6) => {
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Movq, &[d.xrm(8, rm), Opnd::X(r)])
        }
        (0, 0x80..=0x8f) => {
            let v = d.i32()?;
            Instr::new(Op::Jcc(op & 15), &[Opnd::Rel(v)])
        }
        (0 | 0x66, 0x90..=0x9f) => {
            let (_, rm) = d.modrm()?;
            Instr::new(Op::Set(op & 15), &[d.grm(1, rm)])
        }
        (0 | 0x66, 0xaf) => {
            let (r, rm) = d.modrm()?;
            Instr::new(Op::Imul, &[d.g(sz, r), d.grm(sz, rm)])
        }
        (0 | 0x66, 0xb6 | 0xb7 | 0xbe | 0xbf) => {
            let (r, rm) = d.modrm()?;
            let ss = if op & 1 == 0 { 1 } else { 2 };
            Instr::new(
                if op < 0xb8 { Op::Movzx } else { Op::Movsx },
                &[Opnd::R(sz, r), d.grm(ss, rm)],
            )
        }
        (0xf3, 0xb8 | 0xbc | 0xbd) => {
            let (r, rm) = d.modrm()?;
            let o = match op {
                0xb8 => Op::Popcnt,
                0xbc => Op::Tzcnt,
                _ => Op::Lzcnt,
            };
            Instr::new(o, &[d.g(sz, r), d.grm(sz, rm)])
        }
        (0 | 0x66, 0xbc | 0xbd) => {
            let (r, rm) = d.modrm()?;
            Instr::new(
                if op == 0xbc { Op::Bsf } else { Op::Bsr },
                &[d.g(sz, r), d.grm(sz, rm)],
            )
        }
        (0x66, 0x3a) => {
            let o3 = d.u8()?;
            let (r, rm) = d.modrm()?;
            let (o, ms) = match o3 {
                0x09 => (Sse::Roundpd, 16),
                0x0b => (Sse::Roundsd, 8),
                _ => return unk(format!("0f 3a {o3:#x}")),
            };
            let x = d.xrm(ms, rm);
            let v = d.u8()? as i64;
            Instr::new(Op::Sse(o), &[Opnd::X(r), x, Opnd::I(v)])
        }
        _ => return unk(format!("0f {op:#04x} with prefix {pfx:#x}")),
    })
}

/// Decode a whole byte sequence.
pub fn decode_all(b: &[u8]) -> Result<Vec<(Instr, usize, usize)>, (usize, Bad)> {
    let mut v = vec![];
    let mut p = 0;
    while p < b.len() {
        let (i, l) = decode(&b[p..]).map_err(|e| (p, e))?;
        v.push((i, p, l));
        p += l;
    }
    Ok(v)
}
