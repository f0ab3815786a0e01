//! Reference semantics of the supported instructions (written from the Intel SDM): one
//! instruction on a machine state, with undefined flags tracked.
use crate::inst::*;

pub const CF: u16 = 1;
pub const PF: u16 = 4;
pub const ZF: u16 = 0x40;
pub const SF: u16 = 0x80;
pub const OF: u16 = 0x800;
pub const ALL: u16 = CF | PF | ZF | SF | OF;

#[derive(Clone, PartialEq, Debug)]
pub struct State {
    pub r: [u64; 16],
    pub x: [[u64; 2]; 16],
    /// CF PF ZF SF OF at their rflags positions
    pub f: u16,
    /// which of them have a defined value
    pub def: u16,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// access outside the memory of the model
    Access(u64, usize),
    /// 16-byte operand not aligned
    Align(u64),
    /// division by zero or overflow
    Divide,
    /// reads a flag whose value the manual leaves open
    Undefined,
    /// int3, syscall and instructions the model does not run
    NotModelled,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Flow {
    Next,
    Go(u64),
}

pub trait Memory {
    fn load(&mut self, addr: u64, buf: &mut [u8]) -> Result<(), Fault>;
    fn store(&mut self, addr: u64, buf: &[u8]) -> Result<(), Fault>;
}

fn mask(s: u8) -> u64 {
    match s {
        1 => 0xff,
        2 => 0xffff,
        4 => 0xffff_ffff,
        _ => u64::MAX,
    }
}
fn bits(s: u8) -> u32 {
    s as u32 * 8
}
fn msb(v: u64, s: u8) -> bool {
    v >> (bits(s) - 1) & 1 == 1
}

struct M<'a, T: Memory> {
    s: &'a mut State,
    m: &'a mut T,
    next: u64,
}

impl<T: Memory> M<'_, T> {
    fn ea(&self, a: &Mem) -> u64 {
        let b = match a.base {
            Base::None => 0,
            Base::Reg(r) => self.s.r[r as usize],
            Base::Rip => self.next,
        };
        let i = match a.index {
            None => 0,
            Some((r, k)) => self.s.r[r as usize].wrapping_mul(k as u64),
        };
        b.wrapping_add(i).wrapping_add(a.disp as u64)
    }
    fn load(&mut self, a: u64, n: usize) -> Result<u64, Fault> {
        let mut b = [0u8; 8];
        self.m.load(a, &mut b[..n])?;
        Ok(u64::from_le_bytes(b))
    }
    fn rd(&mut self, o: &Opnd, size: u8) -> Result<u64, Fault> {
        Ok(match *o {
            Opnd::R(s, n) => self.s.r[n as usize] & mask(s),
            Opnd::M(s, ref a) => {
                let p = self.ea(a);
                self.load(p, s as usize)?
            }
            Opnd::I(v) => v as u64 & mask(size),
            Opnd::X(n) => self.s.x[n as usize][0],
            _ => return Err(Fault::NotModelled),
        })
    }
    fn wr(&mut self, o: &Opnd, v: u64) -> Result<(), Fault> {
        match *o {
            Opnd::R(s, n) => {
                let r = &mut self.s.r[n as usize];
                *r = match s {
                    8 => v,
                    4 => v & mask(4),
                    _ => (*r & !mask(s)) | (v & mask(s)),
                };
            }
            Opnd::M(s, ref a) => {
                let p = self.ea(a);
                self.m.store(p, &v.to_le_bytes()[..s as usize])?
            }
            _ => return Err(Fault::NotModelled),
        }
        Ok(())
    }
    fn size(o: &Opnd) -> u8 {
        match o {
            Opnd::R(s, _) | Opnd::M(s, _) => *s,
            _ => 8,
        }
    }
    fn set(&mut self, f: u16, on: bool) {
        if on {
            self.s.f |= f
        } else {
            self.s.f &= !f
        }
        self.s.def |= f;
    }
    fn undef(&mut self, f: u16) {
        self.s.def &= !f;
    }
    fn get(&self, f: u16) -> Result<bool, Fault> {
        if self.s.def & f == 0 {
            return Err(Fault::Undefined);
        }
        Ok(self.s.f & f != 0)
    }
    fn szp(&mut self, v: u64, s: u8) {
        self.set(ZF, v & mask(s) == 0);
        self.set(SF, msb(v, s));
        self.set(PF, (v as u8).count_ones() % 2 == 0);
    }
    fn cond(&self, c: u8) -> Result<bool, Fault> {
        let g = |f| self.get(f);
        let v = match c >> 1 {
            0 => g(OF)?,
            1 => g(CF)?,
            2 => g(ZF)?,
            3 => {
                // a defined flag that decides is enough only if both are defined
                g(CF)? | g(ZF)?
            }
            4 => g(SF)?,
            5 => g(PF)?,
            6 => g(SF)? != g(OF)?,
            _ => g(ZF)? | (g(SF)? != g(OF)?),
        };
        Ok(v != (c & 1 == 1))
    }
    fn push(&mut self, v: u64) -> Result<(), Fault> {
        let p = self.s.r[4].wrapping_sub(8);
        self.m.store(p, &v.to_le_bytes())?;
        self.s.r[4] = p;
        Ok(())
    }
    fn pop(&mut self) -> Result<u64, Fault> {
        let v = self.load(self.s.r[4], 8)?;
        self.s.r[4] = self.s.r[4].wrapping_add(8);
        Ok(v)
    }
    /// both halves of a 128-bit source
    fn rd128(&mut self, o: &Opnd) -> Result<[u64; 2], Fault> {
        match *o {
            Opnd::X(n) => Ok(self.s.x[n as usize]),
            Opnd::M(_, ref a) => {
                let p = self.ea(a);
                if p % 16 != 0 {
                    return Err(Fault::Align(p));
                }
                Ok([self.load(p, 8)?, self.load(p.wrapping_add(8), 8)?])
            }
            _ => Err(Fault::NotModelled),
        }
    }
}

const NAN: u64 = 0xfff8_0000_0000_0000;
fn is_nan(b: u64) -> bool {
    b & 0x7ff0_0000_0000_0000 == 0x7ff0_0000_0000_0000 && b & 0xf_ffff_ffff_ffff != 0
}
fn quiet(b: u64) -> u64 {
    b | 0x0008_0000_0000_0000
}
fn arith(a: u64, b: u64, f: impl Fn(f64, f64) -> f64) -> u64 {
    if is_nan(a) {
        return quiet(a);
    }
    if is_nan(b) {
        return quiet(b);
    }
    let r = f(f64::from_bits(a), f64::from_bits(b)).to_bits();
    if is_nan(r) {
        NAN
    } else {
        r
    }
}
fn sqrt(a: u64) -> u64 {
    if is_nan(a) {
        return quiet(a);
    }
    let v = f64::from_bits(a);
    if v < 0.0 {
        NAN
    } else {
        v.sqrt().to_bits()
    }
}
fn round(a: u64, imm: u8) -> u64 {
    if is_nan(a) {
        return quiet(a);
    }
    let v = f64::from_bits(a);
    // bit 2: use the current mode, which is to nearest
    let m = if imm & 4 != 0 { 0 } else { imm & 3 };
    match m {
        0 => v.round_ties_even(),
        1 => v.floor(),
        2 => v.ceil(),
        _ => v.trunc(),
    }
    .to_bits()
}

/// Execute `i`, which is followed by the address `next`.
pub fn step(i: &Instr, s: &mut State, m: &mut impl Memory, next: u64) -> Result<Flow, Fault> {
    let mut c = M { s, m, next };
    let o = i.ops.as_slice();
    match (i.op, o) {
        (Op::Mov, [d, src]) => {
            let v = c.rd(src, M::<DummyMem>::size(d))?;
            c.wr(d, v)?;
        }
        (Op::Movsx, [d, src]) => {
            let z = M::<DummyMem>::size(src);
            let v = c.rd(src, z)?;
            c.wr(d, sext(v as i64, z) as u64)?;
        }
        (Op::Movzx, [d, src]) => {
            let v = c.rd(src, M::<DummyMem>::size(src))?;
            c.wr(d, v)?;
        }
        (Op::Alu(k), [d, src]) => {
            let z = M::<DummyMem>::size(d);
            let a = c.rd(d, z)?;
            let b = c.rd(src, z)?;
            let k0 = mask(z);
            let carry = match k {
                Alu::Adc | Alu::Sbb => c.get(CF)? as u64,
                _ => 0,
            };
            let r = match k {
                Alu::Add | Alu::Adc => {
                    let w = a as u128 + b as u128 + carry as u128;
                    let r = w as u64 & k0;
                    c.set(CF, w >> bits(z) != 0);
                    c.set(OF, msb((a ^ r) & (b ^ r), z));
                    r
                }
                Alu::Sub | Alu::Sbb | Alu::Cmp => {
                    let r = a.wrapping_sub(b).wrapping_sub(carry) & k0;
                    c.set(CF, (a as u128) < b as u128 + carry as u128);
                    c.set(OF, msb((a ^ b) & (a ^ r), z));
                    r
                }
                Alu::And | Alu::Or | Alu::Xor => {
                    c.set(CF, false);
                    c.set(OF, false);
                    match k {
                        Alu::And => a & b,
                        Alu::Or => a | b,
                        _ => a ^ b,
                    }
                }
            };
            c.szp(r, z);
            if k != Alu::Cmp {
                c.wr(d, r)?;
            }
        }
        (Op::Test, [a, b]) => {
            let z = M::<DummyMem>::size(a);
            let r = c.rd(a, z)? & c.rd(b, z)?;
            c.set(CF, false);
            c.set(OF, false);
            c.szp(r, z);
        }
        (Op::Xchg, [a, b]) => {
            let (va, vb) = (c.rd(a, 8)?, c.rd(b, 8)?);
            // the memory operand is addressed with the registers' old values
            if let Opnd::M(..) = a {
                c.wr(a, vb)?;
                c.wr(b, va)?;
            } else {
                c.wr(b, va)?;
                c.wr(a, vb)?;
            }
        }
        (Op::Neg, [d]) => {
            let z = M::<DummyMem>::size(d);
            let a = c.rd(d, z)?;
            let r = a.wrapping_neg() & mask(z);
            c.set(CF, a != 0);
            c.set(OF, msb(a & r, z));
            c.szp(r, z);
            c.wr(d, r)?;
        }
        (Op::Shift(k), [d, n]) => {
            let z = M::<DummyMem>::size(d);
            let w = bits(z);
            let n = (c.rd(n, 1)? as u32) & if z == 8 { 63 } else { 31 };
            let a = c.rd(d, z)?;
            if n == 0 {
                c.wr(d, a)?;
                return Ok(Flow::Next);
            }
            let r = match k {
                Sh::Shl => {
                    let r = a << n & mask(z);
                    c.set(CF, a >> (w - n) & 1 == 1);
                    c.set(OF, msb(r, z) != (c.s.f & CF != 0));
                    c.szp(r, z);
                    r
                }
                Sh::Shr => {
                    let r = a >> n;
                    c.set(CF, a >> (n - 1) & 1 == 1);
                    c.set(OF, msb(a, z));
                    c.szp(r, z);
                    r
                }
                Sh::Sar => {
                    let v = sext(a as i64, z);
                    let r = (v >> n) as u64 & mask(z);
                    c.set(CF, v >> (n - 1) & 1 == 1);
                    c.set(OF, false);
                    c.szp(r, z);
                    r
                }
                Sh::Rol => {
                    let r = (a << n | a >> (w - n)) & mask(z);
                    c.set(CF, r & 1 == 1);
                    c.set(OF, msb(r, z) != (r & 1 == 1));
                    r
                }
                Sh::Ror => {
                    let r = (a >> n | a << (w - n)) & mask(z);
                    c.set(CF, msb(r, z));
                    c.set(OF, msb(r ^ (r << 1), z));
                    r
                }
                _ => return Err(Fault::NotModelled),
            };
            if n != 1 {
                c.undef(OF);
            }
            c.wr(d, r)?;
        }
        (Op::Imul, [d, src]) => {
            let a = c.rd(d, 8)? as i64 as i128;
            let b = c.rd(src, 8)? as i64 as i128;
            let p = a * b;
            let over = p != p as i64 as i128;
            c.set(CF, over);
            c.set(OF, over);
            c.undef(SF | ZF | PF);
            c.wr(d, p as u64)?;
        }
        (Op::Div | Op::Idiv, [src]) => {
            let z = M::<DummyMem>::size(src);
            let b = c.rd(src, z)?;
            let (lo, hi) = (c.s.r[0] & mask(z), c.s.r[2] & mask(z));
            let w = (hi as u128) << bits(z) | lo as u128;
            if b == 0 {
                return Err(Fault::Divide);
            }
            let (q, r) = if i.op == Op::Div {
                let (q, r) = (w / b as u128, w % b as u128);
                if q > mask(z) as u128 {
                    return Err(Fault::Divide);
                }
                (q as u64, r as u64)
            } else {
                let v = if z == 8 { w as i128 } else { w as u64 as i64 as i128 };
                let b = sext(b as i64, z) as i128;
                let (q, r) = (v.wrapping_div(b), v.wrapping_rem(b));
                if q != sext(q as i64, z) as i128 {
                    return Err(Fault::Divide);
                }
                (q as u64, r as u64)
            };
            c.undef(ALL);
            c.wr(&Opnd::R(z, 0), q)?;
            c.wr(&Opnd::R(z, 2), r)?;
        }
        (Op::Lea, [d, Opnd::M(_, a)]) => {
            let v = c.ea(a);
            c.wr(d, v)?;
        }
        (Op::Set(k), [d]) => {
            let v = c.cond(k)? as u64;
            c.wr(d, v)?;
        }
        (Op::Cmov(k), [d, src]) => {
            let z = M::<DummyMem>::size(d);
            let v = c.rd(src, z)?;
            let old = c.rd(d, z)?;
            let v = if c.cond(k)? { v } else { old };
            c.wr(d, v)?;
        }
        (Op::Cxd(8), []) => c.s.r[2] = ((c.s.r[0] as i64) >> 63) as u64,
        (Op::Cxd(4), []) => c.s.r[2] = ((c.s.r[0] as i32) >> 31) as u32 as u64,
        (Op::Push, [a]) => {
            let v = c.rd(a, 8)?;
            c.push(v)?;
        }
        (Op::Pop, [d]) => {
            // the address of a memory destination uses the incremented rsp
            let v = c.pop()?;
            c.wr(d, v)?;
        }
        (Op::Leave, []) => {
            c.s.r[4] = c.s.r[5];
            let v = c.pop()?;
            c.s.r[5] = v;
        }
        (Op::Ret, []) => return Ok(Flow::Go(c.pop()?)),
        (Op::Jmp, [Opnd::Rel(d)]) => return Ok(Flow::Go(next.wrapping_add(*d as u64))),
        (Op::Jmp, [a]) => return Ok(Flow::Go(c.rd(a, 8)?)),
        (Op::Call, [Opnd::Rel(d)]) => {
            c.push(next)?;
            return Ok(Flow::Go(next.wrapping_add(*d as u64)));
        }
        (Op::Call, [a]) => {
            let t = c.rd(a, 8)?;
            c.push(next)?;
            return Ok(Flow::Go(t));
        }
        (Op::Jcc(k), [Opnd::Rel(d)]) => {
            if c.cond(k)? {
                return Ok(Flow::Go(next.wrapping_add(*d as u64)));
            }
        }
        (Op::Lzcnt | Op::Tzcnt, [d, src]) => {
            let z = M::<DummyMem>::size(d);
            let v = c.rd(src, z)?;
            let w = bits(z);
            let n = if v == 0 {
                w
            } else if i.op == Op::Lzcnt {
                v.leading_zeros() - (64 - w)
            } else {
                v.trailing_zeros()
            };
            c.set(CF, v == 0);
            c.set(ZF, n == 0);
            c.undef(OF | SF | PF);
            c.wr(d, n as u64)?;
        }
        (Op::Popcnt, [d, src]) => {
            let z = M::<DummyMem>::size(d);
            let v = c.rd(src, z)?;
            c.set(OF | SF | CF | PF, false);
            c.set(ZF, v == 0);
            c.wr(d, v.count_ones() as u64)?;
        }
        (Op::Nop, _) => {}
        // ---- floating point
        (Op::Movq, [Opnd::X(d), src]) => {
            let v = c.rd(src, 8)?;
            c.s.x[*d as usize] = [v, 0];
        }
        (Op::Movq, [d, Opnd::X(n)]) => {
            let v = c.s.x[*n as usize][0];
            c.wr(d, v)?;
        }
        (Op::Movsd, [Opnd::X(d), Opnd::X(n)]) => c.s.x[*d as usize][0] = c.s.x[*n as usize][0],
        (Op::Movsd, [Opnd::X(d), src]) => {
            let v = c.rd(src, 8)?;
            c.s.x[*d as usize] = [v, 0];
        }
        (Op::Movsd, [d, Opnd::X(n)]) => {
            let v = c.s.x[*n as usize][0];
            c.wr(d, v)?;
        }
        (Op::Cvtsi2sd, [Opnd::X(d), src]) => {
            let v = c.rd(src, 8)? as i64;
            c.s.x[*d as usize][0] = (v as f64).to_bits();
        }
        (Op::Cvttsd2si, [d @ Opnd::R(8, _), src]) => {
            let v = f64::from_bits(c.rd(src, 8)?);
            let r = if v.is_nan() || v >= 9223372036854775808.0 || v < -9223372036854775808.0 {
                i64::MIN
            } else {
                v as i64
            };
            c.wr(d, r as u64)?;
        }
        (Op::Sse(Sse::Ucomisd), [Opnd::X(a), src]) => {
            let a = c.s.x[*a as usize][0];
            let b = c.rd(src, 8)?;
            let (z, p, k) = if is_nan(a) || is_nan(b) {
                (true, true, true)
            } else {
                let (a, b) = (f64::from_bits(a), f64::from_bits(b));
                (a == b, false, a < b)
            };
            c.set(ZF, z);
            c.set(PF, p);
            c.set(CF, k);
            c.set(OF | SF, false);
        }
        (Op::Sse(k), [Opnd::X(d), src, rest @ ..]) => {
            let a = c.s.x[*d as usize];
            let mut r = a;
            match k {
                Sse::Xorp | Sse::Andp => {
                    let b = c.rd128(src)?;
                    for n in 0..2 {
                        r[n] = if k == Sse::Xorp { a[n] ^ b[n] } else { a[n] & b[n] };
                    }
                }
                Sse::Sqrtpd => {
                    let b = c.rd128(src)?;
                    r = [sqrt(b[0]), sqrt(b[1])];
                }
                Sse::Roundpd => {
                    let b = c.rd128(src)?;
                    let [Opnd::I(m)] = rest else { return Err(Fault::NotModelled) };
                    r = [round(b[0], *m as u8), round(b[1], *m as u8)];
                }
                _ => {
                    let b = c.rd(src, 8)?;
                    let a = a[0];
                    let pick2 = is_nan(a) || is_nan(b) || (a << 1 == 0 && b << 1 == 0);
                    let (fa, fb) = (f64::from_bits(a), f64::from_bits(b));
                    r[0] = match k {
                        Sse::Addsd => arith(a, b, |x, y| x + y),
                        Sse::Subsd => arith(a, b, |x, y| x - y),
                        Sse::Mulsd => arith(a, b, |x, y| x * y),
                        Sse::Divsd => arith(a, b, |x, y| x / y),
                        Sse::Minsd => {
                            if pick2 || fb <= fa {
                                b
                            } else {
                                a
                            }
                        }
                        Sse::Maxsd => {
                            if pick2 || fb >= fa {
                                b
                            } else {
                                a
                            }
                        }
                        Sse::Sqrtsd => sqrt(b),
                        _ => return Err(Fault::NotModelled),
                    };
                }
            }
            c.s.x[*d as usize] = r;
        }
        _ => return Err(Fault::NotModelled),
    }
    Ok(Flow::Next)
}

struct DummyMem;
impl Memory for DummyMem {
    fn load(&mut self, a: u64, b: &mut [u8]) -> Result<(), Fault> {
        Err(Fault::Access(a, b.len()))
    }
    fn store(&mut self, a: u64, b: &[u8]) -> Result<(), Fault> {
        Err(Fault::Access(a, b.len()))
    }
}
