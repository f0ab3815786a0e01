
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Alu {
    Add,
    Or,
    Adc,
    Sbb,
    And,
    Sub,
    Xor,
    Cmp,
}
pub const ALU: [Alu; 8] = [
    Alu::Add,
    Alu::Or,
    Alu::Adc,
    Alu::Sbb,
    Alu::And,
    Alu::Sub,
    Alu::Xor,
    Alu::Cmp,
];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sh {
    Rol,
    Ror,
    Rcl,
    Rcr,
    Shl,
    Shr,
    Sar,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Sse {
    Addsd,
    Subsd,
    Mulsd,
    Divsd,
    Minsd,
    Maxsd,
    Sqrtsd,
    Sqrtpd,
    Ucomisd,
    Comisd,
    Xorp,
    Andp,
    Andnp,
    Orp,
    Roundpd,
    Roundsd,
    /// any other arithmetic, identified by (mandatory prefix, opcode)
    Other(u8, u8),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op {
    Mov,
    Movsx,
    Movzx,
    Alu(Alu),
    Test,
    Xchg,
    Neg,
    Not,
    Inc,
    Dec,
    Shift(Sh),
    Imul,
    Mul1,
    Imul1,
    Idiv,
    Div,
    Lea,
    Set(u8),
    Cmov(u8),
    /// sign-extend rax into rdx:rax, operand size in bytes (8: cqo, 4: cdq, 2: cwd)
    Cxd(u8),
    /// cdqe/cwde/cbw
    Cdqe(u8),
    Push,
    Pop,
    Jmp,
    Jcc(u8),
    Call,
    Leave,
    Ret,
    Syscall,
    Int3,
    Nop,
    Lzcnt,
    Tzcnt,
    Popcnt,
    Bsf,
    Bsr,
    /// 64-bit move to/from xmm (clears the upper half of an xmm destination)
    Movq,
    /// scalar double move; memory forms are canonicalised to Movq
    Movsd,
    Movss,
    Movap,
    Movd,
    Sse(Sse),
    Cvtsi2sd,
    Cvttsd2si,
    Cvtsd2si,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Base {
    None,
    Reg(u8),
    Rip,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct Mem {
    pub base: Base,
    /// (register, scale factor 1/2/4/8)
    pub index: Option<(u8, u8)>,
    pub disp: i64,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Opnd {
    /// general register: size in bytes, number
    R(u8, u8),
    /// ah, ch, dh, bh
    High(u8),
    X(u8),
    M(u8, Mem),
    I(i64),
    /// branch displacement relative to the end of the instruction
    Rel(i64),
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Instr {
    pub op: Op,
    pub ops: Vec<Opnd>,
}

impl Instr {
    pub fn new(op: Op, ops: &[Opnd]) -> Self {
        Instr {
            op,
            ops: ops.to_vec(),
        }
    }
}

pub fn sext(v: i64, size: u8) -> i64 {
    match size {
        1 => v as i8 as i64,
        2 => v as i16 as i64,
        4 => v as i32 as i64,
        _ => v,
    }
}

impl Mem {
    pub fn canon(mut self) -> Mem {
        if let Some((i, s)) = self.index {
            if s == 1 {
                match self.base {
                    Base::None => {
                        self.base = Base::Reg(i);
                        self.index = None;
                    }
                    Base::Reg(b) if b > i => {
                        self.base = Base::Reg(i);
                        self.index = Some((b, 1));
                    }
                    _ => {}
                }
            }
        }
        self
    }
}

/// Map instructions with identical architectural effect to one representative.
pub fn canon(i: &Instr) -> Instr {
    let mut r = i.clone();
    for o in r.ops.iter_mut() {
        if let Opnd::M(_, m) = o {
            *m = m.canon();
        }
    }
    // size of the destination / first operand
    let dsize = match r.ops.first() {
        Some(Opnd::R(s, _)) | Some(Opnd::M(s, _)) => *s,
        Some(Opnd::High(_)) => 1,
        _ => 8,
    };
    match r.op {
        Op::Mov | Op::Alu(_) | Op::Test => {
            if let Some(Opnd::I(v)) = r.ops.get_mut(1) {
                *v = sext(*v, dsize);
            }
        }
        _ => {}
    }
    match (r.op, r.ops.as_slice()) {
        (Op::Mov, [Opnd::R(4, d), Opnd::I(v)]) => {
            r.ops = vec![Opnd::R(8, *d), Opnd::I(*v as u32 as i64)];
        }
        (Op::Movzx, [Opnd::R(4, d), s]) => {
            r.ops = vec![Opnd::R(8, *d), *s];
        }
        // movzx r64, r/m32 does not exist; mov r32 is its own form.
        (Op::Test, [Opnd::R(s, a), Opnd::R(_, b)]) if a > b => {
            r.ops = vec![Opnd::R(*s, *b), Opnd::R(*s, *a)];
        }
        (Op::Test, [a @ Opnd::R(..), m @ Opnd::M(..)]) => r.ops = vec![*m, *a],
        (Op::Xchg, [Opnd::R(8, a), Opnd::R(8, b)]) if a == b => {
            r.op = Op::Nop;
            r.ops = vec![];
        }
        (Op::Xchg, [Opnd::R(s, a), Opnd::R(_, b)]) if a > b => {
            r.ops = vec![Opnd::R(*s, *b), Opnd::R(*s, *a)];
        }
        (Op::Xchg, [a @ Opnd::R(..), m @ Opnd::M(..)]) => r.ops = vec![*m, *a],
        (Op::Movsd, [Opnd::M(..), _]) | (Op::Movsd, [_, Opnd::M(..)]) => r.op = Op::Movq,
        (Op::Nop, _) => r.ops = vec![],
        _ => {}
    }
    r
}

pub const R64: [&str; 16] = [
    "rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi", "r8", "r9", "r10", "r11", "r12", "r13",
    "r14", "r15",
];

impl std::fmt::Display for Mem {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "[")?;
        match self.base {
            Base::None => write!(f, "0")?,
            Base::Reg(r) => write!(f, "{}", R64[r as usize & 15])?,
            Base::Rip => write!(f, "rip")?,
        }
        if let Some((i, s)) = self.index {
            write!(f, "+{}*{}", R64[i as usize & 15], s)?;
        }
        write!(f, "{:+#x}]", self.disp)
    }
}

impl std::fmt::Display for Opnd {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Opnd::R(s, r) => write!(f, "{}.{}", R64[*r as usize & 15], s * 8),
            Opnd::High(r) => write!(f, "{}.high8", R64[*r as usize & 3]),
            Opnd::X(x) => write!(f, "xmm{}", x),
            Opnd::M(s, m) => write!(f, "m{}{}", *s as u32 * 8, m),
            Opnd::I(v) => write!(f, "{}", v),
            Opnd::Rel(v) => write!(f, "rel{:+}", v),
        }
    }
}

impl std::fmt::Display for Instr {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.op)?;
        for (i, o) in self.ops.iter().enumerate() {
            write!(f, "{}{}", if i == 0 { " " } else { ", " }, o)?;
        }
        Ok(())
    }
}
