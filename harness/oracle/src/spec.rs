//! What each assembly line means (written from the Intel SDM and the project's README,
//! not from the implementation).
use crate::inst::*;

/// An operand as the programmer wrote it.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum SOp {
    /// general register number (16 = rip)
    G(u64),
    X(u64),
    M(SMem),
    I(i64),
    /// branch target label
    L,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub struct SMem {
    /// register number, 16 = rip
    pub base: u64,
    pub index: Option<(u64, u8)>,
    pub disp: SDisp,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum SDisp {
    N(i64),
    L,
}

#[derive(Clone, PartialEq, Eq, Debug)]
pub enum Verdict {
    /// must be accepted and mean exactly this
    Must(Instr),
    /// may be refused; if accepted, must mean exactly this
    May(Instr),
    /// must be refused
    Reject,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Mov(u8),
    /// (op, source size); destination 64 bit
    MovX(Op, u8),
    Alu(Alu, u8),
    Xchg(u8),
    Neg,
    Shift(Sh, u8),
    Imul,
    Div(Op, u8),
    Lea,
    Test(u8),
    Set(u8),
    Cmov(u8, u8),
    Nullary(Op),
    Movsd,
    /// xmm, xmm/m64
    Sd(Sse),
    /// xmm, xmm/m128
    Pd(Sse),
    Roundpd,
    Cvtsi2sdq,
    Cvttsd2siq,
    Push,
    Pop,
    Jmp,
    Call,
    Jcc(u8),
    /// r, r/m
    Cnt(Op, u8),
}

/// Condition names: (name, condition number).
pub const CONDS: &[(&str, u8)] = &[
    ("o", 0),
    ("no", 1),
    ("b", 2),
    ("c", 2),
    ("nae", 2),
    ("ae", 3),
    ("nc", 3),
    ("eq", 4),
    ("e", 4),
    ("z", 4),
    ("ne", 5),
    ("nz", 5),
    ("be", 6),
    ("na", 6),
    ("a", 7),
    ("nbe", 7),
    ("s", 8),
    ("ns", 9),
    ("p", 10),
    ("pe", 10),
    ("np", 11),
    ("po", 11),
    ("lt", 12),
    ("l", 12),
    ("nge", 12),
    ("ge", 13),
    ("nl", 13),
    ("le", 14),
    ("ng", 14),
    ("gt", 15),
    ("g", 15),
    ("nle", 15),
];
/// names that exist for set/cmov but not as a jump mnemonic
pub const NO_JCC: &[&str] = &["l", "g"];

/// Does condition `cc` hold? flags: CF PF ZF SF OF. Written from the manual's formulae by name.
pub fn cond_by_name(name: &str, cf: bool, pf: bool, zf: bool, sf: bool, of: bool) -> bool {
    match name {
        "o" => of,
        "no" => !of,
        "b" | "c" | "nae" => cf,
        "ae" | "nc" => !cf,
        "eq" | "e" | "z" => zf,
        "ne" | "nz" => !zf,
        "be" | "na" => cf || zf,
        "a" | "nbe" => !cf && !zf,
        "s" => sf,
        "ns" => !sf,
        "p" | "pe" => pf,
        "np" | "po" => !pf,
        "lt" | "l" | "nge" => sf != of,
        "ge" | "nl" => sf == of,
        "le" | "ng" => zf || sf != of,
        "gt" | "g" | "nle" => !zf && sf == of,
        _ => unreachable!("condition {name}"),
    }
}

/// All mnemonics the assembler supports (conditions included).
pub fn mnemonics() -> Vec<(String, Kind)> {
    use Kind::*;
    let mut v: Vec<(String, Kind)> = vec![];
    let mut add = |s: &str, k: Kind| v.push((s.to_string(), k));
    for (c, s) in [("q", 8), ("l", 4), ("w", 2), ("b", 1)] {
        add(&format!("mov{c}"), Mov(s));
        for (n, a) in [
            ("add", self::Alu::Add),
            ("or", self::Alu::Or),
            ("adc", self::Alu::Adc),
            ("sbb", self::Alu::Sbb),
            ("and", self::Alu::And),
            ("sub", self::Alu::Sub),
            ("xor", self::Alu::Xor),
            ("cmp", self::Alu::Cmp),
        ] {
            add(&format!("{n}{c}"), Kind::Alu(a, s));
        }
    }
    add("movsxl", MovX(Op::Movsx, 4));
    add("movzxw", MovX(Op::Movzx, 2));
    add("movsxw", MovX(Op::Movsx, 2));
    add("movzxb", MovX(Op::Movzx, 1));
    add("movsxb", MovX(Op::Movsx, 1));
    add("xchgq", Xchg(8));
    add("negq", Neg);
    for (c, s) in [("q", 8), ("l", 4)] {
        for (n, o) in [
            ("shl", Sh::Shl),
            ("sal", Sh::Shl),
            ("shr", Sh::Shr),
            ("sar", Sh::Sar),
            ("rol", Sh::Rol),
            ("ror", Sh::Ror),
        ] {
            add(&format!("{n}{c}"), Shift(o, s));
        }
        for (n, o) in [
            ("lzcnt", Op::Lzcnt),
            ("tzcnt", Op::Tzcnt),
            ("popcnt", Op::Popcnt),
        ] {
            add(&format!("{n}{c}"), Cnt(o, s));
        }
    }
    add("imul", Imul);
    for (n, o, s) in [
        ("idiv", Op::Idiv, 8),
        ("idivq", Op::Idiv, 8),
        ("idivl", Op::Idiv, 4),
        ("div", Op::Div, 8),
        ("divq", Op::Div, 8),
        ("divl", Op::Div, 4),
    ] {
        add(n, Div(o, s));
    }
    add("lea", Lea);
    add("testq", Test(8));
    add("testb", Test(1));
    for (n, c) in CONDS {
        add(&format!("set{n}"), Set(*c));
        for (x, s) in [("q", 8), ("l", 4), ("w", 2)] {
            add(&format!("cmov{n}{x}"), Cmov(*c, s));
        }
        if !NO_JCC.contains(n) {
            add(&format!("j{n}"), Jcc(*c));
        }
    }
    add("cqo", Nullary(Op::Cxd(8)));
    add("cdq", Nullary(Op::Cxd(4)));
    add("int3", Nullary(Op::Int3));
    add("ret", Nullary(Op::Ret));
    add("syscall", Nullary(Op::Syscall));
    add("leave", Nullary(Op::Leave));
    add("movsd", Movsd);
    add("addsd", Sd(Sse::Addsd));
    add("subsd", Sd(Sse::Subsd));
    add("mulsd", Sd(Sse::Mulsd));
    add("divsd", Sd(Sse::Divsd));
    add("minsd", Sd(Sse::Minsd));
    add("maxsd", Sd(Sse::Maxsd));
    add("sqrtsd", Sd(Sse::Sqrtsd));
    add("ucomisd", Sd(Sse::Ucomisd));
    add("xorps", Pd(Sse::Xorp));
    add("xorpd", Pd(Sse::Xorp));
    add("andpd", Pd(Sse::Andp));
    add("sqrtpd", Pd(Sse::Sqrtpd));
    add("roundpd", Roundpd);
    add("cvtsi2sdq", Cvtsi2sdq);
    add("cvttsd2siq", Cvttsd2siq);
    add("pushq", Push);
    add("popq", Pop);
    add("jmp", Jmp);
    add("call", Call);
    v
}

pub fn kind_of(mn: &str) -> Option<Kind> {
    use std::collections::HashMap;
    use std::sync::OnceLock;
    static T: OnceLock<HashMap<String, Kind>> = OnceLock::new();
    T.get_or_init(|| mnemonics().into_iter().collect())
        .get(mn)
        .copied()
}

/// Operand classes, used to enumerate the operand forms of a mnemonic.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum C {
    G,
    X,
    M,
    I,
    /// the register cl as shift count
    Cl,
    L,
}

/// The operand forms each kind of instruction offers.
pub fn forms(k: Kind) -> Vec<Vec<C>> {
    use C::*;
    let f = |v: &[&[C]]| v.iter().map(|x| x.to_vec()).collect::<Vec<_>>();
    match k {
        Kind::Mov(8) => f(&[
            &[G, G],
            &[G, M],
            &[M, G],
            &[G, I],
            &[M, I],
            &[X, G],
            &[G, X],
            &[X, M],
            &[M, X],
            &[X, X],
        ]),
        Kind::Mov(_) | Kind::Alu(..) => f(&[&[G, G], &[G, M], &[M, G], &[G, I], &[M, I]]),
        Kind::MovX(..) | Kind::Imul | Kind::Cmov(..) | Kind::Cnt(..) => f(&[&[G, G], &[G, M]]),
        Kind::Xchg(_) => f(&[&[G, G], &[G, M], &[M, G]]),
        Kind::Neg | Kind::Div(..) | Kind::Set(_) | Kind::Push | Kind::Pop => f(&[&[G], &[M]]),
        Kind::Shift(..) => f(&[&[G, I], &[M, I], &[G, Cl], &[M, Cl]]),
        Kind::Lea => f(&[&[G, M]]),
        Kind::Test(_) => f(&[&[G, G], &[M, G], &[G, I], &[M, I]]),
        Kind::Nullary(_) => f(&[&[]]),
        Kind::Movsd => f(&[&[X, X], &[X, M], &[M, X]]),
        Kind::Sd(_) | Kind::Pd(_) => f(&[&[X, X], &[X, M]]),
        Kind::Roundpd => f(&[&[X, X, I], &[X, M, I]]),
        Kind::Cvtsi2sdq => f(&[&[X, G], &[X, M]]),
        Kind::Cvttsd2siq => f(&[&[G, X], &[G, M]]),
        Kind::Jmp => f(&[&[G], &[M], &[L]]),
        Kind::Call => f(&[&[G], &[M], &[L], &[I]]),
        Kind::Jcc(_) => f(&[&[L]]),
    }
}

struct Bad;

/// `rel`: for operands that name a label, the distance from the end of the instruction to the label.
pub fn verdict(mn: &str, ops: &[SOp], rel: i64) -> Verdict {
    let k = match kind_of(mn) {
        Some(k) => k,
        None => return Verdict::Reject,
    };
    match verdict_k(k, ops, rel) {
        Ok(v) => v,
        Err(Bad) => Verdict::Reject,
    }
}

fn g(size: u8, n: u64) -> Result<Opnd, Bad> {
    if n < 16 {
        Ok(Opnd::R(size, n as u8))
    } else {
        Err(Bad)
    }
}
fn x(n: u64) -> Result<Opnd, Bad> {
    if n < 16 {
        Ok(Opnd::X(n as u8))
    } else {
        Err(Bad)
    }
}
fn m(size: u8, s: &SMem, rel: i64) -> Result<Opnd, Bad> {
    let base = match s.base {
        n @ 0..=15 => Base::Reg(n as u8),
        16 => Base::Rip,
        _ => return Err(Bad),
    };
    let index = match s.index {
        None => None,
        Some((r, sc)) => {
            // rsp cannot be an index; rip-relative addressing has no index
            if r > 15 || r == 4 || base == Base::Rip || ![1, 2, 4, 8].contains(&sc) {
                return Err(Bad);
            }
            Some((r as u8, sc))
        }
    };
    let disp = match s.disp {
        SDisp::N(d) => {
            if i32::try_from(d).is_err() {
                return Err(Bad);
            }
            d
        }
        SDisp::L => rel,
    };
    Ok(Opnd::M(size, Mem { base, index, disp }))
}

#[derive(PartialEq)]
enum Rng {
    Must,
    May,
    No,
}

/// Immediate `v` for an operand of `size` bytes (imm at most 32 bits, sign-extended).
fn imm_range(v: i64, size: u8) -> Rng {
    match size {
        8 => {
            if i32::try_from(v).is_ok() {
                Rng::Must
            } else {
                Rng::No
            }
        }
        s => {
            let bits = s as u32 * 8;
            let (lo, hi) = (-(1i64 << (bits - 1)), (1i64 << (bits - 1)) - 1);
            if (lo..=hi).contains(&v) {
                Rng::Must
            } else if (0..1i64 << bits).contains(&v) {
                // same bit pattern as an unsigned number of that width
                Rng::May
            } else {
                Rng::No
            }
        }
    }
}

fn with_imm(i: Instr, r: Rng) -> Result<Verdict, Bad> {
    match r {
        Rng::Must => Ok(Verdict::Must(i)),
        Rng::May => Ok(Verdict::May(i)),
        Rng::No => Err(Bad),
    }
}

fn verdict_k(k: Kind, ops: &[SOp], rel: i64) -> Result<Verdict, Bad> {
    use SOp::*;
    let must = |op: Op, o: &[Opnd]| Ok(Verdict::Must(Instr::new(op, o)));
    let rm = |s: u8, o: &SOp| match o {
        G(n) => g(s, *n),
        M(mm) => m(s, mm, rel),
        _ => Err(Bad),
    };
    let xm = |s: u8, o: &SOp| match o {
        X(n) => x(*n),
        M(mm) => m(s, mm, rel),
        _ => Err(Bad),
    };
    match (k, ops) {
        (Kind::Mov(8), [X(a), G(b)]) => must(Op::Movq, &[x(*a)?, g(8, *b)?]),
        (Kind::Mov(8), [G(a), X(b)]) => must(Op::Movq, &[g(8, *a)?, x(*b)?]),
        (Kind::Mov(8), [X(a), X(b)]) => must(Op::Movq, &[x(*a)?, x(*b)?]),
        (Kind::Mov(8), [X(a), M(b)]) => must(Op::Movq, &[x(*a)?, m(8, b, rel)?]),
        (Kind::Mov(8), [M(a), X(b)]) => must(Op::Movq, &[m(8, a, rel)?, x(*b)?]),
        (Kind::Mov(8), [G(a), I(v)]) => must(Op::Mov, &[g(8, *a)?, Opnd::I(*v)]),
        (Kind::Mov(s), [d @ (G(_) | M(_)), I(v)]) => {
            with_imm(Instr::new(Op::Mov, &[rm(s, d)?, Opnd::I(*v)]), imm_range(*v, s))
        }
        (Kind::Mov(s), [d, G(r)]) => must(Op::Mov, &[rm(s, d)?, g(s, *r)?]),
        (Kind::Mov(s), [G(r), M(mm)]) => must(Op::Mov, &[g(s, *r)?, m(s, mm, rel)?]),
        (Kind::MovX(op, ss), [G(d), s]) => must(op, &[g(8, *d)?, rm(ss, s)?]),
        (Kind::Alu(a, s), [d @ (G(_) | M(_)), I(v)]) => with_imm(
            Instr::new(Op::Alu(a), &[rm(s, d)?, Opnd::I(*v)]),
            imm_range(*v, s),
        ),
        (Kind::Alu(a, s), [d, G(r)]) => must(Op::Alu(a), &[rm(s, d)?, g(s, *r)?]),
        (Kind::Alu(a, s), [G(r), M(mm)]) => must(Op::Alu(a), &[g(s, *r)?, m(s, mm, rel)?]),
        (Kind::Xchg(s), [a @ (G(_) | M(_)), G(b)]) => must(Op::Xchg, &[rm(s, a)?, g(s, *b)?]),
        (Kind::Xchg(s), [G(a), M(b)]) => must(Op::Xchg, &[g(s, *a)?, m(s, b, rel)?]),
        (Kind::Neg, [a]) => must(Op::Neg, &[rm(8, a)?]),
        (Kind::Shift(o, s), [d, I(v)]) => {
            let r = if (0..(s as i64) * 8).contains(v) {
                Rng::Must
            } else if (-128..256).contains(v) {
                Rng::May
            } else {
                Rng::No
            };
            with_imm(
                Instr::new(Op::Shift(o), &[rm(s, d)?, Opnd::I(*v as u8 as i64)]),
                r,
            )
        }
        (Kind::Shift(o, s), [d, G(1)]) => must(Op::Shift(o), &[rm(s, d)?, Opnd::R(1, 1)]),
        (Kind::Imul, [G(d), s @ (G(_) | M(_))]) => must(Op::Imul, &[g(8, *d)?, rm(8, s)?]),
        (Kind::Div(o, s), [a]) => must(o, &[rm(s, a)?]),
        (Kind::Lea, [G(d), M(s)]) => must(Op::Lea, &[g(8, *d)?, m(0, s, rel)?]),
        (Kind::Test(s), [d @ (G(_) | M(_)), I(v)]) => with_imm(
            Instr::new(Op::Test, &[rm(s, d)?, Opnd::I(*v)]),
            imm_range(*v, s),
        ),
        (Kind::Test(s), [d, G(r)]) => must(Op::Test, &[rm(s, d)?, g(s, *r)?]),
        (Kind::Set(c), [d]) => must(Op::Set(c), &[rm(1, d)?]),
        (Kind::Cmov(c, s), [G(d), r]) => must(Op::Cmov(c), &[g(s, *d)?, rm(s, r)?]),
        (Kind::Nullary(o), []) => must(o, &[]),
        (Kind::Movsd, [X(d), s]) => must(Op::Movsd, &[x(*d)?, xm(8, s)?]),
        (Kind::Movsd, [M(d), X(s)]) => must(Op::Movsd, &[m(8, d, rel)?, x(*s)?]),
        (Kind::Sd(o), [X(d), s]) => must(Op::Sse(o), &[x(*d)?, xm(8, s)?]),
        (Kind::Pd(o), [X(d), s]) => must(Op::Sse(o), &[x(*d)?, xm(16, s)?]),
        (Kind::Roundpd, [X(d), s, I(v)]) => with_imm(
            Instr::new(Op::Sse(Sse::Roundpd), &[x(*d)?, xm(16, s)?, Opnd::I(*v)]),
            if (0..256).contains(v) { Rng::Must } else { Rng::No },
        ),
        (Kind::Cvtsi2sdq, [X(d), s]) => must(Op::Cvtsi2sd, &[x(*d)?, rm(8, s)?]),
        (Kind::Cvttsd2siq, [G(d), s]) => must(Op::Cvttsd2si, &[g(8, *d)?, xm(8, s)?]),
        (Kind::Push, [a]) => must(Op::Push, &[rm(8, a)?]),
        (Kind::Pop, [a]) => must(Op::Pop, &[rm(8, a)?]),
        (Kind::Jmp, [L]) => must(Op::Jmp, &[Opnd::Rel(rel)]),
        (Kind::Jmp, [a]) => must(Op::Jmp, &[rm(8, a)?]),
        (Kind::Call, [L]) => must(Op::Call, &[Opnd::Rel(rel)]),
        (Kind::Call, [I(v)]) => with_imm(
            Instr::new(Op::Call, &[Opnd::Rel(*v)]),
            if i32::try_from(*v).is_ok() { Rng::Must } else { Rng::No },
        ),
        (Kind::Call, [a]) => must(Op::Call, &[rm(8, a)?]),
        (Kind::Jcc(c), [L]) => must(Op::Jcc(c), &[Opnd::Rel(rel)]),
        (Kind::Cnt(o, s), [G(d), r]) => must(o, &[g(s, *d)?, rm(s, r)?]),
        _ => Err(Bad),
    }
}

/// Which property a mnemonic belongs to.
pub fn is_fp(k: Kind, f: &[C]) -> bool {
    matches!(
        k,
        Kind::Movsd | Kind::Sd(_) | Kind::Pd(_) | Kind::Roundpd | Kind::Cvtsi2sdq | Kind::Cvttsd2siq
    ) || f.contains(&C::X)
}
pub fn is_cond(k: Kind) -> bool {
    matches!(k, Kind::Set(_) | Kind::Cmov(..) | Kind::Jcc(_))
}
