//! Run-time parameterised `monoasm!` lines (generated by build.rs).
#![allow(unused_variables)]
use monoasm::*;
use monoasm_macro::monoasm;
use oracle::spec::{SDisp, SMem, SOp};

/// Run-time parameters of a template.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct P {
    pub a: u64,
    pub b: u64,
    pub xa: u64,
    pub xb: u64,
    pub base: u64,
    pub index: u64,
    pub disp: i32,
    pub imm: i64,
    pub label: DestLabel,
}

/// Addressing shape.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Mm {
    B,
    Bd,
    Bn,
    Bi,
    Bis(u8),
    Bisd(u8),
    Bisn(u8),
    Rip,
    Ripd,
    Ripn,
    Ripl,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum O {
    Ga,
    Gb,
    Gn(u64),
    Xa,
    Xb,
    I,
    L,
    M(Mm),
}

pub struct T {
    pub id: usize,
    pub mn: &'static str,
    pub src: &'static str,
    pub ops: &'static [O],
    pub f: fn(&mut JitMemory, &P),
}

impl O {
    pub fn sop(&self, p: &P) -> SOp {
        match *self {
            O::Ga => SOp::G(p.a),
            O::Gb => SOp::G(p.b),
            O::Gn(n) => SOp::G(n),
            O::Xa => SOp::X(p.xa),
            O::Xb => SOp::X(p.xb),
            O::I => SOp::I(p.imm),
            O::L => SOp::L,
            O::M(m) => SOp::M(m.smem(p)),
        }
    }
}

impl Mm {
    pub fn smem(&self, p: &P) -> SMem {
        let d = p.disp as i64;
        let (base, index, disp) = match *self {
            Mm::B => (p.base, None, SDisp::N(0)),
            Mm::Bd => (p.base, None, SDisp::N(d)),
            Mm::Bn => (p.base, None, SDisp::N(-d)),
            Mm::Bi => (p.base, Some((p.index, 1)), SDisp::N(0)),
            Mm::Bis(s) => (p.base, Some((p.index, s)), SDisp::N(0)),
            Mm::Bisd(s) => (p.base, Some((p.index, s)), SDisp::N(d)),
            Mm::Bisn(s) => (p.base, Some((p.index, s)), SDisp::N(-d)),
            Mm::Rip => (16, None, SDisp::N(0)),
            Mm::Ripd => (16, None, SDisp::N(d)),
            Mm::Ripn => (16, None, SDisp::N(-d)),
            Mm::Ripl => (16, None, SDisp::L),
        };
        SMem { base, index, disp }
    }
    pub fn has_index(&self) -> bool {
        matches!(self, Mm::Bi | Mm::Bis(_) | Mm::Bisd(_) | Mm::Bisn(_))
    }
    pub fn has_base(&self) -> bool {
        !matches!(self, Mm::Rip | Mm::Ripd | Mm::Ripn | Mm::Ripl)
    }
    pub fn has_disp(&self) -> bool {
        matches!(
            self,
            Mm::Bd | Mm::Bn | Mm::Bisd(_) | Mm::Bisn(_) | Mm::Ripd | Mm::Ripn
        )
    }
}

impl T {
    pub fn sops(&self, p: &P) -> Vec<SOp> {
        self.ops.iter().map(|o| o.sop(p)).collect()
    }
    pub fn mem(&self) -> Option<Mm> {
        self.ops.iter().find_map(|o| match o {
            O::M(m) => Some(*m),
            _ => None,
        })
    }
    pub fn uses_label(&self) -> bool {
        self.ops.contains(&O::L) || self.mem() == Some(Mm::Ripl)
    }
    pub fn has_imm(&self) -> bool {
        self.ops.iter().any(|o| matches!(o, O::I))
    }
    /// The source line with the parameters filled in.
    pub fn text(&self, p: &P) -> String {
        let mut s = format!("{} {}", self.mn, self.src);
        for (k, v) in [
            ("p.base", p.base.to_string()),
            ("p.index", p.index.to_string()),
            ("p.disp", p.disp.to_string()),
            ("p.imm", p.imm.to_string()),
            ("p.xa", p.xa.to_string()),
            ("p.xb", p.xb.to_string()),
            ("p.a", p.a.to_string()),
            ("p.b", p.b.to_string()),
        ] {
            s = s.replace(&format!("({k}"), &format!("({v}"));
        }
        s
    }
}

fn nothing(_: &mut JitMemory, _: &P) {}

// TEMPLATES: the lines that compile; REFUSED: those the compiler refused
include!(concat!(env!("OUT_DIR"), "/gen.rs"));

pub fn by_id(id: usize) -> Option<&'static T> {
    TEMPLATES
        .binary_search_by_key(&id, |t| t.id)
        .ok()
        .map(|i| &TEMPLATES[i])
}

/// Assemble one of the harness's own blocks; false if the compiler refuses it.
pub fn block(name: &str, jit: &mut JitMemory, label: DestLabel, imm: i64) -> bool {
    let b = BLOCKS.iter().find(|b| b.0 == name).expect("no such block");
    let p = P { a: 0, b: 0, xa: 0, xb: 0, base: 0, index: 0, disp: 0, imm, label };
    match b.1 {
        Some(f) => {
            f(jit, &p);
            true
        }
        None => false,
    }
}
