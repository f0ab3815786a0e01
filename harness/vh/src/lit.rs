//! Source-level campaign: generated `monoasm!` blocks with every spelling of operands are compiled
//! against the crate under test, run (assembling only) and judged by the independent decoder.
//! Decides C11, C12, the compile-time part of C13 and the spelled-out part of C01-C05.
use crate::common::*;
use crate::tm;
use oracle::decode::decode;
use oracle::inst::{canon, Instr, Op, Opnd, R64};
use oracle::spec::*;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::process::Command;

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C11", "C12", "C13", "C18"];

// ------------------------------------------------------------------ random source

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng(seed)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn n(&mut self, n: usize) -> usize {
        (self.u64() >> 16) as usize % n.max(1)
    }
    pub fn one<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.n(v.len());
        &v[i]
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.n(b) < a
    }
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, PartialEq)]
enum D {
    None,
    N(i64),
    L(usize),
}
/// An operand by meaning.
#[derive(Clone, Debug, PartialEq)]
enum Val {
    G(u64),
    /// register that has to be written by name
    Gname(u64),
    Cl,
    X(u64),
    I(i64),
    L(usize),
    M { base: u64, index: Option<(u64, u8)>, disp: D },
}
/// Meaning plus the choice of spelling; spelling 0 is the plainest one.
#[derive(Clone, Debug, PartialEq)]
struct Oper {
    v: Val,
    sp: [u32; 3],
}
#[derive(Clone, Debug, PartialEq)]
enum Line {
    Ins(String, Vec<Oper>),
    Bind(usize),
    Dq(String, [u8; 8]),
    /// text as is; nothing known about it
    Raw(String),
}
#[derive(Clone, Debug, PartialEq)]
enum Expect {
    Accept,
    Refuse,
    /// refused is right, accepted with exactly this meaning is a recorded finding
    RefuseOr(&'static str, Vec<Instr>),
    /// documented instruction: refusal is the recorded finding
    Documented(&'static str, Vec<Instr>),
}
#[derive(Clone, Debug, PartialEq)]
struct Case {
    lines: Vec<Line>,
    labels: usize,
    /// variable names to use, in order; empty: v0, v1, ...
    names: Vec<String>,
    /// how the code memory is named in the macro call
    base: u32,
    /// wrap every expression in an evaluation counter
    count: bool,
    expect: Expect,
}

struct Ctx<'a> {
    decl: String,
    nvar: usize,
    names: &'a [String],
    count: bool,
    ticks: usize,
    /// the first operand of the line is a general register
    reg_first: bool,
    tiny: bool,
    /// the block stands in a method: some values are fields of `self`
    method: usize,
    line: usize,
}
impl Ctx<'_> {
    fn name(&mut self) -> String {
        let i = self.nvar;
        self.nvar += 1;
        // (the last three name the labels and the code memory)
        match self.names.get(i) {
            Some(n) if i + 3 < self.names.len() => n.clone(),
            _ => format!("v{i}"),
        }
    }
    fn var(&mut self, ty: &str, val: String) -> String {
        if self.method > 0 && self.nvar % 2 == 1 && ty != "bool" {
            self.nvar += 1;
            self.method += 1;
            self.decl += &format!("self.v.push({val}); ");
            return format!("(self.v[{}] as {ty})", self.method - 2);
        }
        let n = self.name();
        self.decl += &format!("let {n}: {ty} = {val}; ");
        n
    }
}

const TYPES: &[(&str, i128, i128)] = &[
    ("i64", i64::MIN as i128, i64::MAX as i128),
    ("i32", i32::MIN as i128, i32::MAX as i128),
    ("i16", i16::MIN as i128, i16::MAX as i128),
    ("i8", -128, 127),
    ("isize", i64::MIN as i128, i64::MAX as i128),
    ("u64", 0, u64::MAX as i128),
    ("u32", 0, u32::MAX as i128),
    ("u16", 0, 65535),
    ("u8", 0, 255),
    ("usize", 0, u64::MAX as i128),
    ("i128", i128::MIN, i128::MAX),
    ("u128", 0, i128::MAX),
];
fn fits(ty: usize, v: i128) -> bool {
    (TYPES[ty].1..=TYPES[ty].2).contains(&v)
}
fn pick_type(r: &mut Rng, v: i128) -> usize {
    loop {
        let t = r.n(TYPES.len());
        if fits(t, v) {
            return t;
        }
    }
}
fn plain(v: i128) -> String {
    v.to_string()
}

/// A non-negative integer literal.
fn literal(v: u64, sp: u32, suffix: bool) -> String {
    if sp == 0 {
        return v.to_string();
    }
    let mut r = Rng::new(sp as u64);
    let mut s = match r.n(6) {
        0 => v.to_string(),
        1 => format!("{v:#x}"),
        2 => format!("0x{v:X}"),
        3 => format!("{v:#o}"),
        4 => format!("{v:#b}"),
        _ => {
            let d = v.to_string();
            let mut o = String::new();
            for (i, c) in d.chars().enumerate() {
                if i > 0 && (d.len() - i) % 3 == 0 {
                    o.push('_');
                }
                o.push(c);
            }
            o
        }
    };
    if r.chance(1, 5) {
        s.push('_');
    }
    if suffix && r.chance(1, 3) {
        let t = pick_type(&mut r, v as i128);
        s += TYPES[t].0;
    }
    s
}

/// A Rust expression (without the parentheses) with value `v`; `ty` fixes the type.
fn expr(c: &mut Ctx, v: i128, sp: u32, ty: Option<usize>) -> String {
    let mut r = Rng::new(sp as u64 ^ 0x5555);
    let t = match ty {
        Some(t) => t,
        None => pick_type(&mut r, v),
    };
    let tn = TYPES[t].0;
    let signed = TYPES[t].1 < 0;
    if c.tiny || sp == 0 {
        // plainest: a variable when counting or named, else the number
        let e = if c.names.is_empty() && !fits(0, v) {
            format!("{v}{tn}")
        } else if c.names.is_empty() {
            plain(v)
        } else { c.var(tn, plain(v)) };
        return tick(c, e, tn);
    }
    let k = (r.n(100) as i128) - 50;
    let e = match r.n(34) {
        0 => {
            let suf = if r.chance(1, 2) || !fits(0, v) { tn } else { "" };
            if v < 0 {
                format!("-{}{suf}", -v)
            } else {
                format!("{v}{suf}")
            }
        }
        1 | 2 => c.var(tn, plain(v)),
        3 if fits(t, v - k) && fits(t, k) => {
            let n = c.var(tn, plain(v - k));
            format!("{n} + {}", if k < 0 { format!("({k})") } else { plain(k) })
        }
        4 if fits(t, v + k) && fits(t, k) => {
            let a = c.var(tn, plain(v + k));
            let b = c.var(tn, plain(k));
            format!("{a} - {b}")
        }
        5 if fits(t, 2) && v % 2 == 0 => {
            let a = c.var(tn, plain(v / 2));
            format!("{a} * 2")
        }
        6 => {
            let a = c.var(tn, plain(v));
            format!("{{ let t = {a}; t }}")
        }
        7 => {
            let a = c.var(tn, plain(v));
            let b = c.var("bool", "true".into());
            format!("if {b} {{ {a} }} else {{ 1 }}")
        }
        8 => {
            let a = c.var(tn, plain(v));
            format!("ident({a})")
        }
        9 => {
            // a cast from another type
            let t2 = pick_type(&mut r, v);
            let a = c.var(TYPES[t2].0, plain(v));
            format!("{a} as {tn}")
        }
        10 if signed && fits(t, -v) => {
            let a = c.var(tn, plain(-v));
            format!("-{a}")
        }
        11 if signed && fits(t, !v) => {
            let a = c.var(tn, plain(!v));
            format!("!{a}")
        }
        12 if fits(t, v & !0xf) && fits(t, v & 0xf) => {
            let a = c.var(tn, plain(v & !0xf));
            format!("{a} | {}", v & 0xf)
        }
        13 => {
            let n = c.name();
            c.decl += &format!("let {n}: [{tn}; 3] = [1, {v}, 2]; ");
            format!("{n}[1]")
        }
        14 => {
            let n = c.name();
            c.decl += &format!("let {n}: (u8, {tn}) = (7, {v}); ");
            format!("{n}.1")
        }
        15 => {
            let a = c.var(tn, plain(v));
            format!("match {a} {{ q => q }}")
        }
        17 => {
            let a = c.var(tn, plain(v));
            format!("(|| {a})()")
        }
        18 => format!("{{ const K: {tn} = {v}; K }}"),
        19 => {
            let a = c.var(tn, plain(v));
            format!("Some({a}).unwrap()")
        }
        20 => {
            let a = c.var(tn, plain(v));
            format!("Wrap {{ q: {a} }}.q")
        }
        21 => {
            let a = c.var(tn, plain(v));
            format!("if let Some(q) = Some({a}) {{ q }} else {{ return }}")
        }
        22 => {
            let a = c.var(tn, plain(v));
            format!("loop {{ break {a} }}")
        }
        23 => {
            let a = c.var(tn, plain(v));
            format!("({a}, 1u8).0")
        }
        24 if v > 0 => {
            let a = c.var(tn, plain(TYPES[t].2 - v));
            format!("{} - {a}", if tn == "u128" { "i128::MAX as u128".to_string() } else { format!("{tn}::MAX") })
        }
        25 => {
            let a = c.var(tn, plain(v));
            format!("ident::<{tn}>({a})")
        }
        26 => {
            let a = c.var(tn, plain(v));
            format!("vec![{a}, 0].into_iter().max_by_key(|q| *q == {a}).unwrap()")
        }
        27 => {
            let a = c.var(tn, plain(v));
            format!("unsafe {{ *(&{a} as *const {tn}) }}")
        }
        28 if v >= 0 && v < 100 => format!("[0u8; {v}].len() as {tn}"),
        29 => {
            let n = c.name();
            c.decl += &format!("let mut {n}: {tn} = 0; ");
            format!("{{ {n} = {v}; {n} }}")
        }
        30 => {
            let a = c.var(tn, plain(v));
            format!("{a}.clone()")
        }
        31 => {
            let n = c.name();
            c.decl += &format!("let {n} = |q: {tn}| q; ");
            format!("{n}({})", plain(v))
        }
        32 => {
            let n = c.name();
            c.decl += &format!("let {n}: &{tn} = &{}; ", plain(v));
            format!("*{n}")
        }
        33 if fits(t, v ^ 5) => {
            let a = c.var(tn, plain(v ^ 5));
            format!("{a} ^ 5")
        }
        16 if v % 8 == 0 && v / 8 > 0 && fits(t, v / 8) => {
            let a = c.var(tn, plain(v / 8));
            format!("{a} << 3")
        }
        _ => {
            let a = c.var(tn, plain(v));
            format!("*&{a}")
        }
    };
    tick(c, e, tn)
}
fn tick(c: &mut Ctx, e: String, tn: &str) -> String {
    if c.count {
        let k = c.ticks;
        c.ticks += 1;
        format!("tick::<{tn}>({k}, {}, {e})", c.line)
    } else {
        e
    }
}

fn cased(s: &str, sp: u32) -> String {
    match sp % 4 {
        0 | 1 => s.to_string(),
        2 => s.to_uppercase(),
        _ => s.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect(),
    }
}

fn reg(c: &mut Ctx, n: u64, sp: u32) -> String {
    if c.count || (sp != 0 && sp % 3 == 0) {
        let e = expr(c, n as i128, sp / 3, Some(5));
        format!("R({e})")
    } else if n == 16 {
        cased("rip", sp)
    } else {
        cased(R64[n as usize & 15], sp / 3)
    }
}

fn spell(c: &mut Ctx, o: &Oper, mn: &str) -> String {
    match &o.v {
        Val::G(n) => reg(c, *n, o.sp[0]),
        Val::Gname(n) => cased(R64[*n as usize & 15], o.sp[0]),
        Val::Cl => {
            if c.count && o.sp[0] % 2 == 1 {
                reg(c, 1, o.sp[0])
            } else {
                ["cl", "cl", "rcx", "R(1)", "CL"][if c.tiny { 0 } else { o.sp[0] as usize % 5 }].to_string()
            }
        }
        Val::X(n) => {
            if c.count || (o.sp[0] != 0 && o.sp[0] % 3 == 0) {
                let e = expr(c, *n as i128, o.sp[0] / 3, Some(5));
                format!("xmm({e})")
            } else {
                format!("xmm{n}")
            }
        }
        Val::I(v) => {
            let qword = c.reg_first && mn == "movq" && o.sp[1] % 7 == 3;
            let lit_ok = *v >= 0 && mn != "call";
            let s = if !c.count && lit_ok && (o.sp[0] == 0 || o.sp[0] % 2 == 1) {
                literal(*v as u64, o.sp[0] / 2, true)
            } else if !c.count && !c.tiny && mn == "movq" && c.reg_first && *v < 0 && o.sp[2] % 5 == 3 {
                // the same 64 bits as an unsigned literal
                let l = literal(*v as u64, o.sp[0] / 2, false);
                format!("{l}u64")
            } else if mn == "movq" && *v < 0 && o.sp[2] % 5 == 4 {
                // the same 64 bits as an unsigned number
                let e = expr(c, *v as u64 as i128, o.sp[0], Some(5));
                format!("({e})")
            } else {
                let e = expr(c, *v as i128, o.sp[0], None);
                format!("({e})")
            };
            if qword {
                format!("qword {s}")
            } else {
                s
            }
        }
        Val::L(i) => label_name(c, *i),
        Val::M { base, index, disp } => {
            let b = if *base == 16 { cased("rip", o.sp[0]) } else { reg(c, *base, o.sp[0]) };
            let mut s = format!("[{b}");
            if let Some((x, sc)) = index {
                let xs = reg(c, *x, o.sp[1]);
                s += &format!(" + {xs}");
                if *sc != 1 || o.sp[2] % 2 == 1 {
                    let k = o.sp[1] / 7;
                    s += &format!(" * {}", literal(*sc as u64, if c.tiny || k % 3 != 1 { 0 } else { k }, true));
                }
            }
            match disp {
                D::None => {}
                D::L(i) => s += &format!(" + {}", label_name(c, *i)),
                D::N(d) => {
                    let sp = o.sp[2] / 4;
                    // -2^31 can be subtracted only as a literal
                    let plain = !c.count && (sp == 0 || sp % 2 == 1);
                    let neg_ok = (*d > i32::MIN as i64 || plain && *d == i32::MIN as i64) && *d <= i32::MAX as i64;
                    let minus = neg_ok && (o.sp[2] / 2) % 2 == 1;
                    let v = if minus { -*d } else { *d };
                    let e = if plain && v >= 0 && (v <= i32::MAX as i64 || minus) {
                        literal(v as u64, sp / 2, true)
                    } else {
                        let e = expr(c, v as i128, sp, None);
                        format!("({e})")
                    };
                    s += &format!(" {} {e}", if minus { "-" } else { "+" });
                }
            }
            s + "]"
        }
    }
}
fn label_name(c: &Ctx, i: usize) -> String {
    // labels take names from the end of the list
    if c.names.is_empty() {
        format!("lbl{i}")
    } else {
        c.names[c.names.len() - 2 - i].clone()
    }
}

/// The function for one case, on one line.
fn render(case: &Case, id: usize, tiny: bool) -> String {
    let mut c = Ctx { decl: String::new(), nvar: 0, names: &case.names, count: case.count, ticks: 0, reg_first: false, tiny, method: (case.base % 4 == 3) as usize, line: 0 };
    let mut body = String::new();
    for l in &case.lines {
        c.line += 1;
        match l {
            Line::Ins(mn, ops) => {
                c.reg_first = matches!(ops.first(), Some(Oper { v: Val::G(_), .. }));
                let o: Vec<String> = ops.iter().map(|o| spell(&mut c, o, mn)).collect();
                body += &format!("{mn} {}; ", o.join(", "));
            }
            Line::Bind(i) => body += &format!("{}: ", label_name(&c, *i)),
            Line::Dq(t, _) => body += &format!("dq {t}; "),
            Line::Raw(t) => body += &format!("{t} "),
        }
    }
    let j = if case.names.is_empty() { "jit".to_string() } else { case.names.last().unwrap().clone() };
    let mut labels = String::new();
    for i in 0..case.labels {
        labels += &format!("let {} = {j}.label(); ", label_name(&c, i));
    }
    let style = case.base % 4;
    let (make, base, done) = match style {
        0 => (format!("let mut {j} = JitMemory::new(); "), format!("&mut {j}"), format!("&mut {j}")),
        1 => (
            format!("let mut owned_ = JitMemory::new(); {{ let {j} = &mut owned_; "),
            format!("&mut *{j}"),
            "&mut owned_".to_string(),
        ),
        2 => (format!("let mut {j} = Holder {{ m: JitMemory::new(), v: vec![] }}; "), format!("&mut {j}.m"), format!("&mut {j}.m")),
        _ => (
            "let mut owned_ = Holder { m: JitMemory::new(), v: vec![] }; trait Go_ { fn go(&mut self); } impl Go_ for Holder { fn go(&mut self) { ".to_string(),
            "&mut self.m".to_string(),
            "&mut owned_.m".to_string(),
        ),
    };
    let labels = match style {
        2 => labels.replace(&format!("{j}.label()"), &format!("{j}.m.label()")),
        3 => labels.replace(&format!("{j}.label()"), "self.m.label()"),
        _ => labels,
    };
    let close = ["", "} ", "", "} } owned_.go(); "][style as usize];
    // the expression for the code memory counts as well
    let base = if case.count && c.ticks % 3 == 1 {
        c.ticks += 1;
        format!("tick({}, 0, {base})", c.ticks - 1)
    } else {
        base
    };
    // the place the block stands in
    let block = match case.base / 4 % 7 {
        1 => format!("for _ in 0..1 {{ monoasm!{{ {base}, {body}}} }} "),
        2 => format!("let mut f_ = || {{ monoasm!{{ {base}, {body}}} }}; f_(); "),
        3 => format!("macro_rules! tt_ {{ ($($t:tt)*) => {{ monoasm!{{ $($t)* }} }} }} tt_!{{ {base}, {body}}} "),
        4 => format!("match 1 {{ 1 => monoasm!( {base}, {body}), _ => () }} "),
        5 => format!("loop {{ if true {{ unsafe {{ monoasm!{{ {base}, {body}}} }} }} break; }} "),
        6 => format!("macro_rules! ex_ {{ ($j:expr; $($t:tt)*) => {{ monoasm!($j, $($t)*) }} }} ex_!({base}; {body}); "),
        _ => format!("monoasm!{{ {base}, {body}}} "),
    };
    format!("fn c{id}() {{ {make}{labels}{}{block}{close}out({done}, {}); }}", c.decl, c.ticks)
}

fn text(case: &Case) -> String {
    render(case, 0, false)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Bytes(Vec<u8>, Vec<u32>),
    Panic(String),
    Refused(String),
    /// not looked at, because too many others of its group killed the process
    Skipped,
}

// ------------------------------------------------------------------ judging

fn sop(v: &Val) -> SOp {
    match v {
        Val::G(n) | Val::Gname(n) => SOp::G(*n),
        Val::Cl => SOp::G(1),
        Val::X(n) => SOp::X(*n),
        Val::I(v) => SOp::I(*v),
        Val::L(_) => SOp::L,
        Val::M { base, index, disp } => SOp::M(SMem {
            base: *base,
            index: *index,
            disp: match disp {
                D::None => SDisp::N(0),
                D::N(d) => SDisp::N(*d),
                D::L(_) => SDisp::L,
            },
        }),
    }
}
fn label_of(ops: &[Oper]) -> Option<usize> {
    ops.iter().find_map(|o| match &o.v {
        Val::L(i) => Some(*i),
        Val::M { disp: D::L(i), .. } => Some(*i),
        _ => None,
    })
}

/// Bytes of an accepted block against the meaning of its lines.
fn judge_bytes(case: &Case, bytes: &[u8]) -> Result<(), String> {
    // first pass: instruction boundaries
    let mut at = 0usize;
    let mut ends = vec![];
    let mut lab: BTreeMap<usize, usize> = BTreeMap::new();
    let mut got = vec![];
    for l in &case.lines {
        match l {
            Line::Bind(i) => {
                lab.insert(*i, at);
                got.push(None);
            }
            Line::Dq(t, w) => {
                if bytes.len() < at + 8 || bytes[at..at + 8] != w[..] {
                    return Err(format!("`dq {t}` stores [{}], expected [{}]", hex(&bytes[at.min(bytes.len())..(at + 8).min(bytes.len())]), hex(w)));
                }
                at += 8;
                got.push(None);
            }
            _ => match decode(&bytes[at..]) {
                Ok((i, n)) => {
                    at += n;
                    got.push(Some(i));
                }
                Err(e) => return Err(format!("bytes [{}] are not a valid instruction ({e:?})", hex(&bytes[at..]))),
            },
        }
        ends.push(at);
    }
    if at != bytes.len() {
        return Err(format!("[{}]: {} bytes beyond the written instructions", hex(bytes), bytes.len() - at));
    }
    for (k, l) in case.lines.iter().enumerate() {
        if let Line::Ins(mn, ops) = l {
            let rel = match label_of(ops).and_then(|i| lab.get(&i)) {
                Some(p) => *p as i64 - ends[k] as i64,
                None => 0,
            };
            let s: Vec<SOp> = ops.iter().map(|o| sop(&o.v)).collect();
            let want = match verdict(mn, &s, rel) {
                Verdict::Must(i) | Verdict::May(i) => i,
                Verdict::Reject => return Err("harness: line has no meaning".into()),
            };
            let g = got[k].as_ref().unwrap();
            if canon(g) != canon(&want) {
                let st = if k == 0 { 0 } else { ends[k - 1] };
                return Err(format!("instruction {} of the block: bytes [{}] decode to {g}; expected {want}", k + 1, hex(&bytes[st..ends[k]])));
            }
        }
    }
    Ok(())
}
fn exactly(bytes: &[u8], want: &[Instr]) -> bool {
    matches!(decode(bytes), Ok((g, n)) if n == bytes.len() && want.iter().any(|w| canon(&g) == canon(w)))
}

enum J {
    Ok(&'static str),
    Known(&'static str, String),
    Bad(String),
}
fn judge(case: &Case, o: &Outcome) -> J {
    match (&case.expect, o) {
        (_, Outcome::Skipped) => J::Ok("not run"),
        (Expect::Accept, Outcome::Refused(m)) => J::Bad(format!("refused at compile time: {m}")),
        (Expect::Accept, Outcome::Panic(m)) => J::Bad(format!("refused with panic: {m}")),
        (Expect::Accept, Outcome::Bytes(b, t)) => {
            if let Err(e) = judge_bytes(case, b) {
                return J::Bad(e);
            }
            if let Some(k) = t.iter().position(|n| *n != 1) {
                if t[k] == 1001 {
                    return J::Bad(format!("operand expression number {} is evaluated after one of a later line", k + 1));
                }
                return J::Bad(format!("operand expression number {} is evaluated {} times", k + 1, t[k] % 1000));
            }
            J::Ok("accepted and decoded as written")
        }
        (Expect::Refuse | Expect::RefuseOr(..), Outcome::Refused(_)) => J::Ok("refused at compile time"),
        (Expect::Refuse | Expect::RefuseOr(..), Outcome::Panic(_)) => J::Ok("refused with a panic"),
        (Expect::Refuse, Outcome::Bytes(b, _)) => J::Bad(format!(
            "has no encoding or is malformed but is accepted: bytes [{}] ({})",
            hex(b),
            match decode(b) {
                Ok((i, _)) => i.to_string(),
                Err(e) => format!("{e:?}"),
            }
        )),
        (Expect::RefuseOr(k, w), Outcome::Bytes(b, _)) => {
            if exactly(b, w) {
                J::Known(k, format!("accepted with a changed value: bytes [{}]", hex(b)))
            } else {
                J::Bad(format!("is accepted with bytes [{}], which are neither a refusal nor the recorded finding", hex(b)))
            }
        }
        (Expect::Documented(k, _), Outcome::Refused(m) | Outcome::Panic(m)) => J::Known(k, format!("documented instruction is refused: {m}")),
        (Expect::Documented(_, w), Outcome::Bytes(b, _)) => {
            if exactly(b, w) {
                J::Ok("accepted and decoded as written")
            } else {
                J::Bad(format!("documented instruction assembles to [{}]", hex(b)))
            }
        }
    }
}

// ------------------------------------------------------------------ compiling

const PRELUDE: &str = r#"#![feature(proc_macro_hygiene)]
#![allow(warnings)]
use monoasm::*;
use monoasm_macro::monoasm;
struct Holder { m: JitMemory, v: Vec<i128> }
struct Wrap<T> { q: T }
struct Lazy;
unsafe impl std::alloc::GlobalAlloc for Lazy {
    // (a zeroed block of this size comes fresh from the system: touching all of it would take gigabytes)
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { if l.size() >= 1 << 27 { std::alloc::System.alloc(l) } else { std::alloc::System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) { std::alloc::System.dealloc(p, l) }
}
#[global_allocator]
static LAZY: Lazy = Lazy;
static mut TICKS: [u32; 2048] = [0; 2048];
static mut LINE: usize = 0;
fn tick<T>(k: usize, line: usize, v: T) -> T { unsafe { TICKS[k & 2047] += if line < LINE { 1001 } else { 1 }; LINE = line; } v }
fn ident<T>(v: T) -> T { v }
fn out(j: &mut JitMemory, n: usize) { j.finalize(); let l = j.as_slice().to_vec(); let mut s = String::from("B "); for b in l { s += &format!("{b:02x}"); } s += " |"; for k in 0..n { s += &format!(" {}", unsafe { TICKS[k & 2047] }); } println!("{s}"); }
fn run(id: usize, f: fn()) { unsafe { TICKS = [0; 2048]; LINE = 0; } print!("{id} "); match std::panic::catch_unwind(f) { Ok(()) => {} Err(e) => { let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); println!("P {}", m.replace('\n', " ")) } } }
"#;

fn lines_of_errors(json_text: &str) -> (BTreeMap<usize, String>, Vec<String>) {
    let mut m = BTreeMap::new();
    let mut other = vec![];
    for l in json_text.lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["level"] != "error" {
            continue;
        }
        let msg = v["message"].as_str().unwrap_or("").to_string();
        let mut todo: Vec<Value> = v["spans"].as_array().cloned().unwrap_or_default();
        let mut found = false;
        while let Some(s) = todo.pop() {
            if s["expansion"].is_object() {
                todo.push(s["expansion"]["span"].clone());
            } else if let Some(n) = s["line_start"].as_u64() {
                if s["file_name"].as_str().is_some_and(|f| f.ends_with("gen.rs")) {
                    m.entry(n as usize).or_insert_with(|| msg.clone());
                    found = true;
                }
            }
        }
        if !found && !msg.starts_with("aborting due") {
            other.push(msg);
        }
    }
    (m, other)
}

fn infra(msg: &str) -> ! {
    eprintln!("source-level campaign: {msg}");
    std::process::exit(3)
}

/// Compile and run the functions (named c<index>), each on a line of its own.
fn compile_chunk(dir: &str, srcs: &[String], release: bool) -> Vec<Outcome> {
    std::fs::create_dir_all(dir).unwrap();
    let env = |k: &str| std::env::var(k).unwrap_or_else(|_| infra(&format!("{k} not set")));
    let first = PRELUDE.lines().count() + 1;
    let mut out: Vec<Option<Outcome>> = vec![None; srcs.len()];
    let mut died = 0;
    for round in 0..12 {
        let mut s = PRELUDE.to_string();
        for (i, f) in srcs.iter().enumerate() {
            if out[i].is_none() {
                s += f;
            }
            s.push('\n');
        }
        s += "fn main() { std::panic::set_hook(Box::new(|_| {}));\n";
        for (i, o) in out.iter().enumerate() {
            if o.is_none() {
                s += &format!("run({i}, c{i});\n");
            }
        }
        s += "}\n";
        let f = format!("{dir}/gen.rs");
        let exe = format!("{dir}/gen.exe");
        std::fs::write(&f, s).unwrap();
        let p = Command::new("rustc")
            .args(["--edition", "2021", "--crate-name", "gen", "--crate-type", "bin", "--error-format=json"])
            .args(["-C", "opt-level=0", "-C", "debuginfo=0", "-o", &exe])
            .args(if release { ["-C", "debug-assertions=off"] } else { ["-C", "debug-assertions=on"] })
            .args(["--extern", &format!("monoasm={}", env("VH_MONOASM"))])
            .args(["--extern", &format!("monoasm={}", env("VH_MONOASM").replace(".rlib", ".rmeta"))])
            .args(["--extern", &format!("monoasm_macro={}", env("VH_MACRO"))])
            .args(env("VH_DEPS").split(':').map(|d| format!("-Ldependency={d}")))
            .arg(&f)
            .output()
            .unwrap_or_else(|e| infra(&format!("rustc: {e}")));
        if p.status.success() {
            let r = Command::new(&exe).output().unwrap_or_else(|e| infra(&format!("run: {e}")));
            let _ = std::fs::remove_file(&exe);
            let text = String::from_utf8_lossy(&r.stdout).into_owned();
            let mut last = None;
            for l in text.lines() {
                let mut w = l.splitn(3, ' ');
                let Some(Ok(i)) = w.next().map(|x| x.parse::<usize>()) else { continue };
                let kind = w.next().unwrap_or("");
                let rest = w.next().unwrap_or("");
                if i >= out.len() {
                    continue;
                }
                last = Some(i);
                if kind == "B" {
                    let (h, t) = rest.split_once('|').unwrap_or((rest, ""));
                    let h = h.trim();
                    let b = (0..h.len() / 2).map(|k| u8::from_str_radix(&h[2 * k..2 * k + 2], 16).unwrap()).collect();
                    out[i] = Some(Outcome::Bytes(b, t.split_whitespace().map(|x| x.parse().unwrap()).collect()));
                } else if kind == "P" {
                    out[i] = Some(Outcome::Panic(rest.to_string()));
                }
            }
            if out.iter().all(|o| o.is_some()) {
                return out.into_iter().map(|o| o.unwrap()).collect();
            }
            // the process died: the first case without a line is responsible
            let i = out.iter().position(|o| o.is_none()).unwrap();
            if r.status.success() {
                infra(&format!("case {i} printed nothing (last {last:?})"));
            }
            out[i] = Some(Outcome::Bytes(vec![], vec![]));
            died += 1;
            if died >= 6 {
                return out.into_iter().map(|o| o.unwrap_or(Outcome::Skipped)).collect();
            }
            continue;
        }
        let (lines, other) = lines_of_errors(&String::from_utf8_lossy(&p.stderr));
        let mut progress = false;
        let lines_in_prelude = lines.keys().filter(|l| **l < first).count();
        if lines_in_prelude > 0 && round == 0 {
            infra(&format!("the generated program does not build: {:?}", lines.iter().next()));
        }
        for (l, m) in lines {
            if l >= first && l - first < srcs.len() && out[l - first].is_none() {
                out[l - first] = Some(Outcome::Refused(m));
                progress = true;
            }
        }
        if !progress {
            // a line whose error cannot be located can still be found by halving
            if srcs.len() > 1 {
                let open: Vec<usize> = (0..srcs.len()).filter(|i| out[*i].is_none()).collect();
                let (a, b) = open.split_at(open.len() / 2);
                for part in [a, b] {
                    if part.is_empty() {
                        continue;
                    }
                    let sub: Vec<String> = part.iter().enumerate().map(|(n, i)| srcs[*i].replacen(&format!("fn c{i}("), &format!("fn c{n}("), 1)).collect();
                    for (k, o) in compile_chunk(&format!("{dir}_{round}"), &sub, release).into_iter().enumerate() {
                        out[part[k]] = Some(o);
                    }
                }
                return out.into_iter().map(|o| o.unwrap()).collect();
            }
            if p.status.code().is_some() && lines_in_prelude == 0 && !other.is_empty() {
                return vec![Outcome::Refused(other.join("; "))];
            }
            infra(&format!("rustc died: {}", String::from_utf8_lossy(&p.stderr)));
        }
    }
    infra("compilation did not settle")
}

fn run_cases(dir: &str, cases: &[Case], threads: usize, release: bool) -> Vec<Outcome> {
    let chunk = cases.len().div_ceil(threads).clamp(1, 450);
    let parts: Vec<&[Case]> = cases.chunks(chunk).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let res = std::sync::Mutex::new(vec![None; parts.len()]);
    std::thread::scope(|s| {
        for _ in 0..threads.min(parts.len()) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= parts.len() {
                    break;
                }
                let srcs: Vec<String> = parts[i].iter().enumerate().map(|(k, c)| render(c, k, false)).collect();
                let d = format!("{dir}/p{i}");
                let o = compile_chunk(&d, &srcs, release);
                let _ = std::fs::remove_dir_all(&d);
                res.lock().unwrap()[i] = Some(o);
            });
        }
    });
    res.into_inner().unwrap().into_iter().flat_map(|o| o.unwrap()).collect()
}

// ------------------------------------------------------------------ generators

fn imm_value(r: &mut Rng) -> i64 {
    let b = tm::imm_bounds();
    match r.n(5) {
        0 | 1 => *r.one(&b),
        2 => r.n(300) as i64 - 150,
        3 => r.u64() as i32 as i64,
        _ => (r.u64() as i64) >> r.n(60),
    }
}
fn disp_value(r: &mut Rng) -> i64 {
    let b = tm::disp_bounds();
    match r.n(4) {
        0 | 1 => *r.one(&b),
        2 => r.n(300) as i64 - 150,
        _ if r.chance(1, 12) => i32::MIN as i64,
        _ => ((r.u64() as i32) >> r.n(28)) as i64,
    }
}
fn mem_val(r: &mut Rng, labels: usize) -> Val {
    let shape = r.n(12);
    let base = r.n(16) as u64;
    let mut idx = r.n(15) as u64;
    if idx >= 4 {
        idx += 1;
    }
    let sc = *r.one(&[1u8, 2, 4, 8]);
    match shape {
        0 | 1 => Val::M { base, index: None, disp: D::None },
        2..=4 => Val::M { base, index: None, disp: D::N(disp_value(r)) },
        5 | 6 => Val::M { base, index: Some((idx, sc)), disp: D::None },
        7..=9 => Val::M { base, index: Some((idx, sc)), disp: D::N(disp_value(r)) },
        10 if labels > 0 => Val::M { base: 16, index: None, disp: D::L(r.n(labels)) },
        _ => Val::M { base: 16, index: None, disp: if r.chance(1, 3) { D::None } else { D::N(disp_value(r)) } },
    }
}
fn oper(r: &mut Rng, c: C, k: Kind, labels: usize) -> Oper {
    let v = match c {
        C::G if matches!(k, Kind::Jmp | Kind::Call) => Val::Gname(r.n(16) as u64),
        C::G => Val::G(r.n(16) as u64),
        C::X => Val::X(r.n(16) as u64),
        C::M => mem_val(r, labels),
        C::I => Val::I(imm_value(r)),
        C::Cl => Val::Cl,
        C::L => Val::L(r.n(labels)),
    };
    Oper { v, sp: [r.u64() as u32 >> 4, r.u64() as u32 >> 4, r.u64() as u32 >> 4] }
}
/// A random supported line that must be accepted, from the mnemonics `ok` admits.
fn good_line(r: &mut Rng, pool: &[(String, Kind, Vec<C>)], labels: usize) -> Line {
    loop {
        let (mn, k, f) = r.one(pool);
        let mut ops: Vec<Oper> = f.iter().map(|c| oper(r, *c, *k, labels)).collect();
        for _ in 0..12 {
            let s: Vec<SOp> = ops.iter().map(|o| sop(&o.v)).collect();
            if let Verdict::Must(_) = verdict(mn, &s, 0) {
                return Line::Ins(mn.clone(), ops);
            }
            for o in ops.iter_mut() {
                if let Val::I(v) = &mut o.v {
                    *v = match r.n(4) {
                        0 => imm_value(r),
                        1 => *v as i16 as i64,
                        2 => *v as i8 as i64,
                        _ => r.n(8) as i64,
                    };
                }
            }
        }
    }
}
fn forms_pool(ok: &dyn Fn(&str, Kind, &[C]) -> bool) -> Vec<(String, Kind, Vec<C>)> {
    let mut v = vec![];
    for (mn, k) in mnemonics() {
        for f in forms(k) {
            if ok(&mn, k, &f) {
                v.push((mn.clone(), k, f));
            }
        }
    }
    v
}
fn selected(prop: &str, k: Kind, f: &[C]) -> bool {
    let fp = is_fp(k, f);
    match prop {
        "C01" => !fp,
        "C02" => f.contains(&C::M),
        "C03" => f.contains(&C::I),
        "C04" => fp,
        "C05" => is_cond(k),
        _ => true,
    }
}
fn single(line: Line) -> Case {
    let mut lines = vec![line];
    if let Line::Ins(_, ops) = &lines[0] {
        if label_of(ops).is_some() {
            lines.push(Line::Bind(0));
        }
    }
    Case { lines, labels: 1, names: vec![], base: 0, count: false, expect: Expect::Accept }
}
fn dq_line(r: &mut Rng) -> Line {
    if r.chance(1, 2) {
        let v = (imm_value(r) & i64::MAX) as u64;
        let t = literal(v, r.u64() as u32 >> 4, false);
        Line::Dq(t, v.to_le_bytes())
    } else {
        let f = match r.n(5) {
            0 => f64::from_bits(r.u64() & (i64::MAX as u64)),
            1 => *r.one(&[0.0, 1.5, 0.1, 1e308, 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 123456789.125, 4503599627370497.5]),
            2 => r.n(100000) as f64 / 64.0,
            3 => (r.u64() >> 8) as f64 * 1e-9,
            _ => f64::from_bits((r.u64() & ((1 << 52) - 1)) | (1023 << 52)),
        };
        let f = if f.is_finite() { f } else { 2.5 };
        let mut t = match r.n(3) {
            0 => format!("{f:e}"),
            1 => format!("{f:?}"),
            _ => format!("{f:.1}"),
        };
        if !t.contains('.') && !t.contains('e') {
            t += ".0";
        }
        let v: f64 = t.parse().unwrap();
        Line::Dq(t, v.to_bits().to_le_bytes())
    }
}

/// Names worth giving to the caller's variables: the locals of the macro crate's own code
/// (a fuzzing dictionary), and common ones.
/// Names of the caller's variables: (all, those that the macro's expansion seems to introduce).
fn name_pool() -> (Vec<String>, Vec<String>) {
    let mut hot: Vec<String> = ["imm", "jit", "op1", "op2", "rm_op", "reg"].map(String::from).to_vec();
    let mut v: Vec<String> = "imm jit op1 op2 op3 rm_op reg r1 r2 i op rm base index scale disp label l page pos dest size width cond digit opcode expr ts s a b c x n m val v mem ptr offset src dst tmp res result rel loc addr mode inst asm code buf rax rcx rip xmm0 r8 cl cnt self_ target imm8 imm32 imm64 reg1 reg2"
        .split(' ')
        .map(|s| s.to_string())
        .collect();
    for f in ["asm", "lib", "inst", "parse"] {
        let t = std::fs::read_to_string(format!("/repo/monoasm_macro/src/{f}.rs")).unwrap_or_default();
        let w: Vec<&str> = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).filter(|s| !s.is_empty()).collect();
        for p in w.windows(3) {
            for cand in match p {
                ["let", "mut", x] => vec![*x],
                ["let", x, _] => vec![*x],
                ["Ok", x, _] | ["Some", x, _] => vec![*x],
                _ => vec![],
            } {
                v.push(cand.to_string());
                if f == "asm" || f == "lib" {
                    hot.push(cand.to_string());
                }
            }
        }
    }
    let kw = [
        "as", "break", "const", "continue", "crate", "else", "enum", "extern", "false", "fn", "for", "if", "impl", "in", "let", "loop", "match", "mod", "move", "mut", "pub", "ref", "return", "self", "static", "struct", "super", "trait", "true", "type", "unsafe", "use", "where", "while", "async", "await", "dyn", "box", "macro", "try", "yield", "abstract", "final", "override", "priv", "typeof", "unsized", "virtual", "become", "do", "gen", "_",
        "tick", "ident", "out", "run", "owned_", "t", "q", "f_", "ex_", "tt_",
    ];
    let under: Vec<String> = v.iter().step_by(3).flat_map(|s| [format!("_{s}"), format!("__{s}")]).collect();
    v.extend(under);
    for v in [&mut v, &mut hot] {
        v.retain(|s| s.chars().all(|c| c.is_ascii_lowercase() || c.is_ascii_digit() || c == '_') && s.chars().any(|c| c.is_ascii_lowercase()) && !s.as_bytes()[0].is_ascii_digit() && !kw.contains(&s.as_str()));
        v.sort();
        v.dedup();
    }
    (v, hot)
}
fn is_reg_name(s: &str) -> bool {
    R64.contains(&s) || s == "rip" || s == "cl" || s.starts_with("xmm")
}

fn block_case(r: &mut Rng, pool: &[(String, Kind, Vec<C>)], (names, hot): &(Vec<String>, Vec<String>), count: bool) -> Case {
    let n = if r.chance(1, 80) { 30 + r.n(100) } else { 1 + r.n(5) };
    let labels = 2;
    let mut lines = vec![];
    let mut bound = [false; 2];
    for _ in 0..n {
        if r.chance(1, 6) {
            let i = r.n(2);
            if !bound[i] {
                bound[i] = true;
                lines.push(Line::Bind(i));
            }
        }
        lines.push(good_line(r, pool, labels));
    }
    for (i, b) in bound.iter().enumerate() {
        if !b {
            lines.push(Line::Bind(i));
        }
    }
    let mut nm = names.to_vec();
    for i in (1..nm.len()).rev() {
        nm.swap(i, r.n(i + 1));
    }
    nm.truncate(48);
    // the last three name the labels and the code memory: not register names
    for k in 0..3 {
        let at = nm.len() - 1 - k;
        if is_reg_name(&nm[at]) {
            let good = (0..nm.len() - 3).find(|i| !is_reg_name(&nm[*i])).unwrap();
            nm.swap(at, good);
        }
    }
    // names the macro itself is known to use come first most of the time
    if r.chance(2, 3) {
        for at in 0..1 + r.n(4) {
            let k = r.n(hot.len());
            match nm.iter().position(|x| *x == hot[k]) {
                Some(p) if p < nm.len() - 3 => nm.swap(at, p),
                Some(_) => {}
                None => nm[at] = hot[k].clone(),
            }
        }
    }
    Case { lines, labels, names: nm, base: r.n(28) as u32, count, expect: Expect::Accept }
}

fn bad_mem_text(r: &mut Rng) -> String {
    let n = |r: &mut Rng| R64[r.n(16)].to_string();
    let sizes = ["0", "3", "5", "6", "7", "9", "10", "12", "16", "32", "64", "128", "255"];
    match r.n(16) {
        14 => {
            let far = ["+ 2147483648", "+ 0x8000_0000", "- 2147483649", "- 0x80000001", "+ 4294967295", "- 0xffff_ffff", "+ 4294967296", "- 4294967300", "+ 0x1_0000_0004", "- 0x7fff_ffff_ffff_fff0", "+ 18446744073709551615"];
            match r.n(3) {
                0 => format!("[{} {}]", n(r), r.one(&far)),
                1 => format!("[rip {}]", r.one(&far)),
                _ => format!("[{} + {} * {} {}]", n(r), R64[8 + r.n(8)], r.one(&["1", "2", "4", "8"]), r.one(&far)),
            }
        }
        0 => format!("[{} + {} * {}]", n(r), R64[r.n(4)], r.one(&sizes)),
        1 => format!("[{} + {} * {} + {}]", n(r), R64[8 + r.n(8)], r.one(&sizes), r.n(300)),
        2 => format!("[{} + rsp]", n(r)),
        3 => format!("[{} + rsp * {}]", n(r), r.one(&["1", "2", "4", "8"])),
        4 => format!("[{} + rsp * {} - {}]", n(r), r.one(&["1", "2", "4", "8"]), 1 + r.n(300)),
        5 => format!("[{} + rip]", n(r)),
        6 => format!("[rip + {}]", R64[r.n(16)]),
        7 => format!("[rip + {} * {}]", R64[r.n(4)], r.one(&["1", "2", "4", "8"])),
        8 => format!("[rip + {} * {} + {}]", R64[8 + r.n(8)], r.one(&["1", "2", "4", "8"]), r.n(300)),
        9 => format!("[R(16) + {}]", R64[r.n(4)]),
        10 => format!("[{} + R(16)]", n(r)),
        11 => format!("[R({})]", r.one(&["17", "20", "31", "255", "256", "260"])),
        12 => format!("[{} + R({}) * {}]", n(r), r.one(&["4", "17", "20", "36", "256", "260"]), r.one(&["1", "2", "4", "8"])),
        13 => format!(
            "[{}]",
            r.one(&[
                "", "4", "rax rcx", "rax +", "rax -", "rax + 4 8", "rax + rcx + rdx", "rax + rcx * 2 * 2", "rax * 2", "rax + 8 - 4", "rax + rcx * 2 + 8 + 8",
                "rax + rcx *", "rax - rcx", "rax, rcx", "+ rax", "rax + rcx * 2 +", "eax", "al", "ax", "r16", "xmm0", "rax + xmm1", "rax + eax", "rax + 4.0", "rax + rcx - rdx",
            ])
        ),
        _ => format!(
            "[{}]",
            r.one(&["rax + lbl0", "rsp + lbl0", "r13 + lbl0", "rbp + lbl0", "rax + rcx * 2 + lbl0", "rax + rcx + lbl0", "rip - lbl0", "rax - lbl0", "rax + rcx * 4 - lbl0", "R(3) + lbl0", "rip + rax + lbl0", "rip + lbl0 + 4", "rip + lbl0 - 8"])
        ),
    }
}

/// Operand kinds with no x86-64 encoding for this instruction (beyond those the forms list).
fn no_encoding(k: Kind, cl: &[C]) -> bool {
    if forms(k).iter().any(|f| f.len() == cl.len() && f.iter().zip(cl).all(|(a, b)| a == b || (*a == C::Cl && *b == C::G))) {
        return false;
    }
    use C::*;
    match (k, cl) {
        // valid x86 that the assembler merely does not offer
        (Kind::Test(_), [G, M]) | (Kind::Push, [I]) | (Kind::Jmp, [I]) => false,
        (Kind::Imul, [G, I] | [G, G, I] | [G, M, I] | [G] | [M]) => false,
        (Kind::Nullary(Op::Ret), [I]) | (Kind::Nullary(Op::Int3), [I]) => false,
        (Kind::Shift(..), [G] | [M]) => false,
        (Kind::Movsd, []) => false,
        (Kind::Mov(1 | 2 | 4), v) if v.contains(&X) => false,
        (Kind::Push | Kind::Pop, [X]) => true,
        _ => true,
    }
}
fn class_text(r: &mut Rng, c: C) -> String {
    match c {
        C::G | C::Cl => {
            if r.chance(1, 3) {
                format!("R({})", r.n(16))
            } else {
                R64[r.n(16)].to_string()
            }
        }
        C::X => {
            if r.chance(1, 3) {
                format!("xmm({})", r.n(16))
            } else {
                format!("xmm{}", r.n(16))
            }
        }
        C::I => {
            if r.chance(1, 2) {
                format!("{}", r.n(100))
            } else {
                format!("({})", r.n(200) as i64 - 100)
            }
        }
        C::M => match r.n(4) {
            0 => format!("[{}]", R64[r.n(16)]),
            1 => format!("[{} + {}]", R64[r.n(16)], r.n(1000)),
            2 => format!("[{} + {} * 4]", R64[r.n(16)], R64[r.n(4)]),
            _ => "[rip + 16]".to_string(),
        },
        C::L => "lbl0".into(),
    }
}

/// Is this string a mnemonic of x86 in any usual assembler syntax? Used only to avoid
/// demanding the refusal of something that would be meaningful.
fn nonsense(r: &mut Rng) -> String {
    let ms = mnemonics();
    let m = r.one(&ms).0.clone();
    let w = match r.n(6) {
        0 => format!("{m}zz"),
        1 => format!("x{m}"),
        2 => format!("{m}_"),
        3 => format!("{m}9"),
        4 => r.one(&["foo", "movqq", "addqq", "jxx", "jq", "setzz", "set", "setq", "cmov", "cmovq", "cmovzzq", "cmovl", "cmovw", "cmoveqx", "cmovaeb", "setaeq", "jmpq_", "callx", "retx", "R", "lbl0", "rax", "dqq", "db_", "movxq", "shlw_", "lzcnt_"]).to_string(),
        _ => m.to_uppercase() + "Z",
    };
    // an alteration can hit another instruction (x + orw)
    if ms.iter().any(|m| m.0 == w) {
        return format!("{w}_");
    }
    w
}

fn refuse_case(r: &mut Rng) -> Case {
    let ms = mnemonics();
    let mut expect = Expect::Refuse;
    let two: Vec<&(String, Kind)> = ms.iter().filter(|m| matches!(m.1, Kind::Mov(_) | Kind::Alu(..) | Kind::Test(_))).collect();
    let memful: Vec<(String, Kind, Vec<C>)> = forms_pool(&|_, _, f| f.contains(&C::M));
    let t = match r.n(13) {
        0 => {
            // immediate destination, two memory operands
            let m = r.one(&two).0.clone();
            let second = *r.one(&[C::G, C::M, C::I]);
            let first = if second == C::M && r.chance(1, 2) { C::M } else { C::I };
            let second = if first == C::M { C::M } else { second };
            format!("{m} {}, {};", class_text(r, first), class_text(r, second))
        }
        1 | 2 | 3 => {
            // operand kinds and counts
            loop {
                let (m, k) = r.one(&ms).clone();
                let n = r.n(4);
                let cl: Vec<C> = (0..n).map(|_| *r.one(&[C::G, C::G, C::X, C::M, C::I, C::L])).collect();
                if cl.contains(&C::L) && matches!(k, Kind::Jmp | Kind::Call | Kind::Jcc(_)) && cl.len() == 1 {
                    continue;
                }
                if matches!(k, Kind::Jcc(_)) && cl == [C::G] {
                    continue;
                }
                if no_encoding(k, &cl) {
                    let o: Vec<String> = cl.iter().map(|c| class_text(r, *c)).collect();
                    break format!("{m} {};", o.join(", "));
                }
            }
        }
        4 | 5 | 6 => {
            // malformed memory operand in an otherwise right instruction
            let (m, _, f) = r.one(&memful).clone();
            let o: Vec<String> = f.iter().map(|c| if *c == C::M { bad_mem_text(r) } else if *c == C::Cl { "cl".into() } else if *c == C::I { "3".into() } else { class_text(r, *c) }).collect();
            format!("{m} {};", o.join(", "))
        }
        7 => {
            // rip or an impossible register as a plain operand
            let pool = forms_pool(&|_, k, f| f.contains(&C::G) || (f.contains(&C::X) && !matches!(k, Kind::Jcc(_))));
            let (m, k, f) = r.one(&pool).clone();
            let at = {
                let c: Vec<usize> = (0..f.len()).filter(|i| matches!(f[*i], C::G | C::X)).collect();
                *r.one(&c)
            };
            let byname = matches!(k, Kind::Jmp | Kind::Call);
            let o: Vec<String> = f
                .iter()
                .enumerate()
                .map(|(i, c)| {
                    if i != at {
                        return if *c == C::Cl {
                            "cl".into()
                        } else if *c == C::I {
                            "3".into()
                        } else if *c == C::G && byname {
                            "rax".into()
                        } else {
                            class_text(r, *c)
                        };
                    }
                    if *c == C::X {
                        r.one(&["xmm16", "xmm(16)", "xmm(17)", "xmm(255)", "xmm31", "xmm", "ymm0", "st0", "xmm(20)"]).to_string()
                    } else if byname {
                        "rip".to_string()
                    } else {
                        r.one(&["rip", "RIP", "R(16)", "R(17)", "R(20)", "R(31)", "R(255)", "R(256)", "R(272)", "r16", "eax", "ax", "al", "spl", "rex"]).to_string()
                    }
                })
                .collect();
            format!("{m} {};", o.join(", "))
        }
        8 => {
            // shift count register other than cl
            let sh: Vec<&(String, Kind)> = ms.iter().filter(|m| matches!(m.1, Kind::Shift(..))).collect();
            let m = r.one(&sh).0.clone();
            let d = if r.chance(1, 2) { class_text(r, C::G) } else { class_text(r, C::M) };
            let c = r.one(&["rax", "rdx", "rbx", "rsp", "r8", "r9", "r15", "R(0)", "R(2)", "R(9)", "rip", "R(16)"]).to_string();
            format!("{m} {d}, {c};")
        }
        9 => format!("{} {};", nonsense(r), r.one(&["", "rax", "rax, rcx", "rax, 5", "xmm0, xmm1", "lbl0", "[rax], rcx"])),
        10 => {
            // punctuation
            r.one(&[
                "movq rax rcx;", "movq rax, rcx", "movq , rax;", "movq rax,, rcx;", "movq rax, rcx, ;", "ret ret;", "movq rax, (1) (2);", "movq rax, 1 2;", "addq rax, -;", "addq rax, [;", "movq rax, 5 + 3;", "pushq rax rcx;",
                "jmp lbl0 lbl0;", "call;", "jmp;", "jne;", "movq;", "addq rax;", "lea rax, rcx;", "lea rax, 5;", "popq 5;", "movsd xmm0, 1.5;", "movq xmm0, 5;", "addsd xmm0, 5;", "dq;", "dq rax;", "dq 5, 6;", "lbl0", "lbl0 :: ret;", "movq rax, \"x\";", "roundpd xmm0, xmm1;", "imul rax;;", ";",
                "movq rax, {5};", "xmm0 rax;", "movq R(), rax;", "movq R, rax;", "movq xmm, rax;", "movq xmm(), rax;", "movq rax, [rax;", "setne;", "cqo rax;", "leave rax;", "syscall 5;",
            ])
            .to_string()
        }
        11 => {
            // immediate out of range
            let pool = forms_pool(&|_, _, f| f.contains(&C::I));
            loop {
                let (m, k, f) = r.one(&pool).clone();
                let ops: Vec<Oper> = f.iter().map(|c| oper(r, *c, k, 0)).map(|mut o| { o.sp = [0; 3]; o }).collect();
                let s: Vec<SOp> = ops.iter().map(|o| sop(&o.v)).collect();
                if verdict(&m, &s, 0) == Verdict::Reject {
                    let mut c = single(Line::Ins(m, ops));
                    c.expect = Expect::Refuse;
                    return c;
                }
            }
        }
        _ => {
            // displacement out of range
            let (m, k, f) = r.one(&memful).clone();
            let d = *r.one(&[1i64 << 31, (1 << 31) + 5, -(1 << 31) - 1, 1 << 32, (1 << 32) + 16, -(1 << 32), 1 << 40, i64::MAX, 0x1_0000_0080]);
            let base = r.n(16) as u64;
            let sp = [0, 0, if r.chance(1, 4) { 0 } else { (r.u64() as u32 >> 4) & !3 }];
            let ops: Vec<Oper> = f
                .iter()
                .map(|c| match c {
                    C::M => Oper { v: Val::M { base, index: None, disp: D::N(d) }, sp },
                    C::I => Oper { v: Val::I(3), sp: [0; 3] },
                    c => {
                        let mut o = oper(r, *c, k, 0);
                        o.sp = [0; 3];
                        o
                    }
                })
                .collect();
            // what the recorded finding makes of it
            let cut: Vec<SOp> = ops
                .iter()
                .map(|o| match &o.v {
                    Val::M { base, .. } => SOp::M(SMem { base: *base, index: None, disp: SDisp::N(d as i32 as i64) }),
                    v => sop(v),
                })
                .collect();
            if let Verdict::Must(i) | Verdict::May(i) = verdict(&m, &cut, 0) {
                expect = Expect::RefuseOr("displacement-truncated", vec![i]);
            }
            let mut c = single(Line::Ins(m, ops));
            c.expect = expect;
            return c;
        }
    };
    Case { lines: vec![Line::Raw(t)], labels: 1, names: vec![], base: 0, count: false, expect }
}

/// Immediate expressions of a wide type whose value the instruction cannot hold.
fn wide_imm_case(r: &mut Rng) -> Case {
    let pool = forms_pool(&|_, k, f| f.contains(&C::I) && !matches!(k, Kind::Mov(8)));
    loop {
        let (m, k, f) = r.one(&pool).clone();
        let low = r.n(200) as i64 - 100;
        let (ty, v): (&str, i128) = match r.n(3) {
            0 if low < 0 => ("u64", low as u64 as i128),
            1 => ("i128", (low as i128) + (1i128 << 64) * (1 + r.n(4) as i128)),
            _ => ("u128", (low as u64 as i128) + (1i128 << 64)),
        };
        let as64 = v as i64;
        let ops: Vec<Oper> = f.iter().map(|c| oper(r, *c, k, 0)).map(|mut o| { o.sp = [0; 3]; o }).collect();
        let cut: Vec<SOp> = ops.iter().map(|o| if let Val::I(_) = o.v { SOp::I(as64) } else { sop(&o.v) }).collect();
        let (Verdict::Must(i) | Verdict::May(i)) = verdict(&m, &cut, 0) else { continue };
        let mut c = Ctx { decl: String::new(), nvar: 0, names: &[], count: false, ticks: 0, reg_first: false, tiny: true, method: 0, line: 0 };
        let t: Vec<String> = ops.iter().map(|o| if let Val::I(_) = o.v { format!("({v}{ty})") } else { spell(&mut c, o, &m) }).collect();
        // a 64-bit operation that holds the same 64 bits is exact
        let exact64 = ty == "u64" && matches!(k, Kind::Alu(_, 8) | Kind::Test(8));
        let line = Line::Raw(format!("{m} {};", t.join(", ")));
        return Case {
            lines: vec![line],
            labels: 1,
            names: vec![],
            base: 0,
            count: false,
            expect: if exact64 { Expect::RefuseOr("imm-exact64", vec![i]) } else { Expect::RefuseOr("immediate-wraps", vec![i]) },
        };
    }
}

fn documented_cases() -> Vec<Case> {
    let mut v = vec![];
    for (m, s) in [("xchgl", 4u8), ("xchgw", 2), ("xchgb", 1)] {
        let g = |n| Opnd::R(s, n);
        let mem = Opnd::M(s, oracle::inst::Mem { base: oracle::inst::Base::Reg(3), index: None, disp: 8 });
        for (t, want) in [("rcx, rdx", [g(1), g(2)]), ("[rbx + 8], rcx", [mem, g(1)]), ("rcx, [rbx + 8]", [g(1), mem]), ("rsi, r9", [g(6), g(9)])] {
            let i = Instr::new(Op::Xchg, &want);
            let j = Instr::new(Op::Xchg, &[want[1], want[0]]);
            v.push(Case { lines: vec![Line::Raw(format!("{m} {t};"))], labels: 1, names: vec![], base: 0, count: false, expect: Expect::Documented("xchg-narrow", vec![i, j]) });
        }
    }
    v
}

fn generate(cfg: &Cfg) -> Vec<Case> {
    let p = cfg.prop.as_str();
    let mut r = Rng::new(hash_of(&(cfg.seed, p, "lit")));
    let mut v = vec![];
    match p {
        "C11" => {
            let pool = forms_pool(&|_, _, _| true);
            for _ in 0..cfg.n(30_000, 400_000) {
                let l = if r.chance(1, 25) { dq_line(&mut r) } else { good_line(&mut r, &pool, 1) };
                v.push(single(l));
            }
        }
        "C12" => {
            let pool = forms_pool(&|_, _, _| true);
            // forms whose expansion keeps values in variables deserve more weight
            let imms = forms_pool(&|_, k, f| f.contains(&C::I) || matches!(k, Kind::Mov(8) | Kind::Xchg(_) | Kind::Shift(..)));
            let names = name_pool();
            for i in 0..cfg.n(12_000, 200_000) {
                let p = if i % 2 == 0 { &pool } else { &imms };
                let count = !r.chance(1, 8);
                v.push(block_case(&mut r, p, &names, count));
            }
        }
        "C18" => {
            // runs of embedded constants, alone and between instructions
            let pool = forms_pool(&|_, _, f| !f.contains(&C::L));
            for _ in 0..cfg.n(4_000, 60_000) {
                let n = 1 + r.n(6);
                let mut c = single(dq_line(&mut r));
                for _ in 1..n {
                    let l = if r.chance(1, 4) { good_line(&mut r, &pool, 1) } else { dq_line(&mut r) };
                    c.lines.push(l);
                }
                if c.lines.iter().any(|l| matches!(l, Line::Ins(_, o) if label_of(o).is_some())) {
                    c.lines.push(Line::Bind(0));
                }
                v.push(c);
            }
        }
        "C13" => {
            for _ in 0..cfg.n(16_000, 200_000) {
                v.push(refuse_case(&mut r));
            }
        }
        _ => {
            let pool = forms_pool(&|_, k, f| selected(p, k, f));
            for _ in 0..cfg.n(12_000, 200_000) {
                v.push(single(good_line(&mut r, &pool, 1)));
            }
            if p == "C01" {
                v.extend(documented_cases());
            }
            if p == "C03" {
                for _ in 0..cfg.n(400, 8_000) {
                    v.push(wide_imm_case(&mut r));
                }
            }
        }
    }
    v
}

// ------------------------------------------------------------------ shrinking

/// Simpler cases, most promising first.
fn simpler(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    let ins = c.lines.iter().filter(|l| !matches!(l, Line::Bind(_))).count();
    // long blocks first lose whole stretches
    let mut w = c.lines.len() / 2;
    while w >= 2 {
        for i in (0..c.lines.len()).step_by(w) {
            let mut d = c.clone();
            let mut k = 0;
            d.lines.retain(|l| {
                k += 1;
                matches!(l, Line::Bind(_)) || !(i..i + w).contains(&(k - 1))
            });
            if d.lines.len() < c.lines.len() && d.lines.iter().any(|l| !matches!(l, Line::Bind(_))) {
                v.push(d);
            }
        }
        w /= 2;
    }
    if ins > 1 {
        for i in 0..c.lines.len() {
            if !matches!(c.lines[i], Line::Bind(_)) {
                let mut d = c.clone();
                d.lines.remove(i);
                v.push(d);
            }
        }
    }
    // labels nobody refers to
    for l in 0..c.labels {
        let used = c.lines.iter().any(|x| matches!(x, Line::Ins(_, o) if label_of(o) == Some(l)));
        if !used && c.lines.iter().any(|x| *x == Line::Bind(l)) && ins > 0 {
            let mut d = c.clone();
            d.lines.retain(|x| *x != Line::Bind(l));
            v.push(d);
        }
    }
    if c.base != 0 {
        let mut d = c.clone();
        d.base = 0;
        v.push(d);
    }
    if !c.names.is_empty() {
        let mut d = c.clone();
        d.names = vec![];
        v.push(d);
        // one ordinary name at a time
        for k in 0..c.names.len() {
            if !c.names[k].starts_with("zz") {
                let mut d = c.clone();
                d.names[k] = format!("zz{k}");
                v.push(d);
            }
        }
    }
    if c.count {
        let mut d = c.clone();
        d.count = false;
        v.push(d);
    }
    for i in 0..c.lines.len() {
        if let Line::Ins(_, ops) = &c.lines[i] {
            for k in 0..ops.len() {
                let mut put = |o: Oper| {
                    let mut d = c.clone();
                    if let Line::Ins(_, ops) = &mut d.lines[i] {
                        ops[k] = o;
                    }
                    v.push(d);
                };
                let o = &ops[k];
                if o.sp != [0; 3] {
                    put(Oper { v: o.v.clone(), sp: [0; 3] });
                    for j in 0..3 {
                        if o.sp[j] != 0 {
                            let mut sp = o.sp;
                            sp[j] = 0;
                            put(Oper { v: o.v.clone(), sp });
                        }
                    }
                }
                match &o.v {
                    Val::G(n) if *n > 0 => {
                        put(Oper { v: Val::G(0), sp: o.sp });
                        put(Oper { v: Val::G(n - 1), sp: o.sp });
                    }
                    Val::X(n) if *n > 0 => put(Oper { v: Val::X(0), sp: o.sp }),
                    Val::I(x) if *x != 1 => {
                        put(Oper { v: Val::I(1), sp: o.sp });
                        put(Oper { v: Val::I(x / 2), sp: o.sp });
                    }
                    Val::M { base, index, disp } => {
                        if index.is_some() {
                            put(Oper { v: Val::M { base: *base, index: None, disp: disp.clone() }, sp: o.sp });
                        }
                        if *disp != D::None {
                            put(Oper { v: Val::M { base: *base, index: *index, disp: D::None }, sp: o.sp });
                        }
                        if let D::N(x) = disp {
                            if *x != 1 {
                                put(Oper { v: Val::M { base: *base, index: *index, disp: D::N(1) }, sp: o.sp });
                                put(Oper { v: Val::M { base: *base, index: *index, disp: D::N(x / 2) }, sp: o.sp });
                            }
                        }
                        if *base != 0 && *base != 16 {
                            put(Oper { v: Val::M { base: 0, index: *index, disp: disp.clone() }, sp: o.sp });
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // keep only cases with the same kind of expectation
    v.retain(|c| match c.expect {
        Expect::Accept => c.lines.iter().all(|l| match l {
            Line::Ins(mn, ops) => matches!(verdict(mn, &ops.iter().map(|o| sop(&o.v)).collect::<Vec<_>>(), 0), Verdict::Must(_)),
            _ => true,
        }),
        _ => false,
    });
    v
}

fn shrink(dir: &str, c: Case, threads: usize, release: bool) -> (Case, String) {
    let mut cur = c;
    let mut what = String::new();
    let start = std::time::Instant::now();
    for _ in 0..12 {
        if start.elapsed().as_secs() > 60 {
            break;
        }
        let mut cand = simpler(&cur);
        let mut room = 4000;
        cand.retain(|c| {
            room -= c.lines.len().min(room);
            room > 0
        });
        if cand.is_empty() {
            break;
        }
        let outs = run_cases(dir, &cand, threads, release);
        let mut next = None;
        for (c, o) in cand.into_iter().zip(outs) {
            if let J::Bad(w) = judge(&c, &o) {
                next = Some((c, w));
                break;
            }
        }
        match next {
            Some((c, w)) => {
                cur = c;
                what = w;
            }
            None => break,
        }
    }
    (cur, what)
}

// ------------------------------------------------------------------ replay records

fn instr_str(v: &[Instr]) -> Vec<String> {
    v.iter().map(|i| canon(i).to_string()).collect()
}
fn to_json(prop: &str, c: &Case, release: bool) -> Value {
    let lines: Vec<Value> = c
        .lines
        .iter()
        .map(|l| match l {
            Line::Bind(i) => json!({"bind": i}),
            Line::Dq(t, w) => json!({"dq": t, "bytes": w.to_vec()}),
            Line::Raw(t) => json!({ "raw": t }),
            Line::Ins(mn, ops) => {
                let label = label_of(ops);
                json!({"mn": mn, "label": label, "ops": ops.iter().map(|o| match sop(&o.v) {
                    SOp::G(n) => json!(["g", n]),
                    SOp::X(n) => json!(["x", n]),
                    SOp::I(n) => json!(["i", n]),
                    SOp::L => json!(["l"]),
                    SOp::M(m) => json!(["m", m.base, m.index.map(|x| vec![x.0, x.1 as u64]), match m.disp { SDisp::N(d) => json!(d), SDisp::L => json!("label") }]),
                }).collect::<Vec<_>>()})
            }
        })
        .collect();
    let (e, want) = match &c.expect {
        Expect::Accept => ("accept", vec![]),
        Expect::Refuse => ("refuse", vec![]),
        Expect::RefuseOr(_, w) => ("refuse", instr_str(w)),
        Expect::Documented(_, w) => ("documented", instr_str(w)),
    };
    json!({"check": "source", "property": prop, "source": text(c), "expect": e, "meaning": want, "lines": lines, "count": c.count, "release": release})
}

/// Recompile the recorded source and judge it again.
pub fn replay(v: &Value, dir: &str) -> Result<(), String> {
    let src = v["source"].as_str().unwrap().to_string();
    let release = v["release"].as_bool().unwrap_or(false);
    let o = compile_chunk(dir, &[src], release).pop().unwrap();
    let _ = std::fs::remove_dir_all(dir);
    let mut lines = vec![];
    for l in v["lines"].as_array().unwrap() {
        lines.push(if let Some(i) = l["bind"].as_u64() {
            Line::Bind(i as usize)
        } else if let Some(t) = l["dq"].as_str() {
            let b: Vec<u8> = l["bytes"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
            Line::Dq(t.into(), b.try_into().unwrap())
        } else if let Some(t) = l["raw"].as_str() {
            Line::Raw(t.into())
        } else {
            let lab = l["label"].as_u64().unwrap_or(0) as usize;
            let ops = l["ops"]
                .as_array()
                .unwrap()
                .iter()
                .map(|o| {
                    let v = match o[0].as_str().unwrap() {
                        "g" => Val::G(o[1].as_u64().unwrap()),
                        "x" => Val::X(o[1].as_u64().unwrap()),
                        "i" => Val::I(o[1].as_i64().unwrap()),
                        "l" => Val::L(lab),
                        _ => Val::M {
                            base: o[1].as_u64().unwrap(),
                            index: o[2].as_array().map(|a| (a[0].as_u64().unwrap(), a[1].as_u64().unwrap() as u8)),
                            disp: match o[3].as_i64() {
                                Some(d) => D::N(d),
                                None => D::L(lab),
                            },
                        },
                    };
                    Oper { v, sp: [0; 3] }
                })
                .collect();
            Line::Ins(l["mn"].as_str().unwrap().into(), ops)
        });
    }
    let expect = match v["expect"].as_str().unwrap() {
        "accept" => Expect::Accept,
        "refuse" => Expect::Refuse,
        _ => {
            let want: Vec<String> = v["meaning"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
            return match o {
                Outcome::Bytes(b, _) if matches!(decode(&b), Ok((g, n)) if n == b.len() && want.contains(&canon(&g).to_string())) => Ok(()),
                o => Err(format!("{o:?}")),
            };
        }
    };
    let c = Case { lines, labels: 2, names: vec![], base: 0, count: v["count"].as_bool().unwrap_or(false), expect };
    match judge(&c, &o) {
        J::Bad(w) => Err(w),
        _ => Ok(()),
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C18" => "source-level case = block of 1-6 embedded constants and instructions; non-trivial = accepted, every byte compared; distinct by source text",
        "C12" => "source-level case = assembly block of 1-5 lines with randomly named caller variables and counted operand expressions, compiled and assembled; non-trivial = accepted, with at least one operand expression; distinct by source text",
        "C13" => "source-level case = malformed or unencodable line; non-trivial = refused by the compiler or at run time as required; distinct by source text",
        _ => "source-level case = line with randomly chosen operand spellings (names in any case, numbered registers, literals in any radix, expressions of any integer type); non-trivial = accepted and decoded; distinct by source text",
    }
}

pub fn check(cfg: &Cfg, release: bool) -> Report {
    let mut rep = Report::default();
    let prop = cfg.prop.as_str();
    let cases = generate(cfg);
    let dir = format!("{}/lit", cfg.dir);
    let outs = run_cases(&dir, &cases, cfg.threads, release);
    let mut bad: Vec<(Case, String)> = vec![];
    for (i, (c, o)) in cases.iter().zip(&outs).enumerate() {
        rep.evaluations += 1;
        match judge(c, o) {
            J::Ok(cl) => {
                rep.class(format!("source: {cl}"), 1);
                let t = text(c);
                if c.expect != Expect::Accept || !c.count || t.contains("tick") {
                    rep.distinct.insert(hash_of(&t));
                }
                if i % 211 == 7 {
                    rep.sample(|| t.chars().take(400).collect());
                }
            }
            J::Known("imm-exact64", _) => rep.class("source: 64-bit pattern kept", 1),
            J::Known(k, w) => {
                rep.class(format!("source: known finding {k}"), 1);
                rep.known.entry(k.to_string()).or_insert_with(|| format!("{prop}: `{}`: {w}", text(c)));
            }
            J::Bad(w) => {
                rep.class("source: failing", 1);
                bad.push((c.clone(), w));
            }
        }
    }
    // one representative per kind of failure
    let sig_of = |c: &Case, w: &str| {
        let mn = c.lines.iter().find_map(|l| match l {
            Line::Ins(m, _) => Some(m.clone()),
            Line::Dq(..) => Some("dq".into()),
            Line::Raw(t) => Some(t.split(' ').next().unwrap_or("").to_string()),
            _ => None,
        });
        format!("source {} {}", mn.unwrap_or_default(), w.split(|c: char| c.is_ascii_digit() || c == '[' || c == ':').next().unwrap_or(""))
    };
    let mut seen = std::collections::HashSet::new();
    bad.sort_by_key(|(c, _)| c.lines.len());
    let start = std::time::Instant::now();
    for (c, w) in bad {
        if seen.len() >= 6 || start.elapsed().as_secs() > 120 {
            break;
        }
        if !seen.insert(sig_of(&c, &w)) {
            continue;
        }
        let (c2, w2) = shrink(&dir, c, cfg.threads, release);
        let w = if w2.is_empty() { w } else { w2 };
        rep.viol(Viol {
            sig: sig_of(&c2, &w),
            what: format!("{prop}: `{}`: {w}", text(&c2)),
            weight: text(&c2).len(),
            replay: to_json(prop, &c2, release),
        });
    }
    let _ = std::fs::remove_dir_all(&dir);
    rep
}
