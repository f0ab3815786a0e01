//! Template checks: every (mnemonic, operand form, addressing shape) with run-time operands,
//! judged by the independent decoder (C01-C05, run-time part of C13).
use crate::common::*;
use monoasm::*;
use oracle::decode::decode;
use oracle::inst::{canon, Instr};
use oracle::spec::*;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value};
use tmpl::{Mm, O, P, T, TEMPLATES};

/// One case: operand values plus, for label operands, where the label is.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub a: u64,
    pub b: u64,
    pub xa: u64,
    pub xb: u64,
    pub base: u64,
    pub index: u64,
    pub disp: i32,
    pub imm: i64,
    /// label placement: low 2 bits: 0 backward, 1 forward, 2 other page; rest: distance in bytes
    pub lpos: u64,
}
pub const ZERO: Case = Case { a: 0, b: 0, xa: 0, xb: 0, base: 0, index: 0, disp: 0, imm: 0, lpos: 0 };

impl Case {
    pub fn p(&self, label: DestLabel) -> P {
        P {
            a: self.a,
            b: self.b,
            xa: self.xa,
            xb: self.xb,
            base: self.base,
            index: self.index,
            disp: self.disp,
            imm: self.imm,
            label,
        }
    }
    fn tape(&self) -> Vec<i64> {
        vec![
            self.a as i64,
            self.b as i64,
            self.xa as i64,
            self.xb as i64,
            self.base as i64,
            self.index as i64,
            self.disp as i64,
            self.imm,
            self.lpos as i64,
        ]
    }
    fn from_tape(v: &[i64]) -> Case {
        Case {
            a: v[0] as u64,
            b: v[1] as u64,
            xa: v[2] as u64,
            xb: v[3] as u64,
            base: v[4] as u64,
            index: v[5] as u64,
            disp: v[6] as i32,
            imm: v[7],
            lpos: v[8] as u64,
        }
    }
    fn weight(&self) -> usize {
        self.tape().iter().map(|x| (64 - x.unsigned_abs().leading_zeros()) as usize).sum()
    }
}

#[derive(Clone, Debug)]
pub enum Out {
    Bytes { bytes: Vec<u8>, rel: i64 },
    Panic(String),
}

pub struct Bench {
    jit: JitMemory,
    labels: usize,
    cases: usize,
}

impl Bench {
    pub fn new() -> Self {
        Bench { jit: JitMemory::new(), labels: 0, cases: 0 }
    }
    /// Assemble all cases one after another, finalize, then read the bytes of each.
    pub fn run(&mut self, t: &T, page: usize, cases: &[Case]) -> Vec<Out> {
        if self.labels > 400 || self.cases > 2_000_000 {
            *self = Bench::new();
        }
        self.cases += cases.len();
        let jit = &mut self.jit;
        jit.select_page(page & 1);
        let mut pend: Vec<Result<(u64, u64, u64), String>> = vec![];
        for c in cases {
            let mut target = 0u64;
            let mut label = DestLabel::default();
            let dist = (c.lpos >> 2) as usize;
            let uses = t.uses_label();
            if uses {
                self.labels += 1;
                label = jit.label();
                match c.lpos & 3 {
                    0 => {
                        target = jit.get_current_address().as_ptr() as u64;
                        jit.bind_label(label);
                        for _ in 0..dist {
                            jit.emitb(0x90);
                        }
                    }
                    1 => {}
                    _ => {
                        jit.select_page(1 - (page & 1));
                        for _ in 0..dist {
                            jit.emitb(0x90);
                        }
                        target = jit.get_current_address().as_ptr() as u64;
                        jit.bind_label(label);
                        jit.select_page(page & 1);
                    }
                }
            }
            let start = jit.get_current_address().as_ptr() as u64;
            let p = c.p(label);
            let r = guard(|| (t.f)(jit, &p));
            let end = jit.get_current_address().as_ptr() as u64;
            if uses && c.lpos & 3 == 1 {
                for _ in 0..dist {
                    jit.emitb(0x90);
                }
                target = jit.get_current_address().as_ptr() as u64;
                jit.bind_label(label);
            }
            pend.push(r.map(|_| (start, end, target)));
        }
        let fin = guard(|| jit.finalize());
        pend.into_iter()
            .map(|r| match (r, &fin) {
                (Err(m), _) => Out::Panic(m),
                (Ok(_), Err(m)) => Out::Panic(format!("finalize: {m}")),
                (Ok((s, e, target)), Ok(())) => {
                    let n = (e.wrapping_sub(s)).min(64) as usize;
                    let bytes =
                        unsafe { std::slice::from_raw_parts(s as *const u8, n) }.to_vec();
                    Out::Bytes { bytes, rel: target.wrapping_sub(e) as i64 }
                }
            })
            .collect()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Class {
    Same,
    RefusedAllowed,
    Refused,
}

pub fn expected(t: &T, c: &Case, rel: i64) -> Verdict {
    let ops = t.sops(&c.p(DestLabel::default()));
    let v = verdict(t.mn, &ops, rel);
    // "R(16)" as a base is another way to say rip; refusing it is fine too
    match (v, t.mem()) {
        (Verdict::Must(i), Some(m)) if m.has_base() && c.base == 16 => Verdict::May(i),
        (v, _) => v,
    }
}

pub fn same(bytes: &[u8], want: &Instr) -> Result<(), String> {
    match decode(bytes) {
        Err(e) => Err(format!("bytes [{}] are not a valid instruction ({e:?}); expected {want}", hex(bytes))),
        Ok((got, n)) => {
            if n != bytes.len() {
                return Err(format!(
                    "bytes [{}] decode to {got} of length {n}, followed by extra bytes; expected exactly {want}",
                    hex(bytes)
                ));
            }
            if canon(&got) == canon(want) {
                Ok(())
            } else {
                Err(format!("bytes [{}] decode to {got}; expected {want}", hex(bytes)))
            }
        }
    }
}

pub fn judge(t: &T, c: &Case, o: &Out) -> Result<Class, String> {
    let rel = match o {
        Out::Bytes { rel, .. } => *rel,
        _ => 0,
    };
    match (expected(t, c, rel), o) {
        (Verdict::Must(_), Out::Panic(m)) => Err(format!("refused with panic: {m}")),
        (Verdict::May(_), Out::Panic(_)) => Ok(Class::RefusedAllowed),
        (Verdict::Reject, Out::Panic(_)) => Ok(Class::Refused),
        (Verdict::Must(i) | Verdict::May(i), Out::Bytes { bytes, .. }) => {
            same(bytes, &i).map(|_| Class::Same)
        }
        (Verdict::Reject, Out::Bytes { bytes, .. }) => Err(format!(
            "has no encoding but was accepted: bytes [{}] decode to {}",
            hex(bytes),
            match decode(bytes) {
                Ok((i, _)) => i.to_string(),
                Err(e) => format!("{e:?}"),
            }
        )),
    }
}

// ---------------------------------------------------------------- domains

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Dim {
    A,
    B,
    Xa,
    Xb,
    Base,
    Index,
    Disp,
    /// a displacement that is subtracted: -2^31 would not fit
    DispN,
    Imm,
    Lpos,
}

fn dims(t: &T) -> Vec<Dim> {
    let mut v = vec![];
    for o in t.ops {
        match o {
            O::Ga => v.push(Dim::A),
            O::Gb => v.push(Dim::B),
            O::Xa => v.push(Dim::Xa),
            O::Xb => v.push(Dim::Xb),
            O::I => v.push(Dim::Imm),
            O::L => v.push(Dim::Lpos),
            O::M(m) => {
                if m.has_base() {
                    v.push(Dim::Base);
                }
                if m.has_index() {
                    v.push(Dim::Index);
                }
                if m.has_disp() {
                    v.push(if matches!(m, Mm::Bn | Mm::Bisn(_) | Mm::Ripn) { Dim::DispN } else { Dim::Disp });
                }
                if *m == Mm::Ripl {
                    v.push(Dim::Lpos);
                }
            }
            O::Gn(_) => {}
        }
    }
    v
}

fn set(c: &mut Case, d: Dim, v: i64) {
    match d {
        Dim::A => c.a = v as u64,
        Dim::B => c.b = v as u64,
        Dim::Xa => c.xa = v as u64,
        Dim::Xb => c.xb = v as u64,
        Dim::Base => c.base = v as u64,
        Dim::Index => c.index = v as u64,
        Dim::Disp | Dim::DispN => c.disp = v as i32,
        Dim::Imm => c.imm = v,
        Dim::Lpos => c.lpos = v as u64,
    }
}
fn get(c: &Case, d: Dim) -> i64 {
    match d {
        Dim::A => c.a as i64,
        Dim::B => c.b as i64,
        Dim::Xa => c.xa as i64,
        Dim::Xb => c.xb as i64,
        Dim::Base => c.base as i64,
        Dim::Index => c.index as i64,
        Dim::Disp | Dim::DispN => c.disp as i64,
        Dim::Imm => c.imm,
        Dim::Lpos => c.lpos as i64,
    }
}

fn around(v: &[i64], r: i64) -> Vec<i64> {
    let mut o: Vec<i64> = v
        .iter()
        .flat_map(|x| (-r..=r).map(move |d| x.wrapping_add(d)))
        .collect();
    o.sort();
    o.dedup();
    o
}

pub fn disp_bounds() -> Vec<i64> {
    let v = around(
        &[0, 127, -128, 255, -256, 32767, -32768, 65535, 1 << 24, -(1 << 24), (1 << 31) - 3, -(1 << 31) + 3],
        2,
    );
    v.into_iter().filter(|x| *x >= -(1 << 31) + 1 && *x <= (1 << 31) - 1).collect()
}
pub fn imm_bounds() -> Vec<i64> {
    let mut v = around(
        &[
            0,
            8,
            16,
            31,
            32,
            63,
            64,
            127,
            -128,
            255,
            -256,
            32767,
            -32768,
            65535,
            -65536,
            (1 << 31) - 1,
            -(1 << 31),
            (1 << 32) - 1,
            -(1 << 32),
            1 << 47,
            i64::MAX - 2,
            i64::MIN + 2,
        ],
        2,
    );
    v.extend([0x0123_4567_89ab_cdefu64 as i64, 0xfedc_ba98_7654_3210u64 as i64, 0x8080_8080, 0x7f80, 0xff80]);
    v.sort();
    v.dedup();
    v
}
fn lpos_values() -> Vec<i64> {
    let mut v = vec![];
    for d in [0i64, 1, 3, 100, 125, 126, 127, 128, 129, 300, 70000] {
        for m in 0..3 {
            v.push(d << 2 | m);
        }
    }
    v
}

/// (quick list, full list) of valid values
fn values(d: Dim) -> Vec<i64> {
    match d {
        Dim::A | Dim::B | Dim::Xa | Dim::Xb | Dim::Base => (0..16).collect(),
        Dim::Index => (0..16).filter(|x| *x != 4).collect(),
        Dim::Disp => disp_bounds().into_iter().chain([i32::MIN as i64]).collect(),
        Dim::DispN => disp_bounds(),
        Dim::Imm => imm_bounds(),
        Dim::Lpos => lpos_values(),
    }
}

pub fn imm_strategy() -> BoxedStrategy<i64> {
    let b = imm_bounds();
    prop_oneof![
        3 => proptest::sample::select(b),
        2 => -140i64..140,
        2 => any::<i8>().prop_map(|x| x as i64),
        2 => any::<i16>().prop_map(|x| x as i64),
        3 => any::<i32>().prop_map(|x| x as i64),
        2 => any::<u32>().prop_map(|x| x as i64),
        2 => any::<i64>(),
        1 => (0u32..64, any::<bool>(), -3i64..4).prop_map(|(s, n, d)| {
            let v = (1i64 << s).wrapping_add(d);
            if n { v.wrapping_neg() } else { v }
        }),
    ]
    .boxed()
}
pub fn disp_strategy() -> BoxedStrategy<i64> {
    let b = disp_bounds();
    prop_oneof![
        3 => proptest::sample::select(b),
        2 => -140i64..140,
        4 => any::<i32>().prop_map(|x| x.max(-i32::MAX) as i64),
        1 => (0u32..31, any::<bool>(), -3i64..4).prop_map(|(s, n, d)| {
            let v = (1i64 << s) + d;
            (if n { -v } else { v }).clamp(-(i32::MAX as i64), i32::MAX as i64)
        }),
    ]
    .boxed()
}
fn strategy(d: Dim) -> BoxedStrategy<i64> {
    match d {
        Dim::A | Dim::B | Dim::Xa | Dim::Xb | Dim::Base => (0i64..16).boxed(),
        Dim::Index => (0i64..15).prop_map(|x| if x >= 4 { x + 1 } else { x }).boxed(),
        Dim::Disp => prop_oneof![30 => disp_strategy(), 1 => Just(i32::MIN as i64)].boxed(),
        Dim::DispN => disp_strategy(),
        Dim::Imm => imm_strategy(),
        Dim::Lpos => (0i64..3, prop_oneof![0i64..300, 0i64..3000])
            .prop_map(|(m, d)| d << 2 | m)
            .boxed(),
    }
}

struct Lcg(u64);
impl Lcg {
    fn next(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((self.0 >> 33) as usize) % n
    }
}

/// Legal operand values chosen from `seed`.
pub fn random_case(t: &T, seed: u64) -> Case {
    let mut g = Lcg(hash_of(&(seed, t.id as u64)) | 1);
    let mut c = ZERO;
    for d in dims(t) {
        let vs = values(d);
        set(&mut c, d, vs[g.next(vs.len())]);
    }
    c
}

/// All values of every pair of operand dimensions, the remaining ones filled pseudo-randomly.
fn pairwise(ds: &[Dim], vals: &dyn Fn(Dim) -> Vec<i64>, seed: u64) -> Vec<Case> {
    let mut g = Lcg(seed | 1);
    let vs: Vec<Vec<i64>> = ds.iter().map(|d| vals(*d)).collect();
    let mut out = vec![];
    let mut fill = |out: &mut Vec<Case>, fixed: &[(usize, i64)]| {
        let mut c = ZERO;
        for (i, d) in ds.iter().enumerate() {
            let v = match fixed.iter().find(|f| f.0 == i) {
                Some(f) => f.1,
                None => vs[i][g.next(vs[i].len())],
            };
            set(&mut c, *d, v);
        }
        out.push(c);
    };
    if ds.is_empty() {
        out.push(ZERO);
    }
    if ds.len() == 1 {
        for v in &vs[0] {
            fill(&mut out, &[(0, *v)]);
        }
    }
    for i in 0..ds.len() {
        for j in i + 1..ds.len() {
            for x in &vs[i] {
                for y in &vs[j] {
                    fill(&mut out, &[(i, *x), (j, *y)]);
                }
            }
        }
    }
    // base x index x displacement class
    if let (Some(b), Some(x), Some(d)) = (
        ds.iter().position(|d| *d == Dim::Base),
        ds.iter().position(|d| *d == Dim::Index),
        ds.iter().position(|d| matches!(d, Dim::Disp | Dim::DispN)),
    ) {
        for vb in &vs[b] {
            for vx in &vs[x] {
                for vd in [0i64, 1, -1, 127, -128, 128, -129, 0x12345678] {
                    fill(&mut out, &[(b, *vb), (x, *vx), (d, vd)]);
                }
            }
        }
    }
    out
}

fn full_product(ds: &[Dim], vals: &dyn Fn(Dim) -> Vec<i64>, limit: usize) -> Option<Vec<Case>> {
    let vs: Vec<Vec<i64>> = ds.iter().map(|d| vals(*d)).collect();
    let n = vs.iter().fold(1usize, |a, v| a.saturating_mul(v.len()));
    if n > limit {
        return None;
    }
    let mut out = vec![ZERO];
    for (i, d) in ds.iter().enumerate() {
        let mut next = Vec::with_capacity(out.len() * vs[i].len());
        for c in &out {
            for v in &vs[i] {
                let mut c = *c;
                set(&mut c, *d, *v);
                next.push(c);
            }
        }
        out = next;
    }
    Some(out)
}

pub fn selected(prop: &str, t: &T) -> bool {
    let k = kind_of(t.mn).unwrap();
    let classes: Vec<C> = t.ops.iter().map(|o| if matches!(o, O::Xa | O::Xb) { C::X } else { C::G }).collect();
    let fp = is_fp(k, &classes);
    match prop {
        "C01" => !fp,
        "C02" => t.mem().is_some(),
        "C03" => t.has_imm(),
        "C04" => fp,
        "C05" => is_cond(k),
        "C13" => true,
        _ => false,
    }
}

fn replay_json(t: &T, page: usize, c: &Case) -> Value {
    json!({"check": "template", "mnemonic": t.mn, "operands": t.src, "case": c.tape(), "page": page})
}

/// Run one case on a fresh code memory.
pub fn once(t: &T, page: usize, c: &Case) -> Result<Class, String> {
    let o = Bench::new().run(t, page, &[*c]).pop().unwrap();
    judge(t, c, &o)
}

pub fn replay(v: &Value) -> Result<(), String> {
    let mn = v["mnemonic"].as_str().unwrap();
    let src = v["operands"].as_str().unwrap();
    let t = TEMPLATES
        .iter()
        .find(|t| t.mn == mn && t.src == src)
        .ok_or_else(|| format!("the line `{mn} {src}` does not compile"))?;
    let tape: Vec<i64> = v["case"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect();
    let c = Case::from_tape(&tape);
    let page = v["page"].as_u64().unwrap_or(0) as usize;
    once(t, page, &c).map(|_| ()).map_err(|e| format!("{}: {e}", t.text(&c.p(DestLabel::default()))))
}

/// Greedy simplification: each operand towards small values while the case still fails.
fn shrink(b: &mut Bench, t: &T, page: usize, c: Case) -> Case {
    let ds = dims(t);
    let mut cur = c;
    let mut budget = 400;
    loop {
        let mut progressed = false;
        for d in &ds {
            let v = get(&cur, *d);
            let mut cand: Vec<i64> = vec![0, 1, 2, 3, 5, 8, v / 2, v - v.signum()];
            cand.retain(|x| x.unsigned_abs() < v.unsigned_abs() || (*x >= 0 && v < 0 && x.unsigned_abs() == v.unsigned_abs()));
            for x in cand {
                if budget == 0 {
                    return cur;
                }
                budget -= 1;
                let mut n = cur;
                set(&mut n, *d, x);
                let o = b.run(t, page, &[n]).pop().unwrap();
                if judge(t, &n, &o).is_err() {
                    cur = n;
                    progressed = true;
                    break;
                }
            }
        }
        if !progressed {
            return cur;
        }
    }
}

fn report_fail(b: &mut Bench, r: &mut Report, prop: &str, t: &T, page: usize, c: Case) {
    let sig = format!("{} {}", t.mn, t.src);
    if r.has(&sig) || r.viols.len() >= 12 {
        r.class("further failing cases", 1);
        return;
    }
    let c = shrink(b, t, page, c);
    let (what, note) = match once(t, page, &c) {
        Err(e) => (e, ""),
        Ok(_) => {
            let o = b.run(t, page, &[c]).pop().unwrap();
            match judge(t, &c, &o) {
                Err(e) => (e, " (only after the preceding cases on the same code memory)"),
                Ok(_) => ("failed once in a batch".to_string(), " (not reproduced alone)"),
            }
        }
    };
    r.viol(Viol {
        sig,
        what: format!("{prop}: `{}`{note}: {what}", t.text(&c.p(DestLabel::default()))),
        replay: replay_json(t, page, &c),
        weight: c.weight(),
    });
}

fn is_nontrivial(prop: &str, t: &T, c: &Case) -> bool {
    let regs_hi = [c.a, c.b, c.xa, c.xb, c.base, c.index].iter().any(|x| *x >= 4);
    match prop {
        // a register that needs REX or has a special meaning, or a boundary displacement
        "C02" => c.base & 7 >= 4 || c.index >= 8 || !(-128..=127).contains(&c.disp) || t.uses_label(),
        "C03" => !(-128..=127).contains(&c.imm) || c.imm < 0,
        "C13" => true,
        _ => regs_hi || t.mem().is_some() || t.has_imm() || t.ops.is_empty() || t.uses_label() || t.ops.len() > 1,
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C02" => "case = (instruction template with a memory operand, register/displacement/immediate values); non-trivial = base is rsp/rbp/rsi/rdi/r12-r15 or index needs REX.X or displacement outside a byte or a label; distinct by all operand values",
        "C03" => "case = (instruction template with an immediate operand, operand values); non-trivial = negative immediate or one outside a signed byte; distinct by all operand values",
        "C13" => "case = (instruction template, operand values of which at least one cannot be encoded, or accepted edge values); non-trivial = the reference says it must be refused; distinct by all operand values",
        _ => "case = (instruction template, operand values); non-trivial = more than one operand, or a register numbered 4 or above (REX / special encodings); distinct by all operand values",
    }
}

pub fn check(cfg: &Cfg) -> Report {
    let prop = cfg.prop.as_str();
    let ts: Vec<&T> = TEMPLATES.iter().filter(|t| selected(prop, t)).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let mut first = Report::default();
    first.class("instruction templates", ts.len() as u64);
    if prop != "C13" {
        for t in tmpl::REFUSED.iter().filter(|t| selected(prop, t)) {
            first.evaluations += 1;
            first.viol(Viol {
                sig: format!("{} {}", t.mn, t.src),
                what: format!("{prop}: the supported line `{} {}` is refused at compile time", t.mn, t.src),
                replay: replay_json(t, 0, &ZERO),
                weight: t.src.len(),
            });
        }
    }
    let rest = parallel(cfg.threads, |_| {
        let mut r = Report::default();
        let mut b = Bench::new();
        let mut sampled = 0usize;
        loop {
            let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
            if i >= ts.len() {
                break;
            }
            let t = ts[i];
            let ds = dims(t);
            let seed = hash_of(&(cfg.seed, t.id as u64, prop));
            let mut cases: Vec<Case>;
            if prop == "C13" {
                cases = bad_cases(t, &ds, seed, cfg);
            } else {
                let vals = |d: Dim| -> Vec<i64> {
                    match d {
                        Dim::Imm if prop == "C03" => {
                            let mut v = imm_bounds();
                            v.extend(-300..=300);
                            v.sort();
                            v.dedup();
                            v
                        }
                        d => values(d),
                    }
                };
                cases = match cfg.tier {
                    Tier::Smoke => full_product(&ds, &vals, 40),
                    Tier::Quick => full_product(&ds, &vals, 300),
                    Tier::Thorough => full_product(&ds, &vals, 400_000),
                }
                .unwrap_or_else(|| pairwise(&ds, &vals, seed));
                if prop == "C03" && cfg.tier == Tier::Thorough {
                    let mut g = Lcg(seed | 1);
                    for v in -70000..70000i64 {
                        let mut c = ZERO;
                        for d in &ds {
                            let vs = values(*d);
                            set(&mut c, *d, vs[g.next(vs.len())]);
                        }
                        c.imm = v;
                        cases.push(c);
                    }
                }
                // random part
                let n = cfg.n(60, 3000);
                if !ds.is_empty() {
                    let st: Vec<BoxedStrategy<i64>> = ds.iter().map(|d| strategy(*d)).collect();
                    let mut run = runner(cfg.seed, prop, t.id as u64, 1);
                    for _ in 0..n {
                        let mut c = ZERO;
                        for (d, s) in ds.iter().zip(&st) {
                            let v = s.new_tree(&mut run).unwrap().current();
                            set(&mut c, *d, v);
                        }
                        cases.push(c);
                    }
                }
            }
            // (what is refused is C03's business)
            if prop == "C04" && kind_of(t.mn) == Some(Kind::Roundpd) {
                cases.iter_mut().for_each(|c| c.imm &= 0xff);
            }
            // labels make finalization slower: fewer cases, chosen evenly
            if t.uses_label() {
                let cap = cfg.n(60, 600);
                if cases.len() > cap {
                    let step = cases.len() / cap + 1;
                    let off = (seed % step as u64) as usize;
                    cases = cases.into_iter().skip(off).step_by(step).collect();
                }
            }
            let mut seen = FSet::default();
            let chunk = if t.uses_label() { 20 } else { 4096 };
            for (k, ch) in cases.chunks(chunk).enumerate() {
                let page = k & 1;
                crumb(&replay_json(t, page, &ch[0]).to_string());
                let outs = b.run(t, page, ch);
                for (c, o) in ch.iter().zip(&outs) {
                    r.evaluations += 1;
                    match judge(t, c, o) {
                        Ok(cl) => {
                            let name = match cl {
                                Class::Same => "decoded as written",
                                Class::RefusedAllowed => "refused (allowed)",
                                Class::Refused => "refused as required",
                            };
                            r.class(name, 1);
                            if is_nontrivial(prop, t, c) && (prop != "C13" || cl == Class::Refused) {
                                seen.insert(hash_of(c));
                            }
                        }
                        Err(_) => report_fail(&mut b, &mut r, prop, t, page, *c),
                    }
                }
            }
            r.distinct_more += seen.len() as u64;
            sampled += 1;
            if sampled % 37 == 5 {
                if let Some(c) = cases.get(cases.len() / 2) {
                    let o = b.run(t, 0, &[*c]).pop().unwrap();
                    r.sample(|| {
                        format!(
                            "{} -> {}",
                            t.text(&c.p(DestLabel::default())),
                            match &o {
                                Out::Bytes { bytes, .. } => hex(bytes),
                                Out::Panic(m) => format!("refused: {m}"),
                            }
                        )
                    });
                }
            }
        }
        crumb_clear();
        r
    });
    first.merge(rest);
    first
}

/// Operand values at least one of which has no encoding, plus the accepted values next to them.
fn bad_cases(_t: &T, ds: &[Dim], seed: u64, cfg: &Cfg) -> Vec<Case> {
    let bad_reg: [u64; 14] = [
        16, 17, 19, 20, 21, 24, 31, 32, 36, 255, 256, 260, 272, u64::MAX,
    ];
    let mut g = Lcg(seed | 1);
    let mut out = vec![];
    let reps = cfg.n(2, 24);
    for (i, d) in ds.iter().enumerate() {
        let bad: Vec<i64> = match d {
            Dim::A | Dim::B | Dim::Xa | Dim::Xb | Dim::Base => bad_reg.iter().map(|x| *x as i64).collect(),
            Dim::Index => bad_reg.iter().map(|x| *x as i64).chain([4, 4, 4, 4, 4, 4]).collect(),
            Dim::Imm => imm_bounds(),
            Dim::Disp | Dim::DispN | Dim::Lpos => continue,
        };
        let mut bad = bad;
        if !matches!(d, Dim::Imm) {
            // numbers whose low bits name a register
            for _ in 0..12 {
                bad.push(1i64.wrapping_shl(5 + g.next(59) as u32) | (g.next(5) as i64) << 16 | g.next(17) as i64);
            }
        }
        for v in bad {
            for _ in 0..reps {
                let mut c = ZERO;
                for (j, e) in ds.iter().enumerate() {
                    let vs = values(*e);
                    let x = if i == j { v } else { vs[g.next(vs.len())] };
                    set(&mut c, *e, x);
                }
                out.push(c);
            }
        }
    }
    if let (Some(_), Some(_)) = (
        ds.iter().position(|d| *d == Dim::Base),
        ds.iter().position(|d| *d == Dim::Index),
    ) {
        // every base with the stack pointer as index; rip base with every index
        for v in 0..16 {
            let mut c = ZERO;
            for e in ds {
                let vs = values(*e);
                set(&mut c, *e, vs[g.next(vs.len())]);
            }
            let mut c1 = c;
            c1.base = v;
            c1.index = 4;
            let mut c2 = c;
            c2.base = 16;
            c2.index = v;
            out.push(c1);
            out.push(c2);
        }
    }
    out
}

/// Development aid: print the reference meaning of random operands of every template.
pub fn spec_dump(per: usize) {
    for t in TEMPLATES {
        let ds = dims(t);
        let st: Vec<BoxedStrategy<i64>> = ds.iter().map(|d| strategy(*d)).collect();
        let mut run = runner(7, "dump", t.id as u64, 1);
        for _ in 0..per {
            let mut c = ZERO;
            for (d, s) in ds.iter().zip(&st) {
                set(&mut c, *d, s.new_tree(&mut run).unwrap().current());
            }
            match expected(t, &c, 0x1234) {
                Verdict::Must(i) | Verdict::May(i) => println!("{}\t{}\t{}", t.mn, i, canon(&i)),
                _ => {}
            }
        }
    }
}
