//! Page capacity (C15): code memories whose areas are filled almost to the end are prepared once;
//! each case forks a child that performs a short random history around the end of the areas.
//! Oracle: the 256 MiB bound decides which steps must be accepted and which must panic, and a
//! model of the last bytes (and of sentinels at the start) of all three areas decides what may
//! have changed.
use crate::arena;
use crate::common::*;
use crate::lit::Rng;
use crate::tm::{Case, ZERO};
use monoasm::*;
use serde_json::{json, Value};
use tmpl::{Mm, O, T, TEMPLATES};

pub const PROPS: &[&str] = &["C15"];
const CAP: usize = 256 << 20;
const TAIL: usize = 8192;
const HEAD: usize = 64;
const CPU: u64 = 25;
const ENDLESS: &str = "the history does not end";
/// which areas of the prepared memories are full (bit per area)
const CONFIGS: &[u8] = &[0b001, 0b010, 0b100, 0b111];

#[derive(Clone, Debug, PartialEq)]
enum Op {
    Page(usize),
    /// raw bytes until this much is left on the selected page
    To(usize),
    /// width 1, 2, 4, 8, or 0: a slice
    Emit(usize, usize, u64),
    Align(usize),
    Ins(usize, Case),
    Jmp(usize),
    Bind(usize),
    /// a relocation slot without bytes emitted for it
    Slot(usize),
    /// direct access to the byte at a position: area (3: the selected page), position, new value
    Poke(usize, usize, Option<u8>),
    /// kind, size or label, value
    Const(u8, usize, u64),
    Data(u8, usize, u64),
    Fin,
}

struct Prep {
    jit: JitMemory,
    base: [usize; 3],
    pos: [usize; 3],
}
// (C16 reports it if JitMemory is not Send)
unsafe impl Send for Prep {}

/// A code memory with the areas of `cfg` filled up to TAIL bytes before the end.
fn prepare(cfg: u8) -> Result<Prep, String> {
    let mut jit = guard(JitMemory::new).map_err(|e| format!("JitMemory::new: {e}"))?;
    let mut base = [0; 3];
    for p in 0..2 {
        jit.select_page(p);
        base[p] = jit.get_current_address().as_ptr() as usize;
    }
    guard(|| {
        for p in 0..2 {
            jit.select_page(p);
            for i in 0..HEAD {
                jit.emitb((i * 7 + p * 31 + 1) as u8);
            }
        }
    })
    .map_err(|e| format!("emitting {HEAD} bytes on a fresh page: {e}"))?;
    jit.select_page(0);
    let mut pos = [HEAD, HEAD, 0];
    let at = guard(|| {
        let l = jit.data(HEAD);
        jit.finalize();
        jit.get_label_address(l).as_ptr() as usize
    })
    .map_err(|e| format!("a {HEAD}-byte data item: {e}"))?;
    base[2] = at;
    pos[2] = HEAD;
    unsafe {
        for b in base {
            libc::madvise(b as *mut _, CAP, libc::MADV_HUGEPAGE);
        }
        // sentinels at the start of the data area
        for i in 0..HEAD {
            *((at + i) as *mut u8) = (i * 11 + 5) as u8;
        }
    }
    for p in 0..2 {
        if cfg >> p & 1 == 1 {
            jit.select_page(p);
            let e = guard(|| {
                // one byte per 4 KiB
                while jit.get_current() + 4096 <= CAP - TAIL {
                    jit.emitb(0x90);
                    jit.align_page();
                }
                while jit.get_current() < CAP - TAIL {
                    jit.emitb(0x90);
                }
            });
            pos[p] = jit.get_current();
            if let Err(e) = e {
                return Err(format!("page {p} is refused further emission at {:#x} of {CAP:#x} bytes: {e}", jit.get_current()));
            }
            if pos[p] != CAP - TAIL {
                return Err(format!("page {p}: position {:#x} after filling to {:#x}", pos[p], CAP - TAIL));
            }
        }
    }
    if cfg >> 2 & 1 == 1 {
        let n = CAP - TAIL - HEAD;
        guard(|| {
            let _ = jit.data(n);
            jit.finalize();
        })
        .map_err(|e| format!("a data item of {n:#x} bytes in an area of {CAP:#x} bytes: {e}"))?;
        pos[2] = CAP - TAIL;
    } else {
        guard(|| jit.finalize()).map_err(|e| format!("finalize of almost full pages: {e}"))?;
    }
    jit.select_page(0);
    Ok(Prep { jit, base, pos })
}

// ------------------------------------------------------------------ model

#[derive(Clone, Copy)]
enum It {
    Q(u64),
    L(u32),
    Bytes(usize),
    Abs(usize),
    Al,
}
struct M {
    base: [usize; 3],
    pos: [usize; 3],
    /// expected bytes of the head and of the last TAIL bytes (None: unknown)
    head: [Vec<u8>; 3],
    tail: Vec<Vec<Option<u8>>>,
    /// overlay for areas that are not full: (position, byte)
    sel: usize,
    spoiled: [bool; 3],
    consts: [Vec<(It, DestLabel)>; 2],
    data: [Vec<(It, DestLabel)>; 2],
    bound: Vec<Option<(usize, usize)>>,
    /// (page, position, label, absolute)
    rel: Vec<(usize, usize, usize, bool)>,
    /// slots overwritten after their label was bound: whether they are filled in at the binding or
    /// at the finalization is not specified
    vague: Vec<(usize, usize, usize)>,
    /// slots that existed when their label was bound
    early: std::collections::HashSet<(usize, usize)>,
}

impl M {
    fn set(&mut self, p: usize, at: usize, b: Option<u8>) {
        if at >= CAP - TAIL && at < CAP {
            self.tail[p][at - (CAP - TAIL)] = b;
        }
    }
    fn unknown(&mut self, p: usize, from: usize, to: usize) {
        for a in from.max(CAP - TAIL)..to.min(CAP) {
            self.set(p, a, None);
        }
    }
    fn touch(&mut self, p: usize, from: usize, to: usize) {
        let (early, vague) = (&self.early, &mut self.vague);
        self.rel.retain(|(q, at, _, abs)| {
            let e = at + if *abs { 8 } else { 4 };
            let hit = *q == p && early.contains(&(*q, *at)) && e <= CAP && from < e && *at < to;
            if hit {
                vague.push((p, *at, e));
            }
            !hit
        });
    }
    fn write(&mut self, p: usize, at: usize, b: &[u8]) {
        for (i, x) in b.iter().enumerate() {
            self.set(p, at + i, Some(*x));
        }
    }
    fn compare(&self) -> Option<String> {
        for p in 0..3 {
            let h = unsafe { std::slice::from_raw_parts(self.base[p] as *const u8, HEAD) };
            if let Some(i) = (0..HEAD).find(|i| h[*i] != self.head[p][*i]) {
                return Some(format!("byte {i:#x} of area {p} changed from {:#x} to {:#x}", self.head[p][i], h[i]));
            }
            let t = unsafe { std::slice::from_raw_parts((self.base[p] + CAP - TAIL) as *const u8, TAIL) };
            for i in 0..TAIL {
                if let Some(w) = self.tail[p][i] {
                    if t[i] != w {
                        return Some(format!("byte {:#x} of area {p} is {:#x}, should be {w:#x}", CAP - TAIL + i, t[i]));
                    }
                }
            }
        }
        None
    }
}

struct Outcome {
    /// steps that had to be refused / accepted within 16 bytes of the end
    refused: u64,
    close: u64,
    exact: u64,
}

fn bytes_of(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| r.u64() as u8).collect()
}

/// Perform the history on the prepared memory (in a child process).
fn perform(prep: &mut Prep, ops: &[Op]) -> Result<Outcome, String> {
    let jit = &mut prep.jit;
    let mut m = M {
        base: prep.base,
        pos: prep.pos,
        head: [0, 1, 2].map(|p| unsafe { std::slice::from_raw_parts(prep.base[p] as *const u8, HEAD).to_vec() }),
        tail: (0..3).map(|p| unsafe { std::slice::from_raw_parts((prep.base[p] + CAP - TAIL) as *const u8, TAIL).iter().map(|b| Some(*b)).collect() }).collect(),
        sel: 0,
        spoiled: [false; 3],
        consts: [vec![], vec![]],
        data: [vec![], vec![]],
        bound: vec![None; 4],
        rel: vec![],
        vague: vec![],
        early: Default::default(),
    };
    let labels: Vec<DestLabel> = (0..4).map(|_| jit.label()).collect();
    let mut out = Outcome { refused: 0, close: 0, exact: 0 };
    for (i, op) in ops.iter().enumerate() {
        let p = m.sel;
        let here = m.pos[p];
        let name = format!("step {} ({})", i + 1, show(op));
        // plain emission of n known bytes
        let mut emission: Option<Vec<u8>> = None;
        let mut r: Result<(), String> = Ok(());
        match op {
            Op::Page(n) => {
                r = guard(|| jit.select_page(*n));
                m.sel = *n;
            }
            Op::Bind(k) => {
                if m.bound[*k].is_none() && !m.spoiled[p] {
                    r = guard(|| jit.bind_label(labels[*k]));
                    m.bound[*k] = Some((p, here));
                    // its slots may be filled in from now on
                    let mut beyond = false;
                    for (q, at, l, abs) in m.rel.clone() {
                        if l == *k {
                            let e = at + if abs { 8 } else { 4 };
                            beyond |= e > CAP;
                            m.early.insert((q, at));
                            m.unknown(q, at, e);
                        }
                    }
                    if r.is_err() && beyond {
                        out.refused += 1;
                        return m.compare().map_or(Ok(out), |e| Err(format!("{name}, refused: {e}")));
                    }
                }
            }
            Op::Const(k, n, v) | Op::Data(k, n, v) => {
                let data = matches!(op, Op::Data(..));
                if m.spoiled[if data { 2 } else { p }] {
                    continue;
                }
                let mut lab = None;
                r = guard(|| {
                    lab = Some(match (k, data) {
                        (0, false) => jit.const_i64(*v as i64),
                        (1, false) => jit.const_f64(f64::from_bits(*v)),
                        (2, false) => jit.const_i32(*v as i32),
                        (3, false) => jit.constant(*n),
                        (4, false) => jit.abs_address(labels[*n % 4]),
                        (5, false) => jit.const_align8(),
                        (0, true) => jit.data_i64(*v as i64),
                        (2, true) => jit.data_i32(*v as i32),
                        _ => jit.data(*n),
                    })
                });
                let it = match (k, data) {
                    (0, _) | (1, false) => It::Q(*v),
                    (2, _) => It::L(*v as u32),
                    (4, false) => It::Abs(*n % 4),
                    (5, false) => It::Al,
                    _ => It::Bytes(*n),
                };
                if let Some(l) = lab {
                    if data {
                        m.data[p].push((it, l));
                    } else {
                        m.consts[p].push((it, l));
                    }
                }
            }
            Op::Slot(k) => {
                if m.spoiled[p] {
                    continue;
                }
                r = guard(|| jit.save_reloc(labels[*k], 4));
                m.rel.push((p, here, *k, false));
            }
            Op::Poke(a, at, v) => {
                let area = if *a == 3 { p } else { *a };
                let at_ = *at;
                let v = *v;
                let w = *a;
                let mut seen = 0;
                let e = guard(|| {
                    seen = match (w, v) {
                        (3, None) => jit[Pos::from(at_)],
                        (_, None) => jit[monoasm::Page(w)][Pos::from(at_)],
                        (3, Some(v)) => {
                            jit[Pos::from(at_)] = v;
                            v
                        }
                        (_, Some(v)) => {
                            jit[monoasm::Page(w)][Pos::from(at_)] = v;
                            v
                        }
                    }
                });
                match (e, at_ < CAP) {
                    (Ok(()), false) => return Err(format!("{name}: the byte at position {at_:#x} beyond the end ({CAP:#x}) is accessible")),
                    (Err(e), true) => return Err(format!("{name}: the byte at position {at_:#x} is not accessible: {e}")),
                    (Err(_), false) => out.refused += 1,
                    (Ok(()), true) => {
                        out.close += (CAP - at_ <= 16) as u64;
                        if at_ >= CAP - TAIL {
                            let t = &mut m.tail[area][at_ - (CAP - TAIL)];
                            if let (None, Some(x)) = (v, *t) {
                                if x != seen {
                                    return Err(format!("{name}: reads {seen:#x}, the byte there is {x:#x}"));
                                }
                            }
                            if v.is_some() {
                                *t = v;
                                m.touch(area, at_, at_ + 1);
                            }
                        }
                    }
                }
            }
            Op::Align(n) => {
                if m.spoiled[p] {
                    continue;
                }
                r = guard(|| match n {
                    4 => jit.align4(),
                    8 => jit.align8(),
                    16 => jit.align16(),
                    _ => jit.align_page(),
                });
                let to = (here + n - 1) & !(n - 1);
                m.unknown(p, here, to);
                m.pos[p] = to;
            }
            Op::To(left) => {
                if m.spoiled[p] || here + left >= CAP {
                    continue;
                }
                if here < CAP - TAIL {
                    // an area that is not full
                    let b = vec![0xc3; 16];
                    r = guard(|| jit.emit(&b));
                    m.pos[p] += 16;
                } else {
                    emission = Some(bytes_of(*left as u64, CAP - left - here));
                }
            }
            Op::Emit(w, n, v) => {
                if m.spoiled[p] {
                    continue;
                }
                emission = Some(if *w == 0 { bytes_of(*v, *n) } else { v.to_le_bytes()[..*w].to_vec() });
            }
            Op::Ins(t, c) => {
                if m.spoiled[p] {
                    continue;
                }
                let Some(t) = tmpl::by_id(*t) else { continue };
                // its bytes, from a page with room
                let b = arena::scoped(|| {
                    guard(|| {
                        let mut j = JitMemory::new();
                        (t.f)(&mut j, &c.p(DestLabel::default()));
                        let n = j.get_current();
                        j.finalize();
                        j.as_slice()[..n].to_vec()
                    })
                });
                match b {
                    Ok(b) => emission = Some(b),
                    Err(_) => continue,
                }
            }
            Op::Jmp(k) => {
                if m.spoiled[p] {
                    continue;
                }
                // with an unresolved displacement the four bytes are not known
                let mut e = Ok(());
                let fits = here + 5 <= CAP;
                let l = labels[*k];
                match guard(|| tmpl::block("jmp", jit, l, 0)) {
                    Err(x) => e = Err(x),
                    Ok(false) => continue,
                    Ok(true) => {}
                }
                judge(fits, &e, &name, p, here, 5, &mut out)?;
                if fits {
                    m.touch(p, here, here + 5);
                    m.write(p, here, &[0xe9]);
                    m.unknown(p, here + 1, here + 5);
                    m.rel.push((p, here + 1, *k, false));
                    m.pos[p] += 5;
                } else {
                    m.unknown(p, here, CAP);
                    m.spoiled[p] = true;
                    // its relocation may or may not have been recorded: no finalization after it
                    return m.compare().map_or(Ok(out), |e| Err(format!("{name}: {e}")));
                }
            }
            Op::Fin if (0..2).any(|p| m.spoiled[p] && !m.consts[p].is_empty()) => {
                // the position after a refused emission, where these would go, is not specified
                return Ok(out);
            }
            Op::Fin => {
                // where everything would go, in the order of declaration with the least alignment
                let mut pos = m.pos;
                let mut fits = true;
                let mut all: Vec<(usize, It, DestLabel)> = vec![];
                for p in 0..2 {
                    all.extend(std::mem::take(&mut m.consts[p]).into_iter().map(|(it, l)| (p, it, l)));
                }
                for p in 0..2 {
                    all.extend(std::mem::take(&mut m.data[p]).into_iter().map(|(it, l)| (2, it, l)));
                }
                let shape = |it: &It| match it {
                    It::Q(_) => (16, 8),
                    It::L(_) => (4, 4),
                    It::Bytes(n) => (16, *n),
                    It::Abs(_) => (8, 8),
                    It::Al => (8, 0),
                };
                for (p, it, _) in &all {
                    let (al, n) = shape(it);
                    let a = (pos[*p] + al - 1) & !(al - 1);
                    if a > CAP || n > CAP - a {
                        fits = false;
                        pos[*p] = CAP;
                    } else {
                        pos[*p] = a + n;
                    }
                }
                let mut slots = true;
                for (_, at, k, abs) in &m.rel {
                    if m.bound[*k].is_some() && at + if *abs { 8 } else { 4 } > CAP {
                        slots = false;
                    }
                }
                let e = guard(|| jit.finalize());
                let close = (0..3).any(|p| pos[p] != m.pos[p] && CAP - pos[p] <= 16);
                match (&e, fits, slots) {
                    (Err(e), true, true) => return Err(format!("{name}: everything fits (areas filled to {:#x}, {:#x}, {:#x} of {CAP:#x}) but finalization panics: {e}", pos[0], pos[1], pos[2])),
                    (Ok(()), _, false) => {
                        return Err(format!(
                            "{name}: finalization accepts a relocation beyond the end of its area (areas at {:#x}, {:#x}, {:#x} of {CAP:#x} before){}",
                            m.pos[0],
                            m.pos[1],
                            m.pos[2],
                            m.compare().map_or(String::new(), |e| format!("; {e}"))
                        ))
                    }
                    _ => {}
                }
                out.refused += e.is_err() as u64;
                out.close += close as u64;
                out.exact += (fits && pos.contains(&CAP)) as u64;
                // where everything is: any place in the area that is free, aligned and large enough
                let mut placed: Vec<(usize, usize, It)> = vec![];
                if e.is_ok() {
                    for (p, it, l) in &all {
                        let (al, n) = shape(it);
                        let a = guard(|| jit.get_label_address(*l).as_ptr() as usize)?;
                        let (b, from) = (m.base[*p], m.base[*p] + m.pos[*p]);
                        if a < from || a > b + CAP || n > b + CAP - a {
                            return Err(format!(
                                "{name}: finalization accepts an item of {n} bytes at {a:#x}, which is not between {from:#x} and the end {:#x} of its area {p} (areas at {:#x}, {:#x}, {:#x} of {CAP:#x} before){}",
                                b + CAP,
                                m.pos[0],
                                m.pos[1],
                                m.pos[2],
                                m.compare().map_or(String::new(), |e| format!("; {e}"))
                            ));
                        }
                        if a % al != 0 {
                            return Err(format!("{name}: an item that is to be aligned to {al} lies at {a:#x}"));
                        }
                        placed.push((*p, a - b, *it));
                    }
                    let mut v: Vec<(usize, usize, usize)> = placed.iter().map(|(p, at, it)| (*p, *at, at + shape(it).1)).filter(|x| x.1 < x.2).collect();
                    v.sort();
                    for w in v.windows(2) {
                        if w[0].0 == w[1].0 && w[1].1 < w[0].2 {
                            return Err(format!("{name}: two items overlap in area {}: {:#x}..{:#x} and {:#x}..{:#x}", w[0].0, w[0].1, w[0].2, w[1].1, w[1].2));
                        }
                    }
                    pos = m.pos;
                    for p in 0..3 {
                        let end = v.iter().filter(|x| x.0 == p).map(|x| x.2).max().unwrap_or(0);
                        if p < 2 && !m.spoiled[p] {
                            guard(|| jit.select_page(p))?;
                            pos[p] = jit.get_current();
                            if pos[p] < end || pos[p] < m.pos[p] || pos[p] > CAP {
                                return Err(format!("{name}: the position of page {p} is {:#x} (before: {:#x}; last item ends at {end:#x}; capacity {CAP:#x})", pos[p], m.pos[p]));
                            }
                        } else {
                            pos[p] = pos[p].max(end);
                        }
                    }
                    let sel = m.sel;
                    guard(|| jit.select_page(sel))?;
                }
                let done = e.is_ok();
                for p in 0..3 {
                    let from = m.pos[p];
                    m.unknown(p, from, if done { pos[p] } else { CAP });
                }
                for (p, at, it) in &placed {
                    match it {
                        It::Q(v) => m.write(*p, *at, &v.to_le_bytes()),
                        It::L(v) => m.write(*p, *at, &v.to_le_bytes()),
                        It::Bytes(n) => {
                            for i in (*at).max(CAP - TAIL)..at + n {
                                m.set(*p, i, Some(0));
                            }
                        }
                        It::Abs(k) => m.rel.push((*p, *at, *k, true)),
                        _ => {}
                    }
                }
                for (p, at, e) in std::mem::take(&mut m.vague) {
                    m.unknown(p, at, e);
                }
                let rel = std::mem::take(&mut m.rel);
                for (p, at, k, abs) in rel {
                    match m.bound[k] {
                        Some((q, t)) if done => {
                            let t = m.base[q] + t;
                            if abs {
                                m.write(p, at, &(t as u64).to_le_bytes());
                            } else {
                                let d = t as i64 - (m.base[p] + at + 4) as i64;
                                m.write(p, at, &(d as i32).to_le_bytes());
                            }
                        }
                        Some(_) => m.unknown(p, at, at + if abs { 8 } else { 4 }),
                        None => m.rel.push((p, at, k, abs)),
                    }
                }
                m.pos = pos;
                if let Some(e) = m.compare() {
                    return Err(format!("{name}{}: {e}", if done { "" } else { ", refused" }));
                }
                if !done {
                    // what a refused finalization leaves behind is not specified any further
                    return Ok(out);
                }
                let len = jit.get_current();
                if !m.spoiled[m.sel] && len != m.pos[m.sel] {
                    return Err(format!("{name}: position {len:#x}, should be {:#x}", m.pos[m.sel]));
                }
                continue;
            }
        }
        if let Some(b) = emission {
            let fits = here + b.len() <= CAP;
            let e = guard(|| match op {
                Op::Emit(1, _, v) => jit.emitb(*v as u8),
                Op::Emit(2, _, v) => jit.emitw(*v as u16),
                Op::Emit(4, _, v) => jit.emitl(*v as u32),
                Op::Emit(8, _, v) => jit.emitq(*v),
                Op::Ins(t, c) => (tmpl::by_id(*t).unwrap().f)(jit, &c.p(DestLabel::default())),
                _ => jit.emit(&b),
            });
            judge(fits, &e, &name, p, here, b.len(), &mut out)?;
            if fits {
                m.touch(p, here, here + b.len());
                m.write(p, here, &b);
                m.pos[p] = here + b.len();
            } else {
                m.unknown(p, here, CAP);
                m.spoiled[p] = true;
            }
        }
        r.map_err(|e| format!("{name} on page {p} at {here:#x} of {CAP:#x} bytes is refused: {e}"))?;
        if !m.spoiled[m.sel] {
            let c = jit.get_current();
            if c != m.pos[m.sel] {
                return Err(format!("{name}: position of page {} is {c:#x}, should be {:#x}", m.sel, m.pos[m.sel]));
            }
        }
        if let Some(e) = m.compare() {
            return Err(format!("{name} on page {p} at {here:#x} of {CAP:#x}: {e}"));
        }
    }
    Ok(out)
}

fn judge(fits: bool, e: &Result<(), String>, name: &str, p: usize, here: usize, n: usize, out: &mut Outcome) -> Result<(), String> {
    match (fits, e) {
        (true, Err(e)) => Err(format!("{name} on page {p} at {here:#x} of {CAP:#x} bytes is refused although {n} bytes fit: {e}")),
        (false, Ok(())) => Err(format!("{name} on page {p} at {here:#x}: {n} bytes are accepted beyond the end of the page ({CAP:#x})")),
        _ => {
            out.refused += !fits as u64;
            out.close += (fits && CAP - here - n <= 16) as u64;
            out.exact += (here + n == CAP) as u64;
            Ok(())
        }
    }
}

fn show(op: &Op) -> String {
    match op {
        Op::Page(n) => format!("select page {n}"),
        Op::To(n) => format!("raw bytes until {n} are left"),
        Op::Emit(0, n, _) => format!("emit {n} bytes"),
        Op::Emit(w, _, _) => format!("emit a {w}-byte value"),
        Op::Align(n) => format!("align to {n}"),
        Op::Ins(t, c) => tmpl::by_id(*t).map_or("?".into(), |t| t.text(&c.p(DestLabel::default()))),
        Op::Jmp(k) => format!("jmp L{k}"),
        Op::Bind(k) => format!("L{k}:"),
        Op::Slot(k) => format!("save_reloc(L{k}, 4)"),
        Op::Poke(a, n, v) => format!("{} byte {n:#x} of {}", if v.is_some() { "store to" } else { "read" }, ["page 0", "page 1", "the data area", "the selected page"][*a & 3]),
        Op::Const(k, n, _) => ["const_i64".to_string(), "const_f64".into(), "const_i32".into(), format!("constant({n})"), format!("abs_address(L{})", n % 4), "const_align8".into()][*k as usize].clone(),
        Op::Data(0, ..) => "data_i64".into(),
        Op::Data(2, ..) => "data_i32".into(),
        Op::Data(_, n, _) => format!("data({n})"),
        Op::Fin => "finalize".into(),
    }
}

// ------------------------------------------------------------------ generation

fn gen(r: &mut Rng, cfg: u8, pool: &[&'static T]) -> Vec<Op> {
    let mut o = vec![];
    // start on a full page, at some distance from its end
    let pick = |r: &mut Rng| {
        let f: Vec<usize> = (0..2).filter(|p| cfg >> p & 1 == 1).collect();
        if f.is_empty() || r.chance(1, 6) {
            r.n(2)
        } else {
            *r.one(&f)
        }
    };
    let huge = |r: &mut Rng| *r.one(&[CAP - HEAD - 1, CAP - HEAD, CAP - HEAD + 1, CAP, CAP + 1, u32::MAX as usize, usize::MAX]);
    let dist = |r: &mut Rng| match r.n(8) {
        0 => 0,
        1 | 2 => r.n(9),
        3 | 4 | 5 => r.n(24),
        6 => r.n(80),
        _ => r.n(5000),
    };
    o.push(Op::Page(pick(r)));
    if r.chance(1, 4) {
        o.push(Op::Bind(r.n(4)));
    }
    o.push(Op::To(dist(r)));
    if cfg & 4 != 0 && r.chance(2, 3) {
        // bring the data area close to its end
        let n = TAIL - [0, 8, 16, 24, 32, 48, 64, 100][r.n(8)].min(TAIL) - r.n(20);
        o.push(Op::Data(3, n, 0));
        o.push(Op::Fin);
    }
    for _ in 0..1 + r.n(6) {
        let v = r.u64();
        match r.n(21) {
            0 => o.push(Op::Emit(1, 0, v)),
            1 => o.push(Op::Emit(2, 0, v)),
            2 => o.push(Op::Emit(4, 0, v)),
            3 => o.push(Op::Emit(8, 0, v)),
            4 => o.push(Op::Emit(0, dist(r), v)),
            5 => o.push(Op::Align(*r.one(&[4, 8, 16, 4096]))),
            6 | 7 | 8 => {
                let t: &T = *r.one(pool);
                let c = Case { a: r.n(16) as u64, b: r.n(16) as u64, xa: r.n(16) as u64, xb: r.n(16) as u64, base: r.n(16) as u64, index: [0, 1, 9, 15][r.n(4)], disp: r.u64() as i32 >> r.n(30), imm: 1 + r.n(30) as i64, ..ZERO };
                o.push(Op::Ins(t.id, c));
            }
            9 => o.push(Op::Jmp(r.n(4))),
            10 => o.push(Op::Bind(r.n(4))),
            11 => {
                // a relocation slot: with its bytes, or beyond the end
                let k = r.n(4);
                if r.chance(1, 2) {
                    o.push(Op::Slot(k));
                    o.push(Op::Emit(4, 0, 0));
                } else {
                    o.push(Op::To(r.n(4)));
                    o.push(Op::Bind(k));
                    o.push(Op::Slot(k));
                    o.push(Op::Fin);
                    return o;
                }
            }
            12 | 13 => {
                let k = r.n(6) as u8;
                o.push(Op::Const(k, if k == 3 { if r.chance(1, 25) { huge(r) } else { dist(r) } } else { r.n(4) }, v));
            }
            14 | 15 => {
                let k = *r.one(&[0, 2, 3]);
                o.push(Op::Data(k, if k == 3 && r.chance(1, 25) { huge(r) } else { dist(r) }, v))
            }
            16 => o.push(Op::Page(pick(r))),
            17 => o.push(Op::To(dist(r))),
            20 => {
                let at = match r.n(6) {
                    0 => CAP,
                    1 => CAP - 1,
                    2 => CAP + r.n(20),
                    3 => CAP - 1 - r.n(40),
                    4 => CAP + r.n(CAP * 2),
                    _ => *r.one(&[2 * CAP, 2 * CAP - 1, 3 * CAP - 1, 3 * CAP, usize::MAX >> 1, usize::MAX]),
                };
                let v = if r.chance(1, 2) { Some(r.u64() as u8) } else { None };
                o.push(Op::Poke(r.n(4), at, v))
            }
            _ => o.push(Op::Fin),
        }
    }
    if r.chance(2, 3) {
        o.push(Op::Fin);
    }
    o
}

/// Slots are only meaningful with four bytes of their own, or at the very end.
fn sane(ops: &[Op]) -> bool {
    for (i, op) in ops.iter().enumerate() {
        if let Op::Slot(_) = op {
            let own = matches!(ops.get(i + 1), Some(Op::Emit(4, _, _)));
            let end = ops.get(i + 1) == Some(&Op::Fin) && i + 2 == ops.len() && i >= 2 && matches!(ops[i - 2], Op::To(n) if n < 4) && matches!(ops[i - 1], Op::Bind(_));
            if !own && !end {
                return false;
            }
        }
    }
    true
}

// ------------------------------------------------------------------ running a case in a child

struct Chan(*mut u8);
const CHAN: usize = 1 << 16;
impl Chan {
    fn new() -> Chan {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), CHAN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        Chan(p as *mut u8)
    }
}

fn run(prep: &mut Prep, ops: &[Op], ch: &Chan) -> Result<Outcome, String> {
    unsafe {
        let h = ch.0 as *mut u64;
        *h = 0;
        let pid = libc::fork();
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            // (the longest legitimate history takes about a second)
            let lim = libc::rlimit { rlim_cur: CPU, rlim_max: CPU + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &lim);
            libc::signal(libc::SIGXCPU, libc::SIG_DFL);
            libc::alarm(300);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT] {
                libc::signal(s, libc::SIG_DFL);
            }
            match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| perform(prep, ops))) {
                Ok(Ok(o)) => {
                    *h.add(1) = o.refused;
                    *h.add(2) = o.close;
                    *h.add(3) = o.exact;
                    *h = 1;
                }
                Ok(Err(e)) => {
                    let b = e.as_bytes();
                    let n = b.len().min(CHAN - 64);
                    std::ptr::copy_nonoverlapping(b.as_ptr(), ch.0.add(64), n);
                    *h.add(1) = n as u64;
                    *h = 2;
                }
                Err(_) => *h = 3,
            }
            libc::_exit(0);
        }
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(3);
        }
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        match *h {
            1 => Ok(Outcome { refused: *h.add(1), close: *h.add(2), exact: *h.add(3) }),
            2 => Err(String::from_utf8_lossy(std::slice::from_raw_parts(ch.0.add(64), *h.add(1) as usize)).into_owned()),
            0 if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) == libc::SIGXCPU => Err(format!("{ENDLESS} within {CPU} s of processor time")),
            0 if libc::WIFSIGNALED(st) && libc::WTERMSIG(st) != libc::SIGALRM && libc::WTERMSIG(st) != libc::SIGKILL => Err(format!("memory outside the code memory is accessed (signal {})", libc::WTERMSIG(st))),
            _ => {
                eprintln!("capacity case: child ended with status {st:#x}, answer {}: {}", *h, describe(0, ops));
                std::process::exit(3);
            }
        }
    }
}

fn describe(cfg: u8, ops: &[Op]) -> String {
    let full: Vec<&str> = (0..3).filter(|p| cfg >> p & 1 == 1).map(|p| ["page 0", "page 1", "data"][p]).collect();
    format!("[{} filled up to {TAIL} bytes] {}", full.join(", "), ops.iter().map(show).collect::<Vec<_>>().join("; "))
}

fn to_json(cfg: u8, ops: &[Op]) -> Value {
    let v: Vec<Value> = ops
        .iter()
        .map(|o| match o {
            Op::Page(n) => json!(["page", n]),
            Op::To(n) => json!(["to", n]),
            Op::Emit(w, n, v) => json!(["emit", w, n, v]),
            Op::Align(n) => json!(["align", n]),
            Op::Ins(t, c) => json!(["ins", t, [c.a, c.b, c.xa, c.xb, c.base, c.index], c.disp, c.imm]),
            Op::Jmp(n) => json!(["jmp", n]),
            Op::Bind(n) => json!(["bind", n]),
            Op::Slot(n) => json!(["slot", n]),
            Op::Poke(a, n, v) => json!(["poke", a, n, v]),
            Op::Const(k, n, v) => json!(["const", k, n, v]),
            Op::Data(k, n, v) => json!(["data", k, n, v]),
            Op::Fin => json!(["finalize"]),
        })
        .collect();
    json!({"check": "capacity", "full": cfg, "ops": v})
}
fn from_json(v: &Value) -> (u8, Vec<Op>) {
    let u = |v: &Value| v.as_u64().unwrap_or(0) as usize;
    let ops = v["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| match o[0].as_str().unwrap() {
            "page" => Op::Page(u(&o[1])),
            "to" => Op::To(u(&o[1])),
            "emit" => Op::Emit(u(&o[1]), u(&o[2]), u(&o[3]) as u64),
            "align" => Op::Align(u(&o[1])),
            "ins" => {
                let a = |i: usize| u(&o[2][i]) as u64;
                Op::Ins(u(&o[1]), Case { a: a(0), b: a(1), xa: a(2), xb: a(3), base: a(4), index: a(5), disp: o[3].as_i64().unwrap_or(0) as i32, imm: o[4].as_i64().unwrap_or(0), ..ZERO })
            }
            "jmp" => Op::Jmp(u(&o[1])),
            "bind" => Op::Bind(u(&o[1])),
            "slot" => Op::Slot(u(&o[1])),
            "poke" => Op::Poke(u(&o[1]), u(&o[2]), o[3].as_u64().map(|v| v as u8)),
            "const" => Op::Const(u(&o[1]) as u8, u(&o[2]), u(&o[3]) as u64),
            "data" => Op::Data(u(&o[1]) as u8, u(&o[2]), u(&o[3]) as u64),
            _ => Op::Fin,
        })
        .collect();
    (u(&v["full"]) as u8, ops)
}

pub fn replay(v: &Value) -> Result<(), String> {
    let (cfg, ops) = from_json(v);
    arena::scoped(|| {
        let mut p = prepare(cfg)?;
        run(&mut p, &ops, &Chan::new()).map(|_| ())
    })
}

pub fn rule(_: &str) -> &'static str {
    "case = short history of emissions, instructions, alignments, references, constants, data and finalizations on a code memory whose area(s) are filled up to at most 8192 bytes; non-trivial = at least one step that ends within 16 bytes of the end of an area or has to be refused; distinct by the history"
}

fn shrink(prep: &mut Prep, ops: &[Op], ch: &Chan, mut what: String) -> (Vec<Op>, String) {
    let mut cur = ops.to_vec();
    let mut i = 0;
    let t0 = std::time::Instant::now();
    while i < cur.len() && t0.elapsed().as_secs() < 60 {
        let mut q = cur.clone();
        q.remove(i);
        if sane(&q) {
            if let Err(e) = run(prep, &q, ch) {
                cur = q;
                what = e;
                continue;
            }
        }
        i += 1;
    }
    (cur, what)
}

pub fn check(cfg: &Cfg) -> Report {
    let pool: Vec<&'static T> = TEMPLATES.iter().filter(|t| !t.uses_label() && !matches!(t.mem(), Some(Mm::Rip)) && !t.ops.contains(&O::L)).collect();
    let pool = &pool;
    arena::scoped(|| {
        // prepared before any thread starts: the children must not inherit a lock that is held
        let preps: Vec<std::sync::Mutex<Result<Prep, String>>> = CONFIGS.iter().map(|c| std::sync::Mutex::new(prepare(*c))).collect();
        parallel(CONFIGS.len(), |k| {
            let full = CONFIGS[k];
            let mut rep = Report::default();
            let mut g = preps[k].lock().unwrap();
            let prep = match &mut *g {
                Ok(p) => p,
                Err(e) => {
                    rep.evaluations += 1;
                    rep.viol(Viol { sig: "filling".into(), what: format!("C15: {e}"), weight: 1, replay: to_json(full, &[]) });
                    return rep;
                }
            };
            rep.class("capacity: areas filled almost to the end", full.count_ones() as u64);
            let ch = Chan::new();
            let mut r = Rng::new(hash_of(&(cfg.seed, "cap", k as u64)));
            let mut fails = 0;
            for _ in 0..cfg.n(2500, 60_000) {
                let ops = gen(&mut r, full, pool);
                if !sane(&ops) {
                    continue;
                }
                rep.evaluations += 1;
                match run(prep, &ops, &ch) {
                    Ok(o) => {
                        rep.class("capacity: steps that had to be refused", o.refused);
                        rep.class("capacity: steps ending within 16 bytes of the end", o.close);
                        rep.class("capacity: steps ending exactly at the end", o.exact);
                        if o.refused + o.close > 0 {
                            rep.distinct.insert(hash_of(&describe(full, &ops)));
                            if rep.evaluations % 61 == 0 {
                                rep.sample(|| describe(full, &ops));
                            }
                        }
                    }
                    Err(e) => {
                        fails += 1;
                        let (q, e) = shrink(prep, &ops, &ch, e);
                        let sig = format!("capacity {}", e.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>());
                        rep.viol(Viol { sig, what: format!("C15: {}: {e}", describe(full, &q)), weight: q.len(), replay: to_json(full, &q) });
                        if fails > 3 {
                            break;
                        }
                    }
                }
            }
            rep
        })
    })
}
