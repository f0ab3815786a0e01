//! Histories of the assembler's run-time interface against a model
//! (C06-C10, C17, C18 and the run-time refusals of C13).
use crate::common::*;
use crate::tm::{self, Case};
use monoasm::*;
use oracle::spec::Verdict;
use proptest::prelude::*;
use proptest::strategy::ValueTree;
use serde_json::{json, Value};
use tmpl::{O, T, TEMPLATES};

pub const PROPS: &[&str] = &["C06", "C07", "C08", "C09", "C10", "C13", "C17", "C18"];
const AREA: u64 = 256 << 20;

/// One step: operation, two selectors, a value.
pub type Step = (u8, u32, u32, i64);

mod op {
    pub const EMIT: u8 = 0; // raw bytes / words / slices
    pub const ALIGN: u8 = 1;
    pub const INSTR: u8 = 2;
    pub const LABEL: u8 = 3;
    pub const BIND: u8 = 4;
    pub const REF: u8 = 5;
    pub const JUMP: u8 = 6; // patchable jump with its own label
    pub const CONST: u8 = 7;
    pub const SELECT: u8 = 8;
    pub const FINALIZE: u8 = 9;
    pub const PATCH: u8 = 10;
    pub const QUERY: u8 = 11;
    pub const BAD: u8 = 12;
    pub const GAP: u8 = 13;
    pub const DIRTY: u8 = 14; // bytes ahead of the positions are overwritten
    pub const DATA: u8 = 15; // emission straight into the data area
    pub const NAMES: [&str; 16] = [
        "emit", "align", "instruction", "new label", "bind", "reference", "patchable jump", "constant/data",
        "select page", "finalize", "patch", "query", "refused query", "gap", "dirty memory", "emission into the data area",
    ];
}

/// Floating-point values whose bits are easily lost.
const FLOATS: [u64; 12] = [
    0x7ff0_0000_0000_0001, // signalling NaN
    0xfff0_0000_0000_0001,
    0x7ff7_ffff_ffff_ffff,
    0x7ff8_0000_0000_0000,
    0xfff8_0000_0000_0000,
    0x7fff_ffff_ffff_ffff,
    0xffff_ffff_ffff_ffff,
    0x8000_0000_0000_0000,
    0x0000_0000_0000_0001, // subnormal
    0x800f_ffff_ffff_ffff,
    0x7ff0_0000_0000_0000,
    0x3fb9_9999_9999_999a,
];

/// What went wrong, and which properties that breaks.
#[derive(Clone, Debug)]
pub struct Fail {
    tags: &'static [&'static str],
    kind: &'static str,
    what: String,
}
const ALL: &[&str] = PROPS;
/// Stop the history if the property being checked is broken; failures of other properties are
/// passed over so that they do not hide it (the model then adopts what it observes).
macro_rules! fail {
    ($h:expr, $tags:expr, $kind:expr, $($a:tt)*) => {{
        let tags: &'static [&'static str] = $tags;
        if tags.contains(&$h.prop) {
            return Err(Fail { tags, kind: $kind, what: format!($($a)*) });
        }
    }};
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Lst {
    Unbound,
    /// constant or data item that gets its place at the next finalization
    Waiting,
    Bound(u64),
}
struct Lab {
    l: DestLabel,
    st: Lst,
    /// finalization round in which it was bound
    round: usize,
}
struct Seg {
    page: usize,
    start: usize,
    bytes: Vec<u8>,
    fin: bool,
}
struct Ref {
    seg: usize,
    t: &'static T,
    case: Case,
    label: usize,
    round: usize,
    resolved: bool,
    /// patched to another label
    to: Option<usize>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Q(u64),
    L(u32),
    Bytes(usize),
    Abs(usize),
    Align,
}
struct Item {
    page: usize,
    data: bool,
    kind: Kind,
    label: usize,
    addr: Option<u64>,
    /// expected current bytes
    bytes: Vec<u8>,
    abs_done: bool,
}
struct Jump {
    re: usize,
    label: usize,
    ptr: CodePtr,
}

pub struct Stats {
    pub steps: [u64; 16],
    pub rounds: u64,
    pub resolved: u64,
    pub late: u64,
    pub cross: u64,
    pub items: u64,
    pub patches: u64,
    pub switches: u64,
    pub raw: u64,
    pub aligns: u64,
    pub refusals: u64,
    pub dumps: u64,
}

struct H {
    prop: &'static str,
    jit: JitMemory,
    /// the two code pages and the data area
    base: [u64; 3],
    pos: [usize; 2],
    sel: usize,
    labels: Vec<Lab>,
    ids: std::collections::HashSet<usize>,
    segs: Vec<Seg>,
    refs: Vec<Ref>,
    items: Vec<Item>,
    jumps: Vec<Jump>,
    blocks: [Vec<(usize, usize, usize)>; 2],
    round: usize,
    st: Stats,
}

fn mem(a: u64, n: usize) -> &'static [u8] {
    unsafe { std::slice::from_raw_parts(a as *const u8, n) }
}

fn ref_templates() -> &'static [&'static T] {
    static S: std::sync::OnceLock<Vec<&'static T>> = std::sync::OnceLock::new();
    S.get_or_init(|| TEMPLATES.iter().filter(|t| t.uses_label()).collect())
}
/// memory operand plus immediate, relative to a label: the relocation is not at the end
fn trailing_templates() -> &'static [&'static T] {
    static S: std::sync::OnceLock<Vec<&'static T>> = std::sync::OnceLock::new();
    S.get_or_init(|| TEMPLATES.iter().filter(|t| t.uses_label() && t.has_imm()).collect())
}
fn branch_templates() -> &'static [&'static T] {
    static S: std::sync::OnceLock<Vec<&'static T>> = std::sync::OnceLock::new();
    S.get_or_init(|| TEMPLATES.iter().filter(|t| t.ops == [O::L]).collect())
}
fn plain_templates() -> &'static [&'static T] {
    static S: std::sync::OnceLock<Vec<&'static T>> = std::sync::OnceLock::new();
    S.get_or_init(|| TEMPLATES.iter().filter(|t| !t.uses_label()).collect())
}
fn named(mn: &str) -> Option<&'static T> {
    TEMPLATES.iter().find(|t| t.mn == mn && t.ops == [O::L])
}

/// Operand values that the reference says must be accepted.
fn case_for(t: &T, a: u32, v: i64) -> Case {
    let mut c = tm::random_case(t, a as u64 ^ 0x9E37_79B9);
    c.imm = v;
    for imm in [v, v as i32 as i64, v as i16 as i64, v as i8 as i64, v & 7] {
        c.imm = imm;
        if let Verdict::Must(_) = tm::expected(t, &c, 0) {
            return c;
        }
    }
    c
}

impl H {
    fn new(prop: &'static str) -> Result<H, Fail> {
        let mut jit = match guard(|| if prop == "C10" { JitMemory::default() } else { JitMemory::new() }) {
            Ok(j) => j,
            Err(m) => return Err(Fail { tags: ALL, kind: "panic", what: format!("JitMemory::new panics: {m}") }),
        };
        let mut base = [0; 3];
        base[2] = match guard(|| &jit[Page(2)][Pos::from(0)] as *const u8 as u64) {
            Ok(b) => b,
            Err(m) => return Err(Fail { tags: ALL, kind: "panic", what: format!("reading a byte of the data area panics: {m}") }),
        };
        for p in [1, 0] {
            jit.select_page(p);
            base[p] = jit.get_current_address().as_ptr() as u64 - jit.get_current() as u64;
        }
        Ok(H {
            prop,
            jit,
            base,
            pos: [0; 2],
            sel: 0,
            labels: vec![],
            ids: Default::default(),
            segs: vec![],
            refs: vec![],
            items: vec![],
            jumps: vec![],
            blocks: [vec![], vec![]],
            round: 0,
            st: Stats {
                steps: [0; 16],
                rounds: 0,
                resolved: 0,
                late: 0,
                cross: 0,
                items: 0,
                patches: 0,
                switches: 0,
                raw: 0,
                aligns: 0,
                refusals: 0,
                dumps: 0,
            },
        })
    }

    fn g<R>(&mut self, what: &str, f: impl FnOnce(&mut JitMemory) -> R) -> Result<R, Fail> {
        let j = &mut self.jit;
        match guard(|| f(j)) {
            Ok(r) => Ok(r),
            Err(m) => Err(Fail { tags: ALL, kind: "panic", what: format!("{what} panics: {m}") }),
        }
    }

    /// Position of page `p` as the interface reports it (leaves the selection as it was).
    fn observe(&mut self, p: usize) -> (usize, u64) {
        let s = self.sel;
        if s != p {
            self.jit.select_page(p);
        }
        let r = (self.jit.get_current(), self.jit.get_current_address().as_ptr() as u64);
        if s != p {
            self.jit.select_page(s);
        }
        r
    }

    /// Bytes `now` of segment `i` differ from what they were only in the slot of a reference that
    /// no finalization has resolved yet: when it is filled in, and what it holds until then, is
    /// not specified.
    fn pending(&self, i: usize, now: &[u8]) -> bool {
        let was = &self.segs[i].bytes;
        self.refs.iter().rev().any(|r| {
            r.seg == i
                && !r.resolved
                && (0..now.len().saturating_sub(3)).any(|k| {
                    let d = i32::from_le_bytes(now[k..k + 4].try_into().unwrap());
                    now[..k] == was[..k]
                        && now[k + 4..] == was[k + 4..]
                        && match tm::expected(r.t, &r.case, d as i64) {
                            Verdict::Must(w) | Verdict::May(w) => tm::same(now, &w).is_ok(),
                            Verdict::Reject => false,
                        }
                })
        })
    }

    /// Every byte written so far is as it was.
    fn unchanged(&self, during: &str, patch: bool, skip: &dyn Fn(usize) -> bool) -> Result<(), Fail> {
        for (i, s) in self.segs.iter().enumerate() {
            if skip(i) {
                continue;
            }
            let now = mem(self.base[s.page] + s.start as u64, s.bytes.len());
            if now != &s.bytes[..] && !self.pending(i, now) {
                let tags: &[&str] = match (patch, s.fin, s.page == self.sel) {
                    (true, true, _) => &["C09", "C08"],
                    (true, false, _) => &["C09", "C18"],
                    (_, true, true) => &["C08"],
                    (_, true, false) => &["C08", "C10"],
                    (_, false, true) => &["C18", "C07"],
                    (_, false, false) => &["C18", "C10"],
                };
                fail!(self,
                    tags,
                    "changed",
                    "{during} changes {} bytes at page {} offset {}: [{}] became [{}]",
                    if s.fin { "finalized" } else { "emitted" },
                    s.page,
                    s.start,
                    hex(&s.bytes),
                    hex(now)
                );
            }
        }
        for it in &self.items {
            if let Some(a) = it.addr {
                let now = mem(a, it.bytes.len());
                // (an entry whose label has no address yet holds anything)
                let pending = matches!(it.kind, Kind::Abs(_)) && !it.abs_done;
                if now != &it.bytes[..] && !pending {
                    fail!(self,
                        if patch { &["C09", "C08", "C07"] } else { &["C08", "C07"] },
                        "changed",
                        "{during} changes the finalized item {:?}: [{}] became [{}]",
                        it.kind,
                        hex(&it.bytes[..it.bytes.len().min(32)]),
                        hex(&now[..now.len().min(32)])
                    );
                }
            }
        }
        Ok(())
    }

    /// Positions of both pages agree with the model.
    fn positions(&mut self, during: &str) -> Result<(), Fail> {
        for p in [self.sel, 1 - self.sel] {
            let (pos, addr) = self.observe(p);
            if pos != self.pos[p] {
                // (selecting a page is the only step that may not concern positions at all)
                let tags: &[&str] = match (p == self.sel, during == op::NAMES[op::SELECT as usize]) {
                    (true, false) => &["C18"],
                    (true, true) => &["C10", "C18"],
                    _ => &["C10"],
                };
                fail!(self, tags, "position", "after {during} the position of page {p} is {pos}, expected {}", self.pos[p]);
                self.pos[p] = pos;
            }
            if addr != self.base[p] + pos as u64 {
                fail!(self, &["C18"], "address", "after {during} the current address of page {p} is {addr:#x}, expected page start {:#x} plus position {pos}", self.base[p]);
            }
        }
        if self.jit.get_page() != self.sel {
            fail!(self, &["C10"], "selection", "after {during} get_page() is {}, expected {}", self.jit.get_page(), self.sel);
        }
        Ok(())
    }

    /// Record bytes just emitted on page `p` whose content is known in advance.
    fn raw(&mut self, p: usize, want: Vec<u8>, what: &str) -> Result<(), Fail> {
        let start = self.pos[p];
        self.st.raw += 1;
        let (pos, _) = self.observe(p);
        if pos != start + want.len() {
            fail!(self, &["C18"], "length", "{what} at offset {start} moves the position to {pos}, expected {}", start + want.len());
        }
        let n = pos.saturating_sub(start).min(want.len());
        let now = mem(self.base[p] + start as u64, n);
        if now != &want[..n] {
            fail!(self, &["C18"], "content", "{what} stores [{}], expected [{}]", hex(now), hex(&want));
        }
        self.pos[p] = pos;
        self.segs.push(Seg { page: p, start, bytes: now.to_vec(), fin: false });
        Ok(())
    }

    /// Record an instruction just emitted on the selected page.
    fn taken(&mut self, what: &str) -> Result<usize, Fail> {
        let p = self.sel;
        let start = self.pos[p];
        let (pos, _) = self.observe(p);
        if pos <= start || pos > start + 15 {
            return Err(Fail { tags: ALL, kind: "length", what: format!("{what} moves the position from {start} to {pos}") });
        }
        let bytes = mem(self.base[p] + start as u64, pos - start).to_vec();
        self.pos[p] = pos;
        self.segs.push(Seg { page: p, start, bytes, fin: false });
        Ok(self.segs.len() - 1)
    }

    /// End of everything known to lie in the data area.
    fn data_end(&self) -> Option<u64> {
        let i = self.items.iter().filter(|i| i.data).filter_map(|i| i.addr.map(|a| a + i.bytes.len() as u64)).max();
        let s = self.segs.iter().filter(|s| s.page == 2).map(|s| self.base[2] + (s.start + s.bytes.len()) as u64).max();
        i.max(s)
    }

    /// A label bound at the position of the data area; gives that position.
    fn data_label(&mut self) -> Result<u64, Fail> {
        let i = self.new_label()?;
        let l = self.labels[i].l;
        self.g("binding a label in the data area", |j| j.bind_label_with_page(Page(2), l))?;
        let a = self.g("asking for the address of a bound label", |j| j.get_label_address(l).as_ptr() as u64)?;
        if a < self.base[2] || a - self.base[2] > AREA {
            fail!(self, &["C06", "C07", "C10", "C18"], "label", "a label bound in the data area (from {:#x}) is at {a:#x}", self.base[2]);
        }
        self.labels[i].st = Lst::Bound(a);
        self.labels[i].round = self.round;
        Ok(a)
    }

    fn new_label(&mut self) -> Result<usize, Fail> {
        let l = self.g("label()", |j| j.label())?;
        if !self.ids.insert(l.to_usize()) {
            fail!(self, &["C06", "C07"], "label", "label() returns a label that is already in use");
        }
        self.labels.push(Lab { l, st: Lst::Unbound, round: 0 });
        Ok(self.labels.len() - 1)
    }
    fn some_label(&mut self, a: u32) -> Result<usize, Fail> {
        // sometimes a fresh one, to have references before binding
        if self.labels.is_empty() || (a % 5 == 0 && self.labels.len() < 40) {
            return self.new_label();
        }
        Ok((a / 5) as usize % self.labels.len())
    }
    fn bind(&mut self, i: usize, p: usize, how: u32) -> Result<(), Fail> {
        let l = self.labels[i].l;
        let sel = self.sel;
        self.g("binding a label", |j| {
            if p == sel {
                match how % 3 {
                    0 => j.bind_label(l),
                    1 => {
                        if !tmpl::block("bind", j, l, 0) {
                            j.bind_label(l)
                        }
                    }
                    _ => j.bind_label_with_page(Page(p), l),
                }
            } else {
                j.bind_label_with_page(Page(p), l)
            }
        })?;
        self.labels[i].st = Lst::Bound(self.base[p] + self.pos[p] as u64);
        self.labels[i].round = self.round;
        Ok(())
    }

    fn emit_ref(&mut self, t: &'static T, case: Case, label: usize) -> Result<(), Fail> {
        let p = case.p(self.labels[label].l);
        self.g(&format!("`{}`", t.text(&p)), |j| (t.f)(j, &p))?;
        let seg = self.taken(t.mn)?;
        self.refs.push(Ref { seg, t, case, label, round: self.round, resolved: false, to: None });
        Ok(())
    }

    /// All resolved references designate their label.
    fn check_refs(&mut self, during: &str) -> Result<(), Fail> {
        for i in 0..self.refs.len() {
            let r = &self.refs[i];
            if !r.resolved {
                continue;
            }
            let target = r.to.unwrap_or(r.label);
            let Lst::Bound(dest) = self.labels[target].st else { continue };
            let s = &self.segs[r.seg];
            let at = self.base[s.page] + s.start as u64;
            let bytes = mem(at, s.bytes.len());
            let end = at + bytes.len() as u64;
            let want = match tm::expected(r.t, &r.case, dest.wrapping_sub(end) as i64) {
                Verdict::Must(i) | Verdict::May(i) => i,
                Verdict::Reject => continue,
            };
            if let Err(e) = tm::same(bytes, &want) {
                let tags: &[&str] = if r.to.is_some() { &["C09"] } else { &["C06"] };
                fail!(self,
                    tags,
                    "target",
                    "after {during}: `{} {}` at page {} offset {} (emitted in round {}) refers to label at {:#x} (distance {}): {e}",
                    r.t.mn,
                    r.t.src,
                    s.page,
                    s.start,
                    r.round,
                    dest,
                    dest.wrapping_sub(end) as i64
                );
            }
        }
        for it in &self.items {
            if let (Kind::Abs(l), Some(a), true) = (it.kind, it.addr, it.abs_done) {
                let Lst::Bound(dest) = self.labels[l].st else { continue };
                let now = u64::from_le_bytes(mem(a, 8).try_into().unwrap());
                if now != dest {
                    fail!(self, &["C06"], "absolute", "after {during}: an absolute-address entry holds {now:#x}, its label is bound at {dest:#x}");
                }
            }
        }
        Ok(())
    }

    fn check_labels(&mut self, during: &str) -> Result<(), Fail> {
        for sel in [1 - self.sel, self.sel] {
            self.jit.select_page(sel);
            for i in 0..self.labels.len() {
                if let Lst::Bound(want) = self.labels[i].st {
                    let l = self.labels[i].l;
                    let got = self.g("asking for the address of a bound label", |j| {
                        (
                            j.get_label_address(l).as_ptr() as u64,
                            j.get_label_u64(l),
                            j.get_label_addr::<u64, u64>(l) as usize as u64,
                            j.get_label_addr2::<u64, u64, u64>(l) as usize as u64,
                        )
                    });
                    let got = match got {
                        Ok(g) => g,
                        Err(e) => {
                            self.jit.select_page(self.sel);
                            return Err(e);
                        }
                    };
                    if got != (want, want, want, want) {
                        let fin = self.labels[i].round < self.round;
                        let tags: &[&str] = if fin { &["C10", "C08", "C06"] } else { &["C10", "C06"] };
                        let s = self.sel;
                        self.jit.select_page(s);
                        fail!(self, tags, "label address", "after {during}, with page {sel} selected, a label bound at {want:#x} is reported at {:#x} / {:#x} / {:#x} / {:#x} (get_label_address / _u64 / _addr / _addr2)", got.0, got.1, got.2, got.3);
                    }
                }
            }
        }
        Ok(())
    }

    /// Code pointers behave like the addresses they stand for.
    fn check_ptrs(&mut self, a: u32) -> Result<(), Fail> {
        let mut v: Vec<CodePtr> = vec![self.jit.get_current_address()];
        for l in &self.labels {
            if matches!(l.st, Lst::Bound(_)) && v.len() < 5 {
                v.push(self.jit.get_label_address(l.l));
            }
        }
        for x in [self.base[0], self.base[1], self.base[0] + AREA - 1, self.base[1] + a as u64 % AREA, 1 + a as u64, 1 << 40 | a as u64] {
            v.push(CodePtr::from(x as *mut u8));
        }
        for p in &v {
            let x = p.as_ptr() as u64;
            for q in &v {
                let y = q.as_ptr() as u64;
                let got = guard(|| (*p - *q, p.partial_cmp(q), p == q, p < q));
                let want = (x.wrapping_sub(y) as i64, x.partial_cmp(&y), x == y, x < y);
                if got.as_ref().ok() != Some(&want) {
                    fail!(self, &["C10"], "pointer", "code pointers {x:#x} and {y:#x}: difference, order, equality, less are {got:?}, expected {want:?}");
                }
            }
            for n in [0, 1, 5, 127, 128, 4096, a as usize % AREA as usize, a as usize, 1 << 31, (a as usize) << 7] {
                let got = guard(|| (*p + n).as_ptr() as u64);
                if got.as_ref().ok() != Some(&(x + n as u64)) {
                    fail!(self, &["C10"], "pointer", "code pointer {x:#x} + {n} is {got:x?}");
                }
            }
        }
        Ok(())
    }

    fn check_include(&mut self, a: u32) -> Result<(), Fail> {
        let mut v: Vec<(u64, bool)> = vec![];
        for p in 0..2 {
            for o in [0, 1, AREA / 2, AREA - 1, (a as u64) % AREA, self.pos[p] as u64] {
                v.push((self.base[p] + o, true));
            }
        }
        let lo = self.base[0].min(self.base[1]);
        let hi = self.base[0].max(self.base[1]) + AREA;
        for x in [lo - 1, lo - AREA / 2, lo - AREA, lo - 2 * AREA, hi, hi + 1, hi + AREA / 2, hi + AREA - 1, hi + AREA, 0, 8, &v as *const _ as u64] {
            v.push((x, false));
        }
        for it in &self.items {
            if let (true, Some(x)) = (it.data, it.addr) {
                v.push((x, false));
            }
        }
        let s = self.sel;
        for sel in [1 - s, s] {
            self.jit.select_page(sel);
            for (x, want) in &v {
                let got = self.jit.include(*x as *mut u8);
                if got != *want {
                    self.jit.select_page(s);
                    fail!(self, &["C10"], "include", "with page {sel} selected include({x:#x}) is {got}; the code pages are at {:#x} and {:#x}", self.base[0], self.base[1]);
                }
            }
        }
        Ok(())
    }

    fn finalize(&mut self) -> Result<(), Fail> {
        self.g("finalize()", |j| j.finalize())?;
        self.st.rounds += 1;
        let code_end = self.pos;
        // positions may only have moved forward, past the constants
        let mut newpos = [0; 2];
        for p in 0..2 {
            let (pos, addr) = self.observe(p);
            if pos < code_end[p] {
                fail!(self, &["C08", "C18"], "backwards", "finalize() moves the position of page {p} back from {} to {pos}", code_end[p]);
            }
            if addr != self.base[p] + pos as u64 {
                fail!(self, &["C18"], "address", "after finalize() the current address of page {p} is {addr:#x}, expected page start plus {pos}");
            }
            newpos[p] = pos;
        }
        // new items
        let mut placed: Vec<(u64, u64, usize)> = vec![];
        for i in 0..self.items.len() {
            let li = self.items[i].label;
            if self.items[i].addr.is_none() {
                let l = self.labels[li].l;
                let a = self.g("asking for the address of a finalized constant or data item", |j| j.get_label_address(l).as_ptr() as u64)?;
                self.labels[li].st = Lst::Bound(a);
                self.labels[li].round = self.round;
                self.st.items += 1;
                let it = &self.items[i];
                let (len, align) = match it.kind {
                    Kind::Q(_) => (8, 16),
                    Kind::L(_) => (4, 4),
                    Kind::Bytes(n) => (n, 16),
                    Kind::Abs(_) => (8, 8),
                    Kind::Align => (0, 8),
                };
                if a % align != 0 {
                    fail!(self, &["C07"], "alignment", "{:?} declared on page {} is placed at {a:#x}, not a multiple of {align}", it.kind, it.page);
                }
                if it.data {
                    for p in 0..2 {
                        if a < self.base[p] + AREA && a + len as u64 > self.base[p] {
                            fail!(self, &["C07"], "area", "data item {:?} is placed at {a:#x}, inside code page {p}", it.kind);
                        }
                    }
                    let other = self.items.iter().filter(|o| o.data).filter_map(|o| o.addr).min().unwrap_or(a);
                    if a.abs_diff(other) >= AREA || a.abs_diff(self.base[0]) > 4 * AREA {
                        fail!(self, &["C07"], "area", "data items {a:#x} and {other:#x} are not in one data area");
                    }
                } else {
                    let b = self.base[it.page];
                    if a < b || a + len as u64 > b + AREA {
                        fail!(self, &["C07", "C10"], "area", "{:?} declared on page {} is placed at {a:#x}, outside that page at {b:#x}", it.kind, it.page);
                    }
                    if a + (len as u64) > b + newpos[it.page] as u64 {
                        fail!(self, &["C07", "C08"], "beyond", "{:?} declared on page {} is placed at {a:#x}, beyond the new position {}", it.kind, it.page, newpos[it.page]);
                    }
                }
                self.items[i].addr = Some(a);
                self.items[i].bytes = vec![0; len];
                placed.push((a, a + len as u64, i));
            }
        }
        // no overlap of the new items with code or any item
        for &(a, e, i) in &placed {
            if a == e {
                continue;
            }
            for s in &self.segs {
                let b = self.base[s.page] + s.start as u64;
                let f = b + s.bytes.len() as u64;
                if a < f && b < e {
                    let tags: &[&str] = if s.fin { &["C07", "C08"] } else { &["C07"] };
                    fail!(self, tags, "overlap", "{:?} is placed at {a:#x}..{e:#x}, over emitted bytes at {b:#x}..{f:#x}", self.items[i].kind);
                }
            }
            for (k, o) in self.items.iter().enumerate() {
                if let (true, Some(b)) = (k != i, o.addr) {
                    let f = b + o.bytes.len() as u64;
                    if a < f && b < e {
                        fail!(self, &["C07"], "overlap", "{:?} is placed at {a:#x}..{e:#x}, over {:?} at {b:#x}..{f:#x}", self.items[i].kind, o.kind);
                    }
                }
            }
        }
        // values
        for &(a, e, i) in &placed {
            let now = mem(a, (e - a) as usize);
            let want: Option<Vec<u8>> = match self.items[i].kind {
                Kind::Q(v) => Some(v.to_le_bytes().to_vec()),
                Kind::L(v) => Some(v.to_le_bytes().to_vec()),
                Kind::Bytes(n) => Some(vec![0; n]),
                _ => None,
            };
            if let Some(w) = want {
                if now != &w[..] {
                    fail!(self, &["C07"], "value", "{:?} ({} page {}) is stored as [{}]", self.items[i].kind, if self.items[i].data { "data, declared on" } else { "constant on" }, self.items[i].page, hex(&now[..now.len().min(32)]));
                }
            }
        }
        // resolve references
        let mut touched = std::collections::HashSet::new();
        for r in self.refs.iter_mut() {
            if !r.resolved {
                if let Lst::Bound(d) = self.labels[r.label].st {
                    r.resolved = true;
                    touched.insert(r.seg);
                    self.st.resolved += 1;
                    let s = &self.segs[r.seg];
                    if r.round < self.round {
                        self.st.late += 1;
                    }
                    if d < self.base[s.page] || d >= self.base[s.page] + AREA {
                        self.st.cross += 1;
                    }
                }
            }
        }
        let mut fresh_abs = std::collections::HashSet::new();
        for (k, it) in self.items.iter_mut().enumerate() {
            if let (Kind::Abs(l), false) = (it.kind, it.abs_done) {
                if let Lst::Bound(_) = self.labels[l].st {
                    it.abs_done = true;
                    fresh_abs.insert(k);
                    self.st.resolved += 1;
                }
            }
        }
        // everything else is as before
        let fresh: std::collections::HashSet<usize> = placed.iter().map(|p| p.2).collect();
        for (k, it) in self.items.iter_mut().enumerate() {
            if fresh.contains(&k) || fresh_abs.contains(&k) {
                it.bytes = mem(it.addr.unwrap(), it.bytes.len()).to_vec();
            }
        }
        self.unchanged("finalize()", false, &|i| touched.contains(&i))?;
        for i in touched {
            let s = &mut self.segs[i];
            s.bytes = mem(self.base[s.page] + s.start as u64, s.bytes.len()).to_vec();
        }
        for s in self.segs.iter_mut() {
            s.fin = true;
        }
        self.check_refs("finalize()")?;
        self.check_labels("finalize()")?;
        // listing interfaces
        for p in [1 - self.sel, self.sel] {
            let start = self.blocks[p].last().map_or(0, |b| b.2);
            self.blocks[p].push((start, code_end[p], newpos[p]));
            self.jit.select_page(p);
            let s = self.jit.as_slice();
            let (sp, sl) = (s.as_ptr() as u64, s.len());
            if sp != self.base[p] || sl != code_end[p] {
                let sel = self.sel;
                self.jit.select_page(sel);
                fail!(self, &["C17"], "slice", "after finalization as_slice() of page {p} covers {} bytes from {sp:#x}; expected {} from {:#x}", sl, code_end[p], self.base[p]);
            }
            let n = code_end[p];
            for o in [0, 1, n / 2, n.wrapping_sub(1), newpos[p].wrapping_sub(1)] {
                if o < newpos[p] {
                    let j = &self.jit;
                    let got = guard(|| (j[Pos::from(o)], j[Page(p)][Pos::from(o)]));
                    let want = mem(self.base[p] + o as u64, 1)[0];
                    if got.as_ref().ok() != Some(&(want, want)) {
                        let sel = self.sel;
                        self.jit.select_page(sel);
                        fail!(self, &["C17"], "index", "reading position {o} of page {p} gives {got:x?}, the code there is {want:#x}");
                        self.jit.select_page(p);
                    }
                }
            }
            let got: Vec<(usize, usize, usize)> = self.jit[Page(p)].code_block.iter().map(|b| (posn(b.0), posn(b.1), posn(b.2))).collect();
            if got != self.blocks[p] {
                let sel = self.sel;
                self.jit.select_page(sel);
                fail!(self, &["C17"], "blocks", "code blocks of page {p} are {got:?}, expected {:?}", self.blocks[p]);
            }
            // the positions of a block measure it
            if let (Some(b), Some(&(s, e, t))) = (self.jit[Page(p)].code_block.last().copied(), self.blocks[p].last()) {
                let len = guard(|| (b.1 - b.0, b.2 - b.1, posn(b.0 + (t - s) as i32), posn(b.2 + -((t - e) as i32))));
                if len != Ok((e - s, t - e, t, e)) {
                    let sel = self.sel;
                    self.jit.select_page(sel);
                    fail!(self, &["C17"], "positions", "code end - start, end - code end, start advanced to the end and end put back to the code end of block {s}..{e}..{t} are {len:?}");
                }
            }
        }
        self.pos = newpos;
        self.round += 1;
        self.positions("finalize()")
    }

    /// The textual dump shows the bytes of the latest block of each page.
    fn check_dump(&mut self) -> Result<(), Fail> {
        for p in [1 - self.sel, self.sel] {
            let Some(&(s, e, _)) = self.blocks[p].last() else { return Ok(()) };
            self.jit.select_page(p);
            let d = self.g("dump_code()", |j| j.dump_code());
            let sel = self.sel;
            self.jit.select_page(sel);
            let d = match d? {
                Ok(d) => d,
                Err(e) => {
                    fail!(self, &["C17"], "dump", "dump_code() fails: {e}");
                    return Ok(());
                }
            };
            self.st.dumps += 1;
            let want = mem(self.base[p] + s as u64, e - s);
            if let Err(m) = dump_matches(&d, want) {
                fail!(self, &["C17"], "dump", "dump_code() of page {p}, latest block {s}..{e} [{}]: {m}; dump:\n{d}", hex(&want[..want.len().min(64)]));
            }
        }
        Ok(())
    }

    fn step(&mut self, s: &Step) -> Result<(), Fail> {
        let (o, a, b, v) = *s;
        self.st.steps[o as usize] += 1;
        match o {
            op::EMIT => {
                // direct access to a page's emitter in one case of four
                let p = if a & 12 == 12 { (a >> 4) as usize & 1 } else { self.sel };
                let direct = a & 12 == 12;
                let want: Vec<u8> = match a & 3 {
                    0 => vec![v as u8],
                    1 => (v as u16).to_le_bytes().to_vec(),
                    2 => (v as u32).to_le_bytes().to_vec(),
                    _ => (v as u64).to_le_bytes().to_vec(),
                };
                let slice = !direct && b & 3 == 3;
                let macro_dq = !direct && b & 31 == 4;
                if slice {
                    let n = match b >> 2 & 1023 {
                        700 => 70_000,
                        701..=703 => 5000,
                        704..=710 => 300,
                        _ => (b >> 2) as usize % 40,
                    };
                    let mut x = v as u64;
                    let sl: Vec<u8> = (0..n)
                        .map(|_| {
                            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            (x >> 56) as u8
                        })
                        .collect();
                    self.g("emit()", |j| j.emit(&sl))?;
                    self.raw(p, sl, "emit()")?;
                } else if macro_dq {
                    self.g("dq", |j| {
                        if !tmpl::block("dq", j, DestLabel::default(), 0) {
                            j.emitq(0x7123456789abcdef);
                            j.emitq(1.5f64.to_bits());
                            j.emitq(255);
                        }
                    })?;
                    let mut w = 0x7123456789abcdefu64.to_le_bytes().to_vec();
                    w.extend(1.5f64.to_bits().to_le_bytes());
                    w.extend(255u64.to_le_bytes());
                    self.raw(p, w, "dq 0x7123456789abcdef; dq 1.5; dq 255")?;
                } else {
                    self.g("raw emission", |j| {
                        let m: &mut MemPage = if direct { &mut j[Page(p)] } else { &mut *j };
                        match a & 3 {
                            0 => m.emitb(v as u8),
                            1 => m.emitw(v as u16),
                            2 => m.emitl(v as u32),
                            _ => m.emitq(v as u64),
                        }
                    })?;
                    self.raw(p, want, ["emitb", "emitw", "emitl", "emitq"][(a & 3) as usize])?;
                }
            }
            op::ALIGN => {
                let p = if a & 12 == 12 { (a >> 4) as usize & 1 } else { self.sel };
                let k = match b % 16 {
                    0..=4 => 4,
                    5..=9 => 8,
                    10..=14 => 16,
                    _ => 4096,
                };
                let direct = a & 12 == 12;
                self.g("alignment", |j| {
                    let m: &mut MemPage = if direct { &mut j[Page(p)] } else { &mut *j };
                    match k {
                        4 => m.align4(),
                        8 => m.align8(),
                        16 => m.align16(),
                        _ => m.align_page(),
                    }
                })?;
                self.st.aligns += 1;
                let want = (self.pos[p] + k - 1) / k * k;
                let (pos, _) = self.observe(p);
                if pos != want {
                    fail!(self, &["C18"], "align", "aligning to {k} at offset {} moves the position to {pos}, expected {want}", self.pos[p]);
                }
                self.pos[p] = pos;
            }
            op::INSTR => {
                let ts = plain_templates();
                let t = ts[a as usize % ts.len()];
                let c = case_for(t, b, v);
                if !matches!(tm::expected(t, &c, 0), Verdict::Must(_)) {
                    return Ok(());
                }
                let p = c.p(DestLabel::default());
                self.g(&format!("`{}`", t.text(&p)), |j| (t.f)(j, &p))?;
                self.taken(t.mn)?;
            }
            op::LABEL => {
                if self.labels.len() < 60 {
                    self.new_label()?;
                    if b % 64 == 9 {
                        // more than a byte (or two) can number
                        for _ in 0..if b % (1 << 15) == 9 { 1_050_000 } else if b % 2048 == 9 { 66_000 } else { 300 } {
                            self.new_label()?;
                        }
                    }
                }
            }
            op::BIND => {
                let un: Vec<usize> = (0..self.labels.len()).filter(|i| self.labels[*i].st == Lst::Unbound).collect();
                let i = if un.is_empty() {
                    if self.labels.len() >= 400 {
                        return Ok(());
                    }
                    self.new_label()?
                } else {
                    un[a as usize % un.len()]
                };
                let p = if b & 7 == 7 { 1 - self.sel } else { self.sel };
                self.bind(i, p, b >> 3)?;
            }
            op::REF => {
                let l = self.some_label(b)?;
                let ts = match a & 3 {
                    0 => branch_templates(),
                    1 => trailing_templates(),
                    _ => ref_templates(),
                };
                if ts.is_empty() {
                    return Ok(());
                }
                let t = ts[(a >> 2) as usize % ts.len()];
                let c = case_for(t, b.rotate_left(7), v);
                if !matches!(tm::expected(t, &c, 0), Verdict::Must(_)) {
                    return Ok(());
                }
                let n = if b % (96 << 13) == 17 { 70_000 } else if b % (96 << 6) == 17 { 5000 } else if b % 1536 == 17 { 300 } else if b % 96 == 17 { 40 } else { 1 };
                for _ in 0..n {
                    self.emit_ref(t, c, l)?;
                }
            }
            op::JUMP => {
                let target = self.some_label(b)?;
                let Some(t) = named(if a & 1 == 0 { "jmp" } else { "call" }) else { return Ok(()) };
                let here = self.new_label()?;
                self.bind(here, self.sel, a >> 1)?;
                let ptr = self.jit.get_current_address();
                self.emit_ref(t, tm::ZERO, target)?;
                self.jumps.push(Jump { re: self.refs.len() - 1, label: here, ptr });
            }
            op::CONST => {
                if self.items.len() >= 40 {
                    return Ok(());
                }
                for k in 0..if b % (1 << 16) == 300 { 3000 } else if b % 1024 == 300 { 300 } else { 1 } {
                let a = a.wrapping_add(k * 7);
                let v = v.wrapping_add(k as i64);
                // just before, at or after a place where the position gets round
                let steered = |end: u64| {
                    let m = [4096, 256, 64, 65536][(b >> 8) as usize % 4];
                    let to = m - ((end + 15) & !15) as usize % m;
                    (to + (b >> 16) as usize % 41).saturating_sub(20)
                };
                let n = match b % 256 {
                    204..=235 if a % 9 == 3 => steered(self.base[self.sel] + self.pos[self.sel] as u64),
                    204..=235 => steered(self.data_end().unwrap_or(self.base[2])),
                    200 => 70_000,
                    201..=203 => 5000,
                    _ => (b % 70) as usize,
                };
                let abs = if a % 9 == 5 { Some(self.some_label(b)?) } else { None };
                let absl = abs.map(|i| self.labels[i].l).unwrap_or_default();
                let (kind, data, l) = self.g("declaring a constant or data item", |j| match a % 9 {
                    0 => (Kind::Q(v as u64), false, j.const_i64(v)),
                    1 => (Kind::L(v as u32), false, j.const_i32(v as i32)),
                    2 => {
                        let v = if b % 4 == 1 { FLOATS[(b >> 2) as usize % FLOATS.len()] } else { v as u64 };
                        (Kind::Q(v), false, j.const_f64(f64::from_bits(v)))
                    }
                    3 => (Kind::Bytes(n), false, j.constant(n)),
                    4 => (Kind::Align, false, j.const_align8()),
                    5 => (Kind::Abs(abs.unwrap()), false, j.abs_address(absl)),
                    6 => (Kind::Q(v as u64), true, j.data_i64(v)),
                    7 => (Kind::L(v as u32), true, j.data_i32(v as i32)),
                    _ => (Kind::Bytes(n), true, j.data(n)),
                })?;
                if !self.ids.insert(l.to_usize()) {
                    fail!(self, &["C06", "C07"], "label", "a declaration returns a label that is already in use");
                }
                self.labels.push(Lab { l, st: Lst::Waiting, round: 0 });
                self.items.push(Item { page: self.sel, data, kind, label: self.labels.len() - 1, addr: None, bytes: vec![], abs_done: false });
                }
            }
            op::SELECT => {
                let p = (a & 1) as usize;
                self.g("select_page", |j| j.select_page(p))?;
                if p != self.sel {
                    self.st.switches += 1;
                }
                self.sel = p;
            }
            op::FINALIZE => {
                self.finalize()?;
                // many rounds, some of them with something in them
                let many = self.refs.len() > 1000 || self.items.len() > 1000;
                for k in 0..if many { 0 } else if b % 4096 == 100 { 300 } else if b % 512 == 100 { 20 } else { 0 } {
                    if k % 3 == 1 {
                        let x = (a >> 8) as u8;
                        self.g("emitb", |j| j.emitb(x))?;
                        self.raw(self.sel, vec![x], "emitb")?;
                    }
                    self.finalize()?;
                }
            }
            op::PATCH => {
                let js: Vec<usize> = (0..self.jumps.len()).filter(|i| self.refs[self.jumps[*i].re].resolved).collect();
                let ls: Vec<usize> = (0..self.labels.len()).filter(|i| matches!(self.labels[*i].st, Lst::Bound(_))).collect();
                if js.is_empty() || ls.is_empty() {
                    return Ok(());
                }
                let j = js[(a >> 1) as usize % js.len()];
                let d = ls[b as usize % ls.len()];
                let (here, ptr, dest) = (self.labels[self.jumps[j].label].l, self.jumps[j].ptr, self.labels[d].l);
                let re = self.jumps[j].re;
                self.g("patching a jump", |m| if a & 1 == 0 { m.apply_jmp_patch(here, dest) } else { m.apply_jmp_patch_address(ptr, dest) })?;
                self.st.patches += 1;
                let si = self.refs[re].seg;
                let s = &mut self.segs[si];
                // only the displacement may have changed
                let now = mem(self.base[s.page] + s.start as u64, s.bytes.len());
                if now[0] != s.bytes[0] || now.len() != 5 {
                    fail!(self, &["C09"], "opcode", "patching turns [{}] into [{}]", hex(&s.bytes), hex(now));
                }
                s.bytes = now.to_vec();
                self.refs[re].to = Some(d);
                self.unchanged("patching", true, &|_| false)?;
                self.check_refs("patching")?;
            }
            op::QUERY => {
                self.check_labels("a query")?;
                self.check_include(a)?;
                self.check_ptrs(a)?;
                self.check_refs("a query")?;
            }
            op::BAD => {
                self.st.refusals += 1;
                let un: Vec<DestLabel> = self.labels.iter().filter(|l| !matches!(l.st, Lst::Bound(_))).map(|l| l.l).collect();
                if a & 1 == 0 && !un.is_empty() {
                    let l = un[b as usize % un.len()];
                    let j = &mut self.jit;
                    let r = guard(|| match (a >> 1) % 4 {
                        0 => j.get_label_address(l).as_ptr() as u64,
                        1 => j.get_label_u64(l),
                        2 => j.get_label_addr::<u64, u64>(l) as usize as u64,
                        _ => j.get_label_addr2::<u64, u64, u64>(l) as usize as u64,
                    });
                    if let Ok(x) = r {
                        fail!(self, &["C13"], "unbound", "the address of an unbound label is given as {x:#x}");
                    }
                } else {
                    let n = [2, 3, 4, 255, 256, 1 << 20, usize::MAX][b as usize % 7];
                    let j = &mut self.jit;
                    let r = guard(|| j.select_page(n));
                    if r.is_ok() {
                        fail!(self, &["C13"], "page", "select_page({n}) is accepted");
                    }
                    let s = self.sel;
                    self.jit.select_page(s);
                }
            }
            op::DIRTY => {
                // whatever lay in memory before must not matter
                let n = 1 + (b % 300) as usize;
                let end = self.data_end();
                for p in 0..3 {
                    if a >> p & 1 == 0 {
                        continue;
                    }
                    let from = match (p, end) {
                        // an item outside its area is reported where items are checked
                        (2, Some(e)) if e < self.base[2] || e - self.base[2] > AREA => continue,
                        (2, Some(e)) => (e - self.base[2]) as usize,
                        (2, None) => 0,
                        _ => self.pos[p],
                    };
                    self.g("storing bytes ahead of the position", |j| {
                        for k in 0..n {
                            j[Page(p)][Pos::from(from + k)] = if v & 1 == 0 { 0xcc } else { (v as usize).wrapping_add(k) as u8 | 1 };
                        }
                    })?;
                }
            }
            op::DATA => {
                let at = self.data_label()?;
                if at < self.base[2] || at >= self.base[2] + AREA {
                    fail!(self, &["C10", "C06"], "area", "a label bound at the position of the data area is reported at {at:#x}, outside the area at {:#x}", self.base[2]);
                    return Ok(());
                }
                if let Some(e) = self.data_end().filter(|e| at < *e) {
                    fail!(self, &["C08", "C07"], "backwards", "the position of the data area is {at:#x}, before the end {e:#x} of what it holds");
                }
                let want = match a & 3 {
                    0 => vec![v as u8],
                    1 => (v as u16).to_le_bytes().to_vec(),
                    2 => (v as u32).to_le_bytes().to_vec(),
                    _ => (v as u64).to_le_bytes().to_vec(),
                };
                let k = [1, 4, 8, 16][b as usize & 3];
                self.g("emission into the data area", |j| {
                    let m = &mut j[Page(2)];
                    match a & 3 {
                        0 => m.emitb(v as u8),
                        1 => m.emitw(v as u16),
                        2 => m.emitl(v as u32),
                        _ => m.emitq(v as u64),
                    }
                    match k {
                        4 => m.align4(),
                        8 => m.align8(),
                        16 => m.align16(),
                        _ => {}
                    }
                })?;
                self.st.raw += 1;
                let now = mem(at, want.len());
                if now != &want[..] {
                    fail!(self, &["C18"], "content", "emission into the data area stores [{}], expected [{}]", hex(now), hex(&want));
                }
                self.segs.push(Seg { page: 2, start: (at - self.base[2]) as usize, bytes: now.to_vec(), fin: false });
                let next = self.data_label()?;
                let o = (at - self.base[2]) as usize + want.len();
                let o = (o + k - 1) / k * k;
                if next != self.base[2] + o as u64 {
                    fail!(self, &["C18"], "length", "emission of {} bytes into the data area at {at:#x} and alignment to {k} move the position to {next:#x}, expected {:#x}", want.len(), self.base[2] + o as u64);
                }
            }
            _ => {
                let n = match b % 512 {
                    1 if v & 7 == 0 => 16384,
                    1..=3 => 2048,
                    4..=15 => 256,
                    0 | 16..=271 => {
                        // filler up to just before a place where the position gets round
                        let p = self.sel;
                        let m = if b % 512 == 0 { [1 << 20, 1 << 24, 1 << 26, 1 << 27][a as usize % 4] } else { [4096, 256, 64, 65536][a as usize % 4] };
                        let m: usize = m;
                        let end = (self.pos[p] / m + 1) * m;
                        if end > AREA as usize / 2 {
                            return Ok(());
                        }
                        // far away: nothing of interest on the way
                        while end - self.pos[p] > 70_000 {
                            self.g("align_page", |j| {
                                j.align_page();
                                j.emitb(v as u8);
                            })?;
                            self.pos[p] = (self.pos[p] + 4095) / 4096 * 4096 + 1;
                        }
                        let k = (end - self.pos[p]).saturating_sub((a >> 2) as usize % 24);
                        let fill: Vec<u8> = (0..k).map(|i| (v as usize).wrapping_add(i) as u8).collect();
                        self.g("emit", |j| j.emit(&fill))?;
                        self.raw(p, fill, "emit")?;
                        0
                    }
                    _ => 1 + b % 24,
                };
                for k in 0..n {
                    if n > 24 && k + 1 < n && k > 1 {
                        // far away: nothing of interest on the way
                        let p = self.sel;
                        if self.pos[p] > AREA as usize / 2 {
                            continue;
                        }
                        self.g("align_page", |j| {
                            j.align_page();
                            j.emitb(v as u8);
                        })?;
                        self.pos[p] = (self.pos[p] + 4095) / 4096 * 4096 + 1;
                        continue;
                    }
                    self.g("align_page", |j| j.align_page())?;
                    let p = self.sel;
                    self.pos[p] = (self.pos[p] + 4095) / 4096 * 4096;
                    let (pos, _) = self.observe(p);
                    if pos != self.pos[p] {
                        fail!(self, &["C18"], "align", "align_page() moves the position to {pos}, expected {}", self.pos[p]);
                        self.pos[p] = pos;
                    }
                    self.g("emitb", |j| j.emitb(v as u8))?;
                    self.raw(p, vec![v as u8], "emitb")?;
                }
            }
        }
        if o != op::FINALIZE {
            self.positions(op::NAMES[o as usize])?;
            if o != op::PATCH {
                self.unchanged(op::NAMES[o as usize], false, &|_| false)?;
            }
        }
        Ok(())
    }
}

fn posn(p: Pos) -> usize {
    p - Pos::from(0)
}

/// The machine-code column of an objdump listing equals `want`; objdump abbreviates zero runs as "...".
pub fn dump_matches(d: &str, want: &[u8]) -> Result<(), String> {
    let mut at = 0usize;
    let mut gap = false;
    for l in d.lines() {
        if l.trim() == "..." {
            gap = true;
            continue;
        }
        if l.trim().is_empty() {
            continue;
        }
        let mut f = l.splitn(2, ':');
        let off = f.next().unwrap().trim();
        let rest = match f.next() {
            Some(r) => r,
            None => return Err(format!("unexpected line {l:?}")),
        };
        let off = usize::from_str_radix(off, 16).map_err(|_| format!("unexpected line {l:?}"))?;
        let hexs = rest.trim_start_matches('\t').split('\t').next().unwrap_or("");
        let mut bytes = vec![];
        for h in hexs.split_whitespace() {
            bytes.push(u8::from_str_radix(h, 16).map_err(|_| format!("unexpected line {l:?}"))?);
        }
        if gap {
            if off < at || off > want.len() || want[at..off].iter().any(|b| *b != 0) {
                return Err(format!("bytes {at:#x}..{off:#x} are missing"));
            }
            at = off;
            gap = false;
        }
        if off != at {
            return Err(format!("line {l:?} follows offset {at:#x}"));
        }
        if at + bytes.len() > want.len() || want[at..at + bytes.len()] != bytes[..] {
            return Err(format!("line {l:?} does not show the code at {at:#x}"));
        }
        at += bytes.len();
    }
    if gap && want[at..].iter().all(|b| *b == 0) {
        return Ok(());
    }
    if at != want.len() {
        return Err(format!("only {at} of {} bytes are shown", want.len()));
    }
    Ok(())
}

/// Run a whole history.
pub fn run(prop: &str, steps: &[Step], dump: bool) -> Result<Stats, (usize, Fail)> {
    let prop = PROPS.iter().find(|p| **p == prop).copied().unwrap_or("");
    let mut at = 0;
    let r = crate::arena::scoped(|| guard(|| history(prop, steps, dump, &mut at)));
    // the calls are guarded one by one: a panic here is one of the model, which holds on to
    // addresses and lengths that the code under test gave out
    r.unwrap_or_else(|m| Err((at, Fail { tags: ALL, kind: "inconsistent", what: format!("the addresses and lengths observed so far contradict each other ({m})") })))
}

fn history(prop: &'static str, steps: &[Step], dump: bool, at: &mut usize) -> Result<Stats, (usize, Fail)> {
        let mut h = H::new(prop).map_err(|f| (0, f))?;
        for (i, s) in steps.iter().enumerate() {
            *at = i;
            h.step(s).map_err(|f| (i, f))?;
        }
        let n = steps.len();
        *at = n;
        h.finalize().map_err(|f| (n, f))?;
        h.check_include(17).map_err(|f| (n, f))?;
        if dump {
            h.check_dump().map_err(|f| (n, f))?;
        }
        // a last round: everything must survive it
        h.step(&(op::EMIT, 3, 0, -1)).map_err(|f| (n, f))?;
        h.finalize().map_err(|f| (n, f))?;
        h.unchanged("the last round", false, &|_| false).map_err(|f| (n, f))?;
        Ok(h.st)
}

fn weights(prop: &str) -> Vec<u8> {
    // EMIT ALIGN INSTR LABEL BIND REF JUMP CONST SELECT FINALIZE PATCH QUERY BAD GAP DIRTY DATA
    let w: [usize; 16] = match prop {
        "C06" => [3, 1, 2, 3, 9, 16, 3, 6, 5, 5, 1, 0, 0, 1, 1, 1],
        "C07" => [4, 2, 2, 1, 3, 5, 1, 18, 6, 5, 0, 0, 0, 1, 2, 2],
        "C08" => [4, 2, 4, 2, 6, 8, 4, 8, 6, 8, 3, 0, 0, 1, 0, 1],
        "C09" => [2, 1, 2, 2, 6, 3, 10, 4, 5, 7, 14, 0, 0, 1, 0, 1],
        "C10" => [6, 3, 4, 2, 6, 4, 2, 6, 12, 5, 1, 5, 0, 1, 1, 1],
        "C13" => [2, 1, 2, 4, 4, 4, 1, 4, 4, 4, 0, 1, 12, 0, 0, 0],
        "C17" => [4, 3, 10, 1, 3, 5, 2, 6, 6, 6, 1, 0, 0, 0, 1, 0],
        _ => [20, 12, 4, 1, 2, 3, 1, 4, 6, 4, 0, 0, 0, 1, 1, 2],
    };
    let mut v = vec![];
    for (i, n) in w.iter().enumerate() {
        v.extend(std::iter::repeat(i as u8).take(*n));
    }
    v
}

fn strategy(prop: &str, len: usize) -> impl Strategy<Value = Vec<Step>> {
    let ops = proptest::sample::select(weights(prop));
    proptest::collection::vec((ops, any::<u32>(), any::<u32>(), tm::imm_strategy()), 1..len)
}

fn nontrivial(prop: &str, s: &Stats) -> bool {
    match prop {
        "C06" => s.resolved >= 1 && (s.late > 0 || s.cross > 0 || s.resolved >= 3),
        "C07" => s.items >= 2,
        "C08" => s.rounds >= 3 && s.resolved + s.items + s.raw >= 1,
        "C09" => s.patches >= 1,
        "C10" => s.switches >= 1,
        "C13" => s.refusals >= 1,
        "C17" => s.rounds >= 3,
        _ => s.raw >= 1 && s.aligns >= 1,
    }
}
pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C06" => "case = history of emissions, label definitions, references, declarations, page selections, finalizations and patches; non-trivial = resolves a reference across pages or rounds, or at least three references; distinct by the whole history",
        "C07" => "case = history; non-trivial = at least two constants or data items placed; distinct by the whole history",
        "C08" => "case = history; non-trivial = at least three finalization rounds with content; distinct by the whole history",
        "C09" => "case = history; non-trivial = at least one jump or call patched after finalization; distinct by the whole history",
        "C10" => "case = history; non-trivial = the selected page changes at least once; distinct by the whole history",
        "C13" => "case = history; non-trivial = asks for an unbound label or a page that does not exist; distinct by the whole history",
        "C17" => "case = history; non-trivial = at least three finalization rounds; distinct by the whole history",
        _ => "case = history; non-trivial = at least one raw emission and one alignment; distinct by the whole history",
    }
}

fn to_json(prop: &str, s: &[Step], dump: bool) -> Value {
    json!({"check": "history", "property": prop, "dump": dump,
           "steps": s.iter().map(|x| json!([x.0, x.1, x.2, x.3])).collect::<Vec<_>>(),
           "readable": s.iter().map(|x| op::NAMES[x.0 as usize]).collect::<Vec<_>>()})
}

pub fn replay(v: &Value) -> Result<(), String> {
    let prop = v["property"].as_str().unwrap();
    let steps: Vec<Step> = v["steps"]
        .as_array()
        .unwrap()
        .iter()
        .map(|x| (x[0].as_u64().unwrap() as u8, x[1].as_u64().unwrap() as u32, x[2].as_u64().unwrap() as u32, x[3].as_i64().unwrap()))
        .collect();
    match run(prop, &steps, v["dump"].as_bool().unwrap_or(false)) {
        Err((i, f)) if f.tags.contains(&prop) => Err(format!("at step {i}: {}", f.what)),
        _ => Ok(()),
    }
}

pub fn check(cfg: &Cfg) -> Report {
    let prop = cfg.prop.clone();
    let per = cfg.n(if prop == "C13" { 2000 } else { 20_000 }, 1_000_000);
    let dump_every = if prop == "C17" { cfg.n(60, 200) } else { usize::MAX };
    parallel(cfg.threads, |th| {
        let mut r = Report::default();
        let mut rn = runner(cfg.seed, &format!("hist-{prop}"), th as u64, 1);
        let short = strategy(&prop, 16);
        let long = strategy(&prop, 90);
        let mut failures = 0;
        for k in 0..per {
            let mut tree = if k % 4 == 0 { short.new_tree(&mut rn).unwrap() } else { long.new_tree(&mut rn).unwrap() };
            let mut steps = tree.current();
            let dump = k % dump_every == dump_every - 1;
            if dump && k / dump_every % 8 == 7 {
                // a long listing
                steps.push((op::EMIT, 0, if k / dump_every % 32 == 31 { 700 } else { 701 } << 2 | 3, k as i64));
            }
            crumb(&to_json(&prop, &steps, dump).to_string());
            r.evaluations += 1;
            match run(&prop, &steps, dump) {
                Ok(st) => {
                    for (i, n) in st.steps.iter().enumerate() {
                        if *n > 0 {
                            r.class(format!("steps: {}", op::NAMES[i]), *n);
                        }
                    }
                    r.class("finalization rounds", st.rounds);
                    r.class("references resolved", st.resolved);
                    r.class("references resolved in a later round", st.late);
                    r.class("references across pages or areas", st.cross);
                    r.class("constants and data placed", st.items);
                    r.class("patches", st.patches);
                    r.class("textual dumps compared", st.dumps);
                    if nontrivial(&prop, &st) {
                        r.distinct.insert(hash_of(&steps));
                        if k % 97 == 3 {
                            r.sample(|| steps.iter().map(|s| format!("{}({},{},{})", op::NAMES[s.0 as usize], s.1, s.2, s.3)).take(14).collect::<Vec<_>>().join("; "));
                        }
                    }
                }
                Err((_, f)) if f.tags.contains(&prop.as_str()) => {
                    failures += 1;
                    if failures > 40 {
                        break;
                    }
                    let sig = f.kind.to_string();
                    if r.has(&sig) {
                        continue;
                    }
                    // shrink to a minimal history with the same kind of failure
                    let fails = |s: &[Step]| {
                        crumb(&to_json(&prop, s, dump).to_string());
                        matches!(run(&prop, s, dump), Err((_, g)) if g.kind == f.kind && g.tags.contains(&prop.as_str()))
                    };
                    let mut best = steps;
                    let mut budget = 3000;
                    let mut ok = tree.simplify();
                    while ok && budget > 0 {
                        budget -= 1;
                        let s = tree.current();
                        if fails(&s) {
                            best = s;
                            ok = tree.simplify();
                        } else {
                            ok = tree.complicate();
                        }
                    }
                    // also drop single steps that the first pass kept
                    let mut i = 0;
                    while i < best.len() {
                        let mut s = best.clone();
                        s.remove(i);
                        if fails(&s) {
                            best = s;
                        } else {
                            i += 1;
                        }
                    }
                    let what = match run(&prop, &best, dump) {
                        Err((i, g)) => format!("{prop}: history of {} steps, at step {i}: {}", best.len(), g.what),
                        Ok(_) => format!("{prop}: {} (not reproduced on a second run)", f.what),
                    };
                    r.viol(Viol { sig, what, replay: to_json(&prop, &best, dump), weight: best.len() });
                }
                Err(_) => r.class("stopped early by a failure of another property", 1),
            }
        }
        crumb_clear();
        r
    })
}
