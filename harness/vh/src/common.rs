//! Reports, seeds, panic capture, crash breadcrumbs.
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    /// development aid: an eighth of the quick tier
    Smoke,
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub tier: Tier,
    pub threads: usize,
    /// directory for scratch files of this run
    pub dir: String,
}

impl Cfg {
    /// `q` in the quick tier, `t` in the thorough one.
    pub fn n(&self, q: usize, t: usize) -> usize {
        match self.tier {
            Tier::Smoke => q.div_ceil(8),
            Tier::Quick => q,
            Tier::Thorough => t,
        }
    }
}

/// FNV-1a, deterministic across runs.
#[derive(Clone)]
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf29ce484222325)
    }
}
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        let mut x = self.0;
        x ^= x >> 32;
        x = x.wrapping_mul(0x9E3779B97F4A7C15);
        x ^ (x >> 29)
    }
    fn write(&mut self, b: &[u8]) {
        for c in b {
            self.0 = (self.0 ^ *c as u64).wrapping_mul(0x100000001b3);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0 ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(23);
    }
}
pub type FSet = HashSet<u64, BuildHasherDefault<Fnv>>;

pub fn hash_of(x: &impl Hash) -> u64 {
    let mut h = Fnv::default();
    x.hash(&mut h);
    h.finish()
}

#[derive(Clone, Debug)]
pub struct Viol {
    /// groups violations of the same cause
    pub sig: String,
    pub what: String,
    pub replay: Value,
    /// smaller is simpler
    pub weight: usize,
}

#[derive(Default, Clone)]
pub struct Report {
    pub evaluations: u64,
    pub distinct: FSet,
    /// distinct non-trivial cases counted elsewhere (disjoint from `distinct`)
    pub distinct_more: u64,
    pub classes: BTreeMap<String, u64>,
    pub samples: Vec<String>,
    pub viols: Vec<Viol>,
    pub known: BTreeMap<String, String>,
    pub notes: Vec<String>,
}

impl Report {
    pub fn class(&mut self, c: impl AsRef<str>, n: u64) {
        match self.classes.get_mut(c.as_ref()) {
            Some(v) => *v += n,
            None => {
                self.classes.insert(c.as_ref().to_string(), n);
            }
        }
    }
    pub fn sample(&mut self, s: impl FnOnce() -> String) {
        if self.samples.len() < 12 {
            self.samples.push(s());
        }
    }
    pub fn viol(&mut self, v: Viol) {
        if let Some(o) = self.viols.iter_mut().find(|o| o.sig == v.sig) {
            if v.weight < o.weight {
                *o = v;
            }
            return;
        }
        if self.viols.len() < 40 {
            self.viols.push(v);
        }
    }
    pub fn has(&self, sig: &str) -> bool {
        self.viols.iter().any(|o| o.sig == sig)
    }
    pub fn merge(&mut self, o: Report) {
        self.evaluations += o.evaluations;
        self.distinct.extend(o.distinct);
        self.distinct_more += o.distinct_more;
        for (k, v) in o.classes {
            self.class(k, v);
        }
        for s in o.samples {
            if self.samples.len() < 24 {
                self.samples.push(s);
            }
        }
        for v in o.viols {
            self.viol(v);
        }
        self.known.extend(o.known);
        self.notes.extend(o.notes);
    }
    pub fn to_json(&self) -> Value {
        json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct.len() as u64 + self.distinct_more,
            "classes": self.classes,
            "samples": self.samples,
            "known": self.known,
            "notes": self.notes,
            "violations": self.viols.iter().map(|v| json!({
                "sig": v.sig, "what": v.what, "replay": v.replay, "weight": v.weight,
            })).collect::<Vec<_>>(),
        })
    }
}

/// Run `f(thread index)` on `n` threads and merge the reports.
pub fn parallel<F>(n: usize, f: F) -> Report
where
    F: Fn(usize) -> Report + Sync,
{
    let mut all = Report::default();
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n)
            .map(|i| {
                let f = &f;
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        SLOT.with(|c| c.set(i));
                        f(i)
                    })
                    .unwrap()
            })
            .collect();
        for h in hs {
            match h.join() {
                Ok(r) => all.merge(r),
                Err(e) => {
                    eprintln!("harness thread panicked: {}", pmsg(&e));
                    std::process::exit(3);
                }
            }
        }
    });
    all
}

thread_local! {
    static QUIET: Cell<bool> = const { Cell::new(false) };
    static SLOT: Cell<usize> = const { Cell::new(0) };
    static LOC: RefCell<String> = const { RefCell::new(String::new()) };
}

pub fn init_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if QUIET.with(|q| q.get()) {
            LOC.with(|l| {
                *l.borrow_mut() = i.location().map(|l| l.to_string()).unwrap_or_default()
            });
        } else {
            old(i)
        }
    }));
}

fn pmsg(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Run code under test; a panic becomes Err(message).
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let old = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| q.set(old));
    r.map_err(|e| pmsg(&e))
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect::<Vec<_>>().join(" ")
}

// ---- breadcrumbs: what each thread is doing, readable after a crash ----

const SLOT_SIZE: usize = 64 << 10;
static mut CRUMBS: *mut u8 = std::ptr::null_mut();

pub fn init_crumbs(path: &str) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .truncate(true)
        .open(path)
        .unwrap();
    f.set_len((SLOT_SIZE * 64) as u64).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            SLOT_SIZE * 64,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        CRUMBS = p as *mut u8;
    }
}

/// Note the replay record of the case about to run.
pub fn crumb(s: &str) {
    unsafe {
        if CRUMBS.is_null() {
            return;
        }
        let slot = SLOT.with(|c| c.get()) & 63;
        let p = CRUMBS.add(slot * SLOT_SIZE);
        let n = s.len().min(SLOT_SIZE - 8);
        std::ptr::copy_nonoverlapping(s.as_ptr(), p.add(8), n);
        (p as *mut u64).write_volatile(n as u64);
    }
}

pub fn crumb_clear() {
    crumb("");
}

// ---- proptest plumbing ----
use proptest::test_runner::{Config, RngAlgorithm, TestRng, TestRunner};

pub fn runner(seed: u64, tag: &str, n: u64, cases: u32) -> TestRunner {
    let mut s = [0u8; 32];
    for (i, c) in s.chunks_mut(8).enumerate() {
        let h = hash_of(&(seed, tag, n, i as u64));
        c.copy_from_slice(&h.to_le_bytes());
    }
    let config = Config {
        cases,
        failure_persistence: None,
        max_shrink_iters: 20000,
        max_global_rejects: 1 << 20,
        ..Config::default()
    };
    TestRunner::new_with_rng(config, TestRng::from_seed(RngAlgorithm::ChaCha, &s))
}
