//! Lifetime of generated code (C16): histories of creating, filling, moving, sending, dropping and
//! calling many code memories on several threads. Each history runs in a child process of its own
//! with the ordinary allocator. Oracle: every function ever published has a known result and known
//! bytes, whatever happened to its code memory; /proc/self/maps gives the permissions.
use crate::common::*;
use crate::lit::Rng;
use monoasm::*;
use serde_json::{json, Value};
use std::sync::{Barrier, Mutex};

pub const PROPS: &[&str] = &["C16"];
const CAP: usize = 256 << 20;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    /// create a code memory in slot
    New(usize),
    /// add functions to the code memory in a slot and publish them
    Fill(usize, u64),
    /// drop / move to the heap / swap two slots / move through a vector that grows
    Drop(usize),
    Box(usize),
    Swap(usize, usize),
    Grow(usize),
    /// call published functions (chosen by the seed)
    Call(u64),
    /// allocate, fill and free memory of the size of a code memory
    Press(u64),
    /// emission without finalization, left unfinished
    Half(usize, u64),
    /// many short-lived code memories
    Many(usize, u64),
    Maps,
}

#[derive(Clone, Debug)]
struct Hist {
    threads: usize,
    /// take turns in the given order (otherwise every thread runs its own steps at its own pace)
    turns: bool,
    ops: Vec<(usize, Op)>,
}

const SLOTS: usize = 12;
const ENDLESS: &str = "the history does not end";

// ------------------------------------------------------------------ one code memory

struct Inst {
    jit: Holder,
    base: [usize; 3],
}
/// The code memory, held directly or behind a pointer.
enum Holder {
    Plain(JitMemory),
    Boxed(Box<JitMemory>),
}
impl Holder {
    fn get(&mut self) -> &mut JitMemory {
        match self {
            Holder::Plain(j) => j,
            Holder::Boxed(j) => j,
        }
    }
}
// (whether JitMemory itself is Send is reported separately, see `sendable`)
struct Cell_(Option<Inst>);
unsafe impl Send for Cell_ {}

#[derive(Clone, Copy, Debug)]
enum What {
    /// argument + constant
    Add(u64),
    /// counter in the data area: returns the old value and adds the argument
    Count(usize),
    /// bytes of code only
    F(f64),
}
#[derive(Clone)]
struct Func {
    addr: usize,
    what: What,
    code: Vec<u8>,
}
struct World {
    slots: Vec<Mutex<Cell_>>,
    funcs: Mutex<Vec<Func>>,
    /// modelled counters, each with the lock that keeps its function single
    counters: Mutex<Vec<u64>>,
    areas: Mutex<Vec<[usize; 3]>>,
    err: Mutex<Option<String>>,
    calls: std::sync::atomic::AtomicU64,
    stale: std::sync::atomic::AtomicU64,
    made: std::sync::atomic::AtomicU64,
}

fn create() -> Result<Inst, String> {
    let mut jit = guard(JitMemory::new).map_err(|e| format!("JitMemory::new: {e}"))?;
    let mut base = [0; 3];
    for p in 0..2 {
        guard(|| jit.select_page(p))?;
        base[p] = jit.get_current_address().as_ptr() as usize;
    }
    Ok(Inst { jit: Holder::Plain(jit), base })
}

/// `rax := rdi + v; ret`, by bytes if the compiler refuses the lines.
fn add_imm(jit: &mut JitMemory, v: u64) {
    if !tmpl::block("add imm", jit, DestLabel::default(), v as i64) {
        jit.emit(&[0x48, 0xb8]);
        jit.emit(&v.to_le_bytes());
        jit.emit(&[0x48, 0x01, 0xf8, 0xc3]);
    }
}

/// Add functions; returns them with the bytes of their code.
fn fill(i: &mut Inst, seed: u64, w: &World) -> Result<Vec<Func>, String> {
    let mut r = Rng::new(seed);
    let base = &mut i.base;
    let jit = i.jit.get();
    let mut out: Vec<(DestLabel, What, usize, usize)> = vec![];
    let mut datas: Vec<DestLabel> = vec![];
    guard(|| {
        let mut earlier: Vec<(DestLabel, u64)> = vec![];
        for _ in 0..1 + r.n(4) {
            let page = r.n(2);
            jit.select_page(page);
            for _ in 0..r.n(30) {
                jit.emitb(0x90);
            }
            let l = jit.label();
            let from = jit.get_current();
            let v = r.u64() >> r.n(40);
            jit.bind_label(l);
            let what = match r.n(6) {
                0 => {
                    add_imm(jit, v);
                    What::Add(v)
                }
                1 => {
                    let c = jit.const_i64(v as i64);
                    if !tmpl::block("add const", jit, c, 0) {
                        add_imm(jit, v);
                    }
                    What::Add(v)
                }
                2 => {
                    let d = jit.data_i64(v as i64);
                    datas.push(d);
                    if tmpl::block("count", jit, d, 0) {
                        let mut c = w.counters.lock().unwrap();
                        c.push(v);
                        What::Count(c.len() - 1)
                    } else {
                        add_imm(jit, v);
                        What::Add(v)
                    }
                }
                3 if !earlier.is_empty() => {
                    let (f, k) = *r.one(&earlier);
                    if !tmpl::block("call", jit, f, 0) {
                        add_imm(jit, k.wrapping_add(7));
                    }
                    What::Add(k.wrapping_add(7))
                }
                4 if !earlier.is_empty() => {
                    let (f, k) = *r.one(&earlier);
                    let a = jit.abs_address(f);
                    if !tmpl::block("tail", jit, a, 0) {
                        add_imm(jit, k);
                    }
                    What::Add(k)
                }
                _ => {
                    let x = (v as i32) as f64 / 8.0;
                    let c = jit.const_f64(x);
                    if tmpl::block("addsd", jit, c, 0) {
                        What::F(x)
                    } else {
                        add_imm(jit, v);
                        What::Add(v)
                    }
                }
            };
            if let What::Add(k) = what {
                earlier.push((l, k));
            }
            out.push((l, what, from, jit.get_current() - from));
        }
        jit.finalize();
    })
    .map_err(|e| format!("filling a code memory: {e}"))?;
    for d in datas {
        let a = guard(|| jit.get_label_address(d).as_ptr() as usize)?;
        if base[2] == 0 {
            base[2] = a;
        }
    }
    let mut fs = vec![];
    for (k, (l, what, _, n)) in out.into_iter().enumerate() {
        let addr = guard(|| match k % 4 {
            0 => jit.get_label_address(l).as_ptr() as usize,
            1 => jit.get_label_u64(l) as usize,
            2 => jit.get_label_addr::<u64, u64>(l) as usize,
            _ => jit.get_label_addr2::<u64, u64, u64>(l) as usize,
        })?;
        let code = unsafe { std::slice::from_raw_parts(addr as *const u8, n).to_vec() };
        fs.push(Func { addr, what, code });
    }
    Ok(fs)
}

fn call(w: &World, seed: u64) -> Result<(), String> {
    use std::sync::atomic::Ordering::Relaxed;
    let mut r = Rng::new(seed);
    for _ in 0..1 + r.n(12) {
        let (f, k, n) = {
            let fs = w.funcs.lock().unwrap();
            if fs.is_empty() {
                return Ok(());
            }
            // the latest, or any
            let k = if r.chance(1, 3) { fs.len() - 1 - r.n(fs.len().min(4)) } else { r.n(fs.len()) };
            (fs[k].clone(), k, fs.len())
        };
        let now = unsafe { std::slice::from_raw_parts(f.addr as *const u8, f.code.len()) };
        if now != &f.code[..] {
            return Err(format!("the code of function {k} of {n} at {:#x} changed from [{}] to [{}]", f.addr, hex(&f.code), hex(now)));
        }
        let a = r.u64();
        w.calls.fetch_add(1, Relaxed);
        match f.what {
            What::Add(v) => {
                let g: extern "C" fn(u64) -> u64 = unsafe { std::mem::transmute(f.addr) };
                let got = g(a);
                if got != a.wrapping_add(v) {
                    return Err(format!("function {k} of {n} gives {got:#x} for {a:#x}, should be {:#x}", a.wrapping_add(v)));
                }
            }
            What::Count(c) => {
                let mut cs = w.counters.lock().unwrap();
                let g: extern "C" fn(u64) -> u64 = unsafe { std::mem::transmute(f.addr) };
                let got = g(a);
                if got != cs[c] {
                    return Err(format!("function {k} of {n}: its value in the data area is {got:#x}, should be {:#x}", cs[c]));
                }
                cs[c] = cs[c].wrapping_add(a);
            }
            What::F(x) => {
                let g: extern "C" fn(f64) -> f64 = unsafe { std::mem::transmute(f.addr) };
                let y = (a as i32) as f64;
                let got = g(y);
                if got != x + y {
                    return Err(format!("function {k} of {n} gives {got} for {y}, should be {}", x + y));
                }
            }
        }
    }
    Ok(())
}

/// Permissions of all areas ever created.
fn maps(w: &World) -> Result<(), String> {
    let text = match std::fs::read_to_string("/proc/self/maps") {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read /proc/self/maps: {e}");
            std::process::exit(3)
        }
    };
    let mut v: Vec<(usize, usize, String)> = vec![];
    for l in text.lines() {
        let mut f = l.split_whitespace();
        let (Some(a), Some(p)) = (f.next(), f.next()) else { continue };
        let Some((s, e)) = a.split_once('-') else { continue };
        v.push((usize::from_str_radix(s, 16).unwrap(), usize::from_str_radix(e, 16).unwrap(), p.to_string()));
    }
    v.sort();
    // (start, end) must be mapped throughout with the wanted permissions
    let region = |from: usize, to: usize, want: &str, name: &str, k: usize| -> Result<(), String> {
        let mut at = from;
        while at < to {
            let i = v.partition_point(|x| x.1 <= at);
            match v.get(i) {
                Some((s, e, p)) if *s <= at => {
                    if &p[..3] != want {
                        return Err(format!("{name} of code memory {k} is {p} at {at:#x} ({:#x} bytes from its start), should be {want}", at - from));
                    }
                    at = *e;
                }
                _ => return Err(format!("{name} of code memory {k} is not mapped at {at:#x}")),
            }
        }
        Ok(())
    };
    for (k, a) in w.areas.lock().unwrap().iter().enumerate() {
        region(a[0], a[0] + CAP, "rwx", "code page 0", k)?;
        region(a[1], a[1] + CAP, "rwx", "code page 1", k)?;
        if a[2] != 0 {
            region(a[2] & !4095, (a[2] & !4095) + CAP, "rw-", "the data area", k)?;
        }
    }
    Ok(())
}

fn press(seed: u64) {
    use std::alloc::{alloc, dealloc, Layout};
    let mut r = Rng::new(seed);
    let l = Layout::from_size_align(CAP * (1 + r.n(3)), if r.chance(1, 2) { CAP } else { 4096 }).unwrap();
    unsafe {
        let p = alloc(l);
        if !p.is_null() {
            let mut o = 0;
            while o < l.size() {
                std::ptr::write_bytes(p.add(o), 0xcc, 4096);
                o += CAP;
            }
            dealloc(p, l);
        }
    }
}

fn step(w: &World, op: Op) -> Result<(), String> {
    use std::sync::atomic::Ordering::Relaxed;
    let take = |s: usize| w.slots[s].lock().unwrap().0.take();
    let put = |s: usize, i: Inst| {
        // whatever lies there is dropped outside the lock
        let old = w.slots[s].lock().unwrap().0.replace(i);
        drop(old);
    };
    match op {
        Op::New(s) => {
            let i = create()?;
            w.made.fetch_add(1, Relaxed);
            w.areas.lock().unwrap().push([i.base[0], i.base[1], 0]);
            put(s, i);
        }
        Op::Fill(s, seed) => {
            if let Some(mut i) = take(s) {
                let fs = fill(&mut i, seed, w)?;
                for a in w.areas.lock().unwrap().iter_mut() {
                    if a[0] == i.base[0] {
                        a[2] = i.base[2];
                    }
                }
                w.funcs.lock().unwrap().extend(fs);
                put(s, i);
            }
        }
        Op::Half(s, seed) => {
            if let Some(mut i) = take(s) {
                let mut r = Rng::new(seed);
                let first = i.base[2] == 0;
                let j = i.jit.get();
                guard(|| {
                    j.select_page(r.n(2));
                    let l = j.label();
                    for _ in 0..r.n(20) {
                        j.emitl(r.u64() as u32);
                    }
                    tmpl::block("jmp", j, l, 0);
                    if !first {
                        let _ = j.data(r.n(100));
                    }
                    let _ = j.const_i64(5);
                })?;
                put(s, i);
            }
        }
        Op::Drop(s) => {
            let i = take(s);
            guard(|| drop(i)).map_err(|e| format!("dropping a code memory: {e}"))?;
            w.stale.fetch_add(1, Relaxed);
        }
        Op::Box(s) => {
            if let Some(i) = take(s) {
                let jit = match i.jit {
                    Holder::Plain(j) => Holder::Boxed(Box::new(j)),
                    Holder::Boxed(j) => Holder::Plain(*j),
                };
                put(s, Inst { jit, base: i.base });
            }
        }
        Op::Swap(a, b) => {
            let (x, y) = (take(a), take(b));
            if let (Some(mut x), Some(mut y)) = (x, y) {
                std::mem::swap(x.jit.get(), y.jit.get());
                std::mem::swap(&mut x.base, &mut y.base);
                put(a, x);
                put(b, y);
            }
        }
        Op::Grow(s) => {
            if let Some(i) = take(s) {
                let Inst { jit, base } = i;
                let jit = match jit {
                    Holder::Plain(j) => j,
                    Holder::Boxed(j) => *j,
                };
                let mut v = Vec::with_capacity(1);
                v.push(jit);
                v.push(guard(JitMemory::new).map_err(|e| format!("JitMemory::new: {e}"))?);
                v.push(guard(JitMemory::default).map_err(|e| format!("JitMemory::default: {e}"))?);
                let jit = v.swap_remove(0);
                w.made.fetch_add(2, Relaxed);
                put(s, Inst { jit: Holder::Plain(jit), base });
            }
        }
        Op::Call(seed) => call(w, seed)?,
        Op::Press(seed) => press(seed),
        Op::Many(n, seed) => {
            let mut r = Rng::new(seed);
            for _ in 0..n {
                let mut i = create()?;
                w.made.fetch_add(1, Relaxed);
                w.stale.fetch_add(1, Relaxed);
                let mut fs = fill(&mut i, r.u64(), w)?;
                fs.truncate(1);
                w.funcs.lock().unwrap().extend(fs);
                w.areas.lock().unwrap().push(i.base);
                if r.chance(1, 16) {
                    call(w, r.u64())?;
                }
            }
        }
        Op::Maps => maps(w)?,
    }
    Ok(())
}

fn perform(h: &Hist) -> (Result<(), String>, [u64; 4]) {
    use std::sync::atomic::Ordering::Relaxed;
    let w = World {
        slots: (0..SLOTS).map(|_| Mutex::new(Cell_(None))).collect(),
        funcs: Mutex::new(vec![]),
        counters: Mutex::new(vec![]),
        areas: Mutex::new(vec![]),
        err: Mutex::new(None),
        calls: Default::default(),
        stale: Default::default(),
        made: Default::default(),
    };
    let fail = |n: usize, op: Op, e: String| {
        let mut g = w.err.lock().unwrap();
        if g.is_none() {
            *g = Some(format!("step {} {op:?}: {e}", n + 1));
        }
    };
    let turn = (Mutex::new(0usize), std::sync::Condvar::new());
    let start = Barrier::new(h.threads);
    std::thread::scope(|s| {
        for t in 0..h.threads {
            let (w, fail, turn, start) = (&w, &fail, &turn, &start);
            s.spawn(move || {
                start.wait();
                for (n, (who, op)) in h.ops.iter().enumerate() {
                    if *who != t {
                        continue;
                    }
                    if h.turns {
                        let mut g = turn.0.lock().unwrap();
                        while *g != n {
                            g = turn.1.wait(g).unwrap();
                        }
                    }
                    // (the list of mappings is not a consistent snapshot while others create some)
                    let skip = *op == Op::Maps && !h.turns && h.threads > 1;
                    if !skip && w.err.lock().unwrap().is_none() {
                        if let Err(e) = step(w, *op) {
                            fail(n, *op, e);
                        }
                    }
                    if h.turns {
                        *turn.0.lock().unwrap() = n + 1;
                        turn.1.notify_all();
                    }
                }
            });
        }
    });
    // at the end: everything dropped, every function called once more, all permissions
    let stats = |w: &World| [w.made.load(Relaxed), w.calls.load(Relaxed), w.stale.load(Relaxed), w.funcs.lock().unwrap().len() as u64];
    if let Some(e) = w.err.lock().unwrap().take() {
        return (Err(e), stats(&w));
    }
    for s in 0..SLOTS {
        let i = w.slots[s].lock().unwrap().0.take();
        drop(i);
    }
    press(h.ops.len() as u64);
    let n = w.funcs.lock().unwrap().len();
    let r = (0..40 + n as u64).try_for_each(|k| call(&w, k)).and_then(|_| maps(&w));
    (r.map_err(|e| format!("after dropping everything: {e}")), stats(&w))
}

/// Is JitMemory Send (looked up at compile time, without demanding it)?
struct Ask<T>(std::marker::PhantomData<T>);
trait Fallback {
    const YES: bool = false;
}
impl<T> Fallback for Ask<T> {}
impl<T: Send> Ask<T> {
    const YES: bool = true;
}
fn sendable() -> bool {
    Ask::<JitMemory>::YES
}

// ------------------------------------------------------------------ generation and running

fn gen(seed: u64, big: bool) -> Hist {
    let mut r = Rng::new(seed);
    let threads = 1 + r.n(4);
    let turns = r.chance(1, 2);
    let mut ops = vec![];
    let n = 10 + r.n(70);
    let live = 1 + r.n(SLOTS);
    for _ in 0..n {
        let s = r.n(live);
        let op = match r.n(24) {
            0..=3 => Op::New(s),
            4..=9 => Op::Fill(s, r.u64()),
            10 | 11 => Op::Drop(s),
            12 => Op::Box(s),
            13 => Op::Swap(s, r.n(live)),
            14 => Op::Grow(s),
            15 => Op::Press(r.u64()),
            16 => Op::Half(s, r.u64()),
            17 => Op::Many(1 + r.n(if big { 1500 } else { 40 }), r.u64()),
            18 if r.chance(1, 3) => Op::Maps,
            _ => Op::Call(r.u64()),
        };
        if let Op::Swap(a, b) = op {
            if a == b {
                continue;
            }
        }
        ops.push((r.n(threads), op));
    }
    Hist { threads, turns, ops }
}

struct Chan(*mut u8);
unsafe impl Sync for Chan {}
const CHAN: usize = 1 << 14;

fn start(h: &Hist, ch: *mut u8) -> i32 {
    unsafe {
        *(ch as *mut u64) = 0;
        let pid = libc::fork();
        if pid == 0 {
            let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &lim);
            libc::alarm(100);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGABRT, libc::SIGTRAP] {
                libc::signal(s, libc::SIG_DFL);
            }
            let (r, st) = perform(h);
            let o = ch as *mut u64;
            for i in 0..4 {
                *o.add(1 + i) = st[i];
            }
            match r {
                Ok(()) => *o = 1,
                Err(e) => {
                    let b = e.as_bytes();
                    let n = b.len().min(CHAN - 128);
                    std::ptr::copy_nonoverlapping(b.as_ptr(), ch.add(128), n);
                    *o.add(6) = n as u64;
                    *o = 2;
                }
            }
            libc::_exit(0);
        }
        if pid < 0 {
            eprintln!("fork failed");
            std::process::exit(3);
        }
        pid
    }
}

fn finish(ch: *mut u8, status: i32) -> (Result<(), String>, [u64; 4]) {
    unsafe {
        let o = ch as *const u64;
        let st = [*o.add(1), *o.add(2), *o.add(3), *o.add(4)];
        match *o {
            1 => (Ok(()), st),
            2 => (Err(String::from_utf8_lossy(std::slice::from_raw_parts(ch.add(128), *o.add(6) as usize)).into_owned()), st),
            _ if libc::WIFSIGNALED(status) && ![libc::SIGALRM, libc::SIGKILL].contains(&libc::WTERMSIG(status)) => {
                (Err(format!("the process ends with signal {} (code of a code memory is gone or not executable)", libc::WTERMSIG(status))), [0; 4])
            }
            _ if libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGALRM => (Err(format!("{ENDLESS} within 100 s")), [0; 4]),
            _ => {
                eprintln!("lifetime history: child ended with status {status:#x}");
                std::process::exit(3);
            }
        }
    }
}

fn run(h: &Hist, ch: &Chan) -> Result<(), String> {
    let pid = start(h, ch.0);
    let mut st = 0;
    unsafe { while libc::waitpid(pid, &mut st, 0) < 0 {} }
    finish(ch.0, st).0
}

fn channel() -> Chan {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), CHAN, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    Chan(p as *mut u8)
}

fn describe(h: &Hist) -> String {
    format!(
        "{} thread{}, {}: {}",
        h.threads,
        if h.threads > 1 { "s" } else { "" },
        if h.turns { "in turns" } else { "concurrently" },
        h.ops
            .iter()
            .map(|(t, o)| {
                let s = format!("{o:?}");
                format!("{t}:{}", s)
            })
            .collect::<Vec<_>>()
            .join(" ")
    )
}

fn to_json(h: &Hist) -> Value {
    let ops: Vec<Value> = h
        .ops
        .iter()
        .map(|(t, o)| match o {
            Op::New(s) => json!([t, "new", s]),
            Op::Fill(s, x) => json!([t, "fill", s, x]),
            Op::Drop(s) => json!([t, "drop", s]),
            Op::Box(s) => json!([t, "box", s]),
            Op::Swap(a, b) => json!([t, "swap", a, b]),
            Op::Grow(s) => json!([t, "grow", s]),
            Op::Call(x) => json!([t, "call", x]),
            Op::Press(x) => json!([t, "press", x]),
            Op::Half(s, x) => json!([t, "half", s, x]),
            Op::Many(n, x) => json!([t, "many", n, x]),
            Op::Maps => json!([t, "maps"]),
        })
        .collect();
    json!({"check": "lifetime", "threads": h.threads, "turns": h.turns, "ops": ops})
}

pub fn replay(v: &Value) -> Result<(), String> {
    if v["send"].as_bool() == Some(true) {
        return if sendable() { Ok(()) } else { Err("JitMemory cannot be sent to another thread".into()) };
    }
    let u = |v: &Value| v.as_u64().unwrap_or(0);
    let ops = v["ops"]
        .as_array()
        .unwrap()
        .iter()
        .map(|o| {
            let (a, b) = (u(&o[2]) as usize, u(&o[3]));
            let op = match o[1].as_str().unwrap() {
                "new" => Op::New(a),
                "fill" => Op::Fill(a, b),
                "drop" => Op::Drop(a),
                "box" => Op::Box(a),
                "swap" => Op::Swap(a, b as usize),
                "grow" => Op::Grow(a),
                "call" => Op::Call(a as u64),
                "press" => Op::Press(a as u64),
                "half" => Op::Half(a, b),
                "many" => Op::Many(a, b),
                _ => Op::Maps,
            };
            (u(&o[0]) as usize, op)
        })
        .collect();
    let h = Hist { threads: u(&v["threads"]) as usize, turns: v["turns"].as_bool().unwrap_or(true), ops };
    let ch = channel();
    // a concurrent history is tried several times
    for _ in 0..if h.turns { 1 } else { 20 } {
        run(&h, &ch)?;
    }
    Ok(())
}

pub fn rule(_: &str) -> &'static str {
    "case = history of creating, filling, moving, swapping, sending, dropping and calling code memories on 1-4 threads, in turns or concurrently; non-trivial = at least two code memories, one of them dropped or overwritten, and at least five calls; distinct by the history"
}

fn shrink(h: &Hist, ch: &Chan, mut what: String) -> (Hist, String) {
    let tries = if h.turns { 1 } else { 4 };
    let mut cur = h.clone();
    let mut budget = 150;
    let mut fails = |q: &Hist, what: &mut String| {
        for _ in 0..tries {
            budget -= 1;
            if budget < 0 {
                return false;
            }
            if let Err(e) = run(q, ch) {
                *what = e;
                return true;
            }
        }
        false
    };
    if !cur.turns {
        let q = Hist { turns: true, ..cur.clone() };
        if fails(&q, &mut what) {
            cur = q;
        }
    }
    let mut size = cur.ops.len().div_ceil(2);
    while size > 0 {
        let mut i = 0;
        while i < cur.ops.len() {
            let mut q = cur.clone();
            q.ops.drain(i..(i + size).min(cur.ops.len()));
            if fails(&q, &mut what) {
                cur = q;
            } else {
                i += size;
            }
        }
        if size == 1 {
            break;
        }
        size = size.div_ceil(2);
    }
    for i in 0..cur.ops.len() {
        while let Op::Many(n, x) = cur.ops[i].1 {
            let mut q = cur.clone();
            q.ops[i].1 = Op::Many(n / 2, x);
            if n < 2 || !fails(&q, &mut what) {
                break;
            }
            cur = q;
        }
    }
    (cur, what)
}

/// Must be called while the process has one thread only (it forks).
pub fn check(cfg: &Cfg) -> Report {
    let mut rep = Report::default();
    rep.evaluations += 1;
    if !sendable() {
        rep.viol(Viol { sig: "send".into(), what: "C16: JitMemory is not Send: it cannot be moved to another thread".into(), weight: 1, replay: json!({"check": "lifetime", "send": true}) });
    }
    let total = cfg.n(6000, 200_000);
    let chans: Vec<Chan> = (0..cfg.threads).map(|_| channel()).collect();
    let mut busy: Vec<Option<(i32, Hist)>> = (0..cfg.threads).map(|_| None).collect();
    let mut next = 0;
    let mut fails = 0;
    loop {
        for k in 0..chans.len() {
            if busy[k].is_none() && next < total && fails < 4 {
                let h = gen(hash_of(&(cfg.seed, "life", next as u64)), next % 40 == 7);
                next += 1;
                busy[k] = Some((start(&h, chans[k].0), h));
            }
        }
        if busy.iter().all(|b| b.is_none()) {
            break;
        }
        let mut st = 0;
        let pid = unsafe { libc::waitpid(-1, &mut st, 0) };
        if pid < 0 {
            continue;
        }
        let Some(k) = busy.iter().position(|b| b.as_ref().is_some_and(|b| b.0 == pid)) else { continue };
        let (_, h) = busy[k].take().unwrap();
        let (r, s) = finish(chans[k].0, st);
        rep.evaluations += 1;
        rep.class("lifetime: code memories created", s[0]);
        rep.class("lifetime: calls", s[1]);
        rep.class("lifetime: code memories dropped", s[2]);
        rep.class("lifetime: functions published", s[3]);
        rep.class(if h.turns { "lifetime: histories in turns" } else { "lifetime: concurrent histories" }, 1);
        match r {
            Ok(()) => {
                if s[0] >= 2 && s[1] >= 5 && s[2] >= 1 {
                    rep.distinct.insert(hash_of(&describe(&h)));
                }
                if rep.evaluations % 19 == 0 {
                    rep.sample(|| describe(&h).chars().take(600).collect());
                }
            }
            Err(e) => {
                fails += 1;
                if e.contains(ENDLESS) {
                    // a hang is believed when it happens again, and not shrunk (each try takes long)
                    if (0..2).any(|_| run(&h, &chans[k]).is_err()) {
                        fails = 4;
                        rep.viol(Viol { sig: "lifetime endless".into(), what: format!("C16: {}: {e}", describe(&h)), weight: h.ops.len(), replay: to_json(&h) });
                    } else {
                        rep.class("lifetime: slow histories that ended on a second run", 1);
                    }
                    continue;
                }
                let (q, e) = shrink(&h, &chans[k], e);
                let sig = format!("lifetime {}", e.split(": ").last().unwrap_or("").chars().filter(|c| !c.is_ascii_hexdigit()).take(30).collect::<String>());
                rep.viol(Viol { sig, what: format!("C16: {}: {e}", describe(&q)), weight: q.ops.len(), replay: to_json(&q) });
            }
        }
    }
    rep
}
