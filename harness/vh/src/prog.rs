//! Whole programs (C14), floating-point results (C04) and conditions under all flag states (C05):
//! random programs are assembled by monoasm and run on the CPU in a confined child process; the
//! oracle interprets the written source (oracle::interp). Bytes are never decoded here.
use crate::arena;
use crate::common::*;
use crate::lit::Rng;
use crate::tm::{self, Case, ZERO};
use monoasm::*;
use oracle::inst::{Instr, Op};
use oracle::interp::{self, Fault, Flow, Memory, State};
use oracle::spec::*;
use serde_json::{json, Value};
use std::collections::HashMap;
use tmpl::{Mm, O, T, TEMPLATES};

pub const PROPS: &[&str] = &["C04", "C05", "C14"];

// ------------------------------------------------------------------ running code

#[repr(C)]
#[derive(Clone, Copy)]
struct Cpu {
    r: [u64; 16],
    x: [[u64; 2]; 16],
    flags: u64,
}

std::arch::global_asm!(
    ".globl vh_run",
    ".globl vh_back",
    "vh_run:", // rdi = *mut Cpu, rsi = entry, rdx = initial rsp
    "push rbx",
    "push rbp",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rip + vh_cpu], rdi",
    "mov [rip + vh_entry], rsi",
    "mov [rip + vh_rsp], rsp",
    "mov r15, rdi",
    "movups xmm0, [r15 + 128]",
    "movups xmm1, [r15 + 144]",
    "movups xmm2, [r15 + 160]",
    "movups xmm3, [r15 + 176]",
    "movups xmm4, [r15 + 192]",
    "movups xmm5, [r15 + 208]",
    "movups xmm6, [r15 + 224]",
    "movups xmm7, [r15 + 240]",
    "movups xmm8, [r15 + 256]",
    "movups xmm9, [r15 + 272]",
    "movups xmm10, [r15 + 288]",
    "movups xmm11, [r15 + 304]",
    "movups xmm12, [r15 + 320]",
    "movups xmm13, [r15 + 336]",
    "movups xmm14, [r15 + 352]",
    "movups xmm15, [r15 + 368]",
    "push qword ptr [r15 + 384]",
    "popfq",
    "mov rax, [r15]",
    "mov rcx, [r15 + 8]",
    "mov rdx, [r15 + 16]",
    "mov rbx, [r15 + 24]",
    "mov rsp, [r15 + 32]",
    "mov rbp, [r15 + 40]",
    "mov rsi, [r15 + 48]",
    "mov rdi, [r15 + 56]",
    "mov r8, [r15 + 64]",
    "mov r9, [r15 + 72]",
    "mov r10, [r15 + 80]",
    "mov r11, [r15 + 88]",
    "mov r12, [r15 + 96]",
    "mov r13, [r15 + 104]",
    "mov r14, [r15 + 112]",
    "mov r15, [r15 + 120]",
    "call [rip + vh_entry]",
    "vh_back:",
    "mov [rip + vh_tmp], r15",
    "mov r15, [rip + vh_cpu]",
    "mov [r15], rax",
    "mov [r15 + 8], rcx",
    "mov [r15 + 16], rdx",
    "mov [r15 + 24], rbx",
    "mov [r15 + 32], rsp",
    "mov [r15 + 40], rbp",
    "mov [r15 + 48], rsi",
    "mov [r15 + 56], rdi",
    "mov [r15 + 64], r8",
    "mov [r15 + 72], r9",
    "mov [r15 + 80], r10",
    "mov [r15 + 88], r11",
    "mov [r15 + 96], r12",
    "mov [r15 + 104], r13",
    "mov [r15 + 112], r14",
    "mov rax, [rip + vh_tmp]",
    "mov [r15 + 120], rax",
    "mov rsp, [rip + vh_rsp]",
    "pushfq",
    "pop qword ptr [r15 + 384]",
    "cld",
    "movups [r15 + 128], xmm0",
    "movups [r15 + 144], xmm1",
    "movups [r15 + 160], xmm2",
    "movups [r15 + 176], xmm3",
    "movups [r15 + 192], xmm4",
    "movups [r15 + 208], xmm5",
    "movups [r15 + 224], xmm6",
    "movups [r15 + 240], xmm7",
    "movups [r15 + 256], xmm8",
    "movups [r15 + 272], xmm9",
    "movups [r15 + 288], xmm10",
    "movups [r15 + 304], xmm11",
    "movups [r15 + 320], xmm12",
    "movups [r15 + 336], xmm13",
    "movups [r15 + 352], xmm14",
    "movups [r15 + 368], xmm15",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbp",
    "pop rbx",
    "ret",
    ".section .bss.vh_run,\"aw\",@nobits",
    ".balign 16",
    "vh_cpu: .skip 8",
    "vh_entry: .skip 8",
    "vh_rsp: .skip 8",
    "vh_tmp: .skip 8",
    ".text",
);
extern "C" {
    fn vh_run(cpu: *mut Cpu, entry: u64);
    fn vh_back();
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

const SCRATCH: usize = 4096;
const STACK: usize = 2048;
/// distance between the areas of two slots
fn area(slot: usize) -> u64 {
    0x2a00_0000_0000 + ((slot as u64) << 32)
}
fn scratch_at(slot: usize) -> u64 {
    area(slot) + 0x10000
}
fn stack_at(slot: usize) -> u64 {
    area(slot) + 0x20000
}

fn map_at(addr: u64, len: usize, flags: i32) -> *mut u8 {
    unsafe {
        let p = libc::mmap(
            addr as *mut _,
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_ANONYMOUS | flags | if addr != 0 { libc::MAP_FIXED_NOREPLACE } else { 0 },
            -1,
            0,
        );
        if p == libc::MAP_FAILED || (addr != 0 && p as u64 != addr) {
            eprintln!("program execution: cannot map {len} bytes at {addr:#x}");
            std::process::exit(3);
        }
        p as *mut u8
    }
}

// ------------------------------------------------------------------ programs

#[derive(Clone, Debug, PartialEq)]
enum Kd {
    ConstQ(u64),
    ConstF(u64),
    DataQ(u64),
    ConstL(u32),
    DataL(u32),
    Const(usize),
    Data(usize),
    Abs(usize),
}
impl Kd {
    fn len(&self) -> usize {
        match self {
            Kd::ConstL(_) | Kd::DataL(_) => 4,
            Kd::Const(n) | Kd::Data(n) => *n,
            _ => 8,
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Step {
    Sel(usize),
    Bind(usize),
    Ins { t: usize, c: Case, l: usize, dead: bool },
    /// bytes in the code that are only read; bound to a label of their own
    Raw(usize, Vec<u8>),
    Item(usize, Kd),
    Align(usize),
    Fin,
}

#[derive(Clone, Debug)]
struct Prog {
    slot: usize,
    /// which of the slot's address ranges holds the code
    at: usize,
    steps: Vec<Step>,
    labels: usize,
    state: State,
    fill: u64,
    /// (patch point, new destination, by address)
    patches: Vec<(usize, usize, bool)>,
    /// label of the entry
    entry: usize,
}

impl Prog {
    /// Forget patches whose point no longer is a jump (its line was taken out).
    fn tidy(&mut self) {
        let steps = &self.steps;
        self.patches.retain(|(pt, _, _)| {
            (1..steps.len()).any(|i| {
                steps[i - 1] == Step::Bind(*pt)
                    && matches!(&steps[i], Step::Ins { t, dead: false, .. } if tmpl::by_id(*t).is_some_and(|t| t.mn == "jmp" && t.ops == [O::L]))
            })
        });
    }
}

fn scratch_image(fill: u64) -> Vec<u8> {
    let mut r = Rng::new(fill ^ 0xabcdef);
    let mut v = vec![0u8; SCRATCH];
    for (i, c) in v.chunks_mut(8).enumerate() {
        let w = match i % 4 {
            0 => r.u64(),
            1 => float_bits(&mut r),
            2 => int_value(&mut r),
            _ => r.u64() >> r.n(64),
        };
        c.copy_from_slice(&w.to_le_bytes());
    }
    v
}
fn stack_image(fill: u64) -> Vec<u8> {
    let mut r = Rng::new(fill ^ 0x1234567);
    (0..STACK).map(|_| r.u64() as u8).collect()
}

fn int_value(r: &mut Rng) -> u64 {
    match r.n(6) {
        0 => *r.one(&tm::imm_bounds()) as u64,
        1 => r.n(20) as u64,
        2 => (r.n(40) as i64 - 20) as u64,
        3 => r.u64() as u32 as u64,
        _ => r.u64(),
    }
}
fn float_bits(r: &mut Rng) -> u64 {
    match r.n(12) {
        0 => *r.one(&[
            0u64,
            1 << 63,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0xfff8_0000_0000_0123,
            0x7ff0_0000_0000_0001,
            0xfff4_0000_0000_0077,
            1,
            0x000f_ffff_ffff_ffff,
            0x0010_0000_0000_0000,
            0x7fef_ffff_ffff_ffff,
        ]),
        1 => (*r.one(&[
            0.5f64, -0.5, 1.5, 2.5, -1.5, -2.5, 1.0, -1.0, 0.1, 9223372036854775807.0, -9223372036854775808.0, 9.3e18, -9.3e18, 4503599627370495.5, -4503599627370495.5, 2147483648.0, 2147483647.5,
            -2147483649.0, 4294967296.0, 1e-310,
        ]))
        .to_bits(),
        2 | 3 => (r.n(2000) as f64 / 4.0 - 250.0).to_bits(),
        4 => ((r.u64() as i64) as f64).to_bits(),
        5 => ((r.u64() as i32) as f64 + 0.5).to_bits(),
        6 | 7 => {
            // ordinary exponents
            let e = 1023 - 70 + r.n(140) as u64;
            (r.u64() & 0x800f_ffff_ffff_ffff) | e << 52
        }
        8 => 0x7ff0_0000_0000_0000 | r.u64() & 0x800f_ffff_ffff_ffff,
        9 => r.u64() & 0x800f_ffff_ffff_ffff,
        _ => r.u64(),
    }
}

fn random_state(r: &mut Rng) -> State {
    let mut s = State { r: [0; 16], x: [[0; 2]; 16], f: 0, def: interp::ALL };
    for v in s.r.iter_mut() {
        *v = int_value(r);
    }
    for v in s.x.iter_mut() {
        *v = [float_bits(r), float_bits(r)];
    }
    s.f = r.u64() as u16 & interp::ALL;
    s
}

// ------------------------------------------------------------------ assembling

struct Built {
    jit: JitMemory,
    labels: Vec<DestLabel>,
    /// where each label was bound, by the emission position; items: queried after finalization
    at: Vec<u64>,
    /// per step: (start, end) of an instruction
    span: Vec<(u64, u64)>,
    items: Vec<(usize, Kd, u64)>,
}

fn build(p: &Prog, hint: u64) -> Result<Built, String> {
    arena::hint(hint);
    let mut jit = guard(JitMemory::new).map_err(|e| format!("JitMemory::new: {e}"))?;
    arena::hint(0);
    let mut labels: Vec<DestLabel> = vec![DestLabel::default(); p.labels];
    let mut is_item = vec![false; p.labels];
    for s in &p.steps {
        if let Step::Item(l, _) = s {
            is_item[*l] = true;
        }
    }
    guard(|| {
        for l in 0..p.labels {
            if !is_item[l] {
                labels[l] = jit.label();
            }
        }
    })?;
    let mut at = vec![0u64; p.labels];
    let mut span = vec![(0, 0); p.steps.len()];
    let mut items = vec![];
    // items are declared first in their round (a reference needs the label)
    let here = |j: &JitMemory| j.get_current_address().as_ptr() as u64;
    for (i, s) in p.steps.iter().enumerate() {
        let r = guard(|| match s {
            Step::Sel(n) => jit.select_page(*n),
            Step::Bind(l) => {
                at[*l] = here(&jit);
                jit.bind_label(labels[*l]);
            }
            Step::Raw(l, b) => {
                at[*l] = here(&jit);
                jit.bind_label(labels[*l]);
                jit.emit(b);
            }
            Step::Align(4) => jit.align4(),
            Step::Align(8) => jit.align8(),
            Step::Align(_) => jit.align16(),
            Step::Fin => jit.finalize(),
            Step::Item(l, k) => {
                labels[*l] = match k {
                    Kd::ConstQ(v) => jit.const_i64(*v as i64),
                    Kd::ConstF(v) => jit.const_f64(f64::from_bits(*v)),
                    Kd::DataQ(v) => jit.data_i64(*v as i64),
                    Kd::ConstL(v) => jit.const_i32(*v as i32),
                    Kd::DataL(v) => jit.data_i32(*v as i32),
                    Kd::Const(n) => jit.constant(*n),
                    Kd::Data(n) => jit.data(*n),
                    Kd::Abs(a) => jit.abs_address(labels[*a]),
                };
                items.push((*l, k.clone(), 0u64));
            }
            Step::Ins { dead: true, .. } => span[i] = (here(&jit), here(&jit)),
            Step::Ins { t, c, l, .. } => {
                let a = here(&jit);
                let q = c.p(if *l == usize::MAX { DestLabel::default() } else { labels[*l] });
                (tmpl::by_id(*t).expect("template").f)(&mut jit, &q);
                span[i] = (a, here(&jit));
            }
        });
        if let Err(e) = r {
            let what = match s {
                Step::Ins { t, c, .. } => line_text(*t, c, usize::MAX),
                s => format!("{s:?}"),
            };
            return Err(format!("`{what}` is refused with panic: {e}"));
        }
    }
    guard(|| jit.finalize()).map_err(|e| format!("finalize panics: {e}"))?;
    for it in items.iter_mut() {
        it.2 = guard(|| jit.get_label_address(labels[it.0]).as_ptr() as u64).map_err(|e| format!("address of a constant: {e}"))?;
        at[it.0] = it.2;
    }
    Ok(Built { jit, labels, at, span, items })
}

fn line_text(t: usize, c: &Case, l: usize) -> String {
    let Some(t) = tmpl::by_id(t) else { return format!("template {t}") };
    let mut s = t.text(&c.p(DestLabel::default()));
    for n in (0..16).rev() {
        s = s.replace(&format!("R({n})"), oracle::inst::R64[n]).replace(&format!("xmm({n})"), &format!("xmm{n}"));
    }
    if l != usize::MAX {
        s = s.replace("lbl", &format!("L{l}"));
    }
    s
}
fn text(p: &Prog) -> String {
    let mut o = vec![];
    for s in &p.steps {
        match s {
            Step::Ins { dead: true, .. } => {}
            Step::Ins { t, c, l, .. } => o.push(line_text(*t, c, *l)),
            Step::Bind(l) => o.push(format!("L{l}:")),
            Step::Raw(l, b) => o.push(format!("L{l}: db {}", hex(b))),
            Step::Item(l, k) => o.push(format!("L{l} = {k:x?}")),
            Step::Sel(n) => o.push(format!("<page {n}>")),
            Step::Align(n) => o.push(format!("<align {n}>")),
            Step::Fin => o.push("<finalize>".into()),
        }
    }
    for (a, b, addr) in &p.patches {
        o.push(format!("<run, then patch{} L{a} -> L{b}>", if *addr { " by address" } else { "" }));
    }
    o.join("; ")
}

// ------------------------------------------------------------------ interpreting

struct World {
    regs: Vec<(u64, Vec<u8>)>,
    accesses: u64,
}
impl World {
    fn find(&mut self, a: u64, n: usize) -> Result<&mut [u8], Fault> {
        self.accesses += 1;
        for (s, b) in self.regs.iter_mut() {
            if a >= *s && a.wrapping_sub(*s) <= b.len() as u64 && (a - *s) as usize + n <= b.len() {
                let o = (a - *s) as usize;
                return Ok(&mut b[o..o + n]);
            }
        }
        Err(Fault::Access(a, n))
    }
}
impl Memory for World {
    fn load(&mut self, a: u64, buf: &mut [u8]) -> Result<(), Fault> {
        let n = buf.len();
        buf.copy_from_slice(self.find(a, n)?);
        Ok(())
    }
    fn store(&mut self, a: u64, buf: &[u8]) -> Result<(), Fault> {
        self.find(a, buf.len())?.copy_from_slice(buf);
        Ok(())
    }
}

#[derive(Clone)]
struct Want {
    s: State,
    scratch: Vec<u8>,
    stack: Vec<u8>,
    items: Vec<Vec<u8>>,
    steps: u64,
    branches: u64,
    accesses: u64,
}

/// Interpret both stages. Err(step indices that cannot stay).
fn interpret(p: &Prog, b: &Built) -> Result<Vec<Want>, Vec<usize>> {
    let mut bad: Vec<usize> = vec![];
    let mut out = vec![];
    // address -> first live instruction there
    let mut start: HashMap<u64, usize> = HashMap::new();
    for (i, s) in p.steps.iter().enumerate() {
        if let Step::Ins { dead: false, .. } = s {
            start.entry(b.span[i].0).or_insert(i);
        }
    }
    let back = vh_back as *const () as u64;
    let mut target: HashMap<usize, usize> = HashMap::new();
    for stage in 0..1 + !p.patches.is_empty() as usize {
        if stage == 1 {
            for (pt, dest, _) in &p.patches {
                target.insert(*pt, *dest);
            }
        }
        let mut items: Vec<Vec<u8>> = b
            .items
            .iter()
            .map(|(_, k, _)| match k {
                Kd::ConstQ(v) | Kd::ConstF(v) | Kd::DataQ(v) => v.to_le_bytes().to_vec(),
                Kd::ConstL(v) | Kd::DataL(v) => v.to_le_bytes().to_vec(),
                Kd::Const(n) | Kd::Data(n) => vec![0; *n],
                Kd::Abs(l) => b.at[*l].to_le_bytes().to_vec(),
            })
            .collect();
        let mut w = World { regs: vec![(scratch_at(p.slot), scratch_image(p.fill)), (stack_at(p.slot), stack_image(p.fill))], accesses: 0 };
        for (k, it) in b.items.iter().enumerate() {
            w.regs.push((it.2, items[k].clone()));
        }
        let fixed = w.regs.len();
        for s in &p.steps {
            if let Step::Raw(l, v) = s {
                w.regs.push((b.at[*l], v.clone()));
            }
        }
        let mut s = p.state.clone();
        let top = stack_at(p.slot) + STACK as u64 - 256;
        s.r[4] = top - 8;
        w.store(top - 8, &back.to_le_bytes()).unwrap();
        let mut pc = b.at[p.entry];
        let mut n = 0u64;
        let mut branches = 0;
        let mut last = usize::MAX;
        loop {
            if pc == back {
                break;
            }
            n += 1;
            if n > 6000 {
                return Err(vec![usize::MAX]);
            }
            let Some(&i) = start.get(&pc) else {
                // an address without an instruction: the last branch cannot stay
                if last == usize::MAX {
                    return Err(vec![usize::MAX]);
                }
                bad.push(last);
                return Err(bad);
            };
            last = i;
            let Step::Ins { t, c, l, .. } = &p.steps[i] else { unreachable!() };
            let t = tmpl::by_id(*t).unwrap();
            let next = b.span[i].1;
            let rel = if *l == usize::MAX {
                0
            } else {
                // a patched jump goes to its new destination
                let mut l = *l;
                if i > 0 && t.ops == [O::L] {
                    if let Step::Bind(pt) = &p.steps[i - 1] {
                        if let Some(d) = target.get(pt) {
                            l = *d;
                        }
                    }
                }
                b.at[l].wrapping_sub(next) as i64
            };
            let ins: Instr = match tm::expected(t, c, rel) {
                Verdict::Must(i) => i,
                _ => {
                    bad.push(i);
                    return Err(bad);
                }
            };
            match interp::step(&ins, &mut s, &mut w, next) {
                Ok(Flow::Next) => {
                    pc = next;
                    // falling out of the written block
                    if let Some(Step::Sel(_) | Step::Fin | Step::Align(_) | Step::Raw(..)) | None = p.steps[i + 1..].iter().find(|s| !matches!(s, Step::Bind(_) | Step::Item(..) | Step::Ins { dead: true, .. })) {
                        return Err(vec![usize::MAX]);
                    }
                }
                Ok(Flow::Go(a)) => {
                    branches += 1;
                    pc = a;
                }
                Err(_) => {
                    if bad.contains(&i) && bad.len() > 60 {
                        return Err(bad);
                    }
                    bad.push(i);
                    if matches!(ins.op, Op::Jmp | Op::Call | Op::Ret | Op::Leave) {
                        return Err(bad);
                    }
                    pc = next;
                }
            }
        }
        for (k, v) in items.iter_mut().enumerate() {
            *v = w.regs[2 + k].1.clone();
        }
        debug_assert!(fixed == 2 + items.len());
        let accesses = w.accesses;
        out.push(Want { s, scratch: w.regs[0].1.clone(), stack: w.regs[1].1.clone(), items, steps: n, branches, accesses });
    }
    if bad.is_empty() {
        Ok(out)
    } else {
        Err(bad)
    }
}

// ------------------------------------------------------------------ executing

const ITEMS_MAX: usize = 4096;
const RES: usize = 512 + SCRATCH + STACK + ITEMS_MAX;
const BATCH: usize = 24;

struct Runner {
    slot: usize,
    /// shared with the child: [0] = number of finished (program, stage) pairs, then results
    res: *mut u8,
    /// processor time a child may use, in ms
    limit: std::cell::Cell<u64>,
}
/// (a child runs a few thousand instructions)
const LIMIT: u64 = 3000;
/// stands for "was not run" among the signals
const NOT_RUN: i32 = 0;

#[derive(Clone, Debug)]
struct Got {
    r: [u64; 16],
    x: [[u64; 2]; 16],
    flags: u16,
    scratch: Vec<u8>,
    stack: Vec<u8>,
    items: Vec<Vec<u8>>,
}
#[derive(Clone, Debug)]
enum Ran {
    Done(Vec<Got>),
    Signal(i32, usize),
    Refused(String),
}

impl Runner {
    fn new(slot: usize) -> Runner {
        let a = scratch_at(slot);
        map_at(a, SCRATCH, libc::MAP_PRIVATE);
        map_at(stack_at(slot), STACK, libc::MAP_PRIVATE);
        let res = map_at(0, 4096 + BATCH * RES, libc::MAP_SHARED);
        Runner { slot, res, limit: std::cell::Cell::new(LIMIT) }
    }

    unsafe fn confine(ms: u64) {
        // no output, no file access, bounded processor time for whatever the code does
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
        for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGILL, libc::SIGFPE, libc::SIGTRAP, libc::SIGSYS, libc::SIGVTALRM] {
            libc::signal(s, libc::SIG_DFL);
        }
        let t = libc::itimerval { it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 }, it_value: libc::timeval { tv_sec: (ms / 1000) as i64, tv_usec: (ms % 1000 * 1000) as i64 } };
        setitimer(libc::ITIMER_VIRTUAL, &t, std::ptr::null_mut());
        libc::prctl(libc::PR_SET_SECCOMP, 1);
    }

    unsafe fn child(&self, ps: &[(&Prog, &mut Built)], st: usize, from: usize) -> ! {
        Self::confine(self.limit.get());
        let count = self.res as *mut u64;
        for (k, (p, b)) in ps.iter().enumerate().skip(from) {
            let out = self.res.add(4096 + k * RES);
            let sc = scratch_at(self.slot) as *mut u8;
            let sk = stack_at(self.slot) as *mut u8;
            // images were put into the result area by the parent
            std::ptr::copy_nonoverlapping(out.add(512), sc, SCRATCH);
            std::ptr::copy_nonoverlapping(out.add(512 + SCRATCH), sk, STACK);
            if st == 0 || !p.patches.is_empty() {
                vh_run(out as *mut Cpu, b.at[p.entry]);
            }
            std::ptr::copy_nonoverlapping(sc, out.add(512), SCRATCH);
            std::ptr::copy_nonoverlapping(sk, out.add(512 + SCRATCH), STACK);
            let mut q = out.add(512 + SCRATCH + STACK);
            for (_, kd, a) in &b.items {
                std::ptr::copy_nonoverlapping(*a as *const u8, q, kd.len());
                q = q.add(kd.len());
            }
            *count = (k + 1) as u64;
        }
        libc::syscall(libc::SYS_exit, 0);
        loop {}
    }

    /// One stage of every program: what the machine shows, or the signal that ended it.
    fn stage(&self, ps: &[(&Prog, &mut Built)], st: usize) -> Vec<Result<Got, i32>> {
        assert!(ps.len() <= BATCH);
        let mut out = vec![];
        unsafe {
            let count = self.res as *mut u64;
            for (k, (p, _)) in ps.iter().enumerate() {
                let o = self.res.add(4096 + k * RES);
                let mut cpu = Cpu { r: p.state.r, x: p.state.x, flags: p.state.f as u64 | 0x202 };
                cpu.r[4] = stack_at(p.slot) + STACK as u64 - 256;
                *(o as *mut Cpu) = cpu;
                std::ptr::copy_nonoverlapping(scratch_image(p.fill).as_ptr(), o.add(512), SCRATCH);
                std::ptr::copy_nonoverlapping(stack_image(p.fill).as_ptr(), o.add(512 + SCRATCH), STACK);
            }
            let mut from = 0;
            while from < ps.len() {
                *count = from as u64;
                let pid = libc::fork();
                if pid == 0 {
                    self.child(ps, st, from);
                }
                if pid < 0 {
                    eprintln!("fork failed");
                    std::process::exit(3);
                }
                let mut status = 0;
                while libc::waitpid(pid, &mut status, 0) < 0 {}
                let done = (*count as usize).min(ps.len());
                for k in from..done {
                    let o = self.res.add(4096 + k * RES);
                    let cpu = *(o as *const Cpu);
                    let mut items = vec![];
                    let mut q = o.add(512 + SCRATCH + STACK);
                    for (_, kd, _) in &ps[k].1.items {
                        items.push(std::slice::from_raw_parts(q, kd.len()).to_vec());
                        q = q.add(kd.len());
                    }
                    out.push(Ok(Got {
                        r: cpu.r,
                        x: cpu.x,
                        flags: cpu.flags as u16,
                        scratch: std::slice::from_raw_parts(o.add(512), SCRATCH).to_vec(),
                        stack: std::slice::from_raw_parts(o.add(512 + SCRATCH), STACK).to_vec(),
                        items,
                    }));
                }
                if done < ps.len() {
                    if !libc::WIFSIGNALED(status) {
                        eprintln!("child ended with status {status:#x} without finishing");
                        std::process::exit(3);
                    }
                    out.push(Err(libc::WTERMSIG(status)));
                    from = done + 1;
                    if out.iter().filter(|r| r.is_err()).count() > 2 {
                        while out.len() < ps.len() {
                            out.push(Err(NOT_RUN));
                        }
                        break;
                    }
                } else {
                    from = done;
                }
            }
        }
        out
    }

    fn run(&self, ps: &mut [(&Prog, &mut Built)]) -> Vec<Ran> {
        let mut out: Vec<Ran> = vec![];
        for r in self.stage(ps, 0) {
            out.push(match r {
                Ok(g) => Ran::Done(vec![g]),
                Err(s) => Ran::Signal(s, 0),
            });
        }
        if ps.iter().all(|p| p.0.patches.is_empty()) {
            return out;
        }
        for (k, (p, b)) in ps.iter_mut().enumerate() {
            if !p.patches.is_empty() {
                crumb(&to_json("", p).to_string());
            }
            for (pt, d, by) in &p.patches {
                let r = guard(|| {
                    if *by {
                        let a = b.jit.get_label_address(b.labels[*pt]);
                        b.jit.apply_jmp_patch_address(a, b.labels[*d]);
                    } else {
                        b.jit.apply_jmp_patch(b.labels[*pt], b.labels[*d]);
                    }
                });
                if let Err(e) = r {
                    out[k] = Ran::Refused(format!("patching L{pt} to L{d}: {e}"));
                }
            }
        }
        for (k, r) in self.stage(ps, 1).into_iter().enumerate() {
            if ps[k].0.patches.is_empty() {
                continue;
            }
            match (r, &mut out[k]) {
                (Ok(g), Ran::Done(v)) => v.push(g),
                (Err(s), o @ Ran::Done(_)) => *o = Ran::Signal(s, 1),
                _ => {}
            }
        }
        out
    }
}

fn diff(w: &Want, g: &Got, b: &Built, p: &Prog) -> Option<String> {
    for i in 0..16 {
        if w.s.r[i] != g.r[i] {
            return Some(format!("{} is {:#x}, should be {:#x}", oracle::inst::R64[i], g.r[i], w.s.r[i]));
        }
    }
    for i in 0..16 {
        if w.s.x[i] != g.x[i] {
            return Some(format!("xmm{i} is {:016x}:{:016x}, should be {:016x}:{:016x}", g.x[i][1], g.x[i][0], w.s.x[i][1], w.s.x[i][0]));
        }
    }
    if (w.s.f ^ g.flags) & w.s.def & interp::ALL != 0 {
        return Some(format!("flags are {:#x}, should be {:#x} (defined: {:#x})", g.flags & interp::ALL, w.s.f, w.s.def));
    }
    let mem = |n: &str, a: u64, w: &[u8], g: &[u8]| {
        w.iter().zip(g).position(|(a, b)| a != b).map(|i| format!("{n}: byte at {:#x} is {:#x}, should be {:#x}", a + i as u64, g[i], w[i]))
    };
    if let Some(m) = mem("memory", scratch_at(p.slot), &w.scratch, &g.scratch) {
        return Some(m);
    }
    if let Some(m) = mem("stack", stack_at(p.slot), &w.stack, &g.stack) {
        return Some(m);
    }
    for (k, it) in b.items.iter().enumerate() {
        if let Some(m) = mem(&format!("item L{}", it.0), it.2, &w.items[k], &g.items[k]) {
            return Some(m);
        }
    }
    None
}

fn compare(p: &Prog, b: &Built, w: &[Want], r: &Ran) -> Option<String> {
    match r {
        Ran::Refused(e) => Some(e.clone()),
        Ran::Signal(NOT_RUN, _) => None,
        Ran::Signal(s, st) => {
            let n = match *s {
                libc::SIGVTALRM => "does not end".to_string(),
                libc::SIGKILL => "makes a system call (or was killed)".to_string(),
                s => format!("ends with signal {s}"),
            };
            Some(format!("execution {n}{}; the source prescribes {} steps", if *st > 0 { " after patching" } else { "" }, w.get(*st).map(|w| w.steps).unwrap_or(0)))
        }
        Ran::Done(g) => {
            for (st, (w, g)) in w.iter().zip(g).enumerate() {
                if let Some(m) = diff(w, g, b, p) {
                    return Some(format!("after {} steps{}: {m}", w.steps, if st > 0 { " (after patching)" } else { "" }));
                }
            }
            None
        }
    }
}

// ------------------------------------------------------------------ generating

struct Pool {
    /// straight-line templates by operand form
    plain: Vec<&'static T>,
    fp: Vec<&'static T>,
    by: HashMap<(String, Vec<O>), usize>,
}

fn straight(k: Kind) -> bool {
    !matches!(k, Kind::Jmp | Kind::Call | Kind::Jcc(_) | Kind::Push | Kind::Pop | Kind::Div(..)) && !matches!(k, Kind::Nullary(o) if !matches!(o, Op::Cxd(_)))
}
fn runnable(t: &T) -> bool {
    let k = kind_of(t.mn).unwrap();
    // [rip + number] would hit code bytes; only the address computation is run
    if let Some(Mm::Rip | Mm::Ripd | Mm::Ripn) = t.mem() {
        return k == Kind::Lea;
    }
    true
}
fn cpu_has(t: &T) -> bool {
    let mn = t.mn;
    if mn.starts_with("lzcnt") {
        return std::is_x86_feature_detected!("lzcnt");
    }
    if mn.starts_with("tzcnt") {
        return std::is_x86_feature_detected!("bmi1");
    }
    if mn.starts_with("popcnt") {
        return std::is_x86_feature_detected!("popcnt");
    }
    if mn.starts_with("roundpd") {
        return std::is_x86_feature_detected!("sse4.1");
    }
    true
}
fn is_fp_t(t: &T) -> bool {
    t.ops.iter().any(|o| matches!(o, O::Xa | O::Xb))
}

fn pool() -> Pool {
    let mut by = HashMap::new();
    for t in TEMPLATES {
        by.entry((t.mn.to_string(), t.ops.to_vec())).or_insert(t.id);
    }
    // one entry per (mnemonic, form) bucket so that mnemonics with many shapes do not dominate
    let ok = |t: &&T| straight(kind_of(t.mn).unwrap()) && runnable(t) && cpu_has(t);
    Pool { plain: TEMPLATES.iter().filter(ok).collect(), fp: TEMPLATES.iter().filter(ok).filter(|t| is_fp_t(t)).collect(), by }
}

struct Gen<'a> {
    r: Rng,
    pool: &'a Pool,
    slot: usize,
    out: Vec<Step>,
    /// pieces of code placed elsewhere
    tails: Vec<Vec<Step>>,
    labels: usize,
    items: Vec<(usize, Kd)>,
    patches: Vec<(usize, usize, bool)>,
    budget: i32,
    calls: Vec<usize>,
    frame: bool,
    page: usize,
}

impl Gen<'_> {
    fn label(&mut self) -> usize {
        self.labels += 1;
        self.labels - 1
    }
    fn bind(&mut self, l: usize) {
        self.out.push(Step::Bind(l));
    }
    fn ins(&mut self, mn: &str, ops: &[O], c: Case, l: usize) {
        // a line the compiler refuses is reported by other properties
        if let Some(t) = self.pool.by.get(&(mn.to_string(), ops.to_vec())) {
            // only lines the language defines (what it must refuse belongs to other properties)
            self.put(tmpl::by_id(*t).unwrap(), c, l);
        }
    }
    fn put(&mut self, t: &T, c: Case, l: usize) {
        if matches!(tm::expected(t, &c, 0), Verdict::Must(_)) {
            self.out.push(Step::Ins { t: t.id, c, l, dead: false });
            self.budget -= 1;
        }
    }
    fn reg(&mut self) -> u64 {
        loop {
            let n = self.r.n(16) as u64;
            if n != 4 && !(self.frame && n == 5) {
                return n;
            }
        }
    }
    fn movi(&mut self, reg: u64, v: i64) {
        let c = Case { a: reg, imm: v, ..ZERO };
        self.ins("movq", &[O::Ga, O::I], c, usize::MAX);
    }
    fn op1(&mut self, mn: &str, reg: u64) {
        let c = Case { a: reg, ..ZERO };
        self.ins(mn, &[O::Ga], c, usize::MAX);
    }
    fn rr(&mut self, mn: &str, a: u64, b: u64) {
        let c = Case { a, b, ..ZERO };
        self.ins(mn, &[O::Ga, O::Gb], c, usize::MAX);
    }
    fn imm(&mut self, mn: &str) -> i64 {
        for _ in 0..30 {
            let v = match self.r.n(4) {
                0 => *self.r.one(&tm::imm_bounds()),
                1 => self.r.n(64) as i64,
                2 => self.r.n(256) as i64 - 128,
                _ => self.r.u64() as i32 as i64,
            };
            let _ = mn;
            return v;
        }
        1
    }
    /// Any instruction of `pool`, with its memory operand made to lie in memory that exists.
    fn any(&mut self, fp: bool) {
        // choose the mnemonic first
        let pool = if fp { &self.pool.fp } else { &self.pool.plain };
        let mn = self.r.one(pool).mn;
        let shapes: Vec<&'static T> = pool.iter().filter(|t| t.mn == mn).copied().collect();
        let mem_no = self.r.chance(1, 2);
        let pick: Vec<&'static T> = shapes.iter().filter(|t| t.mem().is_none() == mem_no).copied().collect();
        let t: &'static T = if pick.is_empty() { *self.r.one(&shapes) } else { *self.r.one(&pick) };
        self.place(t);
    }
    fn place(&mut self, t: &T) {
        let mut c = ZERO;
        c.a = self.reg();
        c.b = self.reg();
        // rsp as a source now and then
        if t.ops == [O::Ga, O::Gb] && t.mn != "xchgq" && self.r.chance(1, 20) {
            c.b = 4;
        }
        // a shift count register is cl
        if t.ops.contains(&O::Gb) && matches!(kind_of(t.mn), Some(Kind::Shift(..))) {
            c.b = 1;
        }
        c.xa = self.r.n(16) as u64;
        c.xb = self.r.n(16) as u64;
        c.imm = self.imm(t.mn);
        for _ in 0..20 {
            if !t.has_imm() {
                break;
            }
            if let Verdict::Must(_) = tm::expected(t, &c, 0) {
                break;
            }
            c.imm = match self.r.n(4) {
                0 => self.imm(t.mn),
                1 => c.imm as i16 as i64,
                2 => c.imm as i8 as i64,
                _ => self.r.n(32) as i64,
            };
        }
        if t.has_imm() && !matches!(tm::expected(t, &c, 0), Verdict::Must(_)) {
            c.imm = 1;
        }
        let mut l = usize::MAX;
        if let Some(m) = t.mem() {
            // 16-byte operands must be aligned
            let wide = matches!(kind_of(t.mn), Some(Kind::Pd(_) | Kind::Roundpd));
            if m == Mm::Ripl {
                let need = if wide { 16 } else { 8 };
                let small = !wide && self.r.chance(1, 4);
                let cand: Vec<usize> = self.items.iter().filter(|i| i.1.len() >= need || (small && i.1.len() >= 4)).map(|i| i.0).collect();
                if cand.is_empty() {
                    return;
                }
                l = *self.r.one(&cand);
            } else if m.has_base() {
                // an address in the scratch area
                let lea = t.mn == "lea";
                let mut at = 16 + self.r.n(SCRATCH - 64) as u64;
                if wide {
                    at &= !15;
                }
                let at = scratch_at(self.slot) + at;
                let disp: i64 = match self.r.n(5) {
                    0 => *self.r.one(&tm::disp_bounds()),
                    1 => self.r.u64() as i32 as i64,
                    _ => self.r.n(300) as i64 - 150,
                };
                c.disp = disp.max(-i32::MAX as i64) as i32;
                let d = match m {
                    Mm::Bd | Mm::Bisd(_) => c.disp as i64,
                    Mm::Bn | Mm::Bisn(_) => -(c.disp as i64),
                    _ => 0,
                };
                c.base = self.reg();
                let mut idx = 0u64;
                if m.has_index() {
                    let s = match m {
                        Mm::Bis(s) | Mm::Bisd(s) | Mm::Bisn(s) => s as u64,
                        _ => 1,
                    };
                    c.index = self.reg();
                    let same = c.index == c.base;
                    if same && !lea {
                        c.index = (0..16).map(|k| (c.base + k) % 16).find(|k| *k != 4 && *k != c.base && !(self.frame && *k == 5)).unwrap();
                    }
                    let v = match self.r.n(4) {
                        0 => self.r.n(64) as u64,
                        1 => (self.r.n(64) as u64).wrapping_neg(),
                        2 => self.r.u64() >> self.r.n(40),
                        _ => self.r.u64() as i32 as i64 as u64,
                    };
                    self.movi(c.index, v as i64);
                    idx = v.wrapping_mul(s);
                }
                self.movi(c.base, at.wrapping_sub(d as u64).wrapping_sub(idx) as i64);
                // shift counts and dividends are set before; keep base and cl apart
            } else {
                c.disp = self.r.u64() as i32 >> self.r.n(28);
                if c.disp == i32::MIN {
                    c.disp = 0;
                }
            }
        }
        self.put(t, c, l);
    }
    fn cond(&mut self) -> String {
        loop {
            let n = self.r.one(CONDS).0;
            if !NO_JCC.contains(&n) {
                return format!("j{n}");
            }
        }
    }
    /// set all flags
    fn compare(&mut self) {
        let (a, b) = (self.reg(), self.reg());
        match self.r.n(4) {
            0 => self.rr("cmpq", a, b),
            1 => self.rr("testq", a, b),
            2 => self.rr("cmpb", a, b),
            _ => {
                let c = Case { xa: self.r.n(16) as u64, xb: self.r.n(16) as u64, ..ZERO };
                self.ins("ucomisd", &[O::Xa, O::Xb], c, usize::MAX)
            }
        }
    }
    fn jmp(&mut self, mn: &str, l: usize) {
        self.ins(mn, &[O::L], ZERO, l);
    }
    fn body(&mut self, depth: usize, n: usize) {
        for _ in 0..n {
            if self.budget <= 0 {
                return;
            }
            let k = self.r.n(if depth > 2 { 16 } else { 34 });
            match k {
                0..=7 => self.any(false),
                8..=10 => self.any(true),
                11 => self.stack_ops(),
                12 => self.divide(),
                13 => self.read_raw(),
                14 => {
                    // flags into data
                    self.compare();
                    let t: Vec<&'static T> = self.pool.plain.iter().filter(|t| matches!(kind_of(t.mn), Some(Kind::Set(_) | Kind::Cmov(..)))).copied().collect();
                    let t: &'static T = *self.r.one(&t);
                    self.place(t);
                }
                15 => self.rsp_ops(),
                16..=19 => {
                    // if / if-else
                    if self.r.chance(3, 4) {
                        self.compare();
                    }
                    let cc = self.cond();
                    let (l1, l2) = (self.label(), self.label());
                    let els = self.r.chance(1, 2);
                    self.jmp(&cc, l1);
                    let n = 1 + self.r.n(3);
                    self.body(depth + 1, n);
                    if els {
                        self.jmp("jmp", l2);
                    }
                    self.bind(l1);
                    if els {
                        self.body(depth + 1, n);
                    }
                    self.bind(l2);
                }
                20..=22 => self.do_loop(depth),
                23..=25 => self.do_call(),
                26 => self.indirect(),
                27 | 28 => self.elsewhere(depth),
                29 => self.framed(depth),
                30 => {
                    // call to the next instruction, take the address back
                    let c = Case { imm: 0, ..ZERO };
                    self.ins("call", &[O::I], c, usize::MAX);
                    let r = self.reg();
                    self.op1("popq", r);
                }
                31 | 32 => self.patchable(depth),
                _ => {
                    let l = self.label();
                    self.jmp("jmp", l);
                    if self.r.chance(1, 2) {
                        let x = self.label();
                        let n = 1 + self.r.n(12);
                        let b = (0..n).map(|_| self.r.u64() as u8).collect();
                        self.out.push(Step::Raw(x, b));
                    }
                    self.bind(l);
                }
            }
        }
    }
    fn read_raw(&mut self) {
        // data in the middle of the code
        let (over, x) = (self.label(), self.label());
        self.jmp("jmp", over);
        let b = (0..16).map(|_| self.r.u64() as u8).collect();
        self.out.push(Step::Raw(x, b));
        self.bind(over);
        let c = Case { a: self.reg(), xa: self.r.n(16) as u64, ..ZERO };
        match self.r.n(4) {
            0 => self.ins("movq", &[O::Ga, O::M(Mm::Ripl)], c, x),
            1 => self.ins("movsd", &[O::Xa, O::M(Mm::Ripl)], c, x),
            2 => self.ins("movzxb", &[O::Ga, O::M(Mm::Ripl)], c, x),
            _ => {
                let c = Case { imm: self.r.n(256) as i64 - 128, ..c };
                self.ins("cmpb", &[O::M(Mm::Ripl), O::I], c, x)
            }
        }
    }
    fn stack_ops(&mut self) {
        let n = 1 + self.r.n(4);
        for _ in 0..n {
            let r = self.r.n(16) as u64;
            if self.r.chance(1, 4) {
                let b = self.reg();
                let at = scratch_at(self.slot) + 8 * (2 + self.r.n(400)) as u64;
                let d = self.r.n(200) as i64 - 100;
                self.movi(b, at as i64 - d);
                let c = Case { base: b, disp: d as i32, ..ZERO };
                self.ins("pushq", &[O::M(Mm::Bd)], c, usize::MAX);
            } else {
                self.op1("pushq", r);
            }
        }
        if self.r.chance(1, 2) {
            self.any(false);
        }
        // access relative to rsp
        if self.r.chance(1, 2) {
            let mn = *self.r.one(&["addq", "movq", "xorl", "orb", "cmpw", "subq"]);
            let c = Case { a: self.reg(), base: 4, disp: 8 * self.r.n(n) as i32, ..ZERO };
            if self.r.chance(1, 2) {
                self.ins(mn, &[O::Ga, O::M(Mm::Bd)], c, usize::MAX);
            } else {
                self.ins(mn, &[O::M(Mm::Bd), O::Ga], c, usize::MAX);
            }
        }
        for _ in 0..n {
            if self.r.chance(1, 4) {
                let b = self.reg();
                let at = scratch_at(self.slot) + 8 * (2 + self.r.n(400)) as u64;
                self.movi(b, at as i64);
                let c = Case { base: b, ..ZERO };
                self.ins("popq", &[O::M(Mm::B)], c, usize::MAX);
            } else {
                let r = self.reg();
                self.op1("popq", r);
            }
        }
    }
    /// rsp as an ordinary register
    fn rsp_ops(&mut self) {
        let cand: Vec<usize> = self.items.iter().filter(|i| i.1.len() == 8 && matches!(i.1, Kd::DataQ(_))).map(|i| i.0).collect();
        if cand.is_empty() {
            return;
        }
        let l = *self.r.one(&cand);
        let c = Case { a: 4, ..ZERO };
        self.ins("movq", &[O::M(Mm::Ripl), O::Ga], c, l);
        for _ in 0..1 + self.r.n(3) {
            let t = *self.r.one(&self.pool.plain);
            if t.mem().is_some() || t.uses_label() {
                continue;
            }
            let mut c = Case { a: 4, b: self.reg(), xa: self.r.n(16) as u64, imm: self.r.n(100) as i64 - 50, ..ZERO };
            if !matches!(tm::expected(t, &c, 0), Verdict::Must(_)) {
                c.imm = 1;
            }
            if self.r.chance(1, 3) {
                std::mem::swap(&mut c.a, &mut c.b);
            }
            self.put(t, c, usize::MAX);
        }
        let r = self.reg();
        self.rr("movq", r, 4);
        let c = Case { a: 4, ..ZERO };
        self.ins("movq", &[O::Ga, O::M(Mm::Ripl)], c, l);
    }
    fn divide(&mut self) {
        let d = loop {
            let d = self.reg();
            if d != 0 && d != 2 {
                break d;
            }
        };
        let v = int_value(&mut self.r);
        self.movi(0, v as i64);
        let signed = self.r.chance(1, 2);
        let q = self.r.chance(1, 2);
        if signed {
            if q {
                self.ins("cqo", &[], ZERO, usize::MAX);
            } else {
                self.ins("cdq", &[], ZERO, usize::MAX);
            }
        } else {
            self.rr("xorq", 2, 2);
        }
        if self.r.chance(1, 3) {
            let v = int_value(&mut self.r) | 1;
            self.movi(d, v as i64);
        } else {
            let c = Case { a: d, imm: 1, ..ZERO };
            self.ins("orq", &[O::Ga, O::I], c, usize::MAX);
        }
        let mn = match (signed, q) {
            (true, true) => *self.r.one(&["idiv", "idivq"]),
            (true, false) => "idivl",
            (false, true) => *self.r.one(&["div", "divq"]),
            (false, false) => "divl",
        };
        if self.r.chance(1, 3) {
            // divisor in memory
            let b = loop {
                let b = self.reg();
                if b != 0 && b != 2 && b != d {
                    break b;
                }
            };
            let at = scratch_at(self.slot) + 8 * (2 + self.r.n(400)) as u64;
            self.movi(b, at as i64);
            let c = Case { a: d, base: b, ..ZERO };
            self.ins("movq", &[O::M(Mm::B), O::Ga], c, usize::MAX);
            self.ins(mn, &[O::M(Mm::B)], c, usize::MAX);
        } else {
            self.op1(mn, d);
        }
    }
    fn counter(&mut self) -> usize {
        let l = self.label();
        let k = if self.r.chance(1, 2) { Kd::DataQ(0) } else { Kd::Data(8) };
        self.items.push((l, k));
        // counters must not be picked as ordinary memory
        l
    }
    fn do_loop(&mut self, depth: usize) {
        let ctr = self.counter();
        let n = 1 + self.r.n(5) as i64;
        let c = Case { imm: n, ..ZERO };
        // not offered to other instructions
        let it = self.items.pop().unwrap();
        self.ins("movq", &[O::M(Mm::Ripl), O::I], c, ctr);
        let top = self.label();
        self.bind(top);
        let k = 1 + self.r.n(3);
        self.body(depth + 1, k);
        let c = Case { imm: 1, ..ZERO };
        self.ins("subq", &[O::M(Mm::Ripl), O::I], c, ctr);
        let cc = *self.r.one(&["jne", "jnz", "ja", "jgt", "jnle"]);
        self.jmp(cc, top);
        self.tails.push(vec![Step::Item(it.0, it.1)]);
    }
    fn do_call(&mut self) {
        if self.calls.is_empty() {
            return self.any(false);
        }
        let f = *self.r.one(&self.calls.clone());
        match self.r.n(5) {
            0 | 1 => self.jmp("call", f),
            2 => {
                let r = self.reg();
                let c = Case { a: r, ..ZERO };
                self.ins("lea", &[O::Ga, O::M(Mm::Ripl)], c, f);
                self.ins("call", &[O::Gn(r)], ZERO, usize::MAX);
            }
            3 => {
                let t = self.label();
                self.tails.push(vec![Step::Item(t, Kd::Abs(f))]);
                self.ins("call", &[O::M(Mm::Ripl)], ZERO, t);
            }
            _ => {
                // through a table entry addressed by a register
                let t = self.label();
                self.tails.push(vec![Step::Item(t, Kd::Abs(f))]);
                let (b, x) = (self.reg(), self.reg());
                let c = Case { a: b, base: b, index: x, ..ZERO };
                self.ins("lea", &[O::Ga, O::M(Mm::Ripl)], c, t);
                if b != x {
                    self.rr("xorq", x, x);
                    self.ins("call", &[O::M(Mm::Bis(8))], c, usize::MAX);
                } else {
                    self.ins("call", &[O::M(Mm::B)], c, usize::MAX);
                }
            }
        }
    }
    fn indirect(&mut self) {
        let l = self.label();
        let r = self.reg();
        let c = Case { a: r, base: r, ..ZERO };
        if self.r.chance(1, 2) {
            self.ins("lea", &[O::Ga, O::M(Mm::Ripl)], c, l);
            self.ins("jmp", &[O::Gn(r)], ZERO, usize::MAX);
        } else {
            let t = self.label();
            self.tails.push(vec![Step::Item(t, Kd::Abs(l))]);
            if self.r.chance(1, 2) {
                self.ins("jmp", &[O::M(Mm::Ripl)], ZERO, t);
            } else {
                self.ins("lea", &[O::Ga, O::M(Mm::Ripl)], c, t);
                self.ins("jmp", &[O::M(Mm::B)], c, usize::MAX);
            }
        }
        let x = self.label();
        let n = self.r.n(140);
        let b = (0..n).map(|_| self.r.u64() as u8).collect();
        self.out.push(Step::Raw(x, b));
        self.bind(l);
    }
    /// A detour to code placed elsewhere (other page, later round).
    fn elsewhere(&mut self, depth: usize) {
        let (there, back) = (self.label(), self.label());
        if self.r.chance(1, 2) {
            self.jmp("jmp", there);
        } else {
            self.compare();
            let cc = self.cond();
            self.jmp(&cc, there);
        }
        self.bind(back);
        let keep = std::mem::take(&mut self.out);
        let page = self.page;
        self.page = self.r.n(2);
        self.out.push(Step::Sel(self.page));
        if self.r.chance(1, 3) {
            let a = *self.r.one(&[4usize, 8, 16]);
            self.out.push(Step::Align(a));
        }
        self.bind(there);
        let n = 1 + self.r.n(3);
        self.body(depth + 1, n);
        self.jmp("jmp", back);
        let t = std::mem::replace(&mut self.out, keep);
        self.page = page;
        self.tails.push(t);
    }
    fn framed(&mut self, depth: usize) {
        if self.frame {
            return;
        }
        self.frame = true;
        self.op1("pushq", 5);
        self.rr("movq", 5, 4);
        let n = 8 * (1 + self.r.n(6)) as i64;
        let c = Case { a: 4, imm: n, ..ZERO };
        self.ins("subq", &[O::Ga, O::I], c, usize::MAX);
        let k = 1 + self.r.n(3);
        for _ in 0..k {
            let d = 8 * (1 + self.r.n(n as usize / 8)) as i32;
            let mn = *self.r.one(&["movq", "addq", "movl", "xorb", "andw", "cmpq"]);
            let c = Case { a: self.reg(), base: 5, disp: d, ..ZERO };
            let o = if self.r.chance(1, 2) { [O::Ga, O::M(Mm::Bn)] } else { [O::M(Mm::Bn), O::Ga] };
            self.ins(mn, &o, c, usize::MAX);
            self.body(depth + 1, 1);
        }
        self.ins("leave", &[], ZERO, usize::MAX);
        self.frame = false;
    }
    fn patchable(&mut self, depth: usize) {
        let p = self.label();
        let by = self.r.chance(1, 2);
        let (a, b, e) = (self.label(), self.label(), self.label());
        self.bind(p);
        self.jmp("jmp", a);
        self.patches.push((p, b, by));
        self.bind(a);
        self.body(depth + 1, 1);
        if self.r.chance(1, 3) {
            // the other destination lies elsewhere
            let keep = std::mem::take(&mut self.out);
            let page = self.page;
            self.page = self.r.n(2);
            self.out.push(Step::Sel(self.page));
            self.bind(b);
            self.body(depth + 1, 2);
            self.jmp("jmp", e);
            let t = std::mem::replace(&mut self.out, keep);
            self.page = page;
            self.tails.push(t);
        } else {
            self.jmp("jmp", e);
            self.bind(b);
            self.body(depth + 1, 2);
        }
        self.bind(e);
    }
}

fn random_item(r: &mut Rng) -> Kd {
    match r.n(8) {
        0 => Kd::ConstQ(int_value(r)),
        1 => Kd::ConstF(float_bits(r)),
        2 | 3 => Kd::DataQ(int_value(r)),
        4 => Kd::ConstL(int_value(r) as u32),
        5 => Kd::DataL(int_value(r) as u32),
        6 => Kd::Const(16 * (1 + r.n(3)) + r.n(9)),
        _ => Kd::Data(16 * (1 + r.n(3)) + r.n(9)),
    }
}

/// A whole program: functions, detours, constants, pages, rounds.
fn random_prog(seed: u64, pool: &Pool, slot: usize) -> Prog {
    let mut r = Rng::new(seed);
    let nf = 1 + r.n(4);
    let mut g = Gen {
        r: Rng::new(r.u64()),
        pool,
        slot,
        out: vec![],
        tails: vec![],
        labels: nf,
        items: vec![],
        patches: vec![],
        budget: 0,
        calls: vec![],
        frame: false,
        page: 0,
    };
    let ni = 2 + r.n(6);
    for _ in 0..ni {
        let k = random_item(&mut r);
        let l = g.label();
        g.items.push((l, k));
    }
    g.items.push((g.labels, Kd::DataQ(0)));
    g.labels += 1;
    let total = *r.one(&[6, 12, 25, 40, 70]);
    let mut chunks: Vec<Vec<Step>> = vec![];
    let mut decl: Vec<Step> = vec![];
    for it in &g.items {
        decl.push(Step::Item(it.0, it.1.clone()));
    }
    for f in 0..nf {
        g.budget = total / (1 + f as i32);
        g.calls = (f + 1..nf).collect();
        g.page = r.n(2);
        g.out = vec![Step::Sel(g.page)];
        g.bind(f);
        let n = 2 + r.n(total as usize / 2);
        g.body(0, n);
        g.ins("ret", &[], ZERO, usize::MAX);
        chunks.push(std::mem::take(&mut g.out));
        let t = std::mem::take(&mut g.tails);
        for c in t {
            if let Some(Step::Item(..)) = c.first() {
                decl.extend(c);
            } else {
                chunks.push(c);
            }
        }
    }
    // items first (a reference needs the label), on random pages; then code in random order
    let mut steps = vec![];
    for d in decl {
        if r.chance(1, 3) {
            steps.push(Step::Sel(r.n(2)));
        }
        steps.push(d);
        if r.chance(1, 25) {
            steps.push(Step::Fin);
        }
    }
    while !chunks.is_empty() {
        let k = r.n(chunks.len());
        let c = chunks.swap_remove(k);
        steps.extend(c);
        if r.chance(1, 4) {
            steps.push(Step::Fin);
        }
    }
    let state = random_state(&mut r);
    let mut patches = g.patches;
    patches.truncate(4);
    Prog { slot, at: 0, steps, labels: g.labels, state, fill: r.u64(), patches, entry: 0 }
}

/// A short straight program around floating-point instructions.
fn fp_prog(seed: u64, pool: &Pool, slot: usize) -> Prog {
    let mut r = Rng::new(seed);
    let mut g = Gen { r: Rng::new(r.u64()), pool, slot, out: vec![], tails: vec![], labels: 1, items: vec![], patches: vec![], budget: 100, calls: vec![], frame: false, page: 0 };
    for _ in 0..3 {
        let k = match r.n(3) {
            0 => Kd::ConstF(float_bits(&mut r)),
            1 => Kd::DataQ(float_bits(&mut r)),
            _ => Kd::Const(16),
        };
        let l = g.label();
        g.items.push((l, k));
    }
    let mut steps: Vec<Step> = g.items.iter().map(|i| Step::Item(i.0, i.1.clone())).collect();
    steps.push(Step::Sel(r.n(2)));
    g.bind(0);
    for _ in 0..1 + r.n(8) {
        g.any(true);
    }
    g.ins("ret", &[], ZERO, usize::MAX);
    steps.extend(g.out);
    Prog { slot, at: 0, steps, labels: g.labels, state: random_state(&mut r), fill: r.u64(), patches: vec![], entry: 0 }
}

/// One conditional instruction under given flags.
fn cond_prog(t: &T, flags: u16, seed: u64, pool: &Pool, slot: usize) -> Prog {
    let mut r = Rng::new(seed);
    let mut g = Gen { r: Rng::new(r.u64()), pool, slot, out: vec![], tails: vec![], labels: 2, items: vec![], patches: vec![], budget: 100, calls: vec![], frame: false, page: 0 };
    let l = g.label();
    g.items.push((l, Kd::DataQ(r.u64())));
    let mut steps: Vec<Step> = g.items.iter().map(|i| Step::Item(i.0, i.1.clone())).collect();
    let page = r.n(2);
    steps.push(Step::Sel(page));
    if matches!(kind_of(t.mn), Some(Kind::Jcc(_))) {
        let back = r.chance(1, 2);
        if back {
            g.bind(1);
            g.movi(0, 0x1111);
            g.ins("ret", &[], ZERO, usize::MAX);
        }
        g.bind(0);
        g.jmp(t.mn, 1);
        g.movi(0, 0x2222);
        g.ins("ret", &[], ZERO, usize::MAX);
        if !back {
            if r.chance(1, 3) {
                g.out.push(Step::Fin);
                g.out.push(Step::Sel(1 - page));
            } else {
                let n = r.n(200);
                let x = g.label();
                g.out.push(Step::Raw(x, vec![0x90; n]));
            }
            g.bind(1);
            g.movi(0, 0x1111);
            g.ins("ret", &[], ZERO, usize::MAX);
        }
    } else {
        g.bind(0);
        g.bind(1);
        g.place(t);
        g.ins("ret", &[], ZERO, usize::MAX);
    }
    steps.extend(g.out);
    let mut state = random_state(&mut r);
    state.f = flags;
    Prog { slot, at: 0, steps, labels: g.labels, state, fill: r.u64(), patches: vec![], entry: 0 }
}

// ------------------------------------------------------------------ one program, alone

fn hint_of(slot: usize, k: usize) -> u64 {
    0x3000_0000_0000 + ((slot as u64) << 38) + ((k as u64) << 32)
}

enum One {
    Holds,
    /// the source has no defined result
    Unusable,
    Fails(String),
}

fn one(p: &Prog, run: &Runner) -> One {
    arena::scoped(|| {
        let mut b = match build(p, hint_of(p.slot, p.at)) {
            Ok(b) => b,
            Err(e) => return One::Fails(e),
        };
        let w = match interpret(p, &b) {
            Ok(w) => w,
            Err(_) => return One::Unusable,
        };
        let r = run.run(&mut [(p, &mut b)]).pop().unwrap();
        match compare(p, &b, &w, &r) {
            None => One::Holds,
            Some(e) => One::Fails(e),
        }
    })
}

/// Remove what cannot stay until the source has a defined result.
fn settle(p: &mut Prog) -> Result<bool, String> {
    for _ in 0..12 {
        p.tidy();
        let r = arena::scoped(|| build(p, hint_of(p.slot, p.at)).map(|b| interpret(p, &b).map(|_| ())));
        match r {
            Err(e) => return Err(e),
            Ok(Ok(())) => return Ok(true),
            Ok(Err(bad)) => {
                for i in bad {
                    if i == usize::MAX {
                        return Ok(false);
                    }
                    if let Step::Ins { dead, .. } = &mut p.steps[i] {
                        *dead = true;
                    }
                }
            }
        }
    }
    Ok(false)
}

fn live(p: &Prog) -> Vec<usize> {
    (0..p.steps.len()).filter(|i| matches!(p.steps[*i], Step::Ins { dead: false, .. })).collect()
}

fn shrink(p: &Prog, run: &Runner, first: String) -> (Prog, String) {
    run.limit.set(150);
    let (q, _) = reduce(p, run, first.clone());
    run.limit.set(LIMIT);
    match one(&q, run) {
        One::Fails(e) => (q, e),
        _ => (p.clone(), first),
    }
}

fn reduce(p: &Prog, run: &Runner, first: String) -> (Prog, String) {
    let until = std::time::Instant::now() + std::time::Duration::from_secs(30);
    let mut cur = p.clone();
    let mut what = first;
    let mut tries = 0;
    let attempt = |q: &Prog, what: &mut String, tries: &mut i32| {
        *tries += 1;
        if std::time::Instant::now() > until {
            *tries = 10_000;
            return false;
        }
        let mut t = q.clone();
        t.tidy();
        if t.patches != q.patches {
            return false;
        }
        match one(q, run) {
            One::Fails(e) => {
                *what = e;
                true
            }
            _ => false,
        }
    };
    // no patches
    if !cur.patches.is_empty() {
        let mut q = cur.clone();
        q.patches.clear();
        if attempt(&q, &mut what, &mut tries) {
            cur = q;
        }
    }
    for k in (0..cur.patches.len()).rev() {
        let mut q = cur.clone();
        q.patches.remove(k);
        if !q.patches.is_empty() && attempt(&q, &mut what, &mut tries) {
            cur = q;
        }
    }
    let mut size = live(&cur).len().div_ceil(2).max(1);
    while tries < 400 {
        let l = live(&cur);
        let mut done = false;
        for c in l.chunks(size) {
            let mut q = cur.clone();
            for i in c {
                if let Step::Ins { dead, .. } = &mut q.steps[*i] {
                    *dead = true;
                }
            }
            if attempt(&q, &mut what, &mut tries) {
                cur = q;
                done = true;
                break;
            }
            if tries >= 400 {
                break;
            }
        }
        if !done {
            if size == 1 {
                break;
            }
            size = size.div_ceil(2);
        }
    }
    // drop what is dead and other steps one by one
    let mut q = cur.clone();
    q.steps.retain(|s| !matches!(s, Step::Ins { dead: true, .. }));
    if attempt(&q, &mut what, &mut tries) {
        cur = q;
    }
    let mut i = 0;
    while i < cur.steps.len() && tries < 800 {
        let used = match &cur.steps[i] {
            Step::Bind(l) | Step::Raw(l, _) | Step::Item(l, _) => {
                *l == cur.entry
                    || cur.steps.iter().any(|s| matches!(s, Step::Ins { l: x, .. } | Step::Item(_, Kd::Abs(x)) if x == l))
                    || cur.patches.iter().any(|p| p.0 == *l || p.1 == *l)
            }
            Step::Ins { .. } => true,
            _ => false,
        };
        if !used {
            let mut q = cur.clone();
            q.steps.remove(i);
            if attempt(&q, &mut what, &mut tries) {
                cur = q;
                continue;
            }
        }
        i += 1;
    }
    // simplest initial values
    for i in 0..16 {
        let mut q = cur.clone();
        q.state.r[i] = 0;
        if q.state.r[i] != cur.state.r[i] && attempt(&q, &mut what, &mut tries) {
            cur = q;
        }
        let mut q = cur.clone();
        q.state.x[i] = [0, 0];
        if q.state.x[i] != cur.state.x[i] && attempt(&q, &mut what, &mut tries) {
            cur = q;
        }
    }
    (cur, what)
}

// ------------------------------------------------------------------ replay records

fn to_json(prop: &str, p: &Prog) -> Value {
    let case = |c: &Case| json!([c.a, c.b, c.xa, c.xb, c.base, c.index, c.disp, c.imm]);
    let steps: Vec<Value> = p
        .steps
        .iter()
        .filter(|s| !matches!(s, Step::Ins { dead: true, .. }))
        .map(|s| match s {
            Step::Sel(n) => json!(["page", n]),
            Step::Bind(l) => json!(["bind", l]),
            Step::Raw(l, b) => json!(["raw", l, b]),
            Step::Align(n) => json!(["align", n]),
            Step::Fin => json!(["finalize"]),
            Step::Ins { t, c, l, .. } => json!(["ins", t, case(c), if *l == usize::MAX { -1 } else { *l as i64 }]),
            Step::Item(l, k) => {
                let (n, v) = match k {
                    Kd::ConstQ(v) => ("constq", *v),
                    Kd::ConstF(v) => ("constf", *v),
                    Kd::DataQ(v) => ("dataq", *v),
                    Kd::ConstL(v) => ("constl", *v as u64),
                    Kd::DataL(v) => ("datal", *v as u64),
                    Kd::Const(n) => ("const", *n as u64),
                    Kd::Data(n) => ("data", *n as u64),
                    Kd::Abs(n) => ("abs", *n as u64),
                };
                json!(["item", l, n, v])
            }
        })
        .collect();
    json!({"check": "program", "property": prop, "slot": p.slot, "at": p.at, "steps": steps, "labels": p.labels, "entry": p.entry, "fill": p.fill,
        "regs": p.state.r, "xmm": p.state.x, "flags": p.state.f, "patches": p.patches, "source": text(p)})
}

fn from_json(v: &Value) -> Prog {
    let u = |v: &Value| v.as_u64().unwrap_or(0);
    let mut steps = vec![];
    for s in v["steps"].as_array().unwrap() {
        steps.push(match s[0].as_str().unwrap() {
            "page" => Step::Sel(u(&s[1]) as usize),
            "bind" => Step::Bind(u(&s[1]) as usize),
            "raw" => Step::Raw(u(&s[1]) as usize, s[2].as_array().unwrap().iter().map(|x| u(x) as u8).collect()),
            "align" => Step::Align(u(&s[1]) as usize),
            "finalize" => Step::Fin,
            "item" => {
                let n = u(&s[3]);
                let k = match s[2].as_str().unwrap() {
                    "constq" => Kd::ConstQ(n),
                    "constf" => Kd::ConstF(n),
                    "dataq" => Kd::DataQ(n),
                    "constl" => Kd::ConstL(n as u32),
                    "datal" => Kd::DataL(n as u32),
                    "const" => Kd::Const(n as usize),
                    "data" => Kd::Data(n as usize),
                    _ => Kd::Abs(n as usize),
                };
                Step::Item(u(&s[1]) as usize, k)
            }
            _ => {
                let c = &s[2];
                let c = Case { a: u(&c[0]), b: u(&c[1]), xa: u(&c[2]), xb: u(&c[3]), base: u(&c[4]), index: u(&c[5]), disp: c[6].as_i64().unwrap() as i32, imm: c[7].as_i64().unwrap(), ..ZERO };
                let l = s[3].as_i64().unwrap();
                Step::Ins { t: u(&s[1]) as usize, c, l: if l < 0 { usize::MAX } else { l as usize }, dead: false }
            }
        });
    }
    let mut st = State { r: [0; 16], x: [[0; 2]; 16], f: u(&v["flags"]) as u16, def: interp::ALL };
    for i in 0..16 {
        st.r[i] = u(&v["regs"][i]);
        st.x[i] = [u(&v["xmm"][i][0]), u(&v["xmm"][i][1])];
    }
    let patches = v["patches"].as_array().unwrap().iter().map(|p| (u(&p[0]) as usize, u(&p[1]) as usize, p[2].as_bool().unwrap_or(false))).collect();
    Prog { slot: u(&v["slot"]) as usize, at: u(&v["at"]) as usize, steps, labels: u(&v["labels"]) as usize, state: st, fill: u(&v["fill"]), patches, entry: u(&v["entry"]) as usize }
}

pub fn replay(v: &Value) -> Result<(), String> {
    if let Some(seed) = v["abi"].as_u64() {
        let slot = v["slot"].as_u64().unwrap_or(0) as usize;
        return abi(seed, slot, &Runner::new(slot));
    }
    let p = from_json(v);
    let run = Runner::new(p.slot);
    match one(&p, &run) {
        One::Fails(e) => Err(e),
        _ => Ok(()),
    }
}

pub fn rule(prop: &str) -> &'static str {
    match prop {
        "C04" => "executed case = program of 1-8 floating-point instructions on random register, memory and constant values (special values included), all registers and memory compared with the IEEE-754/SDM model; non-trivial = at least one floating-point instruction ran; distinct by program and inputs",
        "C05" => "executed case = one conditional jump, set or move under one of the 32 flag states; all of them are non-trivial; distinct by instruction, operands and flags",
        _ => "executed case = generated program run on the CPU and interpreted from its source; non-trivial = at least 5 instructions executed including a taken branch or call and a memory access; distinct by program and inputs",
    }
}

fn sig_of(p: &Prog, w: &str) -> String {
    let mut m: Vec<&str> = p
        .steps
        .iter()
        .filter_map(|s| match s {
            Step::Ins { t, dead: false, .. } => tmpl::by_id(*t).map(|t| t.mn),
            _ => None,
        })
        .filter(|m| !["ret", "movq", "jmp"].contains(m))
        .collect();
    m.sort();
    m.dedup();
    m.truncate(2);
    format!("program {} {}", m.join(" "), w.split(|c: char| c == ':').next().unwrap_or("").chars().filter(|c| !c.is_ascii_digit()).collect::<String>())
}

pub fn check(cfg: &Cfg) -> Report {
    let prop = cfg.prop.as_str();
    let pool = pool();
    let conds: Vec<&T> = TEMPLATES.iter().filter(|t| is_cond(kind_of(t.mn).unwrap()) && runnable(t)).collect();
    // (template, flag state): all 32 states; a random third of them for memory operands (quick)
    let mut cases: Vec<(&T, u16)> = vec![];
    let mut rc = Rng::new(hash_of(&(cfg.seed, "conds")));
    for _ in 0..cfg.n(1, 20) {
        for t in &conds {
            for f in 0..32 {
                if t.mem().is_none() || cfg.tier == Tier::Thorough || rc.chance(1, 3) {
                    cases.push((t, flags_of(f)));
                }
            }
        }
    }
    let cases = &cases;
    parallel(cfg.threads, |th| {
        let mut rep = Report::default();
        let run = Runner::new(th);
        let mut r = Rng::new(hash_of(&(cfg.seed, prop, "prog", th as u64)));
        let total = match prop {
            "C04" => cfg.n(2500, 200_000),
            "C05" => cases.len().div_ceil(cfg.threads),
            _ => cfg.n(2500, 200_000),
        };
        let mut made = 0;
        let mut fails = 0;
        if prop == "C14" {
            for _ in 0..cfg.n(250, 5000) {
                let seed = r.u64();
                rep.evaluations += 1;
                rep.distinct.insert(hash_of(&("abi", seed)));
                rep.class("program: calls through typed function pointers", 8);
                if let Err(e) = abi(seed, th, &run) {
                    rep.viol(Viol { sig: "abi".into(), what: format!("C14: function-pointer interface: {e}"), weight: 1, replay: json!({"check": "program", "abi": seed, "slot": th}) });
                    break;
                }
            }
        }
        while made < total && fails < 4 {
            // a batch of programs with a defined result
            let mut batch: Vec<Prog> = vec![];
            while batch.len() < BATCH && made < total {
                let seed = r.u64();
                let mut p = match prop {
                    "C04" => fp_prog(seed, &pool, th),
                    "C05" => {
                        let (t, f) = cases[(made * cfg.threads + th) % cases.len()];
                        cond_prog(t, f, seed, &pool, th)
                    }
                    _ => random_prog(seed, &pool, th),
                };
                made += 1;
                p.at = batch.len();
                crumb(&to_json(prop, &p).to_string());
                // (a single conditional instruction always has a defined result)
                let r = if prop == "C05" { Ok(true) } else { settle(&mut p) };
                match r {
                    Ok(true) => batch.push(p),
                    Ok(false) => rep.class("program: given up (no defined result)", 1),
                    Err(e) => {
                        fails += 1;
                        let (p, e) = shrink(&p, &run, e);
                        rep.viol(Viol { sig: sig_of(&p, &e), what: format!("{prop}: {}: {e}", text(&p)), weight: live(&p).len() * 100 + text(&p).len(), replay: to_json(prop, &p) });
                    }
                }
            }
            let bad: Vec<(usize, String)> = arena::scoped(|| {
                let mut built: Vec<Built> = vec![];
                let mut bad = vec![];
                for (k, p) in batch.iter().enumerate() {
                    match build(p, hint_of(th, p.at)) {
                        Ok(b) => built.push(b),
                        Err(e) => {
                            bad.push((k, e));
                            return bad;
                        }
                    }
                }
                let mut wants = vec![];
                for (k, p) in batch.iter().enumerate() {
                    // code addresses differ between instances: a result may become undefined
                    wants.push(interpret(p, &built[k]).ok());
                }
                let keep: Vec<usize> = (0..batch.len()).filter(|k| wants[*k].is_some()).collect();
                let mut it = built.into_iter();
                let mut sel: Vec<Built> = vec![];
                for w in &wants {
                    let b = it.next().unwrap();
                    if w.is_some() {
                        sel.push(b);
                    }
                }
                let res = {
                    let mut v: Vec<(&Prog, &mut Built)> = keep.iter().zip(sel.iter_mut()).map(|(k, b)| (&batch[*k], b)).collect();
                    run.run(&mut v)
                };
                for ((k, b), g) in keep.iter().zip(sel.iter()).zip(&res) {
                    let p = &batch[*k];
                    let w = wants[*k].as_ref().unwrap();
                    rep.evaluations += w.len() as u64;
                    let mut st = 0;
                    let mut br = 0;
                    let mut ac = 0;
                    for w in w {
                        st += w.steps;
                        br += w.branches;
                        ac += w.accesses;
                    }
                    rep.class("program: instructions executed", st);
                    rep.class("program: branches, calls and returns", br);
                    rep.class("program: memory accesses", ac);
                    rep.class("program: executions after patching", w.len() as u64 - 1);
                    let pages: std::collections::HashSet<usize> = p.steps.iter().filter_map(|s| if let Step::Sel(n) = s { Some(*n) } else { None }).collect();
                    if pages.len() > 1 {
                        rep.class("program: uses both pages", 1);
                    }
                    if p.steps.contains(&Step::Fin) {
                        rep.class("program: several finalization rounds", 1);
                    }
                    if prop != "C14" || (st >= 5 && br > 1 && ac > 2) {
                        rep.distinct.insert(hash_of(&text(p)) ^ hash_of(&(p.state.r, p.fill, p.state.f)));
                    }
                    if rep.evaluations % 97 == 3 {
                        rep.sample(|| text(p).chars().take(500).collect());
                    }
                    if let Some(e) = compare(p, b, w, g) {
                        bad.push((*k, e));
                    }
                }
                bad
            });
            for (k, e) in bad {
                fails += 1;
                if fails > 4 {
                    break;
                }
                // alone, from a fresh code memory
                let p = &batch[k];
                match one(p, &run) {
                    One::Fails(_) => {
                        let (q, e) = shrink(p, &run, e);
                        rep.viol(Viol { sig: sig_of(&q, &e), what: format!("{prop}: {}: {e}", text(&q)), weight: live(&q).len() * 100 + text(&q).len(), replay: to_json(prop, &q) });
                    }
                    _ => rep.notes.push(format!("a failure inside a batch did not repeat alone and is not reported: {e}")),
                }
            }
        }
        crumb_clear();
        rep
    })
}

fn flags_of(n: usize) -> u16 {
    let mut f = 0;
    for (i, b) in [interp::CF, interp::PF, interp::ZF, interp::SF, interp::OF].iter().enumerate() {
        if n >> i & 1 == 1 {
            f |= b;
        }
    }
    f
}

// ------------------------------------------------------------------ the function-pointer interface

/// Values passed through get_label_addr / get_label_addr2 function pointers.
fn abi(seed: u64, slot: usize, run: &Runner) -> Result<(), String> {
    let mut r = Rng::new(seed);
    arena::scoped(|| {
        arena::hint(hint_of(slot, 0));
        let mut jit = guard(JitMemory::new)?;
        arena::hint(0);
        let ls: Vec<DestLabel> = guard(|| (0..6).map(|_| jit.label()).collect())?;
        let mut order: Vec<usize> = (0..6).collect();
        for i in 0..6 {
            order.swap(i, i + r.n(6 - i));
        }
        guard(|| {
            for k in order {
                jit.select_page(r.n(2));
                for _ in 0..r.n(40) {
                    jit.emit(&[0xcc]);
                }
                let l = ls[k];
                let name = format!("abi{k}");
                if !tmpl::block(&name, &mut jit, l, 0) {
                    panic!("the compiler refuses the block {name} (harness/tmpl/build.rs)");
                }
            }
            jit.finalize();
        })?;
        let f0 = jit.get_label_addr::<u64, u64>(ls[0]);
        let f1 = jit.get_label_addr2::<u64, u64, u64>(ls[1]);
        let f2 = jit.get_label_addr::<f64, f64>(ls[2]);
        let f3 = jit.get_label_addr2::<f64, f64, f64>(ls[3]);
        let f4 = jit.get_label_addr2::<*mut u64, u64, *mut u64>(ls[4]);
        let f5 = jit.get_label_addr2::<f64, u64, u64>(ls[5]);
        let f6: extern "C" fn(u64) -> u64 = unsafe { std::mem::transmute(jit.get_label_u64(ls[0])) };
        let (a, b) = (int_value(&mut r), int_value(&mut r));
        let fin = |r: &mut Rng| loop {
            let v = f64::from_bits(float_bits(r));
            if v.is_finite() {
                return v;
            }
        };
        let (x, y) = (fin(&mut r), fin(&mut r));
        let cell = scratch_at(slot);
        let res = run.res as *mut u64;
        let mut status = 0;
        unsafe {
            *res = 0;
            let pid = libc::fork();
            if pid == 0 {
                Runner::confine(LIMIT);
                let o = res.add(1);
                *o = f0(a);
                *o.add(1) = f1(a, b);
                *o.add(2) = f2(x).to_bits();
                *o.add(3) = f3(x, y).to_bits();
                *o.add(4) = f4(cell as *mut u64, b) as u64;
                *o.add(5) = *(cell as *const u64);
                *o.add(6) = f5(x, a);
                *o.add(7) = f6(b);
                *res = 1;
                libc::syscall(libc::SYS_exit, 0);
                loop {}
            }
            if pid < 0 {
                eprintln!("fork failed");
                std::process::exit(3);
            }
            while libc::waitpid(pid, &mut status, 0) < 0 {}
            if *res != 1 {
                return Err(format!("calling the functions ends with status {status:#x}"));
            }
            let want = [a, a.wrapping_add(b.wrapping_mul(2)).wrapping_add(5), (x + x).to_bits(), (x - y).to_bits(), cell, b, x.to_bits() ^ a, b];
            let names = ["fn(u64) -> u64", "fn(u64, u64) -> u64", "fn(f64) -> f64", "fn(f64, f64) -> f64", "fn(*mut u64, u64) -> *mut u64", "memory behind a pointer argument", "fn(f64, u64) -> u64", "fn(u64) -> u64 by get_label_u64"];
            for i in 0..8 {
                let g = *res.add(1 + i);
                if g != want[i] {
                    return Err(format!("{} on ({a:#x}, {b:#x}, {x:?}, {y:?}) gives {g:#x}, should be {:#x}", names[i], want[i]));
                }
            }
        }
        Ok(())
    })
}
