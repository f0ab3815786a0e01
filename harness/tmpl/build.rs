//! Generates one function per (mnemonic, operand form, addressing shape), each containing one
//! `monoasm!` line whose registers, displacement and immediate are run-time parameters.
//! VH_EXCLUDE names a file listing template ids to leave out (lines the compiler refused).
use oracle::spec::*;
use std::fmt::Write;

const BLOCKS: &[(&str, &str)] = &[
    ("bind", "lbl:"),
    ("dq", "dq 0x7123456789abcdef; dq 1.5; dq 255;"),
    ("jmp", "jmp lbl;"),
    ("add imm", "movq rax, (p.imm); addq rax, rdi; ret;"),
    ("add const", "movq rax, [rip + lbl]; addq rax, rdi; ret;"),
    ("count", "movq rax, [rip + lbl]; addq [rip + lbl], rdi; ret;"),
    ("call", "call lbl; addq rax, (7); ret;"),
    ("tail", "jmp [rip + lbl];"),
    ("addsd", "addsd xmm0, [rip + lbl]; ret;"),
    ("abi0", "lbl: movq rax, rdi; ret;"),
    ("abi1", "lbl: lea rax, [rdi + rsi * 2 + 5]; ret;"),
    ("abi2", "lbl: addsd xmm0, xmm0; ret;"),
    ("abi3", "lbl: subsd xmm0, xmm1; ret;"),
    ("abi4", "lbl: movq [rdi], rsi; movq rax, rdi; ret;"),
    ("abi5", "lbl: movq rax, xmm0; xorq rax, rdi; ret;"),
];

fn main() {
    println!("cargo:rerun-if-env-changed=VH_EXCLUDE");
    println!("cargo:rerun-if-changed=build.rs");
    let excluded: std::collections::HashSet<usize> = std::env::var("VH_EXCLUDE")
        .ok()
        .map(|p| {
            println!("cargo:rerun-if-changed={p}");
            std::fs::read_to_string(p)
                .unwrap_or_default()
                .split_whitespace()
                .filter_map(|s| s.parse().ok())
                .collect()
        })
        .unwrap_or_default();

    // (code, source text)
    let mut shapes: Vec<(String, String)> = vec![
        ("Mm::B".into(), "[R(p.base)]".into()),
        ("Mm::Bd".into(), "[R(p.base) + (p.disp)]".into()),
        ("Mm::Bn".into(), "[R(p.base) - (p.disp)]".into()),
        ("Mm::Bi".into(), "[R(p.base) + R(p.index)]".into()),
        ("Mm::Rip".into(), "[rip]".into()),
        ("Mm::Ripd".into(), "[rip + (p.disp)]".into()),
        ("Mm::Ripn".into(), "[rip - (p.disp)]".into()),
        ("Mm::Ripl".into(), "[rip + lbl]".into()),
    ];
    for s in [1, 2, 4, 8] {
        shapes.push((format!("Mm::Bis({s})"), format!("[R(p.base) + R(p.index) * {s}]")));
        shapes.push((
            format!("Mm::Bisd({s})"),
            format!("[R(p.base) + R(p.index) * {s} + (p.disp)]"),
        ));
        shapes.push((
            format!("Mm::Bisn({s})"),
            format!("[R(p.base) + R(p.index) * {s} - (p.disp)]"),
        ));
    }

    let mut funcs = String::new();
    let mut table = String::new();
    let mut id = 0usize;
    let mut list = String::new();
    let mut refused = String::new();
    let mut emit = |mn: &str, ops: Vec<(String, String)>| {
        let this = id;
        id += 1;
        let src = ops.iter().map(|o| o.1.clone()).collect::<Vec<_>>().join(", ");
        let codes = ops.iter().map(|o| o.0.clone()).collect::<Vec<_>>().join(", ");
        writeln!(list, "{this} {mn} {src}").unwrap();
        if excluded.contains(&this) {
            writeln!(
                refused,
                "T {{ id: {this}, mn: {mn:?}, src: {src:?}, ops: &[{codes}], f: nothing }},"
            )
            .unwrap();
            return;
        }
        writeln!(
            funcs,
            "fn t{this}(jit: &mut JitMemory, p: &P) {{ let lbl = p.label; let _ = lbl; monoasm!{{ jit, {mn} {src}; }} }} /*T{this}*/"
        )
        .unwrap();
        writeln!(
            table,
            "T {{ id: {this}, mn: {mn:?}, src: {src:?}, ops: &[{codes}], f: t{this} }},"
        )
        .unwrap();
    };
    let names = oracle::inst::R64;
    for (mn, k) in mnemonics() {
        for form in forms(k) {
            if form == [C::G] && matches!(k, Kind::Jmp | Kind::Call) {
                // only named registers are accepted here
                for (i, n) in names.iter().enumerate() {
                    emit(&mn, vec![(format!("O::Gn({i})"), n.to_string())]);
                }
                continue;
            }
            let mut variants: Vec<Vec<(String, String)>> = vec![vec![]];
            let (mut ng, mut nx) = (0, 0);
            for c in &form {
                let alts: Vec<(String, String)> = match c {
                    C::G => {
                        ng += 1;
                        let v = if ng == 1 { "a" } else { "b" };
                        vec![(format!("O::G{v}"), format!("R(p.{v})"))]
                    }
                    C::X => {
                        nx += 1;
                        let v = if nx == 1 { "a" } else { "b" };
                        let pv = if nx == 1 { "xa" } else { "xb" };
                        vec![(format!("O::X{v}"), format!("xmm(p.{pv})"))]
                    }
                    C::I => vec![("O::I".into(), "(p.imm)".into())],
                    C::Cl => vec![("O::Gn(1)".into(), "cl".into())],
                    C::L => vec![("O::L".into(), "lbl".into())],
                    C::M => shapes
                        .iter()
                        .map(|(c, s)| (format!("O::M({c})"), s.clone()))
                        .collect(),
                };
                let mut next = vec![];
                for v in &variants {
                    for a in &alts {
                        let mut w = v.clone();
                        w.push(a.clone());
                        next.push(w);
                    }
                }
                variants = next;
            }
            for v in variants {
                emit(&mn, v);
            }
            // the explicit spelling of a 64-bit immediate
            if mn == "movq" && form == [C::G, C::I] {
                emit(
                    &mn,
                    vec![
                        ("O::Ga".into(), "R(p.a)".into()),
                        ("O::I".into(), "qword (p.imm)".into()),
                    ],
                );
            }
            // shift by a run-time chosen count register: only rcx is encodable
            if form == [C::G, C::Cl] {
                emit(
                    &mn,
                    vec![
                        ("O::Ga".into(), "R(p.a)".into()),
                        ("O::Gb".into(), "R(p.b)".into()),
                    ],
                );
            }
        }
    }
    // blocks the harness itself uses; a refused one has no function (the caller does without)
    let mut blocks = String::new();
    for (i, (name, src)) in BLOCKS.iter().enumerate() {
        let this = 100_000 + i;
        if excluded.contains(&this) {
            writeln!(blocks, "({name:?}, None),").unwrap();
            continue;
        }
        writeln!(
            funcs,
            "fn t{this}(jit: &mut JitMemory, p: &P) {{ let lbl = p.label; let _ = lbl; monoasm!{{ jit, {src} }} }} /*T{this}*/"
        )
        .unwrap();
        writeln!(blocks, "({name:?}, Some(t{this})),").unwrap();
    }
    let out = std::env::var("OUT_DIR").unwrap();
    std::fs::write(
        format!("{out}/gen.rs"),
        format!("{funcs}\npub static TEMPLATES: &[T] = &[\n{table}\n];\npub static REFUSED: &[T] = &[\n{refused}\n];\npub static BLOCKS: &[(&str, Option<fn(&mut JitMemory, &P)>)] = &[\n{blocks}\n];\n"),
    )
    .unwrap();
    std::fs::write(format!("{out}/list.txt"), &list).unwrap();
}
