#!/usr/bin/env python3
"""Make and confirm planted bugs.
   plant.py make [ID ...]   write seeded/<id>/ from devtools/plants.py and confirm it in scratch copies
   plant.py catch [ID ...]  apply each to /repo in turn, run the check of its property, undo
                            (--all-checks: every check)
"""
import json, os, re, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/plant"
DEMO_SH = '''#!/bin/bash
# usage: demo.sh (cwd: the repository). exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export HOME="${HOME:-/root}" RUSTUP_TOOLCHAIN=nightly CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="$tmp/target"
mkdir -p "$tmp/c/src"
cp "$here/demo.rs" "$tmp/c/src/main.rs"
cp "$here/demo.lock" "$tmp/c/Cargo.lock"
cat > "$tmp/c/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
monoasm = { path = "$repo/monoasm" }
monoasm_macro = { path = "$repo/monoasm_macro" }
[profile.dev]
debug = 0
T
cd "$tmp/c" || exit 2
timeout 240 cargo build --offline -q || exit 3
timeout 50 "$tmp/target/debug/demo"
'''
PRE = '''#![allow(unused)]
use monoasm::*;
use monoasm_macro::monoasm;

/// Does the call end without a panic?
fn ok<T>(f: impl FnOnce() -> T) -> bool {
    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_ok();
    let _ = std::panic::take_hook();
    r
}
fn peek<T: Copy>(p: *const u8) -> T {
    unsafe { (p as *const T).read_unaligned() }
}

fn main() {
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def lock():
    p = S + "/lock"
    if not os.path.exists(p):
        d = S + "/lk"
        os.makedirs(d + "/src", exist_ok=True)
        open(d + "/src/main.rs", "w").write("fn main(){}")
        open(d + "/Cargo.toml", "w").write('[package]\nname = "demo"\nversion = "0.1.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
             'monoasm = { path = "/repo/monoasm" }\nmonoasm_macro = { path = "/repo/monoasm_macro" }\n')
        shutil.copy("/repo/Cargo.lock", d + "/Cargo.lock")
        r = sh("RUSTUP_TOOLCHAIN=nightly cargo metadata --offline --format-version 1 >/dev/null", cwd=d)
        assert r.returncode == 0, r.stdout
        shutil.copy(d + "/Cargo.lock", p)
    return p


def make(b):
    d = f"{V}/seeded/{b['id']}"
    w = S + "/w"
    sh("rsync -a --delete --exclude target /repo/ /tmp/plant/w/") if shutil.which("rsync") else sh("rm -rf /tmp/plant/w; mkdir -p /tmp/plant/w; cd /repo && git ls-files -z | xargs -0 cp --parents -t /tmp/plant/w; cp -a /repo/.git /tmp/plant/w/; cp -a /repo/Cargo.lock /tmp/plant/w/")
    sh("git checkout -q -- .", cwd=w)
    for f, old, new in b["edits"]:
        p = f"{w}/{f}"
        s = open(p).read()
        assert s.count(old) == 1, (b["id"], f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "diff"], cwd=w, stdout=subprocess.PIPE, text=True).stdout
    assert diff
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.rs", "w").write(PRE + b["demo"].strip("\n") + "\n}\n" + b.get("extra", ""))
    shutil.copy(lock(), d + "/demo.lock")
    open(d + "/demo.sh", "w").write(DEMO_SH)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    # added lines of my own commits must not be all that changed
    # unchanged tree
    r0 = sh([d + "/demo.sh"], cwd="/repo")
    r1 = sh([d + "/demo.sh"], cwd=w)
    env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=S + "/t", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
    bld = sh("cargo test --workspace --no-run --offline", cwd=w, env=env)
    t = sh("cargo nextest run --workspace --offline --no-fail-fast", cwd=w, env=env)
    failed = sorted(set(re.findall(r"(?:FAIL|SIG\w+|TIMEOUT)\s+\[[^\]]*\]\s+(?:\([^)]*\)\s+)?(\S+ \S+)", t.stdout)))
    m = re.search(r"(\d+) tests? run: (\d+) passed", t.stdout)
    good = r0.returncode == 0 and r1.returncode not in (0, 2) and bld.returncode == 0
    print(b["id"], "OK" if good and not failed else "BAD", "demo", r0.returncode, r1.returncode, "build", bld.returncode, "tests", m.group(0) if m else "?", failed, flush=True)
    if r0.returncode != 0:
        print(r0.stdout[-3000:])
    if r1.returncode in (2, 3) or bld.returncode:
        print(r1.stdout[-1500:])
    return good and not failed


def catch(i, allc):
    d = f"{V}/seeded/{i}"
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not sh("git status --porcelain", cwd="/repo").stdout
    r = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    assert r.returncode == 0, r.stdout
    res = {}
    try:
        props = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")] if allc else [prop]
        for p in props:
            t = time.time()
            r = sh(["python3", V + "/check.py", p], env=dict(os.environ, VERIF_SEED="1", VERIF_TIER="quick"))
            hit = r.returncode == 1 and f"VIOLATION property={p} " in r.stdout
            res[p] = ("HIT" if hit else "quiet" if r.returncode == 0 else f"rc{r.returncode}")
            if not allc or not hit:
                v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
                print("  ", i, p, res[p], f"{time.time()-t:.0f}s", v[:1], flush=True)
                if res[p].startswith("rc"):
                    print(r.stdout[-1500:])
    finally:
        sh("git checkout -q -- .", cwd="/repo")
    print(i, prop, res, flush=True)


if __name__ == "__main__":
    os.makedirs(S, exist_ok=True)
    mode, ids = sys.argv[1], [a for a in sys.argv[2:] if not a.startswith("--")]
    if mode == "make":
        from plants import PLANTS
        for b in PLANTS:
            if not ids or b["id"] in ids:
                if ids or not os.path.exists(f"{V}/seeded/{b['id']}"):
                    if not make(b) and "--keep" not in sys.argv:
                        shutil.rmtree(f"{V}/seeded/{b['id']}", ignore_errors=True)
    else:
        for i in ids or sorted(os.listdir(V + "/seeded")):
            catch(i, "--all-checks" in sys.argv)
