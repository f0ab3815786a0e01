#!/usr/bin/env python3
"""Mutation sweep (development aid): small changes to monoasm's sources in scratch copies; those that
build and pass the existing tests are given to the checks, cheapest first; survivors are listed.

   mutate.py list [--file F] | run [--file F] [--n N] [--seed S] [--workers W] [--out FILE]
"""
import json, os, random, re, shutil, subprocess, sys, threading, time, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = ["monoasm/src/jit_memory.rs", "monoasm/src/lib.rs", "monoasm_macro/src/asm.rs", "monoasm_macro/src/inst.rs",
         "monoasm_macro/src/parse.rs", "monoasm_macro/src/lib.rs"]
ORDER = {
    "monoasm/src/jit_memory.rs": "C18 C06 C07 C10 C09 C08 C17 C13 C02 C01 C03 C15 C16 C14 C04 C05 C11 C12".split(),
    "monoasm/src/lib.rs": "C02 C06 C13 C10 C07 C01 C03 C08 C09 C17 C18 C15 C16 C14 C04 C05 C11 C12".split(),
}
MACRO = "C01 C02 C03 C04 C05 C13 C11 C12 C06 C07 C14 C10 C08 C09 C17 C18 C15 C16".split()


def mutants(f, text):
    out = []
    lines = text.split("\n")
    skip = False
    lines = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), text, flags=re.S).split("\n")
    for n, l in enumerate(lines):
        s = l.strip()
        if s.startswith(("//", "#", "use ", "/*", "pub mod", "mod ", "extern ")) or not s:
            continue
        if "fn fmt(" in s:
            skip = True
        if skip:
            if l.startswith("}") or l.startswith("impl"):
                skip = False
            else:
                continue
        if any(w in s for w in ("write!(", "println!", "unimplemented!", "unreachable!", "panic!(", ".error(")):
            continue

        def add(what, new):
            if new != l:
                out.append((f, n, what, new))
        code = re.sub(r'"(?:[^"\\]|\\.)*"', lambda m: '"' + "\0" * (len(m.group(0)) - 2) + '"', l)
        code = code.split("//")[0]
        for m in re.finditer(r"\b(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(usize|u8|u64|u32|i32)?\b", code):
            t = m.group(1).replace("_", "")
            v = int(t, 0) if not (t.startswith("0") and len(t) > 1 and t[1].isdigit()) else int(t)
            for nv, w in ((v + 1, "+1"), (v - 1, "-1"), (v ^ 8, "^8")):
                if nv < 0 or (w == "^8" and not t.startswith("0x")):
                    continue
                r = hex(nv) if t.startswith("0x") else (bin(nv) if t.startswith("0b") else str(nv))
                add("num%s" % w, l[:m.start(1)] + r + l[m.end(1):])
        for a, b in ((" < ", " <= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "), (" == ", " != "), (" != ", " == "),
                     (" + ", " - "), (" - ", " + "), (" && ", " || "), (" || ", " && "), (" | ", " & "), (" << ", " >> "), (" >> ", " << "),
                     ("true", "false"), ("false", "true"), ("as u8", "as i8 as u8"), ("as u32", "as u16 as u32"), ("as i32", "as i16 as i32"),
                     ("as u64", "as u32 as u64"), ("as i64", "as i32 as i64"), ("i32::try_from", "i16::try_from"), ("i8::try_from", "u8::try_from"),
                     ("!reg.is", "reg.is"), ("!", ""), ("Page(id)", "Page(0)"), ("DATA_PAGE", "Page(id)"), ("align16", "align8"), ("align8", "align4"),
                     ("align8", "align16"), ("align4", "align16"), ("#op1", "#op2"), ("#op2", "#op1"), ("enc_rexw_mr", "enc_mr"), ("enc_mr(", "enc_rexw_mr("),
                     ("enc_mr_byte", "enc_mr"), ("Rex::Byte", "Rex::None"), ("Rex::REXW", "Rex::None"), ("Rex::None", "Rex::REXW"), ("rexw(", "rex_none("),
                     ("rex_none_byte", "rex_none"), ("Disp::None", "Disp::D8(0)"), ("Imm::L", "Imm::W"), ("Imm::B", "Imm::L"), ("Imm::W", "Imm::L"),
                     ("i32", "i64"), ("i64", "i32"), ("u64", "u32"), ("i16", "i32"), ("i8", "i16"), ("base", "reg"), ("reg,", "Reg(0),"), ("index", "base"),
                     ("pos", "pos + 1"), ("self.page", "Page(0)"), ("imm", "0"), (".neg()", ""), ("negate", "!negate")):
            i = code.find(a)
            while i >= 0:
                add("%s->%s" % (a.strip(), b.strip()), l[:i] + b + l[i + len(a):])
                i = code.find(a, i + len(a))
        m = re.match(r"(\s*)(\} else )?if (?!let)(.*) \{$", code)
        if m:
            c = l[m.start(3):m.end(3)]
            pre = l[:m.start(3)]
            add("if-true", pre + "true || (" + c + ") {")
            add("if-false", pre + "false && (" + c + ") {")
        if s.endswith(";") and not s.startswith(("let ", "return", "}", ")", "pub ", "const ", "type ")):
            add("delete", "")
        if re.match(r'\s*".*=>.*,$', l):
            add("delete-arm", "")
    return out


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Worker:
    def __init__(self, i, root):
        self.d = os.path.join(root, str(i))
        self.repo, self.verif = self.d + "/repo", self.d + "/verif"
        if not os.path.exists(self.repo):
            os.makedirs(self.d, exist_ok=True)
            sh("cp -a /repo %s && mkdir %s && cp -a %s/check.py %s/harness %s/known_findings.txt %s/ && cp -a %s/target %s/" % (
                self.repo, self.verif, V, V, V, self.verif, V, self.verif))
            sh("grep -rl '/repo' %s/harness --include=*.toml --include=*.rs | xargs sed -i 's#\"/repo/#\"%s/#'" % (self.verif, self.repo))
        sh("cp -a %s/check.py %s/; for c in oracle tmpl vh; do cp -a %s/harness/$c/src %s/harness/$c/; done; cp -a %s/harness/tmpl/build.rs %s/harness/tmpl/; sed -i 's#\"/repo/#\"%s/#' %s/harness/vh/src/lit.rs" % (
            V, self.verif, V, self.verif, V, self.verif, self.repo, self.verif))
        sp = importlib.util.spec_from_file_location("check%d" % i, self.verif + "/check.py")
        self.c = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(self.c)
        self.env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1",
                        CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")

    def tests(self):
        try:
            r = sh("cargo nextest run --workspace --offline --no-tests pass --no-fail-fast", cwd=self.repo, env=self.env, timeout=120)
        except subprocess.TimeoutExpired:
            return "test-fail"
        if "could not compile" in r.stdout:
            return "no-compile"
        return "ok" if r.returncode == 0 else "test-fail"

    def run(self, f, n, new, tier, props):
        p = os.path.join(self.repo, f)
        orig = open(os.path.join("/repo", f)).read()
        ls = orig.split("\n")
        ls[n] = new
        try:
            open(p, "w").write("\n".join(ls))
            t = self.tests()
            if t != "ok":
                return t, []
            return self.check(tier, props)
        finally:
            open(p, "w").write(orig)

    def check(self, tier, props, stop=True):
        try:
            exe, arts = self.c.build("debug")
        except self.c.Infra as e:
            return "INFRA", [str(e)[-600:]]
        hits = []
        for prop in props:
            d = os.path.join(self.verif, "run-" + prop)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            try:
                q = subprocess.run([exe, "check", prop, "--seed", "1", "--tier", tier, "--dir", d, "--build", "debug", "--threads", "3"],
                                   env=self.c.run_env(arts), timeout=600, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                                   text=True, errors="replace")
            except subprocess.TimeoutExpired:
                hits.append((prop, "TIMEOUT"))
                if stop:
                    break
                continue
            if q.returncode != 0:
                hits.append((prop, "died %d: %s" % (q.returncode, q.stdout[-300:])))
            else:
                r = json.load(open(d + "/result.json"))
                if r["violations"]:
                    hits.append((prop, r["violations"][0]["what"][:200]))
            if hits and stop:
                break
        return ("killed" if hits else "SURVIVED"), hits


def main():
    a = sys.argv[1:]
    opt = lambda k, d=None: a[a.index(k) + 1] if k in a else d
    ms = []
    for f in FILES:
        if opt("--file") and opt("--file") not in f:
            continue
        ms += mutants(f, open(os.path.join("/repo", f)).read())
    if opt("--from") or opt("--to"):
        ms = [m for m in ms if int(opt("--from", 1)) <= m[1] + 1 <= int(opt("--to", 10 ** 6))]
    if a[0] == "list":
        for f, n, w, new in ms:
            print("%s:%d %s | %s" % (f, n + 1, w, new.strip()))
        print(len(ms))
        return
    random.Random(int(opt("--seed", 1))).shuffle(ms)
    done = set()
    outf = opt("--out", "/tmp/mut/result.txt")
    os.makedirs(os.path.dirname(outf), exist_ok=True)
    if os.path.exists(outf):
        for l in open(outf):
            done.add(l.split("\t")[1])
    todo = [m for m in ms if "%s:%d:%s:%s" % (m[0], m[1] + 1, m[2], m[3].strip()) not in done][:int(opt("--n", 10 ** 6))]
    lock = threading.Lock()
    tier = opt("--tier", "smoke")
    t_end = time.time() + 60 * float(opt("--minutes", 10 ** 6))

    def work(i):
        w = Worker(i, "/tmp/mut")
        while time.time() < t_end:
            with lock:
                if not todo:
                    return
                f, n, what, new = todo.pop()
            t0 = time.time()
            st, hits = w.run(f, n, new, tier, ORDER.get(f, MACRO))
            with lock:
                with open(outf, "a") as o:
                    o.write("%s\t%s:%d:%s:%s\t%.0f s\t%s\n" % (st, f, n + 1, what, new.strip(), time.time() - t0, " | ".join(map(str, hits)).replace("\n", " ").replace("\t", " ")))
    ts = [threading.Thread(target=work, args=(i,)) for i in range(int(opt("--workers", 3)))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
