#!/usr/bin/env python3
"""Decide one property: build the harness against /repo's working tree, run the generated-input
search for it in a debug-style and a release-style build, write evidence and replay files.

usage: check.py Cxx [--tier quick|thorough] [--seed N]
       check.py --replay FILE
       check.py --setup
Exit 0: held on everything explored. Exit 1: VIOLATION lines. Anything else: the check itself failed.
"""
import json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
OUT = os.path.join(V, "out")
PROFILES = {
    "debug": ("dev", os.path.join(V, "target"), "debug"),
    "release": ("rel", os.path.join(V, "target", "r"), "rel"),
}


class Infra(Exception):
    pass


def env_for_cargo(profile):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith("CARGO_") and k not in ("CARGO_HOME",):
            del e[k]
        if k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTC", "RUSTC_WORKSPACE_WRAPPER"):
            del e[k]
    e["HOME"] = e.get("HOME") or "/root"
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["CARGO_TARGET_DIR"] = PROFILES[profile][1]
    return e


def lines_of(path, cache={}):
    if path not in cache:
        try:
            cache[path] = open(path).read().split("\n")
        except OSError:
            cache[path] = []
    return cache[path]


def template_ids(msg):
    """ids of the template lines a compiler error belongs to"""
    ids = set()
    todo = list(msg.get("spans", []))
    for c in msg.get("children", []):
        todo += c.get("spans", [])
    while todo:
        s = todo.pop()
        ls = lines_of(s["file_name"]) if s["file_name"].endswith("gen.rs") else []
        if ls and s["line_start"] - 1 < len(ls):
            m = re.search(r"/\*T(\d+)\*/", ls[s["line_start"] - 1])
            if m:
                ids.add(int(m.group(1)))
        if s.get("expansion"):
            todo.append(s["expansion"]["span"])
    return ids


def write_if_changed(path, text):
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)


def build(profile):
    """Build the harness; returns (binary, artifacts). Lines of the template crate that the
    compiler refuses are left out and become REFUSED templates (a violation, not an error)."""
    name, target, sub = PROFILES[profile]
    os.makedirs(target, exist_ok=True)
    excl = os.path.join(target, "refused_templates.txt")
    refused = set()
    write_if_changed(excl, "")
    for attempt in range(6):
        lines_of.__defaults__[0].clear()
        e = env_for_cargo(profile)
        e["VH_EXCLUDE"] = excl
        p = subprocess.run(
            ["cargo", "build", "--offline", "--profile", name, "--message-format=json"],
            cwd=H, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        arts, errs, dirs = {}, [], set()
        for l in p.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") == "compiler-artifact":
                arts[m["target"]["name"]] = m
                for f in m["filenames"]:
                    if f.endswith((".rlib", ".so")):
                        dirs.add(os.path.dirname(f))
            elif m.get("reason") == "compiler-message" and m["message"]["level"] == "error":
                errs.append((m["target"]["name"], m["message"]))
        if p.returncode == 0:
            exe = arts["vh"]["executable"]
            arts["*dirs"] = sorted(dirs)
            return exe, arts
        new, unmapped = set(), []
        for tgt, m in errs:
            if not m.get("spans"):
                continue
            ids = template_ids(m) if tgt == "tmpl" else set()
            if ids:
                new |= ids
            else:
                unmapped.append(m.get("rendered") or m["message"])
        if unmapped or not (new - refused):
            raise Infra("harness build failed:\n" + "\n".join(unmapped)[:6000] + p.stderr[-3000:])
        refused |= new
        write_if_changed(excl, "\n".join(map(str, sorted(refused))))
    raise Infra("harness build did not settle")


def build_all(profiles):
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(len(profiles)) as ex:
        fs = {p: ex.submit(build, p) for p in profiles}
        return {p: f.result() for p, f in fs.items()}


def run_env(arts):
    e = env_for_cargo("debug")
    del e["CARGO_TARGET_DIR"]

    def lib(n, suf):
        for f in arts[n]["filenames"]:
            if f.endswith(suf):
                return f
        raise Infra("no %s artifact of %s" % (suf, n))
    e["VH_MONOASM"] = lib("monoasm", ".rlib")
    e["VH_MACRO"] = lib("monoasm_macro", ".so")
    e["VH_ORACLE"] = lib("oracle", ".rlib")
    e["VH_DEPS"] = ":".join(arts["*dirs"])
    return e


def crumbs(path):
    out = []
    try:
        b = open(path, "rb").read()
    except OSError:
        return out
    S = 64 << 10
    for i in range(0, len(b), S):
        n = int.from_bytes(b[i:i + 8], "little")
        if 0 < n <= S - 8:
            try:
                out.append(json.loads(b[i + 8:i + 8 + n].decode()))
            except ValueError:
                pass
    return out


def known_keys():
    keys = {}
    try:
        for l in open(os.path.join(V, "known_findings.txt")):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l)
            if m:
                keys[(m.group(1), m.group(2))] = m.group(3).strip()
    except OSError:
        pass
    return keys


def run_profile(prop, profile, exe, arts, seed, tier, limit):
    d = os.path.join(OUT, "run", "%s-%s" % (prop, profile))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        p = subprocess.run([exe, "check", prop, "--seed", str(seed), "--tier", tier, "--dir", d,
                            "--build", profile],
                           env=run_env(arts), timeout=limit, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True, errors="replace")
        rc, out = p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        rc, out = None, "time limit of %d s reached" % limit
    if rc is None or rc < 0:
        # the code under test brought the process down (or never returns): find the case that does it
        sig = "never ending" if rc is None else signal.Signals(-rc).name
        for c in crumbs(os.path.join(d, "crumbs")):
            f = os.path.join(d, "crash.json")
            json.dump({"property": prop, "build": profile, "replay": c}, open(f, "w"))
            try:
                q = subprocess.run([exe, "replay", f], env=run_env(arts), timeout=15 if tier == "quick" else 60,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                bad = q.returncode < 0 or q.returncode == 1
            except subprocess.TimeoutExpired:
                bad = rc is None
            if bad:
                return {"evaluations": 1, "distinct_nontrivial": 1, "classes": {}, "samples": [json.dumps(c)[:500]],
                        "known": {}, "notes": [], "rules": ["the case that ended the process"],
                        "violations": [{"sig": "crash", "what": "%s: running this case brings the process down (%s)" % (prop, sig),
                                        "replay": c, "weight": 0}]}
        raise Infra("%s/%s died (%s) and no recorded case reproduces it\n%s" % (prop, profile, sig, out[-2000:]))
    if rc != 0:
        raise Infra("%s/%s exited with %d\n%s" % (prop, profile, rc, out[-4000:]))
    return json.load(open(os.path.join(d, "result.json")))


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        build_all(["debug", "release"])
        print("harness built")
        return 0
    if a and a[0] == "--replay":
        rec = json.load(open(a[1]))
        exe, arts = build(rec.get("build", "debug"))
        p = subprocess.run([exe, "replay", os.path.abspath(a[1])], env=run_env(arts))
        if p.returncode < 0:
            print("FAILS: process ended by signal %d" % -p.returncode)
            return 1
        return p.returncode
    prop = a[0]
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED") or 1)
    if "--seed" in a:
        seed = int(a[a.index("--seed") + 1])
    t0 = time.time()
    builds = build_all(["debug", "release"])
    t1 = time.time()
    results = {}
    for profile in ("debug", "release"):
        exe, arts = builds[profile]
        if profile == "release" and results["debug"]["violations"]:
            # the verdict is known; the shrunk failure of the first build is the replay
            results[profile] = {"evaluations": 0, "distinct_nontrivial": 0, "classes": {}, "samples": [], "known": {},
                                "notes": ["not run: the debug-style build already shows a violation"], "rules": [], "violations": []}
            continue
        results[profile] = run_profile(prop, profile, exe, arts, seed, tier,
                                       max(60, 700 - (time.time() - t0) - (200 if profile == "debug" else 0)) if tier == "quick" else 6 * 3600)
    keys = known_keys()
    viol, knownseen = [], {}
    for profile, r in results.items():
        for v in r["violations"]:
            viol.append((profile, v))
        for k, what in r["known"].items():
            if (prop, k) in keys:
                knownseen[k] = keys[(prop, k)]
            else:
                viol.append((profile, {"sig": k, "what": what, "replay": {"check": "known", "key": k}, "weight": 0}))
    seen, lines = set(), []
    viol.sort(key=lambda x: x[1]["weight"])
    rdir = os.path.join(OUT, "replay")
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + "-"):
            os.remove(os.path.join(rdir, f))
    for profile, v in viol:
        if v["sig"] in seen:
            continue
        seen.add(v["sig"])
        if len(seen) > 8:
            break
        f = os.path.join(rdir, "%s-%d.json" % (prop, len(seen)))
        json.dump({"property": prop, "build": profile, "seed": seed, "tier": tier, "what": v["what"],
                   "replay": v["replay"], "how": "python3 /verif/check.py --replay " + f},
                  open(f, "w"), indent=1)
        lines.append((f, v["what"], profile))
    d, rl = results["debug"], results["release"]
    cov = {
        "evaluations": d["evaluations"] + rl["evaluations"],
        "distinct_nontrivial": d["distinct_nontrivial"],
        "rule": " | ".join(d["rules"]) + " (distinct_nontrivial counts the debug-style build only; the release-style build runs the same generators)",
        "samples": d["samples"][:20],
        "per_build": {p: {"evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"],
                          "classes": r["classes"]} for p, r in results.items()},
    }
    notes = sorted(set(d["notes"] + rl["notes"]))
    if notes:
        cov["notes"] = notes
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
        "wall_s": round(time.time() - t0, 2), "violations": len(seen),
        "assumptions": ["the reference in /verif/harness/oracle (mnemonic table, decoder, interpreter) states the x86-64 meaning of each line",
                        "build time %.1f s of the wall time" % (t1 - t0)],
    }
    if knownseen:
        ev["coverage"]["known_findings"] = knownseen
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", prop + ".json"), "w"), indent=1)
    for k, what in sorted(knownseen.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    print("%s: %d evaluations, %d distinct non-trivial, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], ev["wall_s"]))
    for f, what, profile in lines:
        print("  [%s build] %s" % (profile, what))
        print("VIOLATION property=%s replay=%s" % (prop, f))
    return 1 if lines else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Infra as e:
        print("CHECK ERROR: %s" % e)
        sys.exit(2)
