#!/usr/bin/env python3
"""Makes /verif/seeded/<id>/ from a spec (a python file defining BUGS) and tries each planted bug in scratch copies.
usage: plant.py SPEC.py [id...] [--checks P01,P02] [--keep] [--jobs N] [--only-checks]
A scratch copy of /repo and of the harness (its path dependency rewritten) is used; /repo itself is not touched."""
import importlib.util, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
SEED = "/verif/seeded"; W = "/tmp/pl"
DEMO_SH = r'''#!/bin/bash
# Builds demo.rs against the crate in the current directory and runs it: exit 0 = property holds on the demonstration.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
d=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
mkdir -p "$d/src" && cp "$here/demo.rs" "$d/src/main.rs" && cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
festa_rs = { path = "$repo" }
num-bigint = { version = "0.4.4", features = ["rand"] }
rand = "0.8.5"
rand_core = "0.6.4"
rand_chacha = "0.3.1"
[profile.dev]
opt-level = 2
debug = false
incremental = false
codegen-units = 64
T
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo build --offline --quiet 2>"$d/log" || { tail -30 "$d/log" >&2; exit 2; }
timeout 240 "$d/target/debug/demo"
'''
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def make(b):
    d = f"{SEED}/{b['id']}"; os.makedirs(d, exist_ok=True)
    t = f"{W}/gen-{b['id']}"; shutil.rmtree(t, ignore_errors=True); os.makedirs(t)
    sh(f"git -C /repo archive HEAD | tar x -C {t}; cd {t}; git init -q; git add -A; git -c user.email=a -c user.name=a commit -qm x")
    for f, old, new in b["edits"]:
        p = f"{t}/{f}"; s = open(p).read()
        if s.count(old) != 1: raise SystemExit(f"{b['id']}: {s.count(old)} matches in {f} of {old[:60]!r}")
        open(p, "w").write(s.replace(old, new))
    diff = sh(f"git -C {t} diff").stdout
    shutil.rmtree(t)
    open(f"{d}/patch.diff", "w").write(diff); open(f"{d}/demo.rs", "w").write(b["demo"])
    open(f"{d}/demo.sh", "w").write(b.get("sh", DEMO_SH)); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump({k: b[k] for k in ("property", "needs", "what_it_breaks")}, open(f"{d}/meta.json", "w"), indent=1)
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
TENV = dict(ENV, CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_PROFILE_DEV_OPT_LEVEL="3")
def tryone(bid, checks, demos=True):
    out = {"id": bid}; d = f"{SEED}/{bid}"; w = f"{W}/{bid}"
    shutil.rmtree(w, ignore_errors=True); os.makedirs(w)
    try:
        sh(f"cp -a /repo {w}/repo"); r = sh(f"git -C {w}/repo apply {d}/patch.diff")
        if r.returncode: out["apply"] = r.stdout; return out
        if demos:
            r = sh(f"{d}/demo.sh", cwd="/repo", env=ENV); out["demo_clean"] = r.returncode
            if r.returncode: out["demo_clean_out"] = r.stdout[-1500:]
            r = sh(f"{d}/demo.sh", cwd=f"{w}/repo", env=ENV); out["demo_bug"] = r.returncode; out["demo_bug_out"] = r.stdout[-300:]
            r = sh("timeout 780 cargo test --workspace --no-fail-fast --offline -- --test-threads 8", cwd=f"{w}/repo", env=TENV)
            ok = set(re.findall(r"^test (\S+) \.\.\. ok", r.stdout, re.M))
            miss = [s for s in STABLE if s.split("::", 1)[1] not in ok]
            out["tests"] = "ok" if not miss else {"missing": miss, "tail": r.stdout[-1500:]}
        prop = json.load(open(f"{d}/meta.json"))["property"]
        os.makedirs(f"{w}/vm")
        sh(f"cd /verif; cp check.sh known-findings.txt *.json* {w}/vm/; for d in harness ct portable; do mkdir -p {w}/vm/$d; tar c --exclude=target/release --exclude=target/cpu --exclude=target/asan --exclude=target/tsan --exclude=target/miri $d | tar x -C {w}/vm; sed -i 's#path = \"/repo\"#path = \"{w}/repo\"#' {w}/vm/$d/Cargo.toml; done")
        out["checks"] = {}
        for c in ([prop] if not checks else checks):
            if c == "own": c = prop
            r = sh(f"timeout 900 {w}/vm/check.sh {c}", env=dict(ENV, VERIF_SEED="1", VERIF_TIER="quick"))
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            out["checks"][c] = f"{r.returncode} {v[0] if v else r.stdout[-200:]!r}"
        return out
    finally:
        shutil.rmtree(w, ignore_errors=True)
if __name__ == "__main__":
    a = sys.argv[1:]; jobs = 2; checks = None; demos = True; gen = True
    if "--jobs" in a: i = a.index("--jobs"); jobs = int(a[i+1]); del a[i:i+2]
    if "--checks" in a: i = a.index("--checks"); checks = a[i+1].split(","); del a[i:i+2]
    if "--only-checks" in a: a.remove("--only-checks"); demos = False; gen = False
    spec, ids = a[0], a[1:]
    if spec == "-": bugs = [dict(id=i) for i in (ids or sorted(os.listdir(SEED)))]; gen = False
    else:
        m = importlib.util.spec_from_file_location("spec", spec); mod = importlib.util.module_from_spec(m); m.loader.exec_module(mod)
        bugs = [b for b in mod.BUGS if not ids or b["id"] in ids]
    if gen:
        for b in bugs: make(b)
    with ThreadPoolExecutor(jobs) as ex:
        for o in ex.map(lambda b: tryone(b["id"], checks, demos), bugs): print(json.dumps(o, indent=1), flush=True)
