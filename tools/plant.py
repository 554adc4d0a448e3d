#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: turn planted-bug descriptions into /verif/seeded/<id>/ after confirming,
in a scratch copy of /repo, that each one builds, passes the existing tests, and that its demonstration
fails with it and passes without it. SPEC.py defines BUGS = [dict(id,property,needs,what,edits=[(file,old,new)],demo=rust main.rs)]."""
import json, os, re, shutil, subprocess, sys, runpy
W = "/tmp/plant"; R = W + "/repo"; BASE = "/opt/vp/BASELINE.json"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
DEMO_SH = """#!/bin/bash
# run with cwd = the repository; builds and runs demo.rs against it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
d=$(mktemp -d); trap 'rm -rf "$d"' EXIT
mkdir "$d/src"; cp "$here/demo.rs" "$d/src/main.rs"; cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
vecmat = { path = "$repo" }
num-traits = "0.2"
num-complex = "0.4"
num-integer = "0.1"
approx = "0.5"
rand = "0.8"
[profile.dev]
debug = 0
X
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline -q && timeout 60 "$d/target/debug/demo"
"""
def run(c, cwd, t=600):
    try: p = subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"
def tests():
    o = ""
    for f, pre in (("", ""), ("--no-default-features", "[no-default-features] ")):
        _, x = run("cargo test --workspace --no-fail-fast %s --offline -- --test-threads 8" % f, R)
        o += re.sub(r"(?m)^test (.* \.\.\. )", "test " + pre + r"\1", x)
    return set(re.findall(r"(?m)^test (.*?) \.\.\. ok", o)), o
def main():
    spec = runpy.run_path(sys.argv[1])["BUGS"]; only = sys.argv[2:]
    if os.path.exists(W): shutil.rmtree(W)
    os.makedirs(W); subprocess.run(["cp", "-a", "/repo", R], check=True)
    base, _ = tests()
    print("baseline tests", len(base))
    for b in spec:
        if only and b["id"] not in only: continue
        D = "/verif/seeded/" + b["id"]
        if not only and os.path.exists(D + "/patch.diff"): continue
        run("git checkout -- .", R)
        bad = None
        for f, o, n in b["edits"]:
            p = R + "/src/" + f; s = open(p).read()
            if s.count(o) != 1: bad = "%s: old text occurs %d times" % (f, s.count(o)); break
            open(p, "w").write(s.replace(o, n))
        if bad: print("SKIP", b["id"], bad); continue
        d = run("git diff", R)[1]
        ok, o = tests()
        if base - ok: print("SKIP", b["id"], "tests fail:", sorted(base - ok)[:4], "" if ok else o[-1500:]); continue
        T = W + "/" + b["id"]; os.makedirs(T, exist_ok=True)
        open(T + "/demo.rs", "w").write(b["demo"]); open(T + "/demo.sh", "w").write(DEMO_SH); os.chmod(T + "/demo.sh", 0o755)
        rc1, o1 = run("bash " + T + "/demo.sh", R)
        run("git checkout -- .", R)
        rc0, o0 = run("bash " + T + "/demo.sh", R)
        if rc0 != 0: print("SKIP", b["id"], "demo fails on unchanged tree:", o0[-1500:]); continue
        if rc1 == 0: print("SKIP", b["id"], "demo passes with the bug:", o1[-500:]); continue
        if "could not compile" in o1: print("SKIP", b["id"], "demo does not compile with bug", o1[-1500:]); continue
        os.makedirs(D, exist_ok=True)
        open(D + "/patch.diff", "w").write(d); shutil.copy(T + "/demo.rs", D); shutil.copy(T + "/demo.sh", D)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]}, open(D + "/meta.json", "w"), indent=1)
        print("KEPT", b["id"], "exit with bug:", rc1)
    shutil.rmtree(W)
main()
