#!/usr/bin/env python3
"""mutate.py N SEED [FILE-SUBSTR]: random small source mutants of /repo in a scratch copy; those that build and pass the
existing tests are checked with layer V (and, with --s, with the whole check) for the properties of the function they are in.
Prints one line per survivor. Used by hand to find gaps; nothing registered in MANIFEST.json needs it."""
import json, os, re, random, subprocess, sys, shutil
sys.path.insert(0, "/verif/vx"); import vx
W = os.environ.get("MUTW", "/tmp/mutcamp"); R = W + "/repo"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only")
def run(c, cwd=R, t=300):
    try: p = subprocess.run(c, shell=True, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t); return p.returncode, p.stdout
    except subprocess.TimeoutExpired: return 124, "timeout"
OPS = [(r"(?<=[\w\])]) \+ (?=[\w(&*-])", " - "), (r"(?<=[\w\])]) - (?=[\w(&*])", " + "), (r"(?<=[\w\])]) \* (?=[\w(&])", " + "), (r"(?<=[\w\])]) \* (?=[\w(&])", " / "), (r"(?<=[\w\])]) / (?=[\w(&])", " * "),
    (r" < (?=[\w(-])", " <= "), (r" < (?=[\w(-])", " > "), (r" > (?=[\w(-])", " >= "), (r" > (?=[\w(-])", " < "), (r" <= ", " < "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" && ", " || "), (r" \|\| ", " && "),
    (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "0"), (r"\b1\b(?!\.)", "2"), (r"\b2\b(?!\.)", "1"), (r"\b2\b(?!\.)", "3"), (r"\b3\b(?!\.)", "2"), (r"\b2\.0\b", "1.0"), (r"\b0\.5\b", "0.6"),
    (r"\.x\(\)", ".y()"), (r"\.y\(\)", ".z()"), (r"\.z\(\)", ".x()"), (r"\.re\(\)", ".im()"), (r"\.im\(\)", ".re()"), (r"\bself\.", "other."), (r"\bother\.", "self."), (r"\bself\b", "other"), (r"\bother\b", "self"),
    (r"(?<=[(=,] )-(?=[\w(])", ""), (r"(?<=\()-(?=[\w(])", ""), (r"(?<![\w!])!(?=[\w(])", ""), (r"\bM\b", "N"), (r"\bN\b", "M"), (r"\ba\b", "b"), (r"\bb\b", "a"), (r"\bx\b", "y"), (r"\by\b", "x"), (r"\bi\b", "j"), (r"\bj\b", "i"),
    (r"T::zero\(\)", "T::one()"), (r"T::one\(\)", "T::zero()"), (r"\.conj\(\)", ""), (r"\.inv\(\)", ""), (r"\.transpose\(\)", ""), (r"\.normalize\(\)", ""), (r"\((\w+), (\w+)\)(?! =>)", r"(\2, \1)"), (r"\[(\w+), (\w+)", r"[\2, \1"),
    (r"\b(\w+)\.(cross|dot)\((\w+)\)", r"\3.\2(\1)"), (r"Some\((\w+)\)", "None"), (r"\.inner\b", ".outer"), (r"\.outer\b", ".inner"), (r"\bsin\b", "cos"), (r"\bcos\b", "sin"), (r"\+= ", "-= "), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bbreak\b", "continue"),
    (r"\bfold_first\b", "fold"), (r"\.len\(\)", ".len() + 1"), (r"\bread\b", "read"), (r"\badd\b", "sub"), (r"\bsum\b", "product"), (r"\ball\b", "any"), (r"\bany\b", "all"), (r"floor", "ceil"), (r"\bln\b", "log2"), (r"(?m)^(\s+)[a-z]\w*(\.\w+)* [-+*/]?= [^;\n]*;$", r"\1"), (r"\bx\b", "z"), (r"\bdir\b", "pos"), (r"\bpos\b", "dir"), (r"\bself\.(\w+), other\.(\w+)", r"other.\2, self.\1")]
def main():
    a = [x for x in sys.argv[1:] if x != "--s"]; n = int(a[0]); rnd = random.Random(int(a[1])); sub = a[2] if len(a) > 2 else ""
    if os.path.exists(W): shutil.rmtree(W)
    os.makedirs(W); subprocess.run(["cp", "-a", "/repo", R], check=True)
    vx.build_dump(); vx.FEATS.update({"rand", "approx"})
    mods = vx.modules("/repo", W)
    props = {}
    cs = {}
    for v in os.listdir("/verif/vx/contracts"): cs.update(vx.parse_contracts("/verif/vx/contracts/" + v)[0])
    sites = []
    asm = vx.Asm(cs, [], None, vx.CTX)
    for path, src, items in mods:
        if not items: continue
        def fns(its, imp=None):
            for it in its:
                if vx.cfg_off(it.get("attrs", [])): continue
                if it["kind"] == "fn" and it["body"]: yield imp, it
                elif it["kind"] in ("impl", "trait"): yield from fns(it["items"], it)
        spans = []
        for imp, f in fns(items):
            k = asm.fnkey(imp, f); c = cs.get(k); pr = c.props if c else []
            spans.append((f["body"][0], f["body"][1], k, pr))
        for it in items:
            if it["kind"] == "macro" and it["ident"]: spans.append((it["inner"][0], it["inner"][1], "macro " + it["ident"], ["?"]))
        for s, e, k, pr in spans:
            t = src[s:e].decode()
            for rx, rep in OPS:
                for m in re.finditer(rx, t):
                    ls = t.rfind("\n", 0, m.start()) + 1
                    if "//" in t[ls:m.start()]: continue
                    new = m.expand(rep) if "\\" in rep else rep
                    if new != m.group(0): sites.append((path, s + len(t[:m.start()].encode()), m.group(0), new, k, pr))
    if sub: sites = [x for x in sites if sub in x[0]]
    print("sites", len(sites), flush=True)
    sample = rnd.sample(sites, min(n, len(sites)))
    base = None; stats = {"build": 0, "tests": 0, "survive": 0, "missed": 0}
    for path, off, old, new, k, pr in sample:
        p = R + "/src/" + path; src = open("/repo/src/" + path, "rb").read()
        mut = src[:off] + new.encode() + src[off + len(old.encode()):]
        open(p, "wb").write(mut)
        try:
            rc, o = run("cargo build --offline -q && cargo build --offline -q --no-default-features")
            if rc: stats["build"] += 1; continue
            rc, o = run("cargo test --offline -q -- --test-threads 8 && cargo test --offline -q --no-default-features -- --test-threads 8", t=90)
            if rc: stats["tests"] += 1; continue
            stats["survive"] += 1
            line = src[:off].count(b"\n") + 1; l = mut.decode().split("\n")[line - 1].strip()
            res = []
            for q in (pr if pr != ["?"] else ["C05", "C12", "C13", "C25"] if path == "traits.rs" else ["C25"]):
                if q not in vx.PROPSCOPE: continue
                rep = vx.check(q, R, W + "/v", timeout=300)
                und = rep["error"] or rep["undecided"] or [x for x, f in rep["fns"].items() if getattr(f, "lost", False) and f.status == "verify"]
                res.append("%s:%s" % (q, "CAUGHT" if rep["failures"] else "undecided %s" % str(und)[:80] if und else "quiet"))
                if rep["failures"]: break
            c = any("CAUGHT" in r for r in res)
            if not c: stats["missed"] += 1
            print("%s %s:%d [%s] `%s` -> `%s`  %s   %s" % ("ok    " if c else "MISSED", path, line, k, old.strip(), new.strip(), " ".join(res), l[:140]), flush=True)
        finally: open(p, "wb").write(src)
    print(stats)
main()
