#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough]: decide one property on /repo's current tree.

Layers (see DESIGN.md): V = Verus contracts on mechanically extracted functions (unbounded),
S = contracts on the compiled crate at a symbolic scalar type (bounded in dimension),
K = Kani contracts/harnesses on the compiled crate (bounded in dimension, full value domain).
Exit 0: held; 1: VIOLATION line printed; 2: no answer (tool problem)."""
import json, os, subprocess, sys, time, re, hashlib, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)

def sh(cmd, cwd=None, timeout=None, env=None):
    e = dict(os.environ); e.update({"CARGO_NET_OFFLINE": "true", "RUSTC_WRAPPER": "", "CARGO_TERM_COLOR": "never"}); e.update(env or {})
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True, errors="replace")
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as x:
        o = x.stdout or b""
        return 124, (o.decode(errors="replace") if isinstance(o, bytes) else o)

def known_findings():
    r = {}
    for l in open(os.path.join(HERE, "known-findings.txt")):
        l = l.strip()
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", l)
        if m: r[(m.group(1), m.group(2))] = m.group(3)
    return r

class Result:
    def __init__(self): self.violations = []; self.known = []; self.errors = []; self.undecided = []; self.cov = {}

def layer_s(pid, out, tier, res, budget=800):
    import layers
    b = layers.SX.get(pid)
    if not b: return
    sx = os.path.join(HERE, "sx")
    t0 = time.time()
    env = {"VERIF_TIER": tier, "SX_REPO_SRC": REPO + "/src"}
    if REPO != "/repo":
        print("note: S layer always builds against the path dependency in sx/Cargo.toml")
    rc, o = sh(["cargo", "build", "--offline", "--locked", "--bin", b], cwd=sx, timeout=840, env=env)
    tb = time.time() - t0
    if rc != 0:
        res.errors.append("S: building the contracts against /repo failed:\n" + "\n".join(o.splitlines()[-40:])); return
    rep = os.path.join(out, "sx.json")
    for f in (rep, rep + ".hang", rep + ".progress"):
        if os.path.exists(f): os.remove(f)
    t1 = time.time()
    rc, o = sh([os.path.join(sx, "target/debug", b), "--out", rep], timeout=budget, env=env)
    tr = time.time() - t1
    open(os.path.join(out, "sx.log"), "w").write(o)
    if rc not in (0, 1) or not os.path.exists(rep):
        where = ""
        for f in (rep + ".hang", rep + ".progress"):
            if os.path.exists(f): where = open(f).read(); break
        if rc == 124: res.undecided.append("S: stopped after %d s in %s" % (budget, where)); res.cov["S"] = {"status": "stopped in " + where}; return
        what = "the code under contract does not return" if rc == 7 else "the code under contract aborts the process (status %s: memory corruption, double free, abort or stack overflow)" % rc
        if not where: res.errors.append("S: the contract runner failed with status %s before any contract: %s" % (rc, o[-800:])); return
        res.violations.append({"layer": "S", "contract": where, "clause": "returns normally", "text": "%s\ncontract: %s\n%s" % (what, where, o[-2000:]),
            "rerun": "cd %s && cargo build --offline --bin %s && target/debug/%s --only '%s'" % (sx, b, b, where)})
        res.cov["S"] = {"status": "aborted in " + where}
        return
    j = json.load(open(rep))
    kf = known_findings()
    for kid, what in j["known"]:
        if (pid, kid) in kf: res.known.append((kid, kf[(pid, kid)]))
        else: res.violations.append({"layer": "S", "contract": kid, "clause": "known finding not listed", "text": what, "rerun": ""})
    for v in j["violations"]:
        v["layer"] = "S"; v["rerun"] = "cd %s && cargo build --offline --bin %s && target/debug/%s --only '%s'" % (sx, b, b, v["contract"])
        res.violations.append(v)
    res.undecided += ["S: " + u for u in j["undecided"]]
    vac = [c[0] for c in j["contracts"] if c[3] == 0]
    if not j["contracts"]: res.errors.append("S: no contract was evaluated")
    res.cov["S"] = {"method": "real compiled code at symbolic scalar values, every path, bounded in dimension",
        "contract_instances": j["obligations"], "held": j["discharged"], "paths": j["paths"], "paths_cut": j["cut"], "paths_infeasible": j["infeasible"],
        "sampled_contracts": j["sampled"], "clauses_checked": j["clauses"], "divisors_proved_nonzero_by_smt": j["defined_smt"], "vacuous": vac,
        "undecided": j["undecided"], "samples": j["samples"], "build_s": round(tb, 1), "run_s": round(tr, 1)}

def layer_v(pid, out, tier, res):
    """Verus contracts on the functions of /repo's current source; see DESIGN.md"""
    sys.path.insert(0, os.path.join(HERE, "vx"))
    import vx
    if not vx.PROPSCOPE.get(pid): return
    t0 = time.time(); cov = {"method": "Verus contracts on the functions of the current source, all dimensions and element types"}
    res.cov["V"] = cov
    work = os.path.join(out, "v"); os.makedirs(work, exist_ok=True)
    try:
        vx.build_dump()
        rep = vx.check(pid, REPO, work, rlimit=30 if tier == "quick" else 100, timeout=300)
    except Exception as x:
        cov["error"] = str(x)[:600]; res.undecided.append("V: " + str(x)[:300]); return
    fns = rep.get("fns", {}); vr = rep.get("vr") or {}
    mine = [k for k, f in fns.items() if f.contract is not None and pid in f.contract.props]
    ver = [k for k in mine if fns[k].status == "verify"]
    failed = {f["key"] for f in rep["failures"]}
    cov.update({"functions_under_contract": len(mine), "functions_verified": 0 if rep["error"] else len([k for k in ver if k not in failed]), "clauses": sum(len(fns[k].contract.req) + len(fns[k].contract.ens) for k in ver),
        "obligations": vr.get("verified", 0) + vr.get("errors", 0), "discharged": vr.get("verified", 0), "back_end": "Verus 0.2026.09.13 with its bundled Z3", "solver_s": round(rep["verus_s"], 1),
        "functions": sorted(k for k in ver if k not in failed)[:400],
        "laws_over_the_contracts": [] if rep["error"] else rep.get("laws", []),
        "trusted_here": sorted("%s: %s" % (k, "; ".join(fns[k].notes)) for k in mine if fns[k].status in ("trusted", "out-of-reach", "dropped")),
        "not_decided": [], "error": rep["error"]})
    if rep["error"]: res.undecided.append("V: " + rep["error"][:400])
    for u in rep["undecided"]:
        k = u.split(": ")[0]
        if k in mine or True: res.undecided.append("V: " + u); cov["not_decided"].append(u[:200])
    for k in mine:
        if fns[k].status == "verify" and getattr(fns[k], "lost", False): cov["not_decided"].append("%s: %s" % (k, "; ".join(fns[k].notes)))
    gone = [k for k in rep.get("unused", [])]
    if gone: cov["contracts_without_function"] = gone[:40]
    if smoke_wanted(tier) and not rep["error"] and not rep["failures"]:
        try:
            sm = vx.check(pid, REPO, work, rlimit=30, timeout=300, smoke=True)
            bad = {f["key"] for f in sm["failures"]}
            cov["smoke"] = {"functions_with_false_assertion": len([k for k, f in sm["fns"].items() if f.status == "verify"]), "accepted_all_the_same": [k for k, f in sm["fns"].items() if f.status == "verify" and k not in bad]}
        except Exception as x: cov["smoke"] = {"error": str(x)[:200]}
    names = {}
    for k, f in fns.items():
        nm = k.split("#")[0].split("::")[-1]
        names.setdefault(nm, []).append(f)
    def helper_without_contract(f):
        for nm in list(f.mcalls) + [c.split("::")[-1] for c in f.calls]:
            fs = names.get(nm)
            if fs and all(g.contract is None or g.status == "out-of-reach" for g in fs): return nm
        return None
    for f in rep["failures"]:
        info = fns.get(f["key"])
        why = None
        if info is None: why = "the failing obligation is not in a function"
        elif info.status != "verify": why = "the function is " + info.status
        elif getattr(info, "lost", False): why = "annotations lost: " + "; ".join(info.notes)
        elif "rlimit" in f["message"] or "Resource limit" in f["message"]: why = "solver gave up"
        elif helper_without_contract(info): why = "calls %s, which has no contract" % helper_without_contract(info)
        if why:
            res.undecided.append("V: %s: %s (%s)" % (f["key"], f["message"][:160], why)); cov["not_decided"].append("%s: %s" % (f["key"], why)); continue
        lab = next((t[1] for t in f["tags"] if t[0] == f["key"] and ("condition" in t[1] or "invariant" in t[1])), f["tags"][0][1] if f["tags"] else "")
        res.violations.append({"layer": "V", "contract": f["key"], "clause": f["message"], "noinput": True,
            "text": "Verus does not accept an obligation of %s (src/%s line %d): %s\n%s\n\n%s" % (f["key"], info.path, info.line, f["message"], lab, f["rendered"]),
            "rerun": "cd %s && python3 vx/run.py --prop %s" % (HERE, pid)})
    cov["run_s"] = round(time.time() - t0, 1)

def smoke_wanted(tier): return tier == "thorough"

def main():
    a = sys.argv[1:]
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a: tier = a[a.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    out = os.path.join(HERE, "out", pid); os.makedirs(out, exist_ok=True)
    for f in os.listdir(out):
        if f.startswith("replay"): os.remove(os.path.join(out, f))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    res = Result()
    import layers
    layers.run_all(sys.modules[__name__], pid, out, tier, res)
    ev = layers.evidence(pid, tier, seed, res, round(time.time() - t0, 2))
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    for kid, what in res.known: print("KNOWN-FINDING: property=%s %s" % (pid, what))
    for u in res.undecided: print("UNDECIDED %s" % u)
    for i, v in enumerate(res.violations[:20]):
        p = os.path.join(out, "replay-%d.txt" % i)
        open(p, "w").write("property: %s\nlayer: %s\ncontract: %s\nobligation: %s\n\n%s\n\nrerun: %s\n" % (pid, v["layer"], v["contract"], v["clause"], v["text"], v["rerun"]))
        print("-- %s [%s] %s" % (v["contract"], v["layer"], v["clause"]))
    if res.violations:
        first = res.violations[0]
        print("VIOLATION property=%s replay=%s%s" % (pid, os.path.join(out, "replay-0.txt"), " no-failing-input-found" if first.get("noinput") else ""))
        sys.exit(1)
    if res.errors:
        for e in res.errors: print("ERROR " + e)
        sys.exit(2)
    print("OK property=%s %s" % (pid, json.dumps({k: ev["coverage"].get(k) for k in ("obligations", "discharged", "evaluations", "distinct_nontrivial")})))
    sys.exit(0)

if __name__ == "__main__": main()
