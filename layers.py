SX = {"C%02d" % i: "c%02d" % i for i in range(1, 27)}

def run_all(ck, pid, out, tier, res):
    ck.layer_s(pid, out, tier, res)
    ck.layer_v(pid, out, tier, res)

def evidence(pid, tier, seed, res, wall):
    s = res.cov.get("S", {}); v = res.cov.get("V")
    cov = {"layers": res.cov, "undecided": res.undecided, "errors": res.errors, "known": [k for k, _ in res.known],
        "evaluations": s.get("clauses_checked", 0), "distinct_nontrivial": s.get("contract_instances", 0),
        "rule": "bounded layer: a contract instance is one function (or operation sequence) of the compiled crate at one dimension and at symbolic element values; non-trivial when at least one clause was evaluated on at least one path",
        "samples": s.get("samples", []) or ["none"]}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall, "violations": len(res.violations)}
    if v is not None:
        ev["level"] = "proof"
        cov.update({"obligations": v.get("obligations", 0), "discharged": v.get("discharged", 0),
            "checker_cmd": "python3 /verif/vx/run.py --prop %s (assembles the functions of /repo/src with their contracts and runs: verus --rlimit 30 gen.rs)" % pid,
            "trusted_base": TRUSTED + v.get("trusted_here", [])})
        ev["assumptions"] = ASSUME
    return ev

TRUSTED = ["Verus 0.2026.09.13 and its Z3; vstd's specifications of core iterators, Option, slices, arrays, MaybeUninit and mem functions",
    "vx/prelude_std.rs, vx/prelude_ops.rs, vx/prelude_num.rs: contracts assumed for core and num-traits functions without a vstd specification, and for the layout casts of repr(transparent) types",
    "the extraction (vx/vx.py, vx/dump): it copies each function's text and rewrites only what DESIGN.md lists"]
ASSUME = ["machine arithmetic is not idealised: integer overflow is a precondition at integer instances; floats and generic elements are uninterpreted operators",
    "panics of user closures and drop order are outside the deductive layer (the bounded layer covers them)",
    "contracts of functions that belong to another property are assumed here and discharged by that property's check"]
