#!/usr/bin/env python3
import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vx
def main():
    import argparse
    ap = argparse.ArgumentParser()
    for o in ("--prop", "--scope", "--only"): ap.add_argument(o)
    ap.add_argument("--repo", default="/repo"); ap.add_argument("--out", default="/tmp/vxo"); ap.add_argument("--smoke", action="store_true"); ap.add_argument("--rlimit", default=30); ap.add_argument("--timeout", type=int, default=400)
    a = ap.parse_args()
    vx.build_dump()
    rep = vx.check(a.prop, a.repo, a.out, verbose=True, scope=a.scope, only=a.only, rlimit=a.rlimit, smoke=a.smoke, timeout=a.timeout)
    if a.smoke:
        bad = {f["key"] for f in rep["failures"]}
        v = [k for k, f in rep["fns"].items() if f.status == "verify" and k not in bad]; print("VACUOUS:", len(v), v[:30])
main()
