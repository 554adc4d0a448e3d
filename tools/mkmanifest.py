#!/usr/bin/env python3
"""rewrites the checks of MANIFEST.json from vx.PROPSCOPE (run by hand after a scope changes)"""
import json, sys
sys.path.insert(0, "/verif/vx"); import vx
m = json.load(open("/verif/MANIFEST.json"))
PROOF = "Every function of the property's scope in /repo/src is extracted with its text and verified by Verus against its contract, for all dimensions, element types and values; functions listed in the evidence under 'trusted' or 'dropped' are covered only by the bounded layer, which runs the compiled crate at a symbolic scalar type at the listed dimensions. See DESIGN.md."
BOUND = "Contracts on the compiled crate, one verification condition per path at a symbolic scalar type, decided by normal forms and SMT: all element values and comparison outcomes; bounded in dimensions and loop rounds where the evidence lists them. No deductive (Verus) contract yet; see DESIGN.md."
for c in m["checks"]:
    if c["property"] in vx.PROPSCOPE:
        c["technique"] = "Verus contracts on the extracted functions, plus contracts on the compiled crate decided by symbolic execution (bounded stand-in)"; c["level"] = "proof"; c["level_note"] = PROOF
    else:
        c["technique"] = "contracts on the compiled crate decided by symbolic execution (verification conditions over term algebras, SMT)"; c["level"] = "exploration"; c["level_note"] = BOUND
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
