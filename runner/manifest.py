#!/usr/bin/env python3
"""Regenerates MANIFEST.json from props.py."""
import json, os, props
NA = {}
NOTES = {}
allp = ["C%02d" % i for i in range(1, 21)]
m = {"version": 1,
     "setup_cmd": "python3 runner/check.py setup",
     "checks": [], "not_applicable": [],
     "notes": "Each check compiles /repo's current source with the harness to LLVM IR, executes it symbolically (symx + z3) and replays counterexamples on the native build."}
for p in allp:
    if p in props.PROPS:
        P = props.PROPS[p]
        m["checks"].append({"property": p, "quick_cmd": "python3 runner/check.py %s quick" % p,
            "thorough_cmd": "python3 runner/check.py %s thorough" % p,
            "technique": "symbolic execution of foca's compiled LLVM IR, every branch and assertion decided by z3 over all inputs within bounds; counterexamples replayed natively",
            "level": "model_checking",
            "level_note": P.get("note") or ("Holds for all inputs and event choices within the stated bounds (%s). Outside: %s. Trusts rustc's translation to IR, the executor's IR semantics (sampled paths are replayed natively on every run) and z3." % ("; ".join(r["entry"] for r in P["runs"]), P["outside"]))})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
f = os.path.join(props.VERIF, "MANIFEST.json")
json.dump(m, open(f, "w"), indent=1)
open(f, "a").write("\n")
