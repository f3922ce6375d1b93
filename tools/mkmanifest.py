#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 driver.py setup",
         hooks=dict(guard="TOYWASM_VERIF", enable="no hooks are needed: the checks compile /repo's sources unchanged", source_commits=[]),
         checks=[], not_applicable=[],
         notes="One engine (engine/symex: symbolic execution of LLVM bitcode of /repo's sources, Z3) decides every property; see DESIGN.md.")
for p in props:
    i = p["id"]
    if i in checks.CHECKS:
        c = checks.CHECKS[i]
        note = ("Every path of the harnesses within the bounds is explored and every assertion decided by Z3. Bounds: "
                + c["bounds"] + "." + (" Outside: " + c["outside"] + "." if c["outside"] else "")
                + " Trusts clang-18, the executor (cross-checked by native replay of path models on every run), Z3 and the libc model in harness/rt*.c.")
        m["checks"].append(dict(
            property=i, quick_cmd="python3 driver.py check " + i,
            thorough_cmd="python3 driver.py check " + i,
            evidence_file="evidence/%s.json" % i,
            technique=c.get("technique") or "symbolic execution of the real code (LLVM IR) with SMT (Z3), counterexamples replayed natively",
            level="model_checking", level_note=note))
    else:
        m["not_applicable"].append(dict(property=i, reason=checks.NOT_APPLICABLE.get(i, "no check built yet")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
