#!/usr/bin/env python3
"""Rewrites MANIFEST.json from tools/jobs.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import jobs as J
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for i in ids:
    if i not in J.PROPS:
        continue
    thr = any(j.threaded for j in J.PROPS[i]["quick"])
    race = any(j.race for j in J.PROPS[i]["quick"])
    tech = "bounded symbolic execution of the LLVM IR of the headers, z3 decides every assertion and memory access"
    if thr:
        tech = "bounded symbolic execution of the LLVM IR with a symbolic scheduler over all interleavings, z3 decides assertions"
    if race:
        tech += ", happens-before race detection on every explored interleaving"
    checks.append({"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i,
                   "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i, "technique": tech, "level": "model_checking",
                   "level_note": J.NOTES.get(i, "every value and every path within the bounds listed in the evidence; counterexamples are replayed on the natively compiled headers")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks}
na = [{"property": i, "reason": J.NOT_APPLICABLE.get(i, "check not built yet")} for i in ids if i not in J.PROPS]
if na:
    m["not_applicable"] = na
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
