#!/usr/bin/env python3
"""Writes MANIFEST.json from checks/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "checks"))
import registry
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]; c = registry.CHECKS.get(i)
    if not c: na.append(dict(property=i, reason=registry.NOT_APPLICABLE.get(i, "no check yet: the harness for this part of the code is still being built"))); continue
    note = "Bounded: " + c["bounds"] + "." + ((" Assumes: " + "; ".join(c["assumptions"]) + ".") if c.get("assumptions") else "")
    checks.append(dict(property=i, quick_cmd="python3 checks/run.py %s --tier quick" % i, thorough_cmd="python3 checks/run.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
        technique=c.get("technique", "bounded symbolic execution of the real code (LLVM IR) with SMT (Z3), counterexamples replayed natively"), level=c["level"], level_note=note))
m = dict(version=1, setup_cmd="python3 checks/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); print(len(checks), "checks,", len(na), "not applicable")
