#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, one section per property (its text here, its bounds from the registry), tools/design_tail.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, "checks"))
import registry
HOW = {}
def how(i, decided, oracle, beyond): HOW[i] = (decided, oracle, beyond)
exec(open(os.path.join(V, "tools", "design_props.py")).read())
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
T = os.path.join(V, "tools"); out = open(os.path.join(T, "design_head.md")).read().rstrip() + "\n\n# Per property\n\n"
out += "Every check compiles all of `/repo/src` (through `k8psh.cxx`); *Entry* is the harness and the number of runs (quick + thorough).\nBounds and assumptions are those the check reports in MANIFEST.json and in its evidence.\n"
for p in props:
    i = p["id"]; c = registry.CHECKS.get(i)
    out += "\n## %s — %s\n\n" % (i, p["title"])
    if not c: out += "Not applicable: %s\n" % registry.NOT_APPLICABLE.get(i, "?"); continue
    d, o, b = HOW[i]; n = len(c["runs"]) + sum(len(x["runs"]) for x in c.get("parts", [])); t = len(c.get("thorough", [])) + sum(len(x.get("thorough", [])) for x in c.get("parts", []))
    h = ", ".join(["harness/" + c["harness"]] + ["harness/" + x["harness"] for x in c.get("parts", [])])
    out += "* Decided: %s\n* Oracle: %s\n* Beyond tests: %s\n* Entry: %s, %d + %d runs\n* Bounds: %s\n" % (d, o, b, h, n, t, c["bounds"])
    a = [x for x in c.get("assumptions", []) if not x.startswith("system calls are the model")]
    if a: out += "* Assumes: " + "; ".join(dict.fromkeys(a)) + "\n"
tail = open(os.path.join(T, "design_tail.md")).read()
fixes = [l.split(None, 3)[1:] for l in open(os.path.join(V, "known_findings.txt")) if l.startswith("fixed:")]
tail = tail.replace("@FIXES@", "\n".join("* %s (%s): %s" % (a.split("=")[1], b, c.strip()) for a, b, c in fixes))
seeds = [(s, json.load(open(os.path.join(V, "seeded", s, "meta.json")))) for s in sorted(os.listdir(os.path.join(V, "seeded")))]
tail = tail.replace("@SEEDS@", "\n".join("| %s | %s | %s |" % (s, m["property"], m["needs"]) for s, m in seeds))
out += "\n" + tail
open(os.path.join(V, "DESIGN.md"), "w").write(out); print(len(out), "bytes")
