#!/usr/bin/env python3
"""Assembles DESIGN.md from tools/design.md, the properties and the table of checks (so that they cannot disagree)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
from checks import CHECKS
from design_props import D
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
out = []
for p in props:
    c = CHECKS[p["id"]]
    d = D[p["id"]]
    out.append("### %s %s\n" % (p["id"], p["title"]))
    out.append("- Where: harness/%s%s, `%s`." % (c["pkg"], " (race detector)" if c.get("race") else "", c["test"]))
    out.append("- Oracle: " + d[0])
    out.append("- Generated: " + c["rule"])
    out.append("- Beyond the tests: " + d[1])
    out.append("")
seeded = []
sd = os.path.join(V, "seeded")
for s in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, s, "meta.json")))
    seeded.append("| %s | %s | %s | %s |" % (s, m["property"], m["what_it_breaks"], m.get("caught_by", m["property"])))
t = open(os.path.join(V, "tools", "design.md")).read()
t = t.replace("@PROPERTIES@", "\n".join(out)).replace("@SEEDED@", "\n".join(seeded))
open(os.path.join(V, "DESIGN.md"), "w").write(t)
