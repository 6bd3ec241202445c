#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.py and properties.jsonl."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from checks import CHECKS
V = os.path.dirname(here)
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NOTE = ("Generated-input search: a violation outside the generated cases is not excluded. Trusts the reference written for the check "
        "(math/big and the models in harness/), the Go toolchain and rapid; never compares the code with itself alone unless the relation is stated.")
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: harnesses and the accessors in exports/ enter through 'go test -overlay'. See DESIGN.md."}
for p in props:
    c = CHECKS.get(p["id"])
    if not c:
        m["not_applicable"].append({"property": p["id"], "reason": "the check is not built yet"})
        continue
    m["checks"].append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
        "technique": "property-based testing (rapid): " + c.get("technique", "generated inputs against a big-integer reference model"),
        "level": "exploration", "level_note": c.get("note", NOTE)})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
