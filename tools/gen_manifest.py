#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import CHECKS
NA = {}
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
DEF = "exhaustive enumeration of executions of the real code (stateless model checking of operation and input sequences within bounds)"
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": []}
for i in ids:
    if i in CHECKS:
        c = CHECKS[i]
        m["checks"].append({
            "property": i, "quick_cmd": "python3 run.py check %s --tier quick" % i,
            "thorough_cmd": "python3 run.py check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", DEF), "level": "model_checking",
            "level_note": c.get("note", "Every execution within the stated bounds is run on the real code and compared with a reference model; trusts the reference model in the harness and the compiler.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
