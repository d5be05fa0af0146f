#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and tools/spec.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
import spec, props
with open(V + "/properties.jsonl", "w") as f:
    for p in props.PROPERTIES:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
m = {"version": 1, "setup_cmd": "python3 tools/check.py --setup",
     "checks": [], "not_applicable": [], "notes": "One driver (tools/check.py) and one engine (engine/symex.cpp) decide every property; tools/spec.py lists the harnesses and the bounds of each. No hooks in /repo are needed."}
for p in props.PROPERTIES:
    if p["id"] in spec.PROPS:
        m["checks"].append({"property": p["id"], "quick_cmd": "python3 tools/check.py " + p["id"], "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                            "evidence_file": "evidence/%s.json" % p["id"], "technique": "symbolic execution of the LLVM bitcode of /repo's sources, obligations decided by z3",
                            "level": "model_checking", "level_note": p["note"]})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(m["checks"]), "checks,", len(m["not_applicable"]), "not applicable")
