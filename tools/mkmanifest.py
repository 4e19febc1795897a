#!/usr/bin/env python3
"""Writes MANIFEST.json: every property is either claimed (below) or listed as not applicable."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "interprocedural abstract interpretation of the SSA form"
claimed = json.load(open(os.path.join(here, "tools", "claims.json")))
na = json.load(open(os.path.join(here, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./run.sh", "checks": [], "not_applicable": []}
for p in props:
    if p in claimed:
        c = claimed[p]
        m["checks"].append({
            "property": p,
            "quick_cmd": "./run.sh %s quick" % p,
            "thorough_cmd": "./run.sh %s thorough" % p,
            "evidence_file": "evidence/%s.json" % p,
            "technique": c["technique"].replace("AI", AI),
            "level": "other",
            "level_note": c["note"],
        })
    else:
        m["not_applicable"].append({"property": p, "reason": na.get(p, "not yet built")})
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "claimed;", [x["property"] for x in m["not_applicable"]])
