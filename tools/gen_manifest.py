#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from checks_config import CHECKS
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 bin/check.py --build-all", "checks": [], "not_applicable": []}
for p in props:
    c = CHECKS.get(p["id"])
    if c:
        m["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 bin/check.py %s --tier quick" % p["id"],
            "thorough_cmd": "python3 bin/check.py %s --tier thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": c.get("technique", "property-based testing: generated cases against an explicit oracle, with shrinking"),
            "level": "exploration",
            "level_note": c.get("note", "Sampled, never exhaustive: no violation among the generated cases. Trusts the harness's oracle, the compiler and the sanitizers.")})
    else:
        m["not_applicable"].append({"property": p["id"], "reason": "check not built yet"})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
