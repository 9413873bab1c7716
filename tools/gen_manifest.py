#!/usr/bin/env python3
"""Writes MANIFEST.json from checks_config.py and properties.jsonl."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from checks_config import CHECKS
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CHECKS.get(p["id"])
    if c is None:
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": c.get("technique", "property-based testing: generated inputs against an "
                           "independent reference model, with shrinking, under ASan/UBSan"),
        "level": "exploration",
        "level_note": c.get("note", "random search over generated cases; trusts the reference "
                            "model in harness/refmodel.cpp and the generator bounds in DESIGN.md"),
    })
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Each check builds what it needs from /repo's working tree into /verif/build."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
