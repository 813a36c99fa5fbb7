#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = json.load(open(os.path.join(V, "tools", "claims.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    c = CLAIMED.get(p["id"])
    if not c:
        na.append({"property": p["id"], "reason": "the check is still being built"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 bin/check.py %s" % p["id"],
        "thorough_cmd": "python3 bin/check.py %s --thorough" % p["id"],
        "technique": c["technique"],
        "level": "model_checking",
        "level_note": c["note"],
    })
json.dump({
    "version": 1,
    "setup_cmd": "true",
    "checks": checks,
    "not_applicable": na,
    "notes": "TLA+/TLC specifications in spec/, harness in harness/, orchestration in bin/. No hooks in /repo.",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
