#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the campaigns the harness lists."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    n = NOTES.get(p["id"])
    if n is None:
        na.append({"property": p["id"], "reason": "no check built yet"})
        continue
    checks.append({
        "property": p["id"],
        "quick_cmd": f"python3 check.py {p['id']} quick",
        "thorough_cmd": f"python3 check.py {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": "property-based testing: " + n[0],
        "level": "exploration",
        "level_note": n[1],
    })
json.dump({
    "version": 1,
    "setup_cmd": "python3 check.py --setup",
    "checks": checks,
    "not_applicable": na,
    "notes": "No hooks are needed: every check drives the public API of the crate. Each check builds the harness "
             "against /repo for both runtimes (tokio, agnostic).",
}, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
