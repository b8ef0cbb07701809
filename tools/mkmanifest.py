#!/usr/bin/env python3
"""Writes MANIFEST.json from the check registry and properties.jsonl."""
import json, os, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, V)
from vlib.registry import CHECKS, NOTES, NA
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in CHECKS:
        t, n = NOTES[p]
        m["checks"].append({"property": p, "quick_cmd": f"python3 check.py {p} quick", "thorough_cmd": f"python3 check.py {p} thorough",
                            "technique": t, "level": "model_checking", "level_note": n})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check under construction")})
m["notes"] = "TLA+ specifications in specs/, checked with TLC and bound to /repo's code by trace acceptance and by replay of TLC-generated behaviours; no hooks in /repo."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
