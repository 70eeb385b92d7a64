#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import checks
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 setup.py",
    "checks": [],
    "not_applicable": [],
    "notes": "TLA+ specifications in spec/, checked with TLC; harness/ steps their transitions through the real code and records histories that TLC accepts or rejects. run.py PROPERTY runs one check. No hooks in /repo.",
}
for p in props:
    if p in checks.CHECKS:
        m["checks"].append({
            "property": p,
            "quick_cmd": "python3 run.py %s" % p,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p,
            "technique": checks.TECHNIQUE.get(p, checks.DEFAULT_TECHNIQUE),
            "level": "model_checking",
            "level_note": checks.NOTES.get(p[0] if p not in checks.NOTES else p, ""),
        })
    else:
        m["not_applicable"].append({"property": p, "reason": "not built yet"})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
