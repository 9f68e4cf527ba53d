#!/usr/bin/env python3
"""Writes MANIFEST.json from lib/registry.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry


def models(i):
    ms = [m for m, _, _ in registry.MODELS.get(i, [])]
    return "; model of the mechanism checked exhaustively in small bounds (%s)" % ", ".join(ms) if ms else ""


props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, missing = [], []
for p in props:
    i = p["id"]
    if i in registry.CHECKS:
        checks.append({
            "property": i,
            "quick_cmd": f"/verif/check {i} --tier quick",
            "thorough_cmd": f"/verif/check {i} --tier thorough",
            "evidence_file": f"/verif/evidence/{i}.json",
            "technique": "model-based verification: " + registry.TECHNIQUE[i] + models(i),
            "level": "model_checking",
            "level_note": registry.NOTE[i]})
    else:
        missing.append({"property": i, "reason": "check under construction"})
m = {"version": 1, "setup_cmd": "/verif/setup", "checks": checks, "not_applicable": missing,
     "notes": "TLA+ specification in spec/, models in mc/, case enumeration in gen/, trace specifications in trace/. "
              "No hooks in /repo. See DESIGN.md."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
