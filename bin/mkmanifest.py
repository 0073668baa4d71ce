#!/usr/bin/env python3
"""Writes MANIFEST.json (run by hand when the plan changes)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "default": "TLA+ (TLC): executions of the real crate, recorded through its public API, validated as behaviours of the TLA+ specification (trace validation); design model checked exhaustively with small constants",
}
NOTE = {}
notes = os.path.join(V, "bin", "notes.json")
if os.path.exists(notes):
    NOTE = json.load(open(notes))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PLAN:
        n = NOTE.get(i, {})
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
            "technique": n.get("technique", TECH["default"]),
            "level": n.get("level", "model_checking"),
            "level_note": n.get("note", "Trace validation of generated executions against the TLA+ specification; not exhaustive over inputs."),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: everything is observed through the public API. The fix: commits are listed in KNOWN_FINDINGS.txt."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
