#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import checks
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
SIM = "online trace monitor over simulated histories of the real broker logic, under ASan/UBSan"
out = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i not in checks.CHECKS:
        out["not_applicable"].append({"property": i, "reason": "check not built yet"})
        continue
    tech, note = checks.ABOUT.get(i, (SIM, checks.SIM_NOTE))
    out["checks"].append({
        "property": i, "quick_cmd": "VERIF_TIER=quick python3 check.py " + i,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
        "technique": tech, "level": "exploration", "level_note": note})
out["notes"] = "No hooks are needed in /repo: everything is observed at existing boundaries (response callback, sockets, HTTP, registry, interposed library calls)."
json.dump(out, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
print(len(out["checks"]), "checks,", len(out["not_applicable"]), "not claimed")
