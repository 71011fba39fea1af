#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/families.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from families import FAMILIES, PROPERTIES
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in PROPERTIES:
        f = FAMILIES[PROPERTIES[i]["family"]]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 bin/check.py " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 bin/check.py " + i,
            "technique": "TLA+ specification (%s) model-checked with TLC; behaviours of the real code recorded and validated against it by TLC (%s), with TLC-generated and seeded random cases"
                         % (", ".join(dict.fromkeys(m["module"] for m in f["models"])), f["trace"]),
            "level": "model_checking",
            "level_note": PROPERTIES[i].get("note", f.get("note", "")),
        })
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "python3 bin/setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks: drivers are compiled into /repo's module through a go build overlay."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
