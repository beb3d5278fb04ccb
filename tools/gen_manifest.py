#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = json.load(open(V + "/tools/techniques.json"))
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists("%s/vm/checks/%s.py" % (V, i.lower())) and i in TECH:
        checks.append({
            "property": i,
            "quick_cmd": "python3 run.py check " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
            "technique": TECH[i][0],
            "level": "exploration",
            "level_note": TECH[i][1],
        })
    else:
        na.append({"property": i, "reason": "not built yet"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks are needed in /repo: everything is observed at the macro's boundary (diagnostics, expansions, "
              "and the views, documents and events of generated programs)."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
