#!/usr/bin/env python3
"""Regenerates MANIFEST.json from checks.json and properties.jsonl."""
import json, os
d = os.path.dirname(os.path.abspath(__file__))
conf = json.load(open(os.path.join(d, "checks.json")))
ids = [json.loads(l)["id"] for l in open(os.path.join(d, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in conf:
        c = conf[i]
        checks.append({
            "property": i,
            "quick_cmd": "VERIF_TIER=quick python3 run.py check " + i,
            "thorough_cmd": "VERIF_TIER=thorough python3 run.py check " + i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": c.get("technique", "property-based testing (rapid)"),
            "level": c.get("level", "exploration"),
            "level_note": c.get("note", "Random exploration: a pass means no counterexample among the generated cases. ") +
                          (" Assumes: " + "; ".join(c["assumptions"]) if c.get("assumptions") else ""),
        })
    else:
        na.append({"property": i, "reason": "check not built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": checks, "not_applicable": na,
     "notes": "All checks build the harness module h/ against /repo's working tree (replace directive). No hooks in /repo are needed."}
json.dump(m, open(os.path.join(d, "MANIFEST.json"), "w"), indent=1)
