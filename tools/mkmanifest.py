#!/usr/bin/env python3
"""MANIFEST.json from properties.jsonl and the checks that exist."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "levels.json")))
checks, na = [], []
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l)["id"]
    if os.path.exists(os.path.join(V, "checks", p + ".py")):
        n = NOTES.get(p, {})
        checks.append({"property": p, "quick_cmd": "./check " + p, "thorough_cmd": "VERIF_TIER=thorough ./check " + p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": n.get("technique", "TLA+ specification checked with TLC; traces of the real code validated against it"),
                       "level": "model_checking",
                       "level_note": n.get("note", "Exhaustive on the specification within stated constants; the code is bound to it by replayed behaviours and recorded traces, so code behaviour outside the explored inputs is not covered.")})
    else:
        na.append({"property": p, "reason": NOTES.get(p, {}).get("na", "no check built yet")})
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
     "notes": "TLA+ specifications in specs/, checked with TLC; Rust drivers in harness/drivers run the real code of /repo; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not")
