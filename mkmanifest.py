#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and the table of claimed checks below."""
import json
CLAIMED = json.load(open('claims.json'))
props = [json.loads(l) for l in open('properties.jsonl') if l.strip()]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append({"property": i, "quick_cmd": f"./check.sh {i}", "thorough_cmd": f"./check.sh {i} --thorough",
            "technique": CLAIMED[i]["technique"], "level": "exploration", "level_note": CLAIMED[i]["note"]})
    else:
        na.append({"property": i, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh",
    "checks": checks, "not_applicable": na,
    "notes": "Every check is a property-based test over a seeded choice-tape generator (harness/src); see DESIGN.md. Known findings: known-findings.jsonl."}, open('MANIFEST.json', 'w'), indent=1)
