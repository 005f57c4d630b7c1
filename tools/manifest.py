#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
T = json.load(open(os.path.join(here, 'tools', 'checks.json')))
checks, na = [], []
for p in props:
    c = T.get(p['id'])
    if c is None:
        na.append({"property": p['id'], "reason": "no check built yet"})
        continue
    if 'reason' in c:
        na.append({"property": p['id'], "reason": c['reason']})
        continue
    checks.append({"property": p['id'], "quick_cmd": "./run.sh %s" % p['id'],
                   "thorough_cmd": "./run.sh %s thorough" % p['id'],
                   "technique": c['technique'], "level": c.get('level', 'exploration'), "level_note": c['note']})
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": checks, "not_applicable": na,
     "notes": "Harness: Go module h/ (see DESIGN.md). Findings: known_findings.json."}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
