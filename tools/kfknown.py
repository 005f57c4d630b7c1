#!/usr/bin/env python3
"""kfknown.py <prop> <id> <sig> <replay.json> <what> -- list a known finding with its failing case"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p))
prop, fid, sig, rp, what = sys.argv[1:]
c = json.load(open(rp)); c = c.get('case', c)
d['findings'].append({"property": prop, "id": fid, "what": what, "status": "known", "sig": sig, "case": c,
                      "line": "KNOWN-FINDING: property=%s %s: %s" % (prop, fid, what)})
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False); open(p, 'a').write('\n')
