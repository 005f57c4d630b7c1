#!/usr/bin/env python3
"""kf.py fixed <props,comma> <id> <commit> <what> -- add a fixed entry to known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else {"findings": []}
_, st, props, fid, commit, what = sys.argv
for pr in props.split(','):
    d['findings'].append({"property": pr, "id": fid, "what": what, "status": "fixed", "commit": commit,
                          "line": "fixed: property=%s %s %s" % (pr, commit, what)})
json.dump(d, open(p, 'w'), indent=1, ensure_ascii=False); open(p, 'a').write('\n')
