#!/usr/bin/env python3
"""design.py -- rewrites the tables at the end of DESIGN.md from known_findings.json and seeded/ (caught-by column from tools/caught.json)"""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(H + '/DESIGN.md').read()
s = s[:s.index('<!--TABLES-->')] + '<!--TABLES-->\n\n'
fs = json.load(open(H + '/known_findings.json'))['findings']
s += '## Genuine defects repaired in /repo\n\nEach is one `fix:` commit; the probes of `known_findings.json` and the generators find them again.\n\n'
seen = {}
for f in fs:
    if f['status'] == 'fixed':
        seen.setdefault((f['commit'], f['what']), []).append(f['property'])
for (c, w), ps in seen.items():
    s += '* %s (%s): %s\n' % (c, ', '.join(ps), w)
s += '\n## Known findings (recorded, not repaired)\n\n'
for f in fs:
    if f['status'] == 'known':
        s += '* %s `%s`: %s\n' % (f['property'], f['id'], f['what'])
c = {}
if os.path.exists(H + '/tools/caught.json'):
    c = json.load(open(H + '/tools/caught.json'))
s += '\n## Planted bugs and what catches them\n\n| bug | property | needs | caught by |\n|---|---|---|---|\n'
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    n = os.path.basename(os.path.dirname(d)); m = json.load(open(d))
    s += '| %s | %s | %s | %s |\n' % (n, m['property'], m['needs'].replace('|', '/'), c.get(n, m['property']))
open(H + '/DESIGN.md', 'w').write(s)
