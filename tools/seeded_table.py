#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json and results (JSON lines of seeded.py)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
res = {}
for f in sys.argv[1:]:
    for l in open(f):
        try: d = json.loads(l)
        except ValueError: continue
        res.setdefault(d['id'], {}).update(d)
print('| planted bug | property | needs | caught by |\n|---|---|---|---|')
for b in sorted(os.listdir(V + '/seeded')):
    m = json.load(open(f'{V}/seeded/{b}/meta.json'))
    r = res.get(b, {})
    got = [k for k, v in r.items() if k[0] == 'C' and '-' not in k and str(v).startswith('rc=1')]
    print(f"| {b} | {m['property']} | {m['needs']} | {', '.join(got) or '—'} |")
