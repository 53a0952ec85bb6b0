#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md from seeded/*/meta.json (development only)."""
import json, os, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALSO = {'C09-img-name': 'C09, C07'}
MISSED = {}
rows = []
for d in sorted(glob.glob(H + '/seeded/*/meta.json')):
    i = d.split('/')[-2]; m = json.load(open(d))
    rows.append(f"| {i} | {m['what_it_breaks'].replace('|', '/')} | {m['needs'].replace('|', '/')} | {MISSED.get(i) or ALSO.get(i, m['property'])} |")
t = open(H + '/DESIGN.md').read(); k = t.index('\n## Planted bugs')
text = '''
## Planted bugs

`seeded/<id>/` holds each with its demonstration; `tools/seed.py` makes and runs them, `tools/mkplanted.py` writes this table.
Most were written from the text of a property and the code before looking at what the check covers. The ones
missed at first led to the parts of the specification named in the second list.

| planted | what it breaks | needs | caught by |
|---|---|---|---|
''' + '\n'.join(rows) + '\n'
rest = open(H + '/tools/missed_first.md').read()
open(H + '/DESIGN.md', 'w').write(t[:k] + text + '\n' + rest)
