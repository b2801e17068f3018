#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json."""
import json, glob, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {'c07-filter-column': 'after strengthening', 'c31-ascii-case': 'after strengthening'}
try: NOTES.update(json.load(open(V + '/tools/seeded_notes.json')))
except FileNotFoundError: pass
rows = ['| planted bug | caught by | what it needs |', '|---|---|---|']
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(m)); d = json.load(open(m))
    n = NOTES.get(i, '')
    rows.append(f"| {i} | {d['property']}{' (' + n + ')' if n else ''} | {d['needs'].replace('|', '/')} |")
t = open(V + '/DESIGN.md').read()
a, b = '<!-- seeded -->', '<!-- /seeded -->'
t = re.sub(re.escape(a) + '.*?' + re.escape(b), lambda _: a + '\n' + '\n'.join(rows) + '\n' + b, t, flags=re.S)
open(V + '/DESIGN.md', 'w').write(t)
