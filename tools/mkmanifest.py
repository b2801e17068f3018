#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
T = json.load(open(os.path.join(here, 'tools', 'claims.json')))
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        c = T[i]
        checks.append({
            'property': i,
            'quick_cmd': './run.sh ' + i,
            'thorough_cmd': 'env VERIF_TIER=thorough ./run.sh ' + i,
            'evidence_file': f'evidence/{i}.json',
            'technique': c['technique'],
            'level': 'exploration',
            'level_note': c['note'],
        })
    else:
        na.append({'property': i, 'reason': 'Not claimed yet: its check is still being built.'})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
