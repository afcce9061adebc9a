#!/usr/bin/env python3
"""write MANIFEST.json from rules/table.json, properties.jsonl and the not-applicable reasons below"""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
table = json.load(open(os.path.join(H, 'rules', 'table.json')))
NA = json.load(open(os.path.join(H, 'tools', 'not_applicable.json')))
checks = []
for p in props:
    if p not in table:
        continue
    checks.append({
        'property': p,
        'quick_cmd': 'python3 check.py %s' % p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p,
        'technique': table[p].get('technique', 'static abstract interpretation of the type-checked source (path and loop summaries) with property-specific rules'),
        'level': 'other',
        'level_note': table[p]['how'],
    })
na = [{'property': p, 'reason': NA.get(p, 'no static rule for it yet')} for p in props if p not in table]
json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na},
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
