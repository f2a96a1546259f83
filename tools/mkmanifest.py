#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and props.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import props
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in props.PROPS:
        checks.append({
            'property': i,
            'quick_cmd': 'VERIF_TIER=quick python3 check.py %s' % i,
            'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s --tier thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': 'deterministic simulation with fault injection (seeded search over schedules and fault sequences)',
            'level': 'exploration',
            'level_note': props.PROPS[i].get('note', 'seeded sample of simulated executions of the real code; not exhaustive'),
        })
    else:
        na.append({'property': i, 'reason': props.NA.get(i, 'no check built yet')})
m = {'version': 1, 'setup_cmd': 'python3 build.py', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(H, 'MANIFEST.json'), 'a').write('\n')
