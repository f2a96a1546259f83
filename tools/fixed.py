#!/usr/bin/env python3
"""fixed.py PROPERTY COMMIT TEXT: record a repaired defect in known_findings.json"""
import json, sys, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
f = os.path.join(H, 'known_findings.json')
d = json.load(open(f))
d['fixed'].append('fixed: property=%s %s %s' % tuple(sys.argv[1:4]))
json.dump(d, open(f, 'w'), indent=1)
open(f, 'a').write('\n')
