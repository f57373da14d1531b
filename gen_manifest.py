#!/usr/bin/env python3
import json, os
from registry import P, NA
here = os.path.dirname(os.path.abspath(__file__))
ids = [json.loads(l)['id'] for l in open(os.path.join(here, 'properties.jsonl')) if l.strip()]
m = {'version': 1, 'setup_cmd': 'true', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in P:
        lv, tech, note = P[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
                            'technique': tech, 'level': lv, 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not claimed yet: check under construction')})
m['notes'] = 'Obligations are declared in harness/*.c (/*@ OBL ... */) and decided by check.py with goto-cc/cbmc on the current /repo sources; see DESIGN.md.'
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
