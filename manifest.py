#!/usr/bin/env python3
"""Write MANIFEST.json from properties.jsonl and props.py."""
import json, os
from props import PROPS
here = os.path.dirname(os.path.abspath(__file__))
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in PROPS:
        checks.append({
            'property': i,
            'quick_cmd': 'python3 check.py %s' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'level': 'exploration',
            'level_note': 'random search over generated inputs; says nothing about inputs outside of the generators described in DESIGN.md',
            'technique': PROPS[i].get('technique', 'property-based testing (rapid)'),
        })
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': na}
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
