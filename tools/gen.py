#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/propdefs.py (developer tool; checks do not use it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, V + '/tools']
from propdefs import DEFS, HOOKS, NOTES
from props import PROPS
with open(V + '/properties.jsonl', 'w') as f:
    for d in DEFS:
        assert len(d['title']) <= 80, d['id']
        f.write(json.dumps({k: d[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
checks, na = [], []
for d in DEFS:
    if d['id'] in PROPS:
        p = PROPS[d['id']]
        checks.append({
            'property': d['id'],
            'quick_cmd': 'python3 check.py %s quick' % d['id'],
            'thorough_cmd': 'python3 check.py %s thorough' % d['id'],
            'evidence_file': 'evidence/%s.json' % d['id'],
            'technique': d['technique'], 'level': p['level'], 'level_note': d['level_note']})
    else:
        na.append({'property': d['id'], 'reason': d['na']})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'hooks': HOOKS, 'checks': checks, 'not_applicable': na, 'notes': NOTES},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
