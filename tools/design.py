#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from evidence/ and seeded/ (developer tool; checks do not use it)."""
import glob, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from props import PROPS
caught = json.load(open(V + '/tools/caught.json'))


def put(text, name, rows):
    return re.sub(r'(<!-- %s -->\n).*?(<!-- /%s -->)' % (name, name), lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), text, flags=re.S)


rows = ['| | units | functions under contract | obligations discharged | executable groups | seconds |', '|-|-|-|-|-|-|']
for p, d in PROPS.items():
    f = '%s/evidence/%s.json' % (V, p)
    if not os.path.exists(f):
        continue
    e = json.load(open(f))
    c = e['coverage']
    rows.append('| %s | %s | %s | %s | %s | %d |' % (p, ', '.join('`%s`' % u for u in d['units']), len(c['functions_under_contract']), c['discharged'],
                                                 ', '.join('`%s`' % g for _, g in d['exec']), e['wall_s']))
t = open(V + '/DESIGN.md').read()
t = put(t, 'table', rows)
rows = ['| bug | property | needs | caught by |', '|-|-|-|-|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], caught.get(os.path.basename(os.path.dirname(f)), '')))
t = put(t, 'seeds', rows)
open(V + '/DESIGN.md', 'w').write(t)
