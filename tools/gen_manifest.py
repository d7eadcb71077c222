#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the table below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VN = 'abstract interpretation to value numbers (term normal forms) of every published expression, compared with its reference definition; symbolic sizes first, then fixed sizes'
NOTE = ('Decides the expressions the source registers, as exact polynomial/trigonometric identities over the reals. '
        'Proved for every robot size where the evidence says so, otherwise for the listed sizes (1..7 joints, all four joint kinds). '
        'Trusts the clang front end and the models of casadi, Eigen, yaml-cpp and std operations in engine/lib.py.')
NUM = {'C%02d' % i: (VN, 'other', NOTE) for i in range(1, 10)}
STRUCT = {}
try:
    exec(open(V + '/tools/manifest_struct.py').read())
except FileNotFoundError: pass
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
T = dict(NUM); T.update(STRUCT)
NA = globals().get('NA', {})
m = {'version': 1,
     'setup_cmd': "python3 -c \"import sys; sys.dont_write_bytecode=True; sys.path.insert(0,'engine'); import front; front.build_plugin()\"",
     'checks': [], 'not_applicable': []}
for i in ids:
    if i in T:
        t, l, n = T[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'technique': t, 'level': l, 'level_note': n})
    else: m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no check built yet')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
