#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
for i in ids:
    if i in PROPS:
        p = PROPS[i]
        m['checks'].append(dict(property=i, quick_cmd='python3 check.py %s quick' % i, thorough_cmd='python3 check.py %s thorough' % i, evidence_file='evidence/%s.json' % i,
                                technique=p.get('technique', 'deductive verification of contracts on the source (Verus/Z3)'), level=p['level'], level_note=p['note']))
    else:
        m['not_applicable'].append(dict(property=i, reason=NA.get(i, 'contracts for the functions of this property are not written yet')))
m['notes'] = 'check.py regenerates the verifier input from the current source of /repo on every run (tools/vx.py); the proof text is in proofs/.'
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
