#!/usr/bin/env python3
"""Regenerate MANIFEST.json from the registered specs and tools/na.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
import specs
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
na = json.load(open(os.path.join(V, 'tools/na.json')))
checks, nas = [], []
for p in props:
    if p in specs.SPECS and p not in na:
        s = specs.SPECS[p]
        checks.append({'property': p, 'quick_cmd': 'python3 sa/run.py %s quick' % p, 'thorough_cmd': 'python3 sa/run.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p, 'technique': s.get('technique') or ('bit-level dataflow over the compiler IR (decision diagrams)' if p[0] == 'B' else 'abstract interpretation of the compiler IR (typestate + linear inequalities)'),
                       'level': s['level'], 'level_note': s.get('note') or s['explanation']})
    else:
        nas.append({'property': p, 'reason': na.get(p, 'no check built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': nas}, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(nas), 'not applicable')
