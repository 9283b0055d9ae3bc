#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/properties.py (run by hand after editing; the outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
import properties as T

with open(V + '/properties.jsonl', 'w') as f:
    for p in T.PROPS:
        q = dict(id=p['id'], title=p['title'], statement=p['statement'],
                 quantifier=dict(over=p['over'], text=p['for_all']), why_tests_cant=p['why'],
                 anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mechanism']], hook_needed=None))
        if p.get('observe'):
            q['anchors']['observe_at'] = p['observe']
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(q) + '\n')

checks, na = [], []
for p in T.PROPS:
    if p.get('na'):
        na.append(dict(property=p['id'], reason=p['na']))
        continue
    if not os.path.exists(V + '/props/%s.py' % p['id']):
        na.append(dict(property=p['id'], reason='no check has been built for it yet'))
        continue
    checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'], thorough_cmd='./check %s thorough' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique='contract-based deductive verification (VCs from the functions\' LLVM IR, Z3/cvc5)',
                       level='proof', level_note=p['level_note']))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='Every check extracts the IR of the functions under contract from /repo\'s current sources, generates one obligation per '
                     'postcondition, invariant, call precondition and memory access, and discharges them with Z3/cvc5; a bounded native harness '
                     '(sanitizers, real code) runs beside it as the conformance test of the assumed contracts and as the replay of failures.'),
          open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
