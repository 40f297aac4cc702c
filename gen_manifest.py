#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and props.py"""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V]
import props
checks, na = [], []
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl') if l.strip()]
for i in ids:
    if i in props.NOT_APPLICABLE:
        na.append(dict(property=i, reason=props.NOT_APPLICABLE[i]))
        continue
    P = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd='VERIF_TIER=quick /opt/veriftools/pyvenv/bin/python check.py %s' % i,
                       thorough_cmd='VERIF_TIER=thorough /opt/veriftools/pyvenv/bin/python check.py %s' % i,
                       evidence_file='evidence/%s.json' % i,
                       technique=P.get('technique', 'deductive verification: contracts and loop invariants on the real functions (LLVM IR of /repo), obligations discharged by z3/cvc5'),
                       level=P.get('level', 'proof'), level_note=P['note']))
m = dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python engine/selfcheck.py', checks=checks, not_applicable=na)
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
