#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the contracts"""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = {}
p = os.path.join(HERE, 'tools', 'not_applicable.json')
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for pr in props:
    i = pr['id']
    if i in NA or not os.path.exists(os.path.join(HERE, 'contracts', i + '.py')):
        na.append(dict(property=i, reason=NA.get(i, 'no contract has been built for it yet')))
        continue
    d = json.loads(subprocess.run(['/opt/veriftools/pyvenv/bin/python3', '-m', 'pyvc.listing', i], cwd=HERE, capture_output=True, text=True, check=True).stdout)
    checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                       evidence_file=f'evidence/{i}.json',
                       technique=d['technique'] or 'contracts on the real functions, discharged by a deductive verifier (pyvc: VCs to normal form, z3, cvc5)',
                       level=d['level'], level_note=d['level_note'] or d['note']))
m = dict(version=1, setup_cmd='/opt/veriftools/pyvenv/bin/python3 -m compileall -q pyvc contracts >/dev/null 2>&1; true', checks=checks, not_applicable=na,
         notes='See DESIGN.md. check.py PROP decides one property; check.py --replay FILE runs a recorded failing input again.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
