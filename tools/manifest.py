#!/usr/bin/env python3
"""writes MANIFEST.json from props.py"""
import json, sys
sys.dont_write_bytecode = True
sys.path.insert(0, '/verif')
from props import PROPS, NOT_APPLICABLE
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NOTE = ('Every obligation of the functions under contract is discharged by Verus/Z3 for all inputs, from the text of /repo extracted on each run. '
        'Assumes Verus, Z3, rustc, the lowerings of vx (DESIGN.md) and the assumed contracts listed in the evidence; ')
checks = []
for i in ids:
    if i not in PROPS: continue
    p = PROPS[i]
    c = {'property': i, 'quick_cmd': 'python3 check.py ' + i, 'thorough_cmd': 'python3 check.py ' + i, 'evidence_file': 'evidence/%s.json' % i,
         'technique': p.get('technique', 'deductive verification: contracts on the extracted real functions, Verus/Z3'),
         'level': p.get('level', 'proof'), 'level_note': (p['note'] if 'note' in p and p.get('level') == 'other' else NOTE + p.get('note', 'the compiled crate is run against independent oracles to guard these assumptions.'))}
    if p.get('theorems'): c['theorems'] = p['theorems']
    checks.append(c)
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': NOT_APPLICABLE.get(i, 'no check yet')} for i in ids if i not in PROPS],
     'notes': 'No hooks in /repo: the contracts live in /verif/contracts and are joined with the current source by /verif/vx on every run. known findings: known-findings.txt'}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
