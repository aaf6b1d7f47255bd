"""Writes /verif/MANIFEST.json from skv/props.py and properties.jsonl."""
import json
import os
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from skv.props import PROPS, NOTES, LEVELS

props = [json.loads(x) for x in open(os.path.join(ROOT, 'properties.jsonl'))]
NOTE = ('Obligations of the contracts of the real functions (all inputs, symbolic dimensions where stated) discharged on every run by '
        'the skv verifier (normaliser, sign procedure, z3). Floats are treated as real numbers; numpy, scipy and matplotlib by contract.')
checks, na = [], []
for p in props:
    i = p['id']
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd=f'python3-vt -B -m skv.check {i}',
                           thorough_cmd=f'python3-vt -B -m skv.check {i} --tier thorough',
                           technique='contract-based deductive verification of the real functions (sidecar contracts, symbolic execution of '
                                     'the unmodified source, obligations discharged by algebraic normalisation and z3)',
                           level=LEVELS.get(i, 'proof'), level_note=NOTE + ' ' + NOTES.get(i, '')))
    else:
        na.append(dict(property=i, reason='the check of this property is not built yet'))
m = dict(version=1, setup_cmd='bash tools/setup.sh', checks=checks, not_applicable=na,
         notes='Each check re-reads /repo/src on every run; nothing is cached between runs.')
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
