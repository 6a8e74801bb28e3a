'''Writes MANIFEST.json: a property is claimed when a harness has cases.'''
import importlib
import json
import os
import sys

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
from harness import index  # noqa: E402

NOT = {}
checks, na = [], []
for line in open(os.path.join(R, 'properties.jsonl')):
    d = json.loads(line)
    i = d['id']
    m = index.MODULE.get(i)
    h = importlib.import_module(m) if m else None
    if h is None or i not in h.CASES:
        na.append({'property': i, 'reason': NOT.get(
            i, 'no check built yet (planned, see DESIGN.md)')})
        continue
    checks.append({
        'property': i,
        'quick_cmd': 'python3 check.py %s --tier quick' % i,
        'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
        'technique': 'symbolic execution of the Python source with Z3 '
                     '(bounded, all paths), counterexamples replayed',
        'level': 'model_checking',
        'level_note': 'Bounded: ' + h.BOUNDS[i] + '. Trusted: the symbolic '
                      'interpreter (checked on a native run of each '
                      'explored path), Z3; digests are taken as '
                      'collision-free uninterpreted functions.'})
json.dump({
    'version': 1,
    'setup_cmd': 'python3 tools/setup.py',
    'checks': checks,
    'not_applicable': na,
    'notes': 'All checks run check.py; symex/ is the symbolic interpreter, '
             'harness/ the properties. No hooks in /repo are needed.',
}, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
