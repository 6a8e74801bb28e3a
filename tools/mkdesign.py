'''writes DESIGN.md: doc/design_head.md, bounds and cost, doc/design_tail.md'''
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(ROOT)
sys.path.insert(0, ROOT)
from harness import index   # noqa: E402

props = [json.loads(x) for x in open('properties.jsonl')]
out = [open('doc/design_head.md').read().rstrip(), '',
       '## Bounds and cost of the quick tier', '',
       '| id | bounds | cases | paths | assertions | queries | solver s '
       '| wall s |', '|----|----|----|----|----|----|----|----|']
try:
    COST = json.load(open('doc/cost.json'))
except FileNotFoundError:
    COST = {}
for p in sorted(glob.glob('evidence/*.json')):
    d = json.load(open(p))
    if d.get('tier') == 'quick' and '--cost' in sys.argv:
        c = d['coverage']
        COST[d['property']] = [
            c['case_count'], c['states'], c['assertions_checked'],
            c['solver_queries'], c['solver_time_s'], d['wall_s']]
json.dump(COST, open('doc/cost.json', 'w'), indent=0, sort_keys=True)
for d in props:
    i = d['id']
    m = importlib.import_module('harness.' + index.MODULE[i].split('.')[-1])
    out.append('| %s | %s | %s |' % (i, m.BOUNDS[i], ' | '.join(
        str(x) for x in COST.get(i, ['-'] * 6))))
rows = []
for d in sorted(glob.glob('seeded/*/meta.json')):
    m = json.load(open(d))
    rows.append('| %s | %s | %s |' % (d.split('/')[1], m['property'],
                                      m['needs']))
tail = open('doc/design_tail.md').read()
out.append(tail.replace('@N@', str(len(rows))).replace(
    '@TABLE@', '\n'.join(rows)))
open('DESIGN.md', 'w').write('\n'.join(out))
