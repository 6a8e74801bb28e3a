'''mkbug.py FILE: FILE defines BUGS = [dict(id, prop, edits=[(path, old, new)],
needs, breaks, demo)]; writes /verif/seeded/<id>/ from /repo's HEAD.'''
import json
import os
import runpy
import shutil
import subprocess
import sys

for b in runpy.run_path(sys.argv[1])['BUGS']:
    if len(sys.argv) > 2 and b['id'] not in sys.argv[2:]:
        continue
    s = '/tmp/mkbug_' + b['id']
    shutil.rmtree(s, ignore_errors=True)
    subprocess.check_call(['git', 'clone', '-q', '/repo', s])
    for path, old, new in b['edits']:
        p = os.path.join(s, path)
        t = open(p).read()
        assert t.count(old) == 1, (b['id'], path, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.check_output(['git', '-C', s, 'diff'], text=True)
    d = '/verif/seeded/' + b['id']
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(
        '#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" '
        'exec python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': b['prop'], 'needs': b['needs'],
               'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    shutil.rmtree(s)
