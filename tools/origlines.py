'''which planted changes only remove lines of the original repository'''
import glob
import json
import re
import subprocess
import sys

base = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).split()
ours = subprocess.check_output(['git', '-C', '/repo', 'log', '--format=%H', '4aafff8..HEAD'], text=True).split()
for p in sorted(glob.glob('/verif/seeded/*/patch.diff')):
    f = None
    bad, n, hunks = 0, 0, 0
    for line in open(p):
        if line.startswith('--- a/'):
            f = line[6:].strip()
            bl = subprocess.check_output(['git', '-C', '/repo', 'blame', '-l', '-s', 'HEAD', '--', f], text=True).split('\n')
        elif line.startswith('@@'):
            at = int(re.match(r'@@ -(\d+)', line).group(1))
        elif f and line[0] in ' -' and not line.startswith('---'):
            if line[0] == '-':
                n += 1
                if bl[at - 1].split()[0].lstrip('^') in ours:
                    bad += 1
            at += 1
    print(p.split('/')[3], 'removes', n, 'of them ours', bad)
