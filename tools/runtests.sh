#!/bin/bash
# build, run the stable tests, list baseline tests that do not pass
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/t.$$.json >/dev/null 2>&1
python3 - /tmp/t.$$.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
f=lambda d:set(d.get('passed') or d.get('stable'))
bb,tt=f(b),f(t); print('missing:',sorted(bb-tt), len(tt))
P
rm -f /tmp/t.$$.json
