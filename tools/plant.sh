#!/bin/bash
# plant.sh ID PROP  < python edit script   (cwd = a scratch copy of /repo)
# then confirms: tests pass with the change, demo fails with / passes without,
# and whether the quick check of PROP catches it.
# usage: plant.sh confirm ID   -- for an existing /verif/seeded/ID
set -u
ID=$1
D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
S=/tmp/plant_$ID
mkdir -p $S && cp -a /repo $S/repo && cd $S/repo || exit 9
git checkout -q -- . 
bash $D/demo.sh >/dev/null 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; rm -rf /tmp/plant_$ID; exit 9; }
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider riemann/tests 2>&1 | tail -1 > $S/t
bash $D/demo.sh >$S/demo.out 2>&1; b=$?
cd /verif
RIEMANN_REPO=$S/repo timeout 900 python3 check.py $P --tier quick > $S/out 2>&1; c=$?
echo "$ID $P: demo clean=$a patched=$b check=$c tests: $(cat $S/t)"
grep -E "VIOLATION|ERROR" $S/out | head -2 | cut -c1-200
rm -rf /tmp/plant_$ID
