#!/bin/bash
# fix.sh PROP "what failed" : run tests, commit /repo as fix, record
cd /repo
bash /opt/vp/test.sh /tmp/o.json >/tmp/test.log 2>&1
python3 - <<'P' || { echo TESTS FAIL; tail -30 /tmp/test.log; exit 1; }
import json,sys
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
base=set(b.get('passed') or b.get('stable') or b.get('tests'))
m=base-set(o['passed']); print('missing:',m); sys.exit(bool(m))
P
git commit -qam "fix: $2" && h=$(git rev-parse --short HEAD)
echo "fixed: property=$1 $h $2" >> /verif/KNOWN_FINDINGS
echo $h; git status --short
