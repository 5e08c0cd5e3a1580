#!/bin/bash
# seedcheck.sh [ids...]: runs the check of every planted bug's property against a scratch copy with the bug
cd /verif/seeded
for id in ${@:-*}; do
   p=$(python3 -c "import json;print(json.load(open('$id/meta.json'))['property'])")
   t=/tmp/seedcheck.$$
   cp -a /repo $t && git -C $t apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; rm -rf /tmp/seedcheck.$$; continue; }
   s=$(date +%s)
   out=$(VERIF_REPO=$t python3 /verif/run_check.py $p 2>&1); rc=$?
   echo "$id $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep -v '^VIOL\|^KNOWN' | tail -${L:-2} | cut -c1-160 | tr '\n' '|')"
   rm -rf /tmp/seedcheck.$$
done
