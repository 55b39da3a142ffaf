#!/bin/bash
# seedtest.sh ID [notest]: validate a planted bug and run the check of its property against it
id=$1; d=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo || exit 9
git diff --quiet || { echo "repo dirty"; exit 9; }
bash $d/demo.sh >/dev/null 2>&1; c=$?
git apply $d/patch.diff || exit 9
bash $d/demo.sh >/tmp/demo.out 2>&1; b=$?
t=skipped
if [ "$2" != notest ]; then
 bash /opt/vp/test.sh /tmp/st.json >/dev/null 2>&1
 t=$(python3 -c "
import json;b=json.load(open('/opt/vp/BASELINE.json'))['stable'];p=set(json.load(open('/tmp/st.json'))['passed'])
m=[x for x in b if x not in p];print('ok' if not m else 'FAILS %d %s'%(len(m),m[:2]))")
fi
(cd /verif && VERIF_SEED=1 timeout 900 ./check.py $prop > /tmp/chk.out 2>&1); k=$?
git checkout -q -- .
echo "$id $prop demo clean=$c bug=$b tests=$t check=$k $(grep -o 'no-failing-input-found' /tmp/chk.out | head -1) | $(grep -m1 'failed obl' /tmp/chk.out | cut -c1-150) | $(tail -1 /tmp/chk.out | grep -o '[0-9.]*s$')"
