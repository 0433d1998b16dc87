#!/bin/bash
# conf.sh ID [nocheck]: confirm the planted bug /verif/seeded/ID in a copy of /repo
# (bind-mounted over /repo in a private mount namespace): tests, demo, check.
if [ -z "$VH_INNER" ]; then
  [ -d /tmp/sr ] || cp -a /repo /tmp/sr
  git -C /tmp/sr checkout -q -- . && git -C /tmp/sr fetch -q /repo HEAD && git -C /tmp/sr checkout -q --detach FETCH_HEAD
  VH_INNER=1 exec unshare -m "$0" "$@"
fi
mount --bind /tmp/sr /repo || exit 1
id=$1; d=/verif/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo
git apply --check $d/patch.diff || { echo PATCH-FAILS; exit 1; }
git apply $d/patch.diff
bash /opt/vp/test.sh /tmp/sr.json >/tmp/sr.log 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/sr.json'))
p=set(t['passed']); m=[x for x in b['stable'] if x not in p]
print('$id: tests missing:',len(m),m[:3])"
timeout 300 bash $d/demo.sh >/tmp/sr.demo 2>&1; echo "demo patched rc=$?"; tail -2 /tmp/sr.demo | cut -c1-200
if [ "$2" != nocheck ]; then
  python3 /verif/tools/check.py $prop >/tmp/sr.chk 2>&1; echo "check $prop rc=$?"
  grep -aE '^  |VIOL|ERROR' /tmp/sr.chk | cut -c1-200 | head -${L:-4}
fi
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/sr.log 2>&1
timeout 300 bash $d/demo.sh >/tmp/sr.demo 2>&1; echo "demo clean rc=$?"; tail -2 /tmp/sr.demo | cut -c1-200
