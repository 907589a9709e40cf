#!/bin/bash
# usage: seed.sh <id> [notest]: validates a planted bug and runs the check of its property against it.
# The patch is seeded/<id>/patch.diff; /repo must be clean.
cd /verif
d=seeded/$1
[ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo dirty"; exit 2; }
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != checkonly ]; then
(cd /repo && bash /verif/$d/demo.sh >/tmp/demo0.log 2>&1); r0=$?
echo "demo on clean tree: $r0"; [ $r0 = 0 ] || tail -5 /tmp/demo0.log
fi
git -C /repo apply /verif/$d/patch.diff || exit 2
if [ "$2" != checkonly ]; then
(cd /repo && bash /verif/$d/demo.sh >/tmp/demo1.log 2>&1); r1=$?
echo "demo with patch: $r1"; tail -2 /tmp/demo1.log
if [ "$2" != notest ]; then
bash /opt/vp/build.sh >/tmp/seedbuild.log 2>&1; bash /opt/vp/test.sh /tmp/t.json 2>&1 | tail -1
python3 - <<'P'
import json
a=json.load(open('/tmp/t.json')); b=json.load(open('/opt/vp/BASELINE.json'))
print("stable tests failing:", sorted(set(b['stable'])-set(a['passed']))[:8])
P
fi
fi
bash check.sh $p 2>&1 | tail -4 | cut -c1-600
echo "check $p: exit ${PIPESTATUS[0]}"
