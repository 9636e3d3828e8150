#!/bin/bash
# plant.sh ID [recheck]: /repo holds the change (or, with recheck, it is applied
# from patch.diff); verifies it the way vcheck does and restores /repo.
id=$1; d=/verif/seeded/$id
cd /repo || exit 2
if [ "$2" = recheck ]; then git apply $d/patch.diff || exit 2; else git diff > $d/patch.diff; fi
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$d/meta.json'))['property'])")
t=$(mktemp -d)
cp -r $d/. $t/; rm -f $t/*.diff $t/meta.json
bash /opt/vp/build.sh >/tmp/pb.log 2>&1 || echo "BUILD FAILED"
if [ "$2" != recheck ]; then
 bash /opt/vp/test.sh /tmp/pt.json >/tmp/pt.log 2>&1; tail -1 /tmp/pt.log
 (cd /repo; timeout 300 bash $t/demo.sh >/tmp/pd1.log 2>&1); echo "demo with patch: $? (want nonzero)"; tail -1 /tmp/pd1.log
fi
(cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh check $prop --tier quick >/tmp/pc.log 2>&1; echo "check $prop: $? (want 1)"; grep VIOLATION /tmp/pc.log | head -3)
git -C /repo checkout -- . 
bash /opt/vp/build.sh >/tmp/pb.log 2>&1
if [ "$2" != recheck ]; then
 (cd /repo; timeout 300 bash $t/demo.sh >/tmp/pd0.log 2>&1); echo "demo without: $? (want 0)"; tail -1 /tmp/pd0.log
fi
rm -rf "$t"; git -C /repo status --short
