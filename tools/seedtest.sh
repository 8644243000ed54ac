#!/bin/bash
# seedtest.sh ID [full|check|demo]: confirms a planted bug in a scratch copy of /repo bound over /repo in a private mount namespace,
# and runs the property's check against it. Nothing outside the scratch copy is touched.
set -u
ID=$1; MODE=${2:-full}
W=/tmp/seed-$ID; mkdir -p $W; cp -a /repo $W/repo; cp -a /verif $W/verif
PROP=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
( cd $W/repo && git checkout -q -- . && git apply /verif/seeded/$ID/patch.diff ) || { echo "$ID: patch does not apply"; rm -rf $W; exit 1; }
cat > $W/run.sh <<EOS
mount --bind $W/repo /repo
mkdir -p $W/demo; cp -r /verif/seeded/$ID/. $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
mount --bind $W/verif /verif
cd /repo
if [ $MODE != check ]; then
 bash /opt/vp/build.sh > $W/build.log 2>&1 && echo "build ok" || { echo "BUILD FAILED"; tail -5 $W/build.log; exit 1; }
 timeout 300 bash $W/demo/demo.sh > $W/demo.log 2>&1; echo "demo with patch: \$?"
fi
if [ $MODE = full ]; then
 bash /opt/vp/test.sh $W/out.json > $W/test.log 2>&1
 python3 - <<EOP
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=json.load(open('$W/out.json'))
print('stable tests failing:', sorted(b-set(o['passed']))[:5] or 'none')
EOP
fi
if [ $MODE != demo ]; then
 cd /verif; VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt -m gv.check $PROP > $W/check.log 2>&1; echo "check $PROP exit \$?"; grep -E 'VIOLATION|violated:' $W/check.log | head -3; cp $W/check.log /tmp/seedlog-$ID.txt
fi
EOS
echo "== $ID ($PROP)"; unshare -rm bash $W/run.sh
if [ $MODE != check ]; then cp -r /verif/seeded/$ID $W/demo0; rm -f $W/demo0/*.diff $W/demo0/meta.json; ( cd /repo && timeout 300 bash $W/demo0/demo.sh > $W/demo0.log 2>&1; echo "demo without patch: $?" ); fi
rm -rf /tmp/seed-$ID
