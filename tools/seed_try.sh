#!/bin/bash
# seed_try.sh <id> [notest]: validates /verif/seeded/<id> in a scratch copy of /repo and runs the property's check against it
id=$1; S=/verif/seeded/$id; W=/tmp/sw-$id
rm -rf "/tmp/sw-$id"; cp -a /repo $W
(cd $W && git checkout -q -- . && git apply $S/patch.diff) || { echo "APPLY FAILED"; exit 1; }
(cd /repo && bash $S/demo.sh >/tmp/sd-$id.out 2>&1); echo "$id demo on clean: $?"
(cd $W && bash $S/demo.sh >/tmp/sp-$id.out 2>&1); echo "$id demo on patched: $? ($(tail -1 /tmp/sp-$id.out | cut -c1-150))"
if [ "$2" != notest ]; then
 sed "s#/repo#$W#g" /opt/vp/build.sh > $W/.b.sh; sed "s#/repo#$W#g; s#/opt/vp/build.sh#$W/.b.sh#" /opt/vp/test.sh > $W/.t.sh
 rm -rf "$W/_build"
 bash $W/.t.sh /tmp/so-$id.json >/tmp/st-$id.log 2>&1
 python3 - <<P
import json
o=json.load(open('/tmp/so-$id.json')); b=json.load(open('/opt/vp/BASELINE.json'))['stable']
print('$id tests missing:', [t for t in b if t not in o['passed']])
P
fi
[ "$3" = nocheck ] && { rm -rf "/tmp/sw-$id"; exit 0; }
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
VERIF_REPO=$W timeout 900 python3-vt /verif/checks/run.py $P quick > /tmp/sc-$id.log 2>&1; echo "$id check rc $?: $(grep -a VIOLATION /tmp/sc-$id.log)"
rm -rf "/tmp/sw-$id"
