#!/bin/bash
# plant.sh ID : confirm /verif/seeded/ID in a scratch copy of /repo mounted over /repo in a private namespace
ID=$1; S=/verif/seeded/$ID
W=$(mktemp -d /tmp/plantXXXX); cp -a /repo $W/repo; mkdir $W/demo; cp -r $S/. $W/demo; rm -f $W/demo/*.diff $W/demo/meta.json
export W S
unshare -Urm bash -c '
mount --bind $W/repo /repo || exit 99
cd /repo; git checkout -q -- . ; bash /opt/vp/build.sh >/dev/null 2>&1 || { echo base build fails; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/o1 2>&1; a=$?
git apply $S/patch.diff || { echo patch does not apply; exit 1; }
bash /opt/vp/build.sh >$W/b 2>&1 || { tail -20 $W/b; echo patched build fails; exit 1; }
bash /opt/vp/test.sh $W/out.json >/dev/null 2>&1
python3 - <<P
import json
o=json.load(open("$W/out.json")); b=json.load(open("/opt/vp/BASELINE.json"))
base=b.get("passed") or b.get("stable") or b
print("stable tests failing:", [t for t in base if t not in o["passed"]])
P
timeout 300 bash $W/demo/demo.sh >$W/o2 2>&1; b=$?
echo "demo: clean $a patched $b"; tail -3 $W/o1; tail -3 $W/o2
'
rm -rf "$W"
