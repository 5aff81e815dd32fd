#!/bin/bash
# usage: seedtest.sh ID [--notest] [CHECK...]   confirms a planted bug in a scratch copy and runs checks against it
id=$1; shift
notest=; [ "$1" = --notest ] && { notest=1; shift; }
[ -d /tmp/sr ] || { mkdir -p /tmp/sr && cp -a /repo /tmp/sr/repo && cp -a /verif /tmp/sr/verif && cp -a /opt/vp /tmp/sr/vp; }
exec 8>/tmp/sr/lock; flock 8
git -C /tmp/sr/repo checkout -q -- . && git -C /tmp/sr/repo fetch -q /repo HEAD && git -C /tmp/sr/repo reset -q --hard FETCH_HEAD
rsync -rpc --delete /verif/harness/ /tmp/sr/verif/harness/
rsync -rpc --delete /verif/seeded/ /tmp/sr/verif/seeded/
cp /verif/*.sh /verif/known_findings.jsonl /tmp/sr/verif/
export id notest checks="$*"
unshare -Urm bash -c '
mount --bind /tmp/sr/repo /repo && mount --bind /tmp/sr/vp /opt/vp && mount --bind /tmp/sr/verif /verif || exit 9
d=/verif/seeded/$id
cd /repo
bash /opt/vp/build.sh >/tmp/sr/build.log 2>&1 || { echo "unpatched does not build"; exit 9; }
bash $d/demo.sh >/tmp/sr/demo0.log 2>&1; echo "demo without patch: $? (want 0)"
git apply $d/patch.diff || { echo "patch does not apply"; exit 9; }
bash /opt/vp/build.sh >/tmp/sr/build.log 2>&1 || { echo "patched does not build"; tail -30 /tmp/sr/build.log; git checkout -q -- .; exit 9; }
bash $d/demo.sh >/tmp/sr/demo1.log 2>&1; echo "demo with patch: $? (want nonzero)"
if [ -z "$notest" ]; then
bash /opt/vp/test.sh /tmp/sr/res.json >/tmp/sr/test.log 2>&1
python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\"));r=json.load(open(\"/tmp/sr/res.json\"))
p=set(r.get(\"passed\",r.get(\"pass\",[])))
m=[x for x in b[\"stable\"] if x not in p]
print(\"stable tests failing:\",len(m),m[:5])"
fi
for c in $checks; do VERIF_SEED=1 VERIF_TIER=quick bash /verif/check.sh $c quick > /tmp/sr/check-$c.log 2>&1; echo "check $c: $? $(grep -c ^VIOLATION /tmp/sr/check-$c.log) violations"; grep -A3 "class:" /tmp/sr/check-$c.log | head -8; done
git checkout -q -- .
'
