#!/bin/bash
# tools/seedtest.sh ID [PROPERTY...]: confirm /verif/seeded/ID in a private copy of /repo (user + mount namespace):
# the demo passes without the patch, the patch builds, the tests pass, the demo fails, what the checks say.
ID=$1; shift
S=/verif/seeded/$ID
P=${*:-$(jq -r .property $S/meta.json)}
W=$(mktemp -d /tmp/seed.XXXX)
cp -a /repo $W/r; cp -a $S $W/s
cat > $W/go.sh <<EOS
mount --bind $W/r /repo || exit 9
cd /repo
bash /opt/vp/build.sh >$W/b0.log 2>&1 || echo "BASE BUILD FAILED"
timeout 300 bash $W/s/demo.sh >$W/d0.log 2>&1; echo "demo on base: \$? (want 0)"
git apply $W/s/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 9; }
bash /opt/vp/test.sh $W/t.json >$W/t.log 2>&1
python3 - <<PY
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
st=b.get('stable') or b.get('passed') or b.get('tests')
bad=[x for x in st if x not in t['passed']]
print('tests not passing:', bad[:10], len(bad))
PY
timeout 300 bash $W/s/demo.sh >$W/d1.log 2>&1; echo "demo with patch: \$? (want nonzero)"; tail -3 $W/d1.log
for p in $P; do [ "\$p" = none ] || (cd /verif; timeout 900 python3-vt check.py \$p --tier quick 2>&1 | cut -c1-400 | tail -8); done
EOS
unshare -Urm bash $W/go.sh
rm -rf $W
