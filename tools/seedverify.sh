#!/bin/bash
# usage: tools/seedverify.sh ID [nocheck] : verifies a planted change in a private mount namespace (copy of /repo), then runs its check
id=$1; S=/verif/seeded/$id; W=/tmp/seedv/$id
mkdir -p $W; rm -rf "$W/repo" "$W/work" "$W/demo" "$W/verif"; cp -a /repo $W/repo; cp -a /verif $W/verif; mkdir -p $W/work $W/demo
(cd $S && find . -type f ! -name '*.diff' ! -name '*.patch' ! -name meta.json -exec cp --parents {} $W/demo/ \;)
cat > $W/in.sh <<X
mount --bind $W/repo /repo; mount --bind $W/work /opt/vp/work; mount --bind $W/verif /verif; cd /repo
git checkout -q -- . 
timeout 300 bash $W/demo/demo.sh > $W/demo0.log 2>&1; d0=\$?
git apply --check $S/patch.diff || { echo "$id: DOES NOT APPLY"; exit 1; }
git apply $S/patch.diff
if git diff --name-only | grep -qE '\.(cpp|h|cu)\$'; then bash /opt/vp/build.sh > $W/build.log 2>&1 || { echo "$id: BUILD FAILS"; exit 1; }; fi
timeout 300 bash $W/demo/demo.sh > $W/demo1.log 2>&1; d1=\$?
bash /opt/vp/test.sh $W/test.json > $W/test.log 2>&1
t=\$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));r=json.load(open('$W/test.json'))
bl=b.get('stable') or b.get('passed') or b.get('tests')
print(len(set(bl)-set(r['passed'])))
P
)
p=\$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
c=-; [ "$2" = nocheck ] || { cd /verif; VERIF_SEED=1 bash run.sh \$p quick > $W/check.log 2>&1; c=\$?; }
echo "$id: demo clean=\$d0 patched=\$d1; stable tests lost=\$t; check \$p exit=\$c"
X
unshare -Urm bash $W/in.sh 2>&1 | tail -3
rm -rf "$W/repo" "$W/work" "$W/verif"
