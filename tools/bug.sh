#!/bin/bash
# bug.sh ID [property...]: tries the planted bug /verif/seeded/ID in a copy of /repo
# which takes the place of /repo in a mount namespace of its own: the demo on the
# unchanged tree, then with the patch: build, tests, demo and the checks named
# (the property of meta.json by default).
ID=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
B=$V/seeded/$ID
W=$(mktemp -d /tmp/bug.XXXXXX)
cp -a /repo "$W/repo"
P="$*"; [ -z "$P" ] && P=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
mkdir "$W/demo"; cp -a $B/. "$W/demo"; rm -f "$W/demo/patch.diff" "$W/demo/meta.json"
unshare -Urm bash -c "
mount --bind $W/repo /repo && cd /repo || exit 9
git checkout -q -- . 
bash /opt/vp/build.sh >$W/build.log 2>&1 || { echo BUILD0 FAILS; exit 1; }
timeout 300 bash $W/demo/demo.sh >$W/demo0.log 2>&1; echo demo unchanged: \$?
git apply $B/patch.diff || { echo DOES NOT APPLY; exit 1; }
bash /opt/vp/test.sh $W/t.json >$W/test.log 2>&1
python3 - <<X
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$W/t.json'))
s=b.get('stable') or b.get('passed') or b.get('tests')
print('stable tests which fail:', sorted(set(s)-set(t['passed']))[:5], len(t['passed']), 'pass')
X
timeout 300 bash $W/demo/demo.sh >$W/demo1.log 2>&1; echo demo patched: \$?
tail -3 $W/demo1.log
cd $V
for p in $P; do python3 check.py \$p quick > $W/check.log 2>&1; echo \"check \$p: \$?\"; grep -A1 VIOLATION $W/check.log | head -2 | cut -c1-300; done
"
rm -rf "$W"
