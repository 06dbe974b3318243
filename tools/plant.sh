#!/bin/bash
# plant.sh ID [notest]: apply seeded/ID to a copy or /repo (VP_REPO), test, demo, check; undo.
# Records the outcome in seeded_results.json.
V=$(cd "$(dirname "$0")/.." && pwd); R=${VP_REPO:-/repo}
id=$1; d=$V/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd $R || exit 1
[ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/plant.$id.clean 2>&1; c=$?
git apply $d/patch.diff || exit 1
trap 'git -C $R checkout -q -- .' EXIT
bash $d/demo.sh >/tmp/plant.$id.bug 2>&1; b=$?
echo "$id $p demo clean $c (want 0) bug $b (want nonzero)"
( cd $V && timeout 900 ./check $p > /tmp/plant.$id.check 2>&1; echo $? > /tmp/plant.$id.rc )
grep -E "VIOLATION|quick:" /tmp/plant.$id.check | cut -c1-150 | head -3; echo "check rc $(cat /tmp/plant.$id.rc)"
python3 - <<P
import json,os
f="$V/seeded_results.json"; r=json.load(open(f)) if os.path.exists(f) else {}
rc=open("/tmp/plant.$id.rc").read().strip()
h=[l.split()[0] for l in open("/tmp/plant.$id.check") if l.startswith("  ")]
r["$id"]=("$p "+", ".join(sorted(set(h)))) if rc=="1" else "missed (exit %s)"%rc
json.dump(r,open(f,"w"),indent=1,sort_keys=True)
P
if [ "$2" != notest ]; then
  sed "s#cd /repo#cd $R#" /opt/vp/test.sh > /tmp/plant.test.sh
  bash /tmp/plant.test.sh /tmp/plant.json >/tmp/plant.log 2>&1
  python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);p=set(json.load(open('/tmp/plant.json'))['passed'])
print('tests missing',len(b-p),list(b-p)[:5])"
fi
