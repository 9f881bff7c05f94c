#!/bin/bash
# seed.sh ID: checks a planted bug in /verif/seeded/ID on a scratch copy: applies, builds, the stable tests pass, the
# demonstration passes without and fails with it. (A development aid; nothing registered uses it.)
id=$1
s=/verif/seeded/$id
cd /repo || exit 1
git diff --quiet || { echo "repo dirty"; exit 1; }
bash "$s/demo.sh" >/tmp/seed.$id.clean 2>&1 || { echo "$id: DEMO FAILS ON CLEAN TREE"; tail -20 /tmp/seed.$id.clean; exit 1; }
git apply "$s/patch.diff" || { echo "$id: does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh || { echo "$id: build"; exit 1; }
bash /opt/vp/test.sh /tmp/seed.$id.json >/dev/null 2>&1
python3 - <<P || exit 1
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$id.json'))
def names(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k])
    raise SystemExit(str(x)[:300])
m=names(b)-names(r)
print("$id: stable tests missing:",m) if m else None
raise SystemExit(1 if m else 0)
P
if bash "$s/demo.sh" >/tmp/seed.$id.bug 2>&1; then echo "$id: DEMO PASSES WITH THE BUG"; exit 1; fi
grep -m3 -E "demo_test.go|panic|fatal|FAIL" /tmp/seed.$id.bug
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
for q in $p $2; do
out=$(/tmp/vt -property $q 2>&1); rc=$?
echo "$id: $q rc=$rc $(echo "$out" | grep -A1 -E 'VIOLATION' | sed -n 2p) $(echo "$out" | grep -E 'UNDECIDED|no verdict|cannot'|head -2)"
done
