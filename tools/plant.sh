#!/bin/bash
# plant.sh ID [notests]: verifies seeded/ID in a scratch copy mounted over /repo (in a namespace of its own), then runs the check of its property on it.
# Expected: demo 0 without and non-zero with the patch, stable tests pass with it, original lines changed, check exits 1.
set -u
V=$(cd "$(dirname "$0")/.." && pwd)
id=$1; S=$V/seeded/$id
T=$(mktemp -d /tmp/plant-XXXXXX)
cp -a /repo "$T/repo"; cp -a /opt/vp "$T/vp"; cp -a "$S" "$T/demo"; rm -f "$T/demo/patch.diff" "$T/demo/meta.json"
prop=$(/opt/venv/bin/python -c "import json;print(json.load(open('$S/meta.json'))['property'])")
unshare -Urm bash -s "$T" "$S" "$V" "$prop" "${2:-}" <<'EOF'
T=$1; S=$2; V=$3; prop=$4; notests=$5
mount --bind $T/repo /repo; mount --bind $T/vp /opt/vp
cd /repo
git checkout -q -- . 
bash /opt/vp/build.sh >$T/b0.log 2>&1 || { echo "BUILD0 FAILED"; tail -5 $T/b0.log; }
timeout 300 bash $T/demo/demo.sh >$T/d0.log 2>&1; r0=$?
git apply --check $S/patch.diff && git apply $S/patch.diff || echo "PATCH DOES NOT APPLY"
/opt/venv/bin/python - <<'P'
import subprocess
base={}
bad=[]
d=subprocess.check_output(['git','diff','-U0'],text=True).split('\n')
f=None
for l in d:
    if l.startswith('--- '): f=l[6:]
    elif l.startswith('-') and l[1:].strip():
        if f not in base:
            base[f]=set(subprocess.check_output(['git','show','0de939f:'+f],text=True).split('\n'))
        if l[1:] not in base[f]: bad.append((f,l))
if bad: print("NOT ORIGINAL LINES", bad)
P
bash /opt/vp/build.sh >$T/b1.log 2>&1 || { echo "BUILD FAILED"; tail -5 $T/b1.log; }
timeout 300 bash $T/demo/demo.sh >$T/d1.log 2>&1; r1=$?
echo "demo unchanged=$r0 patched=$r1"
[ $r0 = 0 ] || tail -5 $T/d0.log
[ $r1 = 0 ] || tail -2 $T/d1.log
if [ "$notests" != notests ]; then
bash /opt/vp/test.sh $T/t.json >$T/t.log 2>&1
/opt/venv/bin/python - $T/t.json <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
print("stable tests lost:", sorted(set(b['stable'])-set(t['passed'])))
P
fi
cd $V
bash run.sh $prop quick >$T/c.log 2>&1; echo "check $prop exit $?"; grep -v '^$' $T/c.log | cut -c1-300 | tail -4
EOF
case $T in /tmp/plant-??????) rm -rf "$T";; esac
