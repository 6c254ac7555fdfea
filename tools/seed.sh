#!/bin/bash
# tools/seed.sh ID [PROP...]: apply seeded/ID in a private copy of /repo and /verif, confirm it, run the checks of its property (or PROP...).
ID=$1; shift
T=$(mktemp -d /tmp/seed.XXXXXX); trap 'case $T in /tmp/seed.??????) rm -rf "$T";; esac' EXIT
cp -a /repo $T/repo; mkdir $T/verif; cp -a /verif/. $T/verif/; cp -a /verif/seeded/$ID $T/demo
rm -f $T/repo/_build/XX
PROP=${*:-$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")}
export ID PROP T
unshare -Urm bash -c '
mount --bind $T/repo /repo; mount --bind $T/verif /verif
cd /repo
if [ -z "$SKIPDEMO" ]; then
git diff --quiet || echo "REPO DIRTY"
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $T/demo/demo.sh >$T/d0 2>&1; r0=$?
git apply $T/demo/patch.diff || { echo "$ID: DOES NOT APPLY"; exit; }
bash /opt/vp/test.sh $T/t.json >$T/tlog 2>&1
python3 - <<P
import json
b=json.load(open("/opt/vp/BASELINE.json")); b=b.get("passed") or b.get("stable") or b
t=set(json.load(open("'$T'/t.json"))["passed"])
m=[x for x in b if x not in t]
print("'$ID'", "tests lost:", len(m), m[:3])
P
timeout 300 bash $T/demo/demo.sh >$T/d1 2>&1; r1=$?
echo "$ID demo clean=$r0 patched=$r1"; [ $r0 != 0 ] && tail -5 $T/d0; tail -3 $T/d1
else git apply $T/demo/patch.diff; fi
cd /verif
for p in $PROP; do
  s=$(date +%s); timeout 900 python3 check.py $p --tier ${TIER:-quick} >$T/c.log 2>&1; r=$?
  echo "$ID check $p exit=$r $(( $(date +%s)-s ))s"; grep -m3 -A3 VIOLATION $T/c.log; [ $r -ne 1 ] && tail -3 $T/c.log
done
'
