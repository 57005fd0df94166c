#!/bin/bash
WT=$1; ID=$2; SKIP=$3
S=/tmp/seed.$$; mkdir -p $S; trap 'rm -rf "$S"' EXIT
mount --bind $WT /repo || exit 9
cd /repo; git checkout -q -- .; git clean -fdq
cp -r /verif/seeded/$ID $S/d; rm -f $S/d/patch.diff $S/d/meta.json
bash /opt/vp/build.sh >$S/b 2>&1 || { tail $S/b; echo "SEED $ID BUILD-BASE-FAIL"; exit 1; }
timeout 300 bash $S/d/demo.sh > $S/o 2>&1; r0=$?
[ $r0 = 0 ] || tail -5 $S/o
git apply /verif/seeded/$ID/patch.diff || { echo "SEED $ID APPLY-FAIL"; exit 1; }
bash /opt/vp/build.sh >$S/b 2>&1 || { grep -m5 error $S/b; echo "SEED $ID BUILD-FAIL"; git checkout -q -- .; exit 1; }
timeout 300 bash $S/d/demo.sh > $S/o 2>&1; r1=$?
tail -2 $S/o
miss=skipped
if [ $SKIP = 0 ]; then
  bash /opt/vp/test.sh $S/t >/dev/null 2>&1
  miss=$(python3 - $S/t <<'PY'
import json, sys
b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
t = set(json.load(open(sys.argv[1]))["passed"])
m = [x for x in b if x not in t]
print(len(m), m[:4])
PY
)
fi
git checkout -q -- .
echo "SEED $ID demo-clean=$r0 demo-patched=$r1 stable-missing=$miss"
