#!/bin/bash
# usage: seedcheck.sh ID [notest]   confirm a planted bug: tests pass, demo fails with it and passes without it, check verdict
ID=$1; D=/verif/seeded/$ID
P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo && git diff --quiet || { echo "repo dirty"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
git apply $D/patch.diff || { echo "patch does not apply"; exit 2; }
if [ "$2" != notest ]; then
  bash /opt/vp/test.sh /tmp/seed-test.json > /tmp/seed-test.log 2>&1
  python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seed-test.json'))
def names(x,k):
    v=x.get(k,x if isinstance(x,list) else [])
    return set(v)
base=set(b.get('passed') or b.get('stable') or b.get('tests') or [])
passed=set(t.get('passed') or [])
miss=base-passed
print("TESTS", "ok" if base and not miss else f"MISSING {len(miss)} of {len(base)}: {sorted(miss)[:6]}")
PY
fi
timeout 300 bash $D/demo.sh > /tmp/seed-demo1.log 2>&1; echo "DEMO with bug: $? (want != 0)"
(cd /verif && python3 run.py $P quick 2>&1 | tail -12); 
git -C /repo checkout -- .
timeout 300 bash $D/demo.sh > /tmp/seed-demo0.log 2>&1; echo "DEMO clean: $? (want 0)"
tail -3 /tmp/seed-demo0.log; tail -3 /tmp/seed-demo1.log
