#!/bin/bash
# run /repo's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/t.json > /tmp/t.log 2>&1
python3 - <<'E'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.json'))
base=set(b.get('passed') or b.get('stable') or b.get('tests') or []); m=base-set(t.get('passed') or [])
print("TESTS", "ok" if not m else f"MISSING {len(m)} of {len(base)}: {sorted(m)[:6]}")
E
