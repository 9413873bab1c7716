#!/bin/bash
# build /repo and compare its unit tests with the baseline
bash /opt/vp/build.sh > /tmp/vp-build.log 2>&1 || { tail -30 /tmp/vp-build.log; exit 1; }
bash /opt/vp/test.sh /tmp/vp-out.json > /tmp/vp-test.log 2>&1
python3 - <<'P'
import json
b = json.load(open('/opt/vp/BASELINE.json'))['stable']
o = json.load(open('/tmp/vp-out.json'))
miss = [t for t in b if t not in set(o['passed'])]
print(f"{len(b)} stable tests, {len(miss)} missing", *miss[:20], sep="\n  ")
P
