#!/bin/sh
# run the repository's tests and compare with the baseline
bash /opt/vp/test.sh /tmp/o.json >/tmp/o.log 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
m=[t for t in b['stable'] if t not in set(o['passed'])]
print(len(o['passed']),'passed', len(o['failed']),'failed; stable not passing:', m[:20])
P
