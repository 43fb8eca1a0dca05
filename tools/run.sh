#!/bin/bash
# run.sh CNN...: run the quick checks and summarise
for p in "$@"; do
/opt/venv/bin/python /verif/check.py $p > /tmp/run_$p.log 2>&1; echo "$p rc=$?"; tail -${L:-12} /tmp/run_$p.log | cut -c1-900
python3 - $p <<'P'
import json,sys
d=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for h in d['coverage']['harnesses']: print('  ',h['harness'],h['paths'],h['exhausted_within_bounds'],h['cpu_s'],h['reached'])
P
done
