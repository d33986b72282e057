#!/bin/bash
# run every claimed check on the current tree, 4 at a time; one summary line each
cd /verif
python3 -c "import json;print('\n'.join(c['property'] for c in json.load(open('MANIFEST.json'))['checks']))" | xargs -P 6 -I{} bash -c 's=$(date +%s); python3 check.py {} > /tmp/chk.{}.log 2>&1; r=$?; echo "{} rc=$r $(( $(date +%s)-s ))s $(grep -c VIOLATION /tmp/chk.{}.log) viol"'
