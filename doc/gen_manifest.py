#!/usr/bin/env python3
"""MANIFEST.json from the list of checks; run after adding one."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = json.load(open(V + '/doc/techniques.json'))
NA = json.load(open(V + '/doc/not_applicable.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/checks/%s.py' % (V, i)) and i in TECH:
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH[i][0], 'level': 'other', 'level_note': TECH[i][1]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet; nothing is claimed for this property')})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'Static analysis only: checks parse /repo\'s current sources with the extractor built by setup_cmd. known_findings.txt lists defects.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
