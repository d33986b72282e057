#!/usr/bin/env python3
"""claim.py ID 'technique' 'level note' : record the deciding method and regenerate the manifest"""
import json, subprocess, sys
p = '/verif/doc/techniques.json'
t = json.load(open(p))
t[sys.argv[1]] = [sys.argv[2], sys.argv[3]]
json.dump(t, open(p, 'w'), indent=1)
subprocess.run(['python3', '/verif/doc/gen_properties.py'], check=True)
subprocess.run(['python3', '/verif/doc/gen_manifest.py'], check=True)
