"""Confirm planted bugs in a scratch copy (/tmp/sr) and store them in /verif/seeded.
Usage: plant.py FILE.py [id ...]      FILE.py defines BUGS = [dict(id, property, edits, demo, needs, breaks)]"""
import sys, os, subprocess, json, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__)); SR = '/tmp/sr'
def sh(c, cwd=SR, t=900):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
    return r.returncode, (r.stdout + r.stderr)
def setup():
    if not os.path.isdir(SR):
        sh('git clone -q /repo ' + SR, '/')
    sh('git fetch -q origin && git reset -q --hard origin/HEAD')
    for n in ('build', 'test'):
        s = open('/opt/vp/%s.sh' % n).read().replace('/repo', SR).replace('/opt/vp/build.sh', '/tmp/sr_build.sh')
        open('/tmp/sr_%s.sh' % n, 'w').write(s)
def build(): return sh('bash /tmp/sr_build.sh')
DEMO = '''#!/bin/bash
# run with cwd = the repository, after a build
set -e
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -r "$W"' EXIT
g++ -std=c++11 -w -O1 -Iinclude -I/usr/include/eigen3 -I"$D" "$D/demo.cpp" _build/lib/libopengv.a -lpthread -o "$W/demo"
timeout 120 "$W/demo"
'''
STABLE = json.load(open('/opt/vp/BASELINE.json'))
def main():
    setup()
    ns = {}; exec(open(sys.argv[1]).read(), ns); want = sys.argv[2:]
    for b in ns['BUGS']:
        if want and b['id'] not in want: continue
        d = '/verif/seeded/' + b['id']; os.makedirs(d, exist_ok=True)
        for h in ('toy.hpp', 'scene.hpp'):
            if h in b['demo']: shutil.copy(HERE + '/bugs/' + h, d)
        open(d + '/demo.cpp', 'w').write(b['demo']); open(d + '/demo.sh', 'w').write(DEMO.replace('-w -O1', '-w -O1 ' + b['flags'] if b.get('flags') else '-w -O1')); os.chmod(d + '/demo.sh', 0o755)
        sh('git checkout -q -- .'); rc, o = build(); assert rc == 0, o[-800:]
        rc, o = sh('bash %s/demo.sh' % d)
        if rc: print(b['id'], 'DEMO FAILS UNCHANGED', rc, o[-200:]); shutil.rmtree(d); continue
        bad = False
        for f, old, new in b['edits']:
            s = open(SR + '/' + f).read()
            if s.count(old) < 1: print(b['id'], 'missing anchor', old[:60]); bad = True; break
            open(SR + '/' + f, 'w').write(s.replace(old, new, 1))
        if bad: shutil.rmtree(d); continue
        rc, o = build()
        if rc: print(b['id'], 'DOES NOT BUILD', o[-200:]); shutil.rmtree(d); continue
        rc, o = sh('bash %s/demo.sh' % d)
        if rc == 0: print(b['id'], 'DEMO PASSES WITH BUG', o[-300:]); shutil.rmtree(d); continue
        sh('bash /tmp/sr_test.sh /tmp/sr_out.json'); res = json.load(open('/tmp/sr_out.json'))
        miss = [t for t in ns.get('TESTS', TESTS) if t not in res['passed']]
        if miss: print(b['id'], 'TESTS CATCH IT', miss[:3]); shutil.rmtree(d); continue
        rc, diff = sh('git diff'); open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        print(b['id'], 'ok; demo:', o.strip()[-150:])
    sh('git checkout -q -- .')
def tests():
    s = STABLE
    for k in ('stable', 'passed', 'tests', 'pass'):
        if isinstance(s, dict) and k in s: return s[k]
    return s
TESTS = tests()
main()
