#!/usr/bin/env python3
"""development aid: apply textual mutants / refactorings to a scratch copy of
/repo and report which checks fire.  mut.py SUITE [name-substring]
A suite is a python file defining M = [(name, expected ids ('' = quiet), [(file, old, new), ...]), ...]
and optionally ALL (checks to run)."""
import os, subprocess, sys, shutil, runpy, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
suite = runpy.run_path(sys.argv[1])
sub = sys.argv[2] if len(sys.argv) > 2 else ''
S = '/tmp/mrepo%d_' % os.getpid()


def one(i, name, exp, edits, checks):
    d = '%s%d' % (S, i)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', d], check=True)
    for f, a, b, *last in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(a) < 1:
            return name, 'ANCHOR MISSING %s: %r' % (f, a[:60]), ''
        open(p, 'w').write(b.join(s.rsplit(a, 1)) if last else s.replace(a, b, 1))
    fired, errs, out = [], [], ''
    env = dict(os.environ, OGV_REPO=d)
    for c in checks:
        r = subprocess.run([sys.executable, V + '/check.py', c], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, cwd=V)
        if r.returncode == 1:
            fired.append(c)
            out += r.stdout
        elif r.returncode:
            errs.append(c)
            out += r.stdout
    shutil.rmtree(d, ignore_errors=True)
    ok = (not fired and not errs) if not exp else any(e in fired for e in exp.split())
    return name, '%s fired=%s errors=%s expected=%s' % ('ok  ' if ok else 'MISS' if exp else 'FALSE-ALARM', ','.join(fired), ','.join(errs), exp), out


allc = suite.get('ALL')
jobs = [(n, e, ed) for n, e, ed in suite['M'] if sub in n]
with cf.ThreadPoolExecutor(4) as ex:
    fs = []
    for i, (n, e, ed) in enumerate(jobs):
        cs = allc or e.split()
        fs.append(ex.submit(one, i, n, e, ed, cs))
    for f in fs:
        n, r, out = f.result()
        print('%-40s %s' % (n, r))
        if os.environ.get('V'):
            print('\n'.join(l[:300] for l in out.split('\n')[:int(os.environ['V'])]))
        sys.stdout.flush()
