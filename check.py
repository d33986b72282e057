#!/usr/bin/env python3
"""check.py <ID> [--tier quick|thorough] : decides one property on /repo's current tree."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'engine'))
sys.path.insert(0, os.path.join(HERE, 'checks'))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


class Check:
    """collects the obligations of one property"""

    def __init__(self, id, tier):
        self.id, self.tier = id, tier
        self.obs = []            # (rule, instance, where, ok, detail)
        self.explanation = ''
        self.assumptions = []
        self.counts = {}
        self.min_obs = 1
        self.functions = set()

    def ob(self, rule, instance, where, ok, detail=''):
        self.obs.append((rule, instance, where, bool(ok), detail if not ok else ''))
        return ok

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    def vg(self, g):
        """record the functions a value graph covered"""
        self.functions |= {'%s (%s:%s)' % x for x in g.fns_seen}


def known_findings(id):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property=%s ' % id):
                out.append(l[len('finding: property=%s ' % id):].split(' ## ')[0].strip())
    return out


def main():
    id = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time()
    C = Check(id, tier)
    rc = 0
    err = None
    import db
    try:
        m = importlib.import_module(id)
        C.explanation = (m.__doc__ or '').strip()
        C.assumptions = list(getattr(m, 'ASSUMPTIONS', []))
        C.min_obs = getattr(m, 'MIN_OBLIGATIONS', 1)
        m.run(C)
        if len(C.obs) < C.min_obs:
            raise db.AnalysisError('only %d obligations found, at least %d expected: the rule lost its anchors'
                                   % (len(C.obs), C.min_obs))
    except Exception as e:
        err = '%s: %s' % (type(e).__name__, e)
        if os.environ.get('OGV_DEBUG') or type(e).__name__ not in ('AnalysisError', 'Budget'):
            traceback.print_exc()
    bad = [o for o in C.obs if not o[3]]
    known = known_findings(id)
    new = []
    for o in bad:
        key = '%s | %s' % (o[0], o[1])
        if key in known:
            print('KNOWN-FINDING: property=%s %s (%s)' % (id, key, o[2]))
        else:
            new.append(o)
    ev = {
        'property': id, 'tier': tier if tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': C.explanation,
            'obligations': len(C.obs), 'discharged': len(C.obs) - len(bad),
            'rules': {}, 'counts': C.counts,
            'functions_analysed': sorted(C.functions)[:400],
            'functions_analysed_count': len(C.functions),
            'obligation_list': ['%s | %s @ %s : %s' % (o[0], o[1], o[2], 'holds' if o[3] else 'VIOLATED') for o in C.obs][:600],
        },
        'assumptions': C.assumptions,
        'violations': [{'rule': o[0], 'instance': o[1], 'where': o[2], 'detail': o[4][:4000]} for o in new],
        'wall_s': round(time.time() - t0, 2),
    }
    for o in C.obs:
        ev['coverage']['rules'][o[0]] = ev['coverage']['rules'].get(o[0], 0) + 1
    if err:
        ev['coverage']['analysis_error'] = err
    edir = os.path.join(HERE, 'evidence' if db.REPO == '/repo' else 'build')
    os.makedirs(edir, exist_ok=True)
    with open(os.path.join(edir, id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d violated, %.1f s' % (id, len(C.obs), len(bad), time.time() - t0))
    if new:
        rep = os.path.join(HERE, 'build', 'report-%s%s.txt' % (id, '' if db.REPO == '/repo' else '-dev'))
        os.makedirs(os.path.dirname(rep), exist_ok=True)
        with open(rep, 'w') as f:
            for o in new:
                f.write('%s: %s\n  instance: %s\n  %s\n' % (o[2], o[0], o[1], o[4]))
        for o in new[:8]:
            print('  %s: %s: %s\n      %s' % (o[2], o[0], o[1], o[4][:500].replace('\n', '\n      ')))
        print('VIOLATION property=%s replay=%s' % (id, rep))
        rc = 1
    if err:
        print('ANALYSIS-ERROR property=%s %s' % (id, err))
        if not new:
            rc = 2
    RC[0] = rc


RC = [2]
if __name__ == '__main__':
    t = threading.Thread(target=main)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(RC[0])
