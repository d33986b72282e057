"""Value-flow rule: for every robust problem, every constructor, every selectable
algorithm and a range of camera layouts, the requested sample size is evaluated
from the constructed object, and hypothesis generation is reduced to a value graph
on a sample of exactly that size. The solver of the selected algorithm must be
the one called, be handed at least the number of correspondences it demands, and
no position beyond the sample may be read."""
from hypo import *
import M03
import S11
MIN_OBLIGATIONS = 120
ASSUMPTIONS = ['camera layouts from one to five frames and every starting frame are enumerated']
SOLVER = {'TWOPT': 'p2p', 'KNEIP': 'p3p_kneip', 'GAO': 'p3p_gao', 'EPNP': 'epnp', 'GP3P': 'gp3p', 'STEWENIUS': 'fivept_stewenius',
          'NISTER': 'fivept_nister', 'SEVENPT': 'sevenpt', 'EIGHTPT': 'eightpt', 'SIXPT': 'sixpt', 'GE': 'ge', 'SEVENTEENPT': 'seventeenpt'}
NEED = {k: v for t in M03.NEED.values() for k, v in t.items()}
CONFIGURED = ('::EigensolverSacProblem', '::MultiCentralRelativePoseSacProblem')


def run(C):
    D = load()
    for t, (rec, multi) in sorted(problem_classes(D).items(), key=lambda x: x[1][0]['q']):
        algs, bl = S11.algorithms(D, rec)
        if algs[0][0] is not None:
            for nm, _ in algs:
                C.ob('known-algorithm', '%s %s' % (rec['q'], nm), '%s:%s' % (rec['file'], rec['line']), nm in SOLVER, 'no solver is known for this selectable algorithm')
        for an, av in algs:
            if an is not None and an not in SOLVER:
                continue
            for b in bl:
                shapes = [(f, k) for f in range(1, 6) for k in range(f)] if multi else [(2, 0)]
                for fr, start in shapes:
                    one(C, D, t, rec, multi, an, av, b, fr, start)


def one(C, D, t, rec, multi, an, av, b, fr, start):
    name = S11.label(rec, an, b, multi, fr, start)
    conf = any(rec['q'].endswith(x) for x in CONFIGURED)
    want = 11
    s = Scenario(D, t, alg=av, central=b, frames=fr, start=start, size=want)
    f = overrider(D, t, 'getSampleSizes' if multi else 'getSampleSize')
    sizes = set()
    for c, e in s.constructors:
        inst = '%s, constructor with %d parameters' % (name, len(c['params']))
        if not C.ob('constructible', inst, loc(c), e is not None, 'no setting of the constructor gives this configuration'):
            return
        s.env = e
        z = s.sample_sizes()
        if not C.ob('size-determined', inst, loc(f), z is not None, 'the sample size is not determined by the configuration'):
            return
        sizes.add(tuple(z) if multi else z)
    C.ob('one-size', name, loc(f), len(sizes) == 1, 'constructors disagree on the sample size: %s' % sorted(sizes))
    z = s.sizes
    if conf:
        ok = all(x == want for x in z) if multi else z == want
        C.ob('configured-size', name, loc(f), ok, 'the configured sample size %d is not the one requested (%s)' % (want, z))
    if multi:
        C.ob('per-frame', name, loc(f), len(z) == fr and min(z) >= 0, 'sample sizes %s for %d frames' % (z, fr))
    # positions beyond the sample stay visible as elements that do not exist
    bad = []

    def watch(vg, e, d, base, args, frm, st):
        if base is not None and d.get('virt') and d.get('const') and is_adapter_class(vg.db, d.get('clsT')):
            for a in args:
                x = vg.rv(a, frm, st)
                for y in S11.nodes_of(x):
                    if outside(y):
                        bad.append('%s(%s) at line %s' % (d['n'], show(y, 2)[-12:], e.get('l')))
        return NotImplemented
    s.extra = watch
    try:
        s.hypothesis(2)
    finally:
        s.extra = None
    C.vg(s.g)
    where = loc(s.f)
    names = [c.name for c in s.calls]
    if an is None:
        okn = len(names) > 0
    elif b:
        okn = bool(names) and set(names) <= S11.ESSENTIAL | {'p3p_kneip', 'p3p_gao', 'epnp'}
    else:
        okn = set(names) == {SOLVER[an]}
    C.ob('selected-solver', name, where, okn, 'the selection runs %s' % (', '.join(names) or 'no solver'))
    for c in s.calls:
        n = min((len(x.a[0]) for x in c.idx), default=None)
        if n is None:
            n = len([x for x in c.args[1:] if isinstance(x, N) and x in s.flat])
        need = NEED.get(c.name)
        C.ob('enough', '%s, %s' % (name, c.name), where, need is not None and n >= need, '%s demands %s correspondences and gets %s' % (c.name, need, n))
        for x in c.idx:
            for y in x.a[0]:
                if y not in s.flat:
                    bad.append('%s is given position %s' % (c.name, show(y, 2)[-12:]))
    for x in S11.nodes_of(s.out, s.flag):
        if outside(x):
            bad.append(show(x, 2)[-20:])
    C.ob('within-sample', name, where, not bad, 'reads beyond the sample of %s: %s' % (z, '; '.join(sorted(set(bad))[:4])))


def outside(y):
    if y.op == 'oob':
        return True
    return y.op == 'el' and isinstance(y.a[0], N) and y.a[0].op == 'tup' and is_num(y.a[1]) and not 0 <= val(y.a[1]) < len(y.a[0].a[0])
