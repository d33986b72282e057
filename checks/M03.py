"""Path rule on value graphs: every public solver overload is reduced to a value
graph, with the guard under which each correspondence is first read. That
guard must contain a check that bounds the number of correspondences from below
by the solver's documented minimum (an equality counts), every fixed position
read must lie below that bound, and loop positions must be bounded by the number
of correspondences or by a constant below that bound."""
from resid import *
import M01
MIN_OBLIGATIONS = 45
ASSUMPTIONS = ['the library is built with assertions, as its default build does']
NEED = {'absolute_pose': {'p2p': 2, 'p3p_kneip': 3, 'p3p_gao': 3, 'gp3p': 3, 'epnp': 6, 'gpnp': 6, 'upnp': 3},
        'relative_pose': {'twopt': 2, 'twopt_rotationOnly': 2, 'rotationOnly': 3, 'fivept_stewenius': 5, 'fivept_nister': 5, 'fivept_kneip': 5,
                          'sevenpt': 7, 'eightpt': 8, 'eigensolver': 5, 'sixpt': 6, 'ge': 6, 'seventeenpt': 17},
        'point_cloud': {'threept_arun': 3}}


def lower_bound(guard, n):
    """largest k with guard => n >= k (by its conjuncts)"""
    lo = 0
    for c in conjuncts(guard):
        if c.op == 'lt' and c.a[1] is n and is_num(c.a[0]):
            lo = max(lo, int(val(c.a[0])) + 1)
        elif c.op == 'le' and c.a[1] is n and is_num(c.a[0]):
            lo = max(lo, int(val(c.a[0])))
        elif c.op == 'not' and c.a[0].op in ('lt', 'le') and c.a[0].a[0] is n and is_num(c.a[0].a[1]):
            lo = max(lo, int(val(c.a[0].a[1])) + (c.a[0].op == 'le'))
        elif c.op == 'eq' and n in c.a:
            o = c.a[0] if c.a[1] is n else c.a[1]
            if is_num(o):
                lo = max(lo, int(val(o)))
        else:
            # a linear condition on n alone, e.g. 0 < n - 5
            k = linear_bound(c, n)
            lo = max(lo, k)
    return lo


def linear_bound(c, n):
    if c.op not in ('lt', 'le'):
        return 0
    d = sub(c.a[1], c.a[0])
    r = sub(d, n)
    if is_num(r):
        k = -val(r)                       # n - k > 0 or >= 0
        return int(k) + 1 if c.op == 'lt' else int(k)
    return 0


def known(vg, st):
    """what is known where st is: its guard and the assertions passed before"""
    mine = set(conjuncts(st.guard))
    g = st.guard
    for e in vg.events:
        if e.kind == 'assert' and set(conjuncts(e.guard)) - {TRUE} <= mine:
            g = band(g, e.data)
    return g


def conjuncts(g):
    if g.op == 'and':
        return [y for x in g.a[0] for y in conjuncts(x)]
    return [g]


def below(x, n, lb):
    """x < n, given n >= lb"""
    d = sub(x, n)
    return is_num(d) and val(d) < 0 or is_num(x) and val(x) < lb


def at_most(x, n, lb):
    return below(sub(x, ONE), n, lb)


def nonneg(x, n, lb):
    d = sub(x, n)
    return is_num(x) and val(x) >= 0 or is_num(d) and val(d) + lb >= 0


def in_range(p, n, lb, guard, steps):
    """0 <= p < n, given n >= lb, the guard and the loops' step rules"""
    if below(p, n, lb) and nonneg(p, n, lb):
        return True
    mus = [mu for mu in steps if is_num(sub(p, mu))]
    for mu in mus:
        c = sub(p, mu)
        if not is_num(c):
            continue
        L, entry, back = steps[mu]
        step = sub(back, mu)
        if not is_num(step):
            continue
        facts = conjuncts(guard) + conjuncts(L.cond)
        first = add(entry, c)
        if val(step) > 0:
            lo = nonneg(first, n, lb)
            hi = any(x.op == 'lt' and x.a[0] is mu and at_most(add(x.a[1], c), n, lb) or
                     x.op == 'le' and x.a[0] is mu and below(add(x.a[1], c), n, lb) or
                     val(step) == 1 and x.op == 'not' and x.a[0].op == 'eq' and mu in x.a[0].a and
                     any(y is not mu and at_most(add(y, c), n, lb) and at_most(entry, n, lb) for y in x.a[0].a) for x in facts)
        else:
            hi = below(first, n, lb)
            lo = any(x.op == 'lt' and x.a[1] is mu and is_num(x.a[0]) and val(x.a[0]) + 1 + val(c) >= 0 or
                     x.op == 'le' and x.a[1] is mu and is_num(x.a[0]) and val(x.a[0]) + val(c) >= 0 or
                     val(step) == -1 and x.op == 'not' and x.a[0].op == 'eq' and mu in x.a[0].a and
                     any(y is not mu and is_num(y) and val(y) + 1 + val(c) >= 0 and nonneg(sub(entry, y), n, lb) for y in x.a[0].a) for x in facts)
        if lo and hi:
            return True
    return False


def run(C):
    D = load()
    for ns, table in NEED.items():
        for name, need in table.items():
            q = 'opengv::%s::%s' % (ns, name)
            fs = [f for f in D.functions(q) if not any('opengv::Indices' in param_ts(f, i) for i in range(len(f['params'])))]
            fs = [f for f in fs if not isinstance(M01.shape(f)[0], int)]
            if not fs:
                raise AnalysisError('%s: no public overload with a list or over all correspondences' % q)
            for f in fs:
                one(C, D, '%s::%s' % (ns, name), f, need)


def one(C, D, nm, f, need):
    kind, idx, outs = M01.shape(f)
    adapter = mk('par', f['params'][0]['n'])
    n = size(idx) if idx is not None else acc('getNumberCorrespondences', adapter)
    reads = []

    def ic(vg, e, d, base, args, fr, st):
        if base is not None and d.get('virt') and d['n'] in M01.DATA and is_adapter_class(vg.db, d.get('clsT')):
            xs = [vg.rv(a, fr, st) for a in args]
            reads.append((d['n'], xs, known(vg, st), fr.f if hasattr(fr, 'f') else None, e.get('l')))
        return NotImplemented
    g = make_vg(D, inline=M01.heavy, intercepts=[ic])
    g.run(f)
    C.vg(g)
    inst = '%s (%s)' % (nm, kind)
    if not C.ob('reads', inst, loc(f), len(reads) > 0, 'the solver reads no correspondence'):
        return
    low = min(lower_bound(r[2], n) for r in reads)
    C.ob('minimum-checked', inst, loc(f), low >= need,
         'correspondences are read where only %d are known to be there, the algorithm needs %d' % (low, need))
    C.count('reads', len(reads))
    trips = {L.iv[0]: L.iv[1:3] for L in g.loops.values() if L.iv is not None}
    steps = {mu: (L, entry, back) for L in g.loops.values() for lv, mu, entry, back in L.vars}
    bad = []
    for nme, xs, gd, _, line in reads:
        for x in xs:
            p = x.a[1] if idx is not None and x.op == 'el' and x.a[0] is idx else x if idx is None else None
            if p is None:
                bad.append('%s(%s)' % (nme, show(x, 4)))
                continue
            lb = lower_bound(gd, n)
            ok = in_range(p, n, lb, gd, steps) or p in trips and nonneg(trips[p][0], n, lb) and at_most(trips[p][1], n, lb) or \
                any(c.op == 'lt' and c.a[0] is p and at_most(c.a[1], n, lb) for c in conjuncts(gd))
            if not ok:
                bad.append('%s(%s)' % (nme, show(x, 4)))
    C.ob('positions-bounded', inst, loc(f), not bad, 'correspondences read beyond the checked number: ' + '; '.join(sorted(set(bad))[:4]))
