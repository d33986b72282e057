"""One run of a robust estimator as a transition system: the four problem
queries become uninterpreted values, everything else is the estimator's code."""
from resid import *
import nodes as _n

INTMAX = num(2147483647)


class Queries:
    """intercepts the calls a run makes on its problem"""

    def __init__(self):
        self.draws, self.hyps, self.counts, self.selects, self.dists = [], [], [], [], []

    def __call__(self, vg, e, d, base, args, fr, st):
        n, ct = d['n'], d.get('clsT') or ''
        if not (ct.startswith(SINGLE + '<') or ct.startswith(MULTI + '<') or ct.startswith(P)):
            return NotImplemented
        if n == 'getSamples':
            it, s = vg.ev(args[0], fr, st), vg.ev(args[1], fr, st)
            k = len(self.draws)
            smp, few = mk('sample', k), mk('toofew', k)
            few.meta = 'b'
            self.draws.append((smp, few, st.guard, e.get('l')))
            vg.write(st, s, smp)
            vg.write(st, it, ite(few, INTMAX, vg.read(st, it)))
            return None
        if n == 'computeModelCoefficients':
            s = vg.rv(args[0], fr, st)
            m = vg.ev(args[1], fr, st)
            h, v = mk('hyp', s), mk('valid', s)
            v.meta = 'b'
            self.hyps.append((h, v, s, st.guard, e.get('l')))
            vg.write(st, m, h)
            return v
        if n == 'countWithinDistance':
            m, t = vg.rv(args[0], fr, st), vg.rv(args[1], fr, st)
            c = mk('count', m, t)
            c.meta = 'i'
            self.counts.append((c, m, t, st.guard, e.get('l')))
            return c
        if n == 'selectWithinDistance':
            m, t = vg.rv(args[0], fr, st), vg.rv(args[1], fr, st)
            o = vg.ev(args[2], fr, st)
            x = mk('selected', m, t)
            self.selects.append((x, m, t, st.guard, e.get('l')))
            vg.write(st, o, x)
            return None
        if n == 'getDistancesToModel':
            m = vg.rv(args[0], fr, st)
            o = vg.ev(args[1], fr, st)
            x = mk('resid', m, mk('deref', mk('indicesptr')))
            self.dists.append((x, m, vg.read(st, o), st.guard, e.get('l')))
            vg.write(st, o, cat(vg.read(st, o), x))
            return None
        if n == 'getIndices':
            return mk('indicesptr')
        return NotImplemented


PUBLIC = ('model_', 'model_coefficients_', 'inliers_', 'iterations_', 'max_iterations_', 'threshold_', 'probability_')
ESTIMATORS = ('Ransac', 'MultiRansac', 'Lmeds')


def runs(D):
    out = []
    for f in D.fn.values():
        if f['n'] == 'computeModel' and f.get('body') and any((f.get('clsT') or '').startswith(SAC + n + '<') for n in ESTIMATORS):
            out.append(f)
    return sorted(out, key=lambda f: f['clsT'])


def atom_of(vals, prio):
    """the undecided boolean atom of a guard or conditional value to split on first"""
    seen = set()
    st = list(vals)
    best = None
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ('not', 'and'):
            st.extend(children(x))
            continue
        p = prio(x)
        if p is not None:
            k = (p, x.id)
            if best is None or k < best[0]:
                best = (k, x)
        st.extend(children(x))
    return best and best[1]


def freebv(n, memo):
    """bound variables that occur free in n"""
    if n in memo:
        return memo[n]
    r = frozenset()
    if n.op == 'bv':
        r = frozenset((n,))
    else:
        for c in children(n):
            r |= freebv(c, memo)
        if n.op in ('map', 'fmap', 'sum', 'mapst', 'catloop', 'any', 'all'):
            r -= {c for c in n.a if getattr(c, 'op', None) == 'bv'}
    memo[n] = r
    return r


def split(vals, want, consistent, asg=()):
    """all cases of the boolean atoms selected by want: [(assignment, values)]"""
    a = atom_of(vals.values(), want)
    if a is None:
        return [(dict(asg), vals)]
    out = []
    for t in (TRUE, FALSE):
        asg2 = asg + ((a, t is TRUE),)
        if not consistent(dict(asg2)):
            continue
        out += split({k: subst(v, {a: t}) for k, v in vals.items()}, want, consistent, asg2)
    return out


class Case:
    pass


class Run:
    """symbolic transition system of one computeModel"""

    def __init__(self, D, f):
        self.D, self.f = D, f
        self.name = f['clsT'].replace('opengv::', '').replace('sac_problems::', '')
        self.kind = f['clsT'][len(SAC):].split('<')[0]
        self.q = Queries()
        self.g = make_vg(D, intercepts=[self.q])
        self.ret, self.st, self.fr = self.g.run(f)
        if isinstance(self.ret, LV):
            self.ret = self.g.read(self.st, self.ret)
        g = self.g
        tops = []
        for i, L in g.loops.items():
            txt = [b for _, _, _, b in L.vars] + [x[0] for x in L.breaks]
            if any(n.op == 'sample' for n in nodes(*txt)) and L.cond is not None:
                tops.append(i)
        tops = [i for i in tops if not (set(g.loopanc.get(i, ())) & set(tops))]
        if len(tops) != 1:
            raise AnalysisError('%s: expected one sampling loop, found %d' % (self.name, len(tops)))
        self.L = L = g.loops[tops[0]]
        if L.returns:
            raise AnalysisError('%s: returns from inside the sampling loop are not analysed' % self.name)
        smp = {n for n in nodes(*([b for _, _, _, b in L.vars] + [x[0] for x in L.breaks])) if n.op == 'sample'}
        self.samples = smp
        self.vars = {}
        for lv, mu, e, b in L.vars:
            self.vars[(lv.root, lv.path)] = (lv, mu, e, b)
        # which breaks come before the sample is drawn: they belong to the header
        pre = [x for x in L.breaks if not any(n.op in ('sample', 'toofew', 'valid', 'hyp') for n in nodes(x[0]))]
        self.brk = [x for x in L.breaks if x not in pre]
        self.pre = pre
        self.H = band(L.cond, *[bnot(x[0]) for x in pre])

    def field_key(self, n):
        for (r, p) in self.vars:
            if r == ('obj', mk('par', 'this')) and len(p) == 1 and p[0][1] == n:
                return (r, p)
        return None

    def final(self, n):
        return self.g.read(self.st, LV(('obj', mk('par', 'this')), (('f', n, ''),)))

    def cases(self):
        """the passes of the sampling loop by outcome of the queries"""
        L = self.L
        vals = {'cont': L.back_guard}
        for k, (lv, mu, e, b) in self.vars.items():
            vals[('back', k)] = b
        for j, (gd, env) in enumerate(self.brk):
            vals[('brk', j)] = gd
            for k, (lv, mu, e, b) in self.vars.items():
                vals[('bval', j, k)] = self.g.read(State(dict(env), TRUE), LV(k[0], k[1], lv.ts))
        hy = {}
        for c in (self.H.a[0] if self.H.op == 'and' else (self.H,)):
            hy[c] = TRUE
            hy[bnot(c)] = FALSE
        # facts that hold whenever the loop is reached
        for c in (L.g0.a[0] if L.g0.op == 'and' else (L.g0,)):
            hy[c] = TRUE
            hy[bnot(c)] = FALSE
            if c.op == 'not':
                hy[c.a[0]] = FALSE
        vals = {k: subst(v, hy) for k, v in vals.items()}

        fb = {}

        def want(a):
            if a.op == 'toofew':
                return 0
            if a.op == 'valid':
                return 2
            if a.op in ('eq', 'lt', 'le'):
                ns = nodes(a)
                ops = {n.op for n in ns}
                if 'bv' in ops and freebv(a, fb) or 'mod' in ops and a.op == 'eq':
                    return None
                if budget(ns):
                    return None
                if ops & {'count', 'hyp', 'resid', 'selected'}:
                    return 4
                if 'sample' in ops:
                    return 1
                if 'indicesptr' in ops:
                    return 3
            return None

        def budget(ns):
            return any(n.op == 'fld' and n.a[-1] == 'max_iterations_' for n in ns) or any(n.op == 'fn' and n.a[0] == 'log' for n in ns)

        def consistent(asg):
            few = [a for a, t in asg.items() if a.op == 'toofew' and t]
            empt = {a: t for a, t in asg.items() if a.op == 'eq' and any(c.op == 'size' and c.a[0].op == 'sample' for c in a.a)}
            if few and any(not t for t in empt.values()):
                return False
            if any(a.op == 'valid' for a in asg) and any(empt.values()):
                return True
            return True
        out = []
        for asg, v in split(vals, want, consistent):
            c = Case()
            c.asg = asg
            c.v = v
            c.empty = any(t for a, t in asg.items() if a.op == 'eq' and any(y.op == 'size' and y.a[0].op == 'sample' for y in a.a))
            vs = [t for a, t in asg.items() if a.op == 'valid']
            c.valid = vs[0] if vs else None
            c.few = any(t for a, t in asg.items() if a.op == 'toofew')
            c.exits = [j for j in range(len(self.brk)) if v[('brk', j)] is TRUE]
            c.maybe = [j for j in range(len(self.brk)) if v[('brk', j)] not in (TRUE, FALSE)]
            out.append(c)
        return out

    def ends(self, c):
        """possible ends of a pass: (what, guard, value of a carried variable)"""
        r = []
        if not c.exits:
            r.append(('next', c.v['cont'], lambda k: c.v[('back', k)]))
        for j in c.exits + c.maybe:
            r.append(('exit', c.v[('brk', j)], lambda k, j=j: c.v[('bval', j, k)]))
        return r


def lits(c):
    """conjuncts of a guard"""
    if c is TRUE:
        return []
    return list(c.a[0]) if c.op == 'and' else [c]


def intlit(c):
    """integer comparison in the form 0 < d, or None"""
    neg_ = c.op == 'not'
    x = c.a[0] if neg_ else c
    if x.op == 'lt':
        d = sub(x.a[1], x.a[0])
        return add(neg(d), ONE) if neg_ else d
    if x.op == 'le':
        d = sub(x.a[1], x.a[0])
        return neg(d) if neg_ else add(d, ONE)
    return None


def implies_int(cs, want):
    """one of the literals cs is at least as strong as 0 < want (same up to a constant)"""
    for c in cs:
        d = intlit(c)
        if d is None:
            continue
        k = sub(want, d)
        if is_num(k) and val(k) >= 0:
            return True
    return False


def facts(c):
    """substitution that makes the conjuncts of a guard true"""
    hy = {}
    for x in lits(c):
        hy[x] = TRUE
        hy[bnot(x)] = FALSE
    return hy


def continuation(R, c):
    """condition under which the pass of this case is followed by another one,
    in terms of the state at its start (whose header condition is assumed)"""
    nb = bnot(bor(*[c.v[('brk', j)] for j in range(len(R.brk))])) if R.brk else TRUE
    nxt = subst(R.H, {mu: c.v[('back', k)] for k, (lv, mu, e, b) in R.vars.items()})
    return subst(band(nb, nxt), facts(R.H)), nxt
