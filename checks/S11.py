"""Value-flow rule: hypothesis generation of every robust problem is reduced to a value
graph for each selectable algorithm, each number of solver candidates up
to a bound and each shape of multi-camera sample considered. Solver results,
decompositions and triangulations stay uninterpreted. The model and flag left
behind must be, under an interpretation of scores that decides comparisons only
through a chosen ranking of the candidates' defining scores, the candidate that
ranks first (or an invalid flag when there is no candidate); every correspondence
read must be a member of the sample; a pose prior that hypotheses start from is the
same after a hypothesis and after scoring."""
from hypo import *
from rand import RI, Mat, H, P as PR, inv_, mmul, tr, det, as_mat
from fractions import Fraction
import itertools

MIN_OBLIGATIONS = 100
ASSUMPTIONS = ['models scored during a run are hypotheses of that run', 'results of solvers, matrix decompositions and eigenvector computations are uninterpreted',
               'a problem used as central has one camera per view, so its extrinsics do not depend on the correspondence']
BODY = {'p3p_kneip', 'p3p_gao', 'epnp'}
ESSENTIAL = {'fivept_nister', 'fivept_stewenius', 'sevenpt', 'eightpt'}
WHOLE = {'gp3p', 'seventeenpt', 'twopt_rotationOnly', 'threept_arun', 'rotationOnly', 'upnp', 'gpnp'}
CAM = {'getCamOffset': ('off', 1), 'getCamRotation': ('rot', 1), 'getCamOffset1': ('off', 1), 'getCamRotation1': ('rot', 1),
       'getCamOffset2': ('off', 2), 'getCamRotation2': ('rot', 2), 'getMultiCamOffset': ('off', 0), 'getMultiCamRotation': ('rot', 0)}


class Ranked(RI):
    """comparisons are decided by a ranking of given score values, up to a common
    positive or negative factor and an offset; unknown comparisons are arbitrary
    but consistent"""

    def __init__(self, seed, scores, order):
        RI.__init__(self, seed)
        self.scores = scores
        self.sg = {}
        ks = [Fraction(p, q) for p in (1, 2, 3, 4) for q in (1, 2, 3, 4, 8, 9)]
        self.kv = [(k.numerator * inv_(k.denominator) * s % PR, s > 0) for k in ks for s in (1, -1)]
        for a, b in itertools.permutations(range(len(scores)), 2):
            d = (scores[a] - scores[b]) % PR
            s = 1 if order[a] > order[b] else -1
            for k in ks:
                kv = k.numerator * inv_(k.denominator) % PR
                self.sg[kv * d % PR] = s
                self.sg[(PR - kv) * d % PR] = -s

    def sign(self, d):
        d %= PR
        if d == 0:
            return 0
        for x, s in ((d, 1), (PR - d, -1)):
            if x < 1 << 26:
                return s
        if d in self.sg:
            return self.sg[d]
        for e in self.scores:
            for kv, pos in self.kv:
                c = (d - kv * e) % PR
                if c == 0:
                    return 1 if pos else -1
                for x, s in ((c, 1), (PR - c, -1)):
                    if 100 <= x < 1 << 26:
                        return s
        return 1 if H('sign', self.seed, min(d, PR - d)) % 2 == (d < PR - d) else -1

    def ev_(self, n):
        op, a = n.op, n.a
        if op in ('lt', 'le'):
            s = self.sign(self.sc(a[1]) - self.sc(a[0]))
            return int(s > 0 or s == 0 and op == 'le')
        if op == 'eq':
            x, y = self.ev(a[0]), self.ev(a[1])
            return int(x == y)
        if op == 'ite':
            return self.ev(a[1] if self.sc(a[0]) else a[2])
        if op == 'el' and isinstance(a[1], N):
            v, k = a[0], self.sc(a[1])
            while v.op == 'ite':
                v = v.a[1] if self.sc(v.a[0]) else v.a[2]
            if v.op == 'tup':
                return self.ev(v.a[0][k]) if 0 <= k < len(v.a[0]) else H('outside', k)
        if op == 'and':
            return int(all(self.sc(x) for x in a[0]))
        if op == 'or':
            return int(any(self.sc(x) for x in a[0]))
        if op == 'fn' and len(a) == 3 and str(a[0]).split('::')[-1] in ('min', 'max', 'fmin', 'fmax'):
            x, y = self.sc(a[1]), self.sc(a[2])
            s = self.sign(x - y)
            return (x if s <= 0 else y) if 'min' in a[0] else (x if s >= 0 else y)
        return RI.ev_(self, n)


def nodes_of(*roots):
    seen, st = set(), [r for r in roots if isinstance(r, N)]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        todo = list(x.a)
        while todo:
            y = todo.pop()
            if isinstance(y, N):
                st.append(y)
            elif isinstance(y, tuple):
                todo.extend(y)
    return seen


def cam(kind, role):
    x = mk('cam', kind, role)
    x.dim = (3, 1) if kind == 'off' else (3, 3)
    if kind == 'rot':
        rot(x)
    return x


def pose(R, t):
    return ('pose', R, t)


def pose_value(ri, p, dim):
    R, t = ri.mat(p[1], (3, 3)), ri.mat(p[2], (3, 1))
    return Mat(3, 4, [R.v[3 * i + j] if j < 3 else t.v[i] for i in range(3) for j in range(4)])


def algorithms(D, rec):
    en = [x['ts'] for x in rec['fields'] if x['ts'] in D.enums]
    algs = [(e['n'], e['v']) for e in D.enums[en[0]]['e']] if en else [(None, None)]
    bl = (False, True) if any(x['ts'] == 'bool' for x in rec['fields']) else (None,)
    return algs, bl


class Work:
    def __init__(self, C, D, s, name):
        self.C, self.D, self.s, self.name = C, D, s, name
        self.tri = {}

    # --- candidate poses for a call, as nodes; None: not covered by this rule
    def candidates(self, ncand, ri):
        s, c = self.s, self.s.calls[0]
        res = list(c.res.a[0]) if c.res.op == 'tup' else [c.res]
        if c.name in BODY:
            R, t = cam('rot', 1), cam('off', 1)
            return [pose(mm(block3(x), T(R)), mi(col3(x), mm(mm(block3(x), T(R)), t))) for x in res]
        if c.name in WHOLE:
            return [('whole', x) for x in res]
        if c.name == 'p2p':
            R = c.prior['getR']
            return [pose(mm(R, T(cam('rot', 1))), mi(x, mm(mm(R, T(cam('rot', 1))), cam('off', 1)))) for x in res]
        if c.name == 'twopt':
            return [pose(c.prior['getR12'], x) for x in res]
        if c.name == 'ge':
            o = c.outs[0]
            R, t = sel_field(o, 'rotation'), sel_field(o, 'translation')
            R.dim, t.dim = (3, 3), (4, 1)
            return [pose(R, region(t, 0, 0, 3, 1))]
        if c.name == 'eigensolver':
            return [('whole', c.outs[0])]
        if c.name in ESSENTIAL:
            return [y for x in res for y in self.decompose(x, c.name, ri)]
        if c.name == 'sixpt':
            return [self.sixpt(x, ri) for x in res]
        return None

    def decompose(self, E, name, ri):
        """the four poses an essential matrix stands for"""
        want = ri.mat(E, (3, 3)) if name != 'fivept_stewenius' else Mat(3, 3, [ri.sc(self.real(E, i, j)) for i in range(3) for j in range(3)])
        sv = None
        for x in self.all:
            if x.op == 'ctor' and 'SVD' in str(x.a[0]):
                v = ri.ev(x.a[1])
                if isinstance(v, Mat) and v.r == 3 and v.v == want.v:
                    sv = x
        if sv is None:
            return [None] * 4
        U, V, S = (next((x for x in self.all if x.op in ('fn', 'call') and str(x.a[0]) == k and x.a[1] is sv), None) for k in ('.matrixU', '.matrixV', '.singularValues'))
        if U is None or V is None or S is None:
            return [None] * 4
        W = Mat(3, 3, [0, PR - 1, 0, 1, 0, 0, 0, 0, 1])
        u, v = ri.mat(U, (3, 3)), ri.mat(V, (3, 3))
        out = []
        sc = ri.mat(S, (3, 1)).v[0]
        t = Mat(3, 1, [sc * u.v[3 * i + 2] % PR for i in range(3)])
        mt = Mat(3, 1, [(PR - x) % PR for x in t.v])
        for w in (W, tr(W)):
            R = mmul(mmul(u, w), tr(v))
            if ri.sign(det(R)) < 0:
                R = Mat(3, 3, [(PR - x) % PR for x in R.v])
            out += [('value', R, t), ('value', R, mt)]
        return out

    def real(self, E, i, j):
        for x in self.all:
            if x.op == 'call' and str(x.a[0]).split('::')[-1].lstrip('.') == 'real' or x.op == 'fn' and str(x.a[0]).split('::')[-1].lstrip('.') == 'real':
                y = x.a[1]
                if y.op == 'blk' and y.a[0] is E and [val(z) if isinstance(z, N) else z for z in y.a[1:3]] == [i, j]:
                    return x
        return ZERO

    def sixpt(self, R, ri):
        """translation that best satisfies the epipolar constraints of the six
        correspondences under rotation R: null direction of sum g g^T"""
        s = self.s
        rv = ri.mat(R, (3, 3))

        def lin(*ts):
            return ri.lin([(c % PR, m) for c, m in ts])

        def skew(v):
            x, y, z = v.v
            return Mat(3, 3, [0, PR - z, y, z, 0, PR - x, PR - y, x, 0])
        G = None
        for i in s.calls[0].idx[0].a[0]:
            A = [ri.mat(acc(n, s.adapter, i)) for n in ('getCamRotation1', 'getBearingVector1', 'getCamRotation2', 'getBearingVector2', 'getCamOffset1', 'getCamOffset2')]
            f1, f2 = mmul(A[0], A[1]), mmul(A[2], A[3])
            a = mmul(skew(f1), mmul(rv, f2))
            m = lin((1, mmul(skew(A[4]), rv)), (-1, mmul(rv, skew(A[5]))))
            g = Mat(4, 1, a.v + mmul(tr(f1), mmul(m, f2)).v)
            gg = mmul(g, tr(g))
            G = gg if G is None else lin((1, G), (1, gg))
        for x in self.all:
            if x.op not in ('fn', 'call'):
                continue
            nm = str(x.a[0])
            col = {'.eigenvectors': 0, '.matrixV': 3, '.matrixU': 3}.get(nm)
            if col is None or x.a[1].op != 'ctor':
                continue
            cn = str(x.a[1].a[0])
            if not ('SelfAdjointEigenSolver' in cn and col == 0 or 'SVD' in cn and col == 3):
                continue
            v = ri.ev(x.a[1].a[1])
            if not isinstance(v, Mat) or v.r != 4 or not same_ray(v.v, G.v):
                continue
            V = ri.mat(x, (4, 4))
            k = inv_(V.v[12 + col])
            return ('value', rv, Mat(3, 1, [V.v[4 * i + col] * k % PR for i in range(3)]))
        return None

    # --- scores
    def score(self, cand, ri, kind):
        s = self.s
        if kind == 'absolute':
            i = s.flat[3]
            f, p = acc('getBearingVector', s.adapter, i), acc('getPoint', s.adapter, i)
            o, r = self.extr(i, '', ri)
            R, t = self.rt(cand, ri)
            return self.absolute(ri, ri.mat(f, (3, 1)), ri.mat(p, (3, 1)), ri.mat(o, (3, 1)), ri.mat(r, (3, 3)), R, t)
        R, t = self.rt(cand, ri)
        tot = 0
        for i in (s.flat if kind == 'central' else [x for x in s.flat if x not in s.calls[0].idx[0].a[0]]):
            Rd, td = R, t
            if kind != 'central':
                A = {n: ri.mat(acc(n, s.adapter, i)) for n in ('getCamRotation1', 'getCamRotation2', 'getCamOffset1', 'getCamOffset2')}
                Rd = mmul(mmul(tr(A['getCamRotation1']), R), A['getCamRotation2'])
                x = ri.lin([(1, t), (PR - 1, A['getCamOffset1']), (1, mmul(R, A['getCamOffset2']))])
                td = mmul(tr(A['getCamRotation1']), x)
            tot += self.relative(ri, i, Rd, td)
        return tot % PR

    def extr(self, i, role, ri):
        if self.single:
            return cam('off', 1), cam('rot', 1)
        return acc('getCamOffset', self.s.adapter, i), acc('getCamRotation', self.s.adapter, i)

    def rt(self, c, ri):
        if c[0] == 'value':
            return c[1], c[2]
        if c[0] == 'whole':
            m = ri.mat(c[1], (3, 4))
            return Mat(3, 3, [m.v[4 * i + j] for i in range(3) for j in range(3)]), Mat(3, 1, [m.v[4 * i + 3] for i in range(3)])
        return ri.mat(c[1], (3, 3)), ri.mat(c[2], (3, 1))

    def param(self, ri, m, tag):
        """a node that has the given value under ri"""
        x = mk('given', tag)
        x.dim = (m.r, m.c)
        ri.m[x] = m
        return x

    def absolute(self, ri, f, p, o, r, R, t):
        par = lambda m, k: self.param(ri, m, (self.name, k, ri.seed, tuple(m.v)))
        body = mm(T(par(R, 'R')), mi(par(p, 'p'), par(t, 't')))
        c = mm(T(par(r, 'r')), mi(body, par(o, 'o')))
        return ri.sc(mi(ONE, dot(par(f, 'f'), normalized(c))))

    def relative(self, ri, i, R, t):
        s = self.s
        if i not in self.tri:
            tn, Rn = mk('given', ('t', self.name, i)), mk('given', ('R', self.name, i))
            tn.dim, Rn.dim = (3, 1), (3, 3)
            f1, f2 = acc('getBearingVector1', s.adapter, i), acc('getBearingVector2', s.adapter, i)
            p = triangulated(self.D, s.adapter, i, tn, Rn)[0]
            self.tri[i] = (tn, Rn, relative_residual(f1, f2, p, tn, Rn))
        tn, Rn, e = self.tri[i]
        sub = Ranked(ri.seed, [], [])
        sub.m.update({k: v for k, v in ri.m.items() if k.op in ('acc', 'cam', 'par')})
        sub.m[tn], sub.m[Rn] = t, R
        return sub.sc(e)

    def final(self, cand, ri):
        """value of the model the caller gets for a candidate"""
        if cand[0] == 'whole' and not self.wrap:
            return ri.ev(cand[1])
        R, t = self.rt(cand, ri)
        if self.wrap:
            r1, o1 = ri.mat(cam('rot', 1)), ri.mat(cam('off', 1))
            r2, o2 = (r1, o1) if self.s.multi else (ri.mat(cam('rot', 2)), ri.mat(cam('off', 2)))
            R2 = mmul(mmul(r1, R), tr(r2))
            t = ri.lin([(1, o1), (1, mmul(r1, t)), (PR - 1, mmul(R2, o2))])
            R = R2
        return Mat(3, 4, [R.v[3 * i + j] if j < 3 else t.v[i] for i in range(3) for j in range(4)])


def same_ray(a, b):
    """equal up to a nonzero common factor"""
    k = None
    for x, y in zip(a, b):
        if (x == 0) != (y == 0):
            return False
        if x:
            r = x * inv_(y) % PR
            if k is None:
                k = r
            if r != k:
                return False
    return k is not None


def run(C):
    D = load()
    for t, (rec, multi) in sorted(problem_classes(D).items(), key=lambda x: x[1][0]['q']):
        algs, bl = algorithms(D, rec)
        for an, av in algs:
            for b in bl:
                shapes = [(1, 0), (2, 0), (2, 1), (3, 1), (4, 3)] if multi else [(2, 0)]
                for fr, start in shapes:
                    scenario(C, D, t, rec, multi, an, av, b, fr, start)


def label(rec, an, b, multi, fr, start):
    return rec['q'].split('::')[-1] + (' ' + an if an else '') + (' as central' if b else '') + (' %d frames from %d' % (fr, start) if multi else '')


def adapter_type(D, t):
    n, _ = adapter_field(D, t)
    return base_ts(next(x['ts'] for x in D.recT[t]['fields'] if x['n'] == n)).replace('const ', '')


def scoring_keeps(D, t, getter, copies):
    """does scoring leave the pose prior it found (copies: hypotheses carry that
    prior in their model, so writing back the model's rotation changes nothing)?"""
    f, g, st, model, *_ = run_scoring(D, t)
    _, node = adapter_field(D, t)
    a = LV(('obj', node), (), adapter_type(D, t))
    v, e = prior(g, st, a, None).get(getter), entry_prior(D, a, getter)
    return f, v is e or copies and (v is block3(model) or Ranked(1, [], []).ev(v) == Ranked(1, [], []).ev(block3(model)))


def entry_prior(D, a, getter):
    f = prior_getters(D, a.ts)[getter]
    g = make_vg(D)
    v, s, _ = g.run(f, this=a)
    return g.read(s, v) if isinstance(v, LV) else v


def scenario(C, D, t, rec, multi, an, av, b, fr, start):
    name = label(rec, an, b, multi, fr, start)
    s0 = Scenario(D, t, alg=av, central=b, frames=fr, start=start, size=10)
    if s0.env is None:
        C.ob('constructible', name, loc(overrider(D, t, 'computeModelCoefficients')), False, 'no constructor selects this configuration')
        return
    if not s0.sizes:
        C.ob('constructible', name, loc(overrider(D, t, 'computeModelCoefficients')), False, 'its sample size is not determined by its configuration')
        return
    for ncand in (0, 1, 2, 3):
        s = s0
        reads = []
        single = b or rec['q'].endswith('::AbsolutePoseSacProblem') and an not in ('GP3P',)

        def cams(vg, e, d, base, args, frm, st):
            if base is not None and d['n'].startswith('get') and d.get('virt') and d['n'] in CAM and is_adapter_class(vg.db, d.get('clsT')):
                xs = [vg.rv(a, frm, st) for a in args]
                if not (single and multi):
                    reads.append((d['n'], xs))
                if single:
                    k, r = CAM[d['n']]
                    return cam(k, 1 if multi else r or 1)
            elif base is not None and d.get('virt') and d.get('const') and d['n'] not in STATE and is_adapter_class(vg.db, d.get('clsT')) and args and \
                    d['n'] not in ('convertMultiIndex', 'convertMultiIndices', 'getNumberCorrespondences', 'multiFrameIndex', 'multiCorrespondenceIndex', 'multiPairIndex'):
                reads.append((d['n'], [vg.rv(a, frm, st) for a in args]))
            return NotImplemented
        s.extra = cams
        s.hypothesis(ncand)
        C.vg(s.g)
        where = loc(s.f)
        inst = '%s, %d candidates' % (name, ncand)
        if not s.calls:
            C.ob('solver', inst, where, False, 'no solver is called')
            return
        lists = s.calls[0].res.op == 'tup'
        if not lists and ncand != 1:
            continue
        if not lists:
            inst = name
        w = Work(C, D, s, name)
        w.single, w.wrap = single, bool(b) and s.calls[0].name in ESSENTIAL
        w.all = nodes_of(s.out, s.flag)
        c = s.calls[0]
        # sample only
        bad = []
        for c_ in s.calls:
            if not c_.idx and not any(x in s.flat for x in c_.args[1:] if isinstance(x, N)):
                bad.append('%s is not given members of the sample' % c_.name)
            for ix in c_.idx:
                if any(x not in s.flat for x in ix.a[0]) or len(set(ix.a[0])) != len(ix.a[0]):
                    bad.append('%s(%s)' % (c_.name, show(ix, 5)))
            if not (isinstance(c_.adapter, LV) and obj_of(s.g, c_.adapter, s.st) is s.adapter or c_.adapter is s.adapter):
                bad.append('%s works on another adapter' % c_.name)
        for n, xs in reads:
            if not any(x in s.flat for x in xs) and not (len(xs) == 2 and acc('convertMultiIndex', s.adapter, *xs) in s.flat):
                bad.append('%s(%s)' % (n, ', '.join(show(x, 4) for x in xs)))
        C.ob('sample-only', inst, where, not bad, 'uses data outside the sample: ' + '; '.join(sorted(set(bad))[:4]))
        bad = ['%s of the adapter is changed before %s uses it' % (k, x.name) for x in s.calls if x.name in ('p2p', 'twopt', 'eigensolver')
               for k, v in x.prior.items() if v is not s.entry_prior[k]]
        C.ob('prior', inst, where, not bad, '; '.join(bad[:3]))
        need = {'p2p': 'getR', 'twopt': 'getR12', 'eigensolver': 'getR12'}.get(c.name)
        if need:
            after = prior(s.g, s.st, LV(('obj', s.adapter), (), adapter_type(D, t)), None)
            ok = need in after and after[need] is s.entry_prior.get(need)
            C.ob('prior-kept', inst + ', hypothesis', where, ok, 'a hypothesis leaves another %s of the adapter than it found, which the next hypothesis starts from' % need)
            f, kept = scoring_keeps(D, t, need, c.name in ('p2p', 'twopt'))
            C.ob('prior-kept', inst + ', scoring', loc(f), kept, 'scoring leaves another %s of the adapter than it found, which the next hypothesis starts from' % need)
        if rec['q'].endswith('::MultiCentralRelativePoseSacProblem'):
            ri = Ranked(1, [], [])
            mine = any(x.op in ('sol', 'solout') for x in nodes_of(s.out))
            if fr == 2 and start == 0:
                C.ob('success-means-model', rec['q'].split('::')[-1], where, mine or ri.sc(s.flag) == 0,
                     'success is reported although the model handed in is left as it was')
            return
        # flag and model
        if ncand == 0 and lists:
            ri = Ranked(1, [], [])
            C.ob('no-candidate', inst, where, ri.sc(s.flag) == 0, 'reports success although the solver found no candidate')
            continue
        ri0 = Ranked(1, [], [])
        cs = w.candidates(ncand, ri0)
        if cs is None:
            C.ob('solver', inst, where, False, 'no candidate rule for solver %s' % c.name)
            continue
        if any(x is None for x in cs):
            C.ob('candidates', inst, where, False, 'a solver result is not turned into its candidate pose(s) as the algorithm defines them')
            continue
        kind = 'absolute' if '::absolute_pose::' in rec['q'] else 'central' if c.name in ESSENTIAL else 'noncentral'
        if len(cs) == 1 and kind != 'central':
            ri = Ranked(1, [w.score(cs[0], ri0, kind)] if lists and len(s.flat) > 3 else [], [0])
            okf = ri.sc(s.flag) == 1
            C.ob('success', inst, where, okf, 'reports failure although the solver produced a model')
            want, got = w.final(cs[0], ri), ri.ev(s.out)
            C.ob('model', inst, where, got == want, 'the model is not the pose the solver result stands for:\n %s' % show(s.out, 8)[:600])
            continue
        bad = []
        n = len(cs)
        for win in range(n):
            ri1 = Ranked(win, [], [])
            cs1 = w.candidates(ncand, ri1)
            sc = [w.score(x, ri1, kind) for x in cs1]
            rest = sorted((i for i in range(n) if i != win), key=lambda i: H('order', win, i))
            order = [0] * n
            for k, i in enumerate(rest):
                order[i] = k + 1
            if kind == 'central':
                # opposite translations mirror the score: order them consistently
                for j in range(0, n, 2):
                    x = 1 + H('spread', win, j) % 10 ** 6
                    order[j], order[j + 1] = (x, -x) if H('side', win, j) % 2 else (-x, x)
                order[win], order[win ^ 1] = -10 ** 7, 10 ** 7
            ri = Ranked(win, sc, order)
            ri.m.update({k: v for k, v in ri1.m.items() if k.op == 'given'})
            if ri.sc(s.flag) != 1:
                bad.append('reports failure when candidate %d is best' % win)
                continue
            if ri.ev(s.out) != w.final(cs1[win], ri):
                bad.append('candidate %d of %d has the best score on the sample but is not returned' % (win, n))
        C.ob('best-candidate', inst, where, not bad, '; '.join(bad[:3]))
