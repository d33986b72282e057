"""Value-graph rule with random interpretation in a prime field. Every solver that
takes measurements from an adapter is reduced to a value graph with its numeric core
uninterpreted; what it hands to that core is compared with its definition over the
measurements, correspondence by correspondence (each measurement a random field
element, so a measurement of another correspondence, view or camera differs), and
the linear systems that encode the epipolar or projection constraint must annihilate
the true model of a symbolic exact scene."""
from resid import *
from exact import *
import M01
MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['real arithmetic: rounding is not modelled', 'camera rotations are orthonormal, bearing vectors have unit length',
               'overloads agree (M01), closed-form alignments and p2p/twopt are judged by T03',
               'sums over correspondences are uniform in their number: analysed for the minimal number and two more']
B1, B2, BV = 'getBearingVector1', 'getBearingVector2', 'getBearingVector'


def f1(s, k):
    return mmul(s.d[k]['getCamRotation1'], s.d[k][B1])


def f2(s, k):
    return mmul(s.d[k]['getCamRotation2'], s.d[k][B2])


class Case:
    def __init__(self, C, D, q, kind):
        fs = [f for f in D.functions(q) if not any('opengv::Indices' in param_ts(f, i) for i in range(len(f['params'])))]
        sh = [(f, M01.shape(f)) for f in fs]
        c = [(f, h) for f, h in sh if h[0] == kind]
        if not c:
            raise AnalysisError('%s: overload %s not found' % (q, kind))
        self.f, h = c[0]
        self.C, self.D, self.q, self.where, self.name = C, D, q, loc(self.f), q.replace('opengv::', '')
        self.g, self.v, self.res = M01.evaluate(C, D, self.f, h[2])
        self.outs = h[2]
        self.all = M01.every_node(self.g, [self.v])
        self.idx = h[1]
        self.flagp = [mk('par', p['n']) for i, p in enumerate(self.f['params']) if base_ts(param_ts(self.f, i)) == 'bool']

    def xi(self, n, seed=1, noisy=True, central=False, flag=0):
        s = Scene(seed, n, central, noisy)
        fix = {p: flag for p in self.flagp}
        return XI(self.g, s, self.idx, fix)

    def calls(self, name):
        """uninterpreted calls of a kernel function, identified by its name"""
        return [x for x in self.all if x.op == 'call' and str(x.a[0]).split('::')[-1] == name]

    def ob(self, rule, inst, ok, msg):
        return self.C.ob(rule, self.name + (' ' + inst if inst else ''), self.where, bool(ok), msg)

    def kernel(self, *names):
        r = [x for nm in names for x in self.calls(nm)]
        self.ob('reaches-core', '', bool(r), 'the numeric core %s is not reached' % '/'.join(names))
        return r


def mat(x, n):
    try:
        v = x.ev(n)
    except RecursionError:
        return None
    return v if isinstance(v, Mat) else None


def col(m, k):
    return Mat(m.r, 1, [m.v[i * m.c + k] for i in range(m.r)])


def row(m, k):
    return Mat(1, m.c, m.v[k * m.c:(k + 1) * m.c])


def run(C):
    D = load()
    columns(C, D)
    epnp(C, D)
    fivept_kneip(C, D)
    epipolar(C, D)
    eightpt(C, D)
    sums(C, D)
    sixpt(C, D)
    seventeenpt(C, D)
    gpnp(C, D)
    upnp(C, D)


def elements(x, n, k):
    """the k-th column (or element) of a kernel argument"""
    if n.op == 'tup':
        xs = n.a[0]
        return x.ev(xs[k]) if k < len(xs) else None
    m = mat(x, n)
    return col(m, k) if m is not None and k < m.c else None


def count(x, n):
    if n.op == 'tup':
        return len(n.a[0])
    m = mat(x, n)
    return m.c if m is not None else None


def columns(C, D):
    """p3p and gp3p: the core gets bearings (rotated into the viewpoint), camera offsets and
    points of three different correspondences, in the same order"""
    for nm, core, roles in (('p3p_kneip', 'p3p_kneip_main', ('f', 'p')), ('p3p_gao', 'p3p_gao_main', ('f', 'p')), ('gp3p', 'gp3p_main', ('F', 'v', 'p'))):
        c = Case(C, D, 'opengv::absolute_pose::' + nm, 'list')
        for call in c.kernel(core):
            x = c.xi(3)
            s = x.s
            want = {'f': lambda k: s.d[k][BV], 'F': lambda k: f2(s, k), 'v': lambda k: s.d[k]['getCamOffset'], 'p': lambda k: s.d[k]['getPoint']}
            perms = []
            for i, r in enumerate(roles):
                a = call.a[1 + i]
                c.ob('count', roles[i] + str(i), count(x, a) == 3, 'argument %d of %s does not hold three columns' % (i, core))
                perm = []
                for j in range(3):
                    v = elements(x, a, j)
                    m = [k for k in range(3) if isinstance(v, Mat) and v == want[r](k)]
                    perm.append(m[0] if m else None)
                c.ob('measurement', '%s argument %d' % (core, i), None not in perm, 'columns of argument %d of %s are not the %s of the listed correspondences' % (
                    i, core, {'f': 'bearing vectors', 'F': 'bearing vectors rotated by their own cameras', 'v': 'camera offsets', 'p': 'points'}[r]))
                perms.append(tuple(perm))
            c.ob('pairing', core, len(set(perms)) == 1 and sorted(x for x in perms[0] if x is not None) == [0, 1, 2],
                 'the columns handed to %s pair correspondences %s' % (core, perms))


def epnp(C, D):
    c = Case(C, D, 'opengv::absolute_pose::epnp', 'list')
    adds = c.calls('add_correspondence')
    c.ob('reaches-core', '', len(adds) >= 1, 'no correspondence is added to the EPnP core')
    for a in adds:
        # the loop that adds: one call per listed correspondence
        Ls = [L for L in c.g.loops.values() if any(a in nodes(v[3]) for v in L.vars if isinstance(v[3], N))]
        ok = len(Ls) == 1
        seen = []
        if ok:
            L = Ls[0]
            for n in (6, 8):
                x = c.xi(n)
                x.s.d
                it = rounds(c, x, L)
                seen = []
                for y in it or []:
                    args = [y.sc(z) for z in a.a[2:]] if len(a.a) >= 8 else []
                    hit = [k for k in range(n) if args == [e for e in x.s.d[k]['getPoint'].v] + [e for e in x.s.d[k][BV].v]]
                    seen.append(hit[0] if hit else None)
                ok = ok and it is not None and None not in seen and sorted(seen) == list(range(n))
        c.ob('pairing', 'add_correspondence', ok, 'the correspondences handed to the EPnP core are %s, expected point and bearing of every listed correspondence once' % seen)
    # the pose is inverted on the way out
    cp = c.calls('compute_pose')
    c.ob('reaches-pose', '', len(cp) >= 1, 'the EPnP core is not asked for a pose')
    x = c.xi(6)
    m = mat(x, c.res[0])
    ok = False
    if m is not None and (m.r, m.c) == (3, 4) and cp:
        R = Mat(3, 3, [m.v[4 * i + j] for i in range(3) for j in range(3)])
        t = Mat(3, 1, [m.v[4 * i + 3] for i in range(3)])
        Ro = outs_of(c, x, cp[0], 0)
        to = outs_of(c, x, cp[0], 1)
        if Ro is not None and to is not None:
            ok = R == tr(Ro) and t == sc(-1, mmul(tr(Ro), to))
    c.ob('pose', '', ok, 'the returned pose is not the inverse of the transformation the EPnP core computes')


def outs_of(c, x, call, i):
    """value of the i-th array the call writes"""
    o = [n for n in c.all if n.op == 'out' and n.a[0] is call and n.a[1] == i]
    for n in o:
        el_ = [e for e in c.all if e.op == 'el' and (e.a[0] is n or e.a[0].op == 'el' and e.a[0].a[0] is n)]
        two = [e for e in el_ if e.a[0].op == 'el']
        if two:
            return Mat(3, 3, [x.sc(mk('el', mk('el', n, num(r)), num(k))) for r in range(3) for k in range(3)])
        if el_ and not two:
            return Mat(3, 1, [x.sc(mk('el', n, num(r))) for r in range(3)])
    return None


def rounds(c, x, L):
    """the interpretations of the successive rounds of a loop"""
    vals = {v[1]: x.ev(v[2]) for v in L.vars}
    out = []
    for it in range(200):
        y = x.child(vals)
        go = y.sc(L.cond)
        if go == 0:
            return out
        if go != 1:
            return None
        out.append(y)
        vals = {v[1]: y.ev(v[3]) for v in L.vars}
    return None


def fivept_kneip(C, D):
    c = Case(C, D, 'opengv::relative_pose::fivept_kneip', 'list')
    for call in c.kernel('fivept_kneip_main'):
        x = c.xi(5)
        perms = []
        for i, nm in ((0, B1), (1, B2)):
            m = mat(x, call.a[1 + i])
            perm = [next((k for k in range(5) if m is not None and m.c == 5 and col(m, j) == x.s.d[k][nm]), None) for j in range(5)]
            c.ob('measurement', 'argument %d' % i, sorted(k for k in perm if k is not None) == list(range(5)),
                 'columns of argument %d of the five-point core are not the bearing vectors of view %d' % (i, i + 1))
            perms.append(perm)
        c.ob('pairing', '', perms[0] == perms[1], 'first- and second-view columns are paired %s' % perms)


def systems(c, x, cols):
    """the matrices with so many columns handed to a decomposition"""
    out = []
    for n in c.all:
        if n.op == 'ctor' and ('SVD' in str(n.a[0]) or 'Eigen' in str(n.a[0])) and len(n.a) > 1 and isinstance(n.a[1], N):
            m = mat(x, n.a[1])
            if m is not None and m.c == cols and not any(m == y for y in out):
                out.append(m)
    return out


def rank(rows, n):
    return n - len(nullspace(Mat(len(rows), n, [e for r in rows for e in r])))


def samespace(c, rule, x, A, want, what):
    """the rows of A span the same space as the expected ones"""
    n = A.c
    a = [A.v[i * n:(i + 1) * n] for i in range(A.r)]
    r1, r2, r3 = rank(a, n), rank(want, n), rank(a + want, n)
    bad = [i for i in range(len(want)) if rank(a + [want[i]], n) != r1]
    c.ob(rule, '%d correspondences' % x.s.n, r1 == r2 == r3, 'the %s of correspondences %s are not among the equations (rank %d, expected %d)' % (what, bad, r1, r2))


def kron(a, b):
    return [p * q % P for p in a.v for q in b.v]


def epipolar(C, D):
    for nm, core, ns in (('fivept_stewenius', 'fivept_stewenius_main', (5, 7)), ('fivept_nister', 'fivept_nister_main', (5, 7))):
        c = Case(C, D, 'opengv::relative_pose::' + nm, 'list')
        for n in ns:
            x = c.xi(n, central=True)
            As = systems(c, x, 9)
            if c.ob('system', '%d' % n, len(As) == 1, '%d linear systems in nine unknowns are solved' % len(As)):
                samespace(c, 'equations', x, As[0], [kron(x.s.d[k][B1], x.s.d[k][B2]) for k in range(n)], 'epipolar equations')
        for call in c.kernel(core):
            for n in ns:
                x = c.xi(n, noisy=False, central=True)
                m = mat(x, call.a[1])
                ok = m is not None and (m.r, m.c) == (9, 4)
                if ok:
                    cols = [col(m, j).v for j in range(4)]
                    ok = rank(cols, 9) == rank(cols + [x.s.E.v], 9) == 4
                c.ob('null-space', '%d' % n, ok, 'the space handed to the core does not contain the true essential matrix')


class Cubic(XI):
    """real eigenvalues of 3x3 matrices in the field"""
    shuffle = 0

    def eig(self, ctor, A, what):
        if what != 'eigenvalues' or (A.r, A.c) != (3, 3):
            return None
        c2 = -(A.v[0] + A.v[4] + A.v[8]) % P
        c1 = (A.v[0] * A.v[4] - A.v[1] * A.v[3] + A.v[0] * A.v[8] - A.v[2] * A.v[6] + A.v[4] * A.v[8] - A.v[5] * A.v[7]) % P
        r = roots([-det(A) % P, c1, c2, 1])
        self.real = set(r)
        v = [r[i] if i < len(r) else H('complex', i) for i in range(3)]
        k = self.shuffle % 3
        return Mat(3, 1, v[k:] + v[:k])

    def ev_(self, n):
        if n.op == 'fn' and len(n.a) == 2 and isinstance(n.a[1], N):
            nm = str(n.a[0]).split('::')[-1].lstrip('.')
            if nm in ('real', 'imag') and any(y.op == 'fn' and str(y.a[0]).endswith('eigenvalues') for y in nodes(n.a[1])):
                v = self.sc(n.a[1])
                return v if nm == 'real' else 0 if v in getattr(self, 'real', ()) else H('imag', min(v, P - v))
        return XI.ev_(self, n)


def pmod(a, m):
    a = a[:]
    while len(a) >= len(m):
        k = a[-1] * inv_(m[-1]) % P
        if k:
            for i in range(len(m)):
                a[len(a) - len(m) + i] = (a[len(a) - len(m) + i] - k * m[i]) % P
        a.pop()
    while a and a[-1] == 0:
        a.pop()
    return a


def pmul(a, b, m):
    r = [0] * (len(a) + len(b) - 1) if a and b else []
    for i, p in enumerate(a):
        for j, q in enumerate(b):
            r[i + j] = (r[i + j] + p * q) % P
    return pmod(r, m)


def pgcd(a, b):
    while b:
        a, b = b, pmod(a, b)
    return a


def roots(f):
    """roots of a polynomial (coefficients low to high) in the field"""
    f = [x % P for x in f]
    while f and f[-1] == 0:
        f.pop()
    if len(f) < 2:
        return []

    def power(b, e):
        r, b = [1], pmod(b, f)
        while e:
            if e & 1:
                r = pmul(r, b, f)
            b = pmul(b, b, f)
            e >>= 1
        return r
    if len(f) == 2:
        return [-f[0] * inv_(f[1]) % P]
    h = power([0, 1], P)
    h = h + [0] * (2 - len(h))
    h[1] = (h[1] - 1) % P
    while h and h[-1] == 0:
        h.pop()
    g = pgcd(f, h) if h else f
    out, todo = [], [g]
    k = 0
    while todo:
        f = todo.pop()
        if len(f) < 2:
            continue
        if len(f) == 2:
            out.append(-f[0] * inv_(f[1]) % P)
            continue
        k += 1
        w = power([k, 1], (P - 1) // 2)
        w = w + [0] * (1 - len(w))
        w[0] = (w[0] - 1) % P
        while w and w[-1] == 0:
            w.pop()
        d = pgcd(f, w) if w else f
        if 1 < len(d) < len(f):
            q, r = [], f[:]
            while len(r) >= len(d):
                c = r[-1] * inv_(d[-1]) % P
                q.append(c)
                for i in range(len(d)):
                    r[len(r) - len(d) + i] = (r[len(r) - len(d) + i] - c * d[i]) % P
                r.pop()
            todo += [d, q[::-1]]
        else:
            todo.append(f)
    return out


def pick(x, n):
    """the value a conditional container has in this interpretation"""
    for _ in range(60):
        if n.op == 'ite':
            c = x.sc(n.a[0])
            if c not in (0, 1):
                return None
            n = n.a[1] if c else n.a[2]
        else:
            return n
    return None


def eightpt(C, D):
    c = Case(C, D, 'opengv::relative_pose::eightpt', 'list')
    for n in (8,):
        x = c.xi(n, central=True)
        As = systems(c, x, 9)
        if c.ob('system', '%d' % n, len(As) == 1, '%d linear systems in nine unknowns are solved' % len(As)):
            lay = kron
            if rank([As[0].v[i * 9:(i + 1) * 9] for i in range(As[0].r)] + [kron(x.s.d[0][B2], x.s.d[0][B1])], 9) < 9:
                lay = lambda a, b: kron(b, a)
            samespace(c, 'equations', x, As[0], [lay(x.s.d[k][B1], x.s.d[k][B2]) for k in range(n)], 'epipolar equations')
    for n in (8, 10):
        for seed in (1, 2, 3):
            x = c.xi(n, seed, noisy=False, central=True)
            m = mat(x, c.res[0])
            c.ob('exact', '%d correspondences, scene %d' % (n, seed), m is not None and proportional(m, x.s.E), 'exact data do not give the true essential matrix')
    c = Case(C, D, 'opengv::relative_pose::sevenpt', 'list')
    for n in (7, 8):
        for seed in range(1, 7 if n == 7 else 3):
            s = Scene(seed, n, True)
            x = Cubic(c.g, s, c.idx, {})
            x.shuffle = seed
            r = pick(x, c.res[0])
            ms = [mat(x, e) for e in r.a[0]] if r is not None and r.op == 'tup' else []
            c.ob('exact', '%d correspondences, scene %d' % (n, seed), any(m is not None and proportional(m, s.E) for m in ms),
                 'exact data do not give the true essential matrix among the %d candidates' % len(ms))


def small_positive(k):
    return any(k * q % P in range(1, 65) for q in range(1, 65))


def vT(m):
    return tr(m)


def sums(C, D):
    for nm, core, least in (('eigensolver', 'eigensolver_main', 5), ('ge', 'ge_main2', 6)):
        c = Case(C, D, 'opengv::relative_pose::' + nm, 'list+')
        for call in c.kernel(core):
            for flag in (0, 1):
                for n in (least, least + 2):
                    x = c.xi(n, flag=flag)
                    s = x.s
                    w = [s.d[k]['getWeight'] if flag else 1 for k in range(n)]
                    F = (lambda k: (s.d[k][B1], s.d[k][B2])) if nm == 'eigensolver' else (lambda k: (f1(s, k), f2(s, k)))
                    want = []
                    for (a, b) in ((0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (2, 0)):
                        want.append(('sum of weighted products of components %d and %d of the first bearing with the second bearings' % (a, b),
                                     vadd(*[sc(w[k] * F(k)[0].v[a] * F(k)[0].v[b], mmul(F(k)[1], tr(F(k)[1]))) for k in range(n)])))
                    if nm == 'ge':
                        m1 = lambda k: cross(F(k)[0], s.d[k]['getCamOffset1'])
                        m2 = lambda k: cross(F(k)[1], s.d[k]['getCamOffset2'])
                        # parameters of R row by row: [moment of view 1] x [bearing 2], columns likewise for view 2
                        g2 = lambda k: Mat(1, 9, [m1(k).v[i] * F(k)[1].v[j] % P for i in range(3) for j in range(3)])
                        g1 = lambda k: Mat(1, 9, [m2(k).v[i] * F(k)[0].v[j] % P for i in range(3) for j in range(3)])
                        for lab, gg in (('second', g1), ('first', g2)):
                            for a in range(3):
                                want.append(('coupling of component %d with the %s view moments' % (a, lab),
                                             vadd(*[sc(w[k] * F(k)[0].v[a], mmul(F(k)[1], gg(k))) for k in range(n)])))
                        for lab, p, q in (('second-second', g1, g1), ('first-second', g2, g1), ('first-first', g2, g2)):
                            want.append(('%s moment products' % lab, vadd(*[sc(-w[k], mmul(tr(p(k)), q(k))) for k in range(n)])))
                    ks = set()
                    for i, (lab, m) in enumerate(want):
                        v = mat(x, call.a[1 + i])
                        k = proportional(v, m) if v is not None else None
                        ks.add(k)
                        c.ob('sum', 'argument %d, %s weights, %d' % (i, 'with' if flag else 'without', n), k is not None,
                             'argument %d of %s is not the %s' % (i, core, lab))
                    k = ks.pop() if len(ks) == 1 else None
                    nrm = inv_(x.sqrt(sum(q * q for q in w) % P))
                    c.ob('common-factor', '%s weights, %d' % ('with' if flag else 'without', n),
                         k is not None and any(small_positive(k * inv_(q) % P) for q in (1, nrm, nrm * nrm % P)),
                         'the summations are not scaled by one common positive factor')
            if nm == 'eigensolver':
                direction(c, call)
            if nm == 'ge':
                x = c.xi(7)
                s = x.s
                n = 7
                a = call.a[len(want) + 1]
                hs = [y for y in nodes(a) if y.op == 'call' and str(y.a[0]).endswith('math::arun')]
                if c.ob('start', 'alignment', len(hs) == 1 and a.op == 'call' and str(a.a[0]).endswith('rot2cayley') and a.a[1] is hs[0],
                        'the search does not start from the parameters of an alignment'):
                    i7 = inv_(n)
                    c1 = sc(i7, vadd(*[f1(s, k) for k in range(n)]))
                    c2 = sc(i7, vadd(*[f2(s, k) for k in range(n)]))
                    w_ = vadd(*[mmul(vsub(f2(s, k), c2), tr(vsub(f1(s, k), c1))) for k in range(n)])
                    v = mat(x, hs[0].a[1])
                    k = proportional(v, w_) if v is not None else None
                    c.ob('start', 'correlation', k is not None and small_positive(k), 'the alignment is not computed from the bearing vectors of both viewpoints')


def direction(c, call):
    """the translation is turned according to the flow f1 - R f2 of one correspondence"""
    x = c.xi(5)
    s = x.s
    t = sel_field(c.res[1], 'translation')
    o = [n for n in c.all if n.op == 'out' and n.a[0] is call and n.a[1] == len(call.a) - 2]
    ok = False
    if o:
        T0, R0 = x.mat(sel_field(o[0], 'translation'), (3, 1)), x.mat(sel_field(o[0], 'rotation'), (3, 3))
        for n in nodes(t):
            if n.op in ('lt', 'le') and T0 is not None and R0 is not None:
                d = (x.sc(n.a[0]) - x.sc(n.a[1])) % P
                for k in range(s.n):
                    e = vdot(vsub(s.d[k][B1], mmul(R0, s.d[k][B2])), T0)
                    for sg in (1, -1):
                        if d == sg * e % P:
                            y = c.xi(5)
                            y.m[n] = 1
                            neg = n.op == 'lt' and sg == 1 or n.op == 'le' and sg == 1
                            v1 = mat(y, t)
                            y = c.xi(5)
                            y.m[n] = 0
                            v0 = mat(y, t)
                            ok = ok or ((v1 == sc(-1, T0) and v0 == T0) if neg else (v1 == T0 and v0 == sc(-1, T0)))
    c.ob('direction', '', ok, 'the translation is not turned into the direction of the flow of one listed correspondence')


def sixpt(C, D):
    c = Case(C, D, 'opengv::relative_pose::sixpt', 'list')
    for call in c.kernel('sixpt_main'):
        x = c.xi(6)
        s = x.s
        got = []
        for i in (0, 1):
            m = mat(x, call.a[1 + i])
            F = f1 if i == 0 else f2
            o = 'getCamOffset%d' % (i + 1)
            perm, signs = [], set()
            for j in range(6 if m is not None and (m.r, m.c) == (6, 6) else 0):
                v = col(m, j).v
                hit = None
                for k in range(6):
                    mo = cross(F(s, k), s.d[k][o]).v
                    for sg in (1, -1):
                        if v == F(s, k).v + [sg * e % P for e in mo]:
                            hit = k
                            signs.add(sg)
                perm.append(hit)
            c.ob('measurement', 'view %d' % (i + 1), sorted(k for k in perm if k is not None) == list(range(6)) and len(signs) == 1,
                 'the columns for view %d are not the lines of sight of the listed correspondences in that viewpoint' % (i + 1))
            got.append((perm, signs))
        c.ob('pairing', '', got[0] == got[1], 'lines of the two views are paired %s' % got)


def seventeenpt(C, D):
    c = Case(C, D, 'opengv::relative_pose::seventeenpt', 'list')
    for n in (17, 19):
        for seed in (1, 2, 3, 4):
            x = c.xi(n, seed, noisy=False)
            m = mat(x, c.res[0])
            s = x.s
            want = Mat(3, 4, [s.R.v[3 * i + j] if j < 3 else s.t.v[i] for i in range(3) for j in range(4)])
            c.ob('exact', '%d correspondences, scene %d' % (n, seed), m == want, 'exact data do not give the true transformation')


def gpnp(C, D):
    c = Case(C, D, 'opengv::absolute_pose::gpnp', 'list')
    for call in c.kernel('gpnp_main'):
        for n in (6, 8):
            x = c.xi(n, noisy=False)
            s = x.s
            a = mat(x, call.a[1])
            cp = call.a[3]
            cs = [mat(x, e) for e in cp.a[0]] if cp.op == 'tup' else []
            ok = len(cs) == 4 and None not in cs
            indep = ok and det(Mat(3, 3, [e for q in cs[1:] for e in vsub(q, cs[0]).v])) != 0
            c.ob('control-points', '%d' % n, indep, 'the control points do not span space')
            want = [e for q in cs for e in mmul(tr(s.R), vsub(q, s.t)).v] if ok else None
            c.ob('exact', '%d correspondences' % n, a is not None and want is not None and a.v == want,
                 'on exact data the linear system is not solved by the control points in the viewpoint frame')


def quat(D, name, out, seed):
    """value graph of a quaternion function of the library at a random unit quaternion"""
    a, b, d = H('q', seed, 0), H('q', seed, 1), H('q', seed, 2)
    k = inv_((1 + a * a + b * b + d * d) % P)
    q = [(1 - a * a - b * b - d * d) * k % P, 2 * a * k % P, 2 * b * k % P, 2 * d * k % P]
    return Mat(4, 1, q)


class UX(XI):
    """the true rotation is what the numeric core found"""

    def ev_(self, n):
        if n.op == 'fld' and n.a[-1] == 'second':
            return self.q
        if n.op == 'call':
            nm = str(n.a[0]).split('::')[-1]
            if nm in ('quaternion2rot', 'cayley2rot', 'rot2quaternion', 'rot2cayley'):
                v = self.ev(n.a[1])
                if isinstance(v, Mat):
                    if nm == 'quaternion2rot':
                        return as_mat(rotq(v), 3, 3)
                    if nm == 'cayley2rot':
                        return rotq(unitq(Mat(4, 1, [1] + v.v))) if v.v != [0, 0, 0] else Mat(3, 3, [1, 0, 0, 0, 1, 0, 0, 0, 1])
                    if nm == 'rot2quaternion' and v == rotq(self.q):
                        return self.q
        if n.op == 'out' and n.a[0].op == 'call' and str(n.a[0].a[0]).endswith('upnp_fill_s'):
            v = self.ev(n.a[0].a[1])
            if isinstance(v, Mat):
                return self.fill(v)
        return XI.ev_(self, n)


def unitq(q):
    s = sum(e * e for e in q.v) % P
    w = pow(s, (P + 1) // 4, P)
    return Mat(4, 1, [e * inv_(w) % P for e in q.v])


def rotq(q):
    w, x, y, z = q.v
    return Mat(3, 3, [e % P for e in (w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y), 2 * (x * y + w * z), w * w - x * x + y * y - z * z,
                                      2 * (y * z - w * x), 2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z)])


def upnp(C, D):
    c = Case(C, D, 'opengv::absolute_pose::upnp', 'list')
    ff = D.one('opengv::absolute_pose::modules::upnp_fill_s')
    g2 = make_vg(D)
    v2, st2, fr2 = g2.run(ff)
    pn, po = [p['n'] for p in ff['params']]
    s_node = g2.read(st2, LV(('obj', mk('par', po)), (), base_ts(param_ts(ff, 1))))
    qn = [n for n in nodes(s_node) if n.op in ('deref', 'par')]
    top = mk('deref', mk('par', pn))

    def fill(q):
        r = RI(0, fix={top: q, mk('par', pn): q})
        return r.ev(s_node)
    q = quat(D, '', '', 1)
    sv = fill(q)
    c.ob('monomials', '', isinstance(sv, Mat) and (sv.r, sv.c) == (10, 1), 'the ten quaternion monomials cannot be evaluated')
    calls = c.kernel('upnp_main', 'upnp_main_sym')
    I = Mat(3, 3, [1, 0, 0, 0, 1, 0, 0, 0, 1])
    for call in calls:
        for n in (3, 6):
            x = c.xi(n)
            s = x.s
            M, Cv, gm = mat(x, call.a[1]), mat(x, call.a[2]), x.sc(call.a[3])
            for seed in (1, 2, 3):
                q = quat(D, '', '', seed)
                sv = fill(q)
                R = rotq(q)
                ok = False
                if M is not None and Cv is not None:
                    got = (mmul(mmul(tr(sv), M), sv).v[0] + 2 * mmul(Cv, sv).v[0] + gm) % P
                    W = [vsub(I, mmul(f2(s, k), tr(f2(s, k)))) for k in range(n)]
                    Rp = [mmul(R, s.d[k]['getPoint']) for k in range(n)]
                    vv = [s.d[k]['getCamOffset'] for k in range(n)]
                    t = mmul(minverse(vadd(*W)), vadd(*[mmul(W[k], vsub(vv[k], Rp[k])) for k in range(n)]))
                    e = [mmul(W[k], vadd(Rp[k], t, sc(-1, vv[k]))) for k in range(n)]
                    ok = got == sum(vdot(y, y) for y in e) % P
                c.ob('objective', '%s, %d correspondences, rotation %d' % (str(call.a[0]).split('::')[-1], n, seed), ok,
                     'the quadratic form handed to the core is not the sum of squared distances of the points to their rays')
    # the true rotation found by the core gives the true pose
    for n in (3, 6):
        # a rotation that has a unit quaternion in the field
        s = next(y for y in (Scene(k, n) for k in range(2, 60)) if pow(1 + y.R.v[0] + y.R.v[4] + y.R.v[8], (P - 1) // 2, P) == 1)
        x = UX(c.g, s, c.idx, {})
        Rt = tr(s.R)
        q4 = quat_of(Rt)
        x.q, x.fill = q4, fill
        want = Mat(3, 4, [s.R.v[3 * i + j] if j < 3 else s.t.v[i] for i in range(3) for j in range(4)])
        poses = [y for y in c.all if y.op == 'mupd' and (y.a[2], y.a[3]) == (3, 4)]
        c.ob('poses', '%d' % n, len(poses) >= 1, 'no pose is put together')
        for i, y in enumerate(poses):
            c.ob('exact', '%d correspondences, pose %d' % (n, i), mat(x, y) == want, 'the pose put together for the true rotation is not the true pose')


def quat_of(R):
    """a unit quaternion of a rotation that has one in the field"""
    tr_ = (R.v[0] + R.v[4] + R.v[8] + 1) % P
    w = pow(tr_, (P + 1) // 4, P) * inv_(2) % P
    k = inv_(4 * w % P)
    q = Mat(4, 1, [w, (R.v[7] - R.v[5]) * k % P, (R.v[2] - R.v[6]) * k % P, (R.v[3] - R.v[1]) * k % P])
    return q
