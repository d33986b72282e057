"""Random interpretation: the source of every listed solver is interpreted over a
prime field, with random field elements standing for the true pose, the scene
points, the cameras and every other real quantity. Decompositions of Eigen, the
library's own root finders and square roots are replaced by oracles that obey
only their defining equations (eigenvectors, orthonormal null-space vectors,
roots of the polynomial, generalised inverses); comparisons of unknown
quantities are decided by an oracle. Rule: under some choice of the oracles the
true pose must be among the candidates the solver returns. A rational identity
that fails anywhere fails here with probability 1 - degree/2^61. Rule `signs`:
with the squares of the field as the positive numbers (p = 7 mod 8, so products,
negation and square roots behave as for real signs), the solvers whose decisions
rest on such signs must keep the true pose in every scene whose square roots
exist. Rule `gradient`: the function the eigensolver drives to zero is the derivative
of an eigenvalue of the moment matrix, by exact derivation of its definition."""
from resid import *
import exact
from exact import H
import fpi
import multiprocessing
import os
import random
import time
from fpi import FPI, Mat, Cell, P, Unsupported, Fault, roots, mmul, zipm, issq, inv

MIN_OBLIGATIONS = 22
ASSUMPTIONS = ['real arithmetic: rounding and convergence of iterations are not modelled',
               'eigenvectors, null spaces, singular vectors and polynomial roots obtained from Eigen or the library\'s root finders are exact',
               'the data are noise free and in general position; comparisons that exact data leave open may fall either way',
               'the library\'s own root finders return every root (property T04)']


def conv(m):
    return Mat(m.r, m.c, [x % P for x in m.v])


class Pure(exact.Scene):
    """a scene whose two viewpoints share the position"""

    def __init__(self, *a):
        exact.Scene.__init__(self, *a)
        self.t = exact.vec(0, 0, 0)
        for d in self.d.values():
            d['getBearingVector2'] = exact.mmul(exact.tr(self.R), d['getBearingVector1'])


def proportional(a, b):
    i = next((i for i, x in enumerate(b) if x % P), None)
    if i is None or not a[i]:
        return False
    k = b[i] * inv(a[i]) % P
    return all((k * x - y) % P == 0 for x, y in zip(a, b))


def cands(r):
    return r if isinstance(r, list) else [r]


def same(m, v):
    return m.flat() == [x % P for x in v.v]


TRUTH = {
    'essential': lambda s, m: proportional(m.flat(), s.E.v),
    'rotation': lambda s, m: same(m, s.R),
    'pose': lambda s, m: same(m.block(0, 0, 3, 3), s.R) and same(m.block(0, 3, 3, 1), s.t),
    'translation': lambda s, m: same(m, s.t),
    'direction': lambda s, m: proportional(m.flat(), s.t.v),
}
REL, ABS, PTS = 'relative_pose', 'absolute_pose', 'point_cloud'
# name, namespace, function, distinct correspondences, duplicates, central, truth, options, attempts
CASES = [
    ('fivept_stewenius/5', REL, 'fivept_stewenius', 5, 0, 1, 'essential', 'v', 40),
    ('fivept_stewenius/8', REL, 'fivept_stewenius', 8, 0, 1, 'essential', '', 40),
    ('fivept_nister/5', REL, 'fivept_nister', 5, 0, 1, 'essential', 'v', 40),
    ('fivept_nister/7', REL, 'fivept_nister', 7, 0, 1, 'essential', '', 40),
    ('fivept_kneip/5', REL, 'fivept_kneip', 5, 0, 1, 'rotation', '', 30),
    ('sevenpt/7', REL, 'sevenpt', 7, 0, 1, 'essential', 'v', 60),
    ('sevenpt/10', REL, 'sevenpt', 10, 0, 1, 'essential', '', 60),
    ('eightpt/8', REL, 'eightpt', 8, 0, 1, 'essential', 'v', 60),
    ('eightpt/12', REL, 'eightpt', 12, 0, 1, 'essential', 'v', 60),
    ('sixpt/6', REL, 'sixpt', 6, 0, 0, 'rotation', '', 10),
    ('seventeenpt/17', REL, 'seventeenpt', 17, 0, 0, 'pose', 'rb', 120),
    ('seventeenpt/20', REL, 'seventeenpt', 20, 0, 0, 'pose', 'rb', 120),
    ('twopt/2', REL, 'twopt', 2, 0, 1, 'direction', 'p', 40),
    ('rotationOnly/3', REL, 'rotationOnly', 3, 0, 1, 'rotation', 'o', 40),
    ('rotationOnly/6', REL, 'rotationOnly', 6, 0, 1, 'rotation', 'o', 40),
    ('twopt_rotationOnly/2', REL, 'twopt_rotationOnly', 2, 0, 1, 'rotation', 'o', 40),
    ('p2p/2', ABS, 'p2p', 2, 0, 1, 'translation', 'pr', 1500),
    ('p3p_kneip/3', ABS, 'p3p_kneip', 3, 0, 1, 'pose', 'r', 5000),
    ('p3p_gao/3', ABS, 'p3p_gao', 3, 0, 1, 'pose', 'r', 1200),
    ('gp3p/3', ABS, 'gp3p', 3, 0, 0, 'pose', '', 40),
    ('gp3p/3 central', ABS, 'gp3p', 3, 0, 1, 'pose', '', 40),
    ('epnp/6', ABS, 'epnp', 6, 0, 1, 'pose', 'r', 100),
    ('epnp/9', ABS, 'epnp', 9, 0, 1, 'pose', 'r', 100),
    ('epnp/5+1', ABS, 'epnp', 5, 1, 1, 'pose', 'r', 400),
    ('eigensolver/5', REL, 'eigensolver', 5, 0, 1, 'rotation', 'pr', 60),
    ('eigensolver/9', REL, 'eigensolver', 9, 0, 1, 'rotation', 'pr', 60),
    ('gpnp/6', ABS, 'gpnp', 6, 0, 0, 'pose', 'r', 60),
    ('gpnp/9', ABS, 'gpnp', 9, 0, 0, 'pose', 'r', 60),
    ('gpnp/5+1', ABS, 'gpnp', 5, 1, 0, 'pose', 'r', 120),
    ('gpnp/4+2', ABS, 'gpnp', 4, 2, 0, 'pose', 'r', 120),
    ('upnp/3', ABS, 'upnp', 3, 0, 0, 'pose', 'rqg', 40),
    ('upnp/5', ABS, 'upnp', 5, 0, 0, 'pose', 'rqg', 200),
    ('upnp/8', ABS, 'upnp', 8, 0, 0, 'pose', 'rqg', 200),
]
# cases for which every scene whose square roots exist has to succeed once signs are consistent
ORDERED = {'sevenpt/7': 8, 'eightpt/8': 8, 'seventeenpt/17': 6, 'fivept_nister/5': 8, 'fivept_stewenius/5': 8, 'p2p/2': 8, 'p3p_kneip/3': 8,
           'p3p_gao/3': 6, 'gp3p/3': 6, 'gp3p/3 central': 6, 'epnp/6': 10, 'epnp/9': 6}
RED = {'p2p': 8, 'p3p_kneip': 64, 'p3p_gao': 16}


def jordan(I, kind, e, _):
    """the contract of math::gauss_jordan, which is decided separately: the rows become reduced echelon rows"""
    m = I.ev(e['a'][0])
    a, piv = fpi.rref([[x % P for x in p.c[p.i]] for p in m])
    if piv[:len(m)] != list(range(len(m))):
        raise Fault('a template without full rank')
    for p, r in zip(m, a):
        p.c[p.i][:] = r


def elimination(D, k, salt):
    """math::gauss_jordan on a random sparse matrix"""
    fs = D.functions('opengv::math::gauss_jordan')
    if len(fs) != 1:
        return None
    rng = random.Random('%s %d' % (salt, k))
    n, c, ex = rng.randrange(6, 14), 0, 0
    c, ex = n + rng.randrange(1, 6), rng.randrange(0, n - 1)
    while True:
        m = [[rng.randrange(P) if rng.random() < 0.5 else 0 for _ in range(c)] for _ in range(n)]
        a, piv = fpi.rref([list(r) for r in m])
        if piv == list(range(n)):
            break
    I = FPI(D, H(salt, k))
    ps = [fpi.Ptr([list(r)], 0) for r in m]
    try:
        I.call(fs[0], [ps, ex])
    except Fault:
        return False, 1, fs[0], I
    ok = all([x % P for x in ps[i].c[ps[i].i]] == a[i] for i in range(ex, n))
    return ok, 1, fs[0], I


class Solver:
    """one public solver on one family of scenes"""

    def __init__(self, D, case, salt):
        self.D, self.case, self.salt = D, case, salt
        name, ns, fn, n, dup, central, truth, opt, tries = case
        q = 'opengv::%s::%s' % (ns, fn)
        fs = [f for f in D.functions(q) if len(f['params']) > 1 and f.get('body') is not None and
              (any('std::vector<int' in f['T'][p['t']] for p in f['params']))]
        if len(fs) > 1:
            fs = [f for f in fs if not any('Output' in f['T'][p['t']] for p in f['params'])] or fs
        if len(fs) != 1:
            raise AnalysisError('%s: the overload with an index vector was not found' % q)
        self.f = fs[0]
        self.rng = random.Random('%s %s' % (name, salt))
        self.total = n + 2
        self.ids = self.rng.sample(range(self.total), n)
        for i in range(dup):
            self.ids.append(self.ids[i])
        self.fault = None
        self.sides = set()
        self.fns = set()
        self.steps = 0

    def scene(self, k):
        name, ns, fn, n, dup, central, truth, opt, tries = self.case
        while True:
            k += 1000003
            s = (Pure if 'o' in opt else exact.Scene)(H(self.salt, name, k), self.total, bool(central))
            if 'q' in opt:
                tr = (1 + s.R.v[0] + s.R.v[4] + s.R.v[8]) % P
                if not issq(tr):
                    continue
            return s

    def attempt(self, s, k, order=False):
        name, ns, fn, n, dup, central, truth, opt, tries = self.case
        other = exact.rot_mat(H('other', k))
        names = set(s.d[0])
        flip = self.behind(s) if order else set()

        def ad(I, kind, e, _):
            nm = e['n']
            if nm == 'getNumberCorrespondences':
                return self.total
            if nm in names:
                i = I.ev(e['a'][0])
                if i is None or not 0 <= i < self.total:
                    raise Fault('%s(%s) with %d correspondences' % (nm, i, self.total))
                v = s.d[i][nm]
                if (i, nm) in flip:
                    v = exact.sc(P - 1, v)
                return conv(v) if hasattr(v, 'r') else v
            if nm in ('getR12', 'getR'):
                return conv(s.R if 'p' in opt else other)
            if nm in ('gett12', 'gett'):
                return conv(s.t if 'p' in opt else exact.vec(1, 2, 3))
            return NotImplemented

        def sturm(I, kind, a, b):
            if kind == 'ctor':
                v = b[0]
                return {'p': Cell(list(coef(v)))}
            o = I.ev(a['b'])
            if a['n'] == 'findRoots':
                return roots(list(reversed(o['p'].v)), I.rng)
            if a['n'] == 'findRoots2':
                I.write(I.lv(a['a'][0]), roots(list(reversed(o['p'].v)), I.rng))
                return None
            raise Unsupported('Sturm::' + a['n'])

        def coef(v):
            if isinstance(v, fpi.Ptr):
                v = v.c
            return v.flat() if isinstance(v, Mat) else v

        def quartic(I, kind, e, _):
            c = coef(I.ev(e['a'][0]))
            r = roots(list(reversed(c)), I.rng) or [I.rng.randrange(P)]
            return [r[i % len(r)] for i in range(len(c) - 1)]
        ic = {'opengv::relative_pose::RelativeAdapterBase': ad, 'opengv::absolute_pose::AbsoluteAdapterBase': ad,
              'opengv::math::Sturm': sturm, 'opengv::math::o4_roots': quartic, 'opengv::math::o3_roots': quartic}
        if 'g' in opt:
            ic['opengv::math::gauss_jordan'] = jordan
        I = FPI(self.D, H(self.salt, name, 'oracle', k), ic)
        I.order = order
        I.polar = [conv(s.R), conv(s.R).T().copy()]
        I.polar_frame = conv(exact.rot_mat(H('frame', k)))
        I.positive |= self.depths(s)
        args = []
        for p in self.f['params']:
            ts = self.f['T'][p['t']]
            args.append('adapter' if 'Adapter' in ts else list(self.ids) if 'vector<int' in ts else True)
        try:
            r = I.call(self.f, args)
        finally:
            self.steps += I.statements
            self.side = I.vanishing
            self.nonres = I.nonres
            self.I = I
            self.fns |= I.fns
        out = cands(r)
        for m in out:
            if any(x is None for x in m.flat()):
                raise Fault('a candidate with elements that were never set')
        if not any(TRUTH[truth](s, m) for m in out):
            return False
        if 'v' in opt:
            for m in out:
                for i in self.ids:
                    d = s.d[i]
                    f1, f2 = conv(d['getBearingVector1']), conv(d['getBearingVector2'])
                    if mmul(mmul(f1.T(), m), f2).flat()[0]:
                        raise Fault('a candidate that violates the epipolar constraint of a used correspondence')
        return True

    def behind(self, s):
        """bearing vectors to turn round, so that every depth is positive (a square)"""
        out = set()
        for i, d in s.d.items():
            q = exact.vsub(exact.mmul(exact.tr(s.R), exact.vsub(d['getPoint'], s.t)), d['getCamOffset'])
            if not issq(exact.vdot(q, exact.mmul(d['getCamRotation'], d['getBearingVector']))):
                out |= {(i, 'getBearingVector'), (i, 'getBearingVector2')}
            if not issq(exact.vdot(exact.vsub(d['getPoint'], d['getCamOffset1']), exact.mmul(d['getCamRotation1'], d['getBearingVector1']))):
                out.add((i, 'getBearingVector1'))
        return out

    def run_ordered(self):
        """succeeds on all of the first scenes whose square roots exist"""
        name = self.case[0]
        n = 0
        for k in range(600):
            self.nonres = None
            try:
                ok = self.attempt(self.scene(k), k, True)
            except Fault as x:
                self.fault, ok = x, False
            if self.nonres and not name.startswith('epnp') or self.nonres is None and self.fault is None:
                self.fault = None
                continue
            n += 1
            if not ok:
                return False, n
            if n == ORDERED[name]:
                break
        return (True, n) if n else (None, 0)

    def depths(self, s):
        """scene depths are positive"""
        if 'getPoint' not in s.d[0]:
            return set()
        out = set()
        for d in s.d.values():
            q = exact.mmul(exact.tr(s.R), exact.vsub(d['getPoint'], s.t))
            q = exact.vsub(q, d['getCamOffset'])
            out.add(exact.vdot(q, exact.mmul(d['getCamRotation'], d['getBearingVector'])))
        return out

    def run(self):
        tries = self.case[-1]
        red = RED.get(self.case[2], 1)
        s = None
        for k in range(tries):
            if s is None or ('r' in self.case[7] and k % red == 0):
                s = self.scene(k)
            try:
                if self.attempt(s, k):
                    self.sides.add(self.side)
                    if 'b' not in self.case[7] or len(self.sides) > 1:
                        return True, k + 1
                    s = None
            except Fault as x:
                self.fault = self.fault or x
                self.fault_at = getattr(x, 'at', None)
        return False, tries


def gradient(D, salt):
    """the function whose zero the eigensolver looks for is the derivative of the smallest eigenvalue of
    sum of w n n', n = f1 x R(c) f2, with respect to the Cayley parameters c"""
    s = Solver(D, next(c for c in CASES if c[0] == 'eigensolver/9'), salt)
    for k in range(120):
        sc = s.scene(k)
        try:
            s.attempt(sc, k)
        except Fault:
            pass
        I = s.I
        if not I.functors:
            continue
        for t in range(6):
            rng = random.Random('%s %d %d' % (salt, k, t))
            x = [rng.randrange(P) for _ in range(3)]
            I.roots.clear()
            try:
                r = I.residual(I.functors[-1], Mat(3, 1, list(x)))
            except Fault:
                continue
            if r.r != 3:
                return None
            M, dM = moment(s, sc, x), []
            for j in range(3):
                e = [int(i == j) for i in range(3)]
                # quadratic in each parameter, so the product is of degree four: derivative of the rotation is exact
                dM.append(moment(s, sc, x, e))
            g = r.flat()
            for l in roots(fpi.charpoly(M), rng):
                A = M.rows()
                for i in range(3):
                    A[i][i] = (A[i][i] - l) % P
                v = fpi.nullspace(A)
                if len(v) != 1:
                    continue
                v = Mat(3, 1, list(v[0]))
                w = [mmul(mmul(v.T(), d), v).flat()[0] for d in dM]
                if any(g) and proportional(g, w):
                    return True, k + 1, s.f, I
    return False, 120, s.f, s.I


def moment(s, sc, x, e=None):
    """the moment matrix for Cayley parameters x, or its derivative in direction e"""
    def rot(x):
        a, b, c = x
        return Mat(3, 3, [v % P for v in (
            1 + a * a - b * b - c * c, 2 * (a * b - c), 2 * (a * c + b),
            2 * (a * b + c), 1 - a * a + b * b - c * c, 2 * (b * c - a),
            2 * (a * c - b), 2 * (b * c + a), 1 - a * a - b * b + c * c)])
    R = rot(x)
    if e is not None:
        h = inv(2)
        p, m = rot([u + v for u, v in zip(x, e)]), rot([u - v for u, v in zip(x, e)])
        dR = zipm(p, m, lambda u, v: (u - v) * h % P)
    out = Mat(3, 3, [0] * 9)
    add = lambda a, b: zipm(a, b, lambda u, v: (u + v) % P)
    for i in s.ids:
        f1, f2 = conv(sc.d[i]['getBearingVector1']), conv(sc.d[i]['getBearingVector2'])
        w = sc.d[i]['getWeight']
        n = cross(f1, mmul(R, f2))
        if e is None:
            t = mmul(n, n.T())
        else:
            d = cross(f1, mmul(dR, f2))
            t = add(mmul(n, d.T()), mmul(d, n.T()))
        out = add(out, t.map(lambda v: v * w % P))
    return out


def cross(a, b):
    a, b = a.flat(), b.flat()
    return Mat(3, 1, [(a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3]) % P for i in range(3)])


def gpnp_core(D, k, salt):
    """gpnp_main on an affine solution space with k null-space vectors that contains the true control points"""
    fs = D.functions('opengv::absolute_pose::modules::gpnp_main')
    if len(fs) != 1:
        return None
    f = fs[0]
    I = None
    for attempt in range(8):
        rng = random.Random('%s %d %d' % (salt, attempt, k))
        R = conv(exact.rot_mat(H('R', salt, attempt, k)))
        sq = lambda u, v: issq(sum((x - y) ** 2 for x, y in zip(u.flat(), v.flat())) % P)
        pt = lambda: Mat(3, 1, [rng.randrange(P) for _ in range(3)])
        while True:
            c = []
            while len(c) < 4:
                x = pt()
                if all(sq(x, y) for y in c):
                    c.append(x)
            t = pt()
            if all(sq(x, t) for x in c):
                break
        cc = [mmul(R.T(), zipm(x, t, lambda a, b: (a - b) % P)) for x in c]
        V = Mat(12, 12, [rng.randrange(P) for _ in range(144)])
        a = [v for x in cc for v in x.flat()]
        B = []
        for i in range(k):
            b = rng.randrange(P)
            B.append(b)
            a = [(x - b * V.get(j, 12 - k + i)) % P for j, x in enumerate(a)]
        I = FPI(D, H(salt, attempt, k))
        I.polar = [R, R.T().copy()]
        I.polar_frame = conv(exact.rot_mat(H('frame', salt, k)))
        T = Mat(3, 4)
        try:
            I.call(f, [Mat(12, 1, a), V, c, T])
        except Fault:
            continue
        # the closed-form stage for k vectors must already start its refinement at the true combination
        st = [x for x in I.starts if len(x) == k]
        if st and k and not any(sorted(x) == sorted(B) for x in st):
            continue
        if T.block(0, 0, 3, 3).flat() == R.flat() and T.block(0, 3, 3, 1).flat() == t.flat():
            return True, attempt + 1, f, I
    return False, 8, f, I


def work(D, job, q, salt):
    try:
        os.nice(0)
        if isinstance(job, int):
            r = gpnp_core(D, job, salt) if job < 100 else elimination(D, job, salt) if job < 200 else gradient(D, salt)
            if r is None:
                q.send(('skip',))
            else:
                ok, n, f, I = r
                q.send(('done', ok, n, loc(f), None, sorted(I.fns), I.statements))
        else:
            s = Solver(D, job[-1] if job[0] == 'order' else job, salt)
            ok, n = s.run_ordered() if job[0] == 'order' else s.run()
            if ok is None:
                q.send(('skip',))
                return
            q.send(('done', ok, n, loc(s.f), str(s.fault) if s.fault else None, sorted(s.fns), s.steps))
    except (Unsupported, AnalysisError) as x:
        q.send(('unsupported', str(x)))
    except Exception as x:
        import traceback
        q.send(('unsupported', traceback.format_exc(limit=-3)))
    finally:
        q.close()


def run(C, only=None):
    D = load()
    deep = C.tier == 'thorough'
    jobs = [(c, sd) for sd in range(4 if deep else 1) for c in CASES if not only or c[0].split('/')[0] in only]
    if not only or 'gpnp' in only:
        jobs += [(k, sd) for sd in range(4 if deep else 1) for k in range(6)]
        jobs += [(k, 0) for k in range(100, 106)]
    if not only or 'eigensolver' in only:
        jobs += [(200, sd) for sd in range(4 if deep else 1)]
    jobs += [(('order', 0, 0, c), sd) for sd in range(4 if deep else 1) for c in CASES
             if c[0] in ORDERED and (not only or c[0].split('/')[0] in only)]
    slow = ('upnp', 'sixpt', 'fivept_kneip', 'p3p_kneip')
    jobs.sort(key=lambda j: 0 if not isinstance(j[0], int) and j[0][2] in slow else 1)
    ctx = multiprocessing.get_context('fork')
    running, results = [], {}
    todo = list(jobs)
    while todo or running:
        while todo and len(running) < min(8, os.cpu_count() or 4):
            j = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=work, args=(D, j[0], b, 'scene %d' % j[1]))
            p.start()
            b.close()
            running.append((j, p, a))
        multiprocessing.connection.wait([a for _, _, a in running])
        for x in list(running):
            j, p, a = x
            if a.poll():
                try:
                    results[j] = a.recv()
                except EOFError:
                    results[j] = ('unsupported', 'the interpreter process died')
                p.join()
                running.remove(x)
    for j in jobs:
        r = results[j]
        order = not isinstance(j[0], int) and j[0][0] == 'order'
        case = j[0][-1] if order else j[0]
        name = case[0] if not isinstance(j[0], int) else 'gpnp core with %d null-space vectors' % j[0] if j[0] < 100 else 'Gauss-Jordan elimination %d' % (j[0] - 99)
        if deep:
            name += ' #%d' % (j[1] + 1)
        if r[0] == 'unsupported':
            raise AnalysisError('%s: %s' % (name, r[1]))
        if r[0] == 'skip':
            continue
        _, ok, n, w, fault, fns, steps = r
        C.functions |= {'%s (%s:%s)' % (x[2], x[0], x[1]) for x in fns}
        C.count('statements interpreted', steps)
        C.count('oracle choices explored', n)
        if os.environ.get('OGV_DEBUG'):
            print(name, ok, n)
        if isinstance(j[0], int) and j[0] >= 200:
            C.ob('gradient', 'eigensolver' + name[len('Gauss-Jordan elimination 100'):], w, ok, 'the function driven to zero is not the derivative of '
                 'an eigenvalue of the moment matrix')
            continue
        if isinstance(j[0], int) and j[0] >= 100:
            C.ob('elimination', name, w, ok, 'gauss_jordan leaves rows that are not the reduced echelon form of its argument')
            continue
        if order:
            C.ob('signs', name, w, ok, 'with consistent signs the true %s is lost in scene %d%s' % (case[6], n, '; ' + fault if fault else ''))
            continue
        C.ob('true-pose-kept', name, w, ok, 'no choice of the oracles (%d explored) makes the solver return the true %s%s' % (
            n, 'pose' if isinstance(j[0], int) else j[0][6], '; ' + fault if fault else ''))
