"""Interpretation of a value graph over a prime field on exact data of a symbolic
(randomly chosen) scene: measurements are images of common points under one pose,
decompositions are replaced by field elements that satisfy their defining
equations, comparisons are decided where the scene determines them."""
import random
from lib import *
from rand import RI, Mat, H, P, inv_, mmul, tr, det, minverse, rot_mat, as_mat
import rand
import nodes as _n
from nodes import num, mk, N
BASE = 1000


class Undecided(Exception):
    pass


def vec(*v):
    return Mat(3, 1, [x % P for x in v])


def vadd(*ms):
    return Mat(ms[0].r, ms[0].c, [sum(x) % P for x in zip(*[m.v for m in ms])])


def sc(k, m):
    return Mat(m.r, m.c, [k * x % P for x in m.v])


def vsub(a, b):
    return vadd(a, sc(-1, b))


def cross(a, b):
    x, y = a.v, b.v
    return vec(x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])


def vdot(a, b):
    return sum(x * y for x, y in zip(a.v, b.v)) % P


def skew(t):
    x, y, z = t.v
    return Mat(3, 3, [0, (-z) % P, y, z, 0, (-x) % P, (-y) % P, x, 0])


def unit(seed):
    """a random vector of unit length"""
    a, b = H('unit', seed, 0), H('unit', seed, 1)
    d = inv_((1 + a * a + b * b) % P)
    return sc(d, vec(2 * a, 2 * b, 1 - a * a - b * b))


def orthonormal(n, seed):
    """Cayley transform of a random skew-symmetric matrix"""
    S = [[0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            S[i][j] = H('skew', seed, i, j)
            S[j][i] = -S[i][j] % P
    I = [[int(i == j) for j in range(n)] for i in range(n)]
    A = Mat(n, n, [(I[i][j] - S[i][j]) % P for i in range(n) for j in range(n)])
    B = Mat(n, n, [(I[i][j] + S[i][j]) % P for i in range(n) for j in range(n)])
    return mmul(A, minverse(B))


def nullspace(m):
    """basis of the right null space"""
    M = [m.v[i * m.c:(i + 1) * m.c] for i in range(m.r)]
    piv, r = [], 0
    for c in range(m.c):
        p = next((i for i in range(r, m.r) if M[i][c]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        s = inv_(M[r][c])
        M[r] = [x * s % P for x in M[r]]
        for i in range(m.r):
            if i != r and M[i][c]:
                f = M[i][c]
                M[i] = [(x - f * y) % P for x, y in zip(M[i], M[r])]
        piv.append(c)
        r += 1
        if r == m.r:
            break
    out = []
    for c in range(m.c):
        if c not in piv:
            v = [0] * m.c
            v[c] = 1
            for i, pc in enumerate(piv):
                v[pc] = -M[i][c] % P
            out.append(v)
    return out


def proportional(a, b):
    """a == k*b with k != 0; returns k or None"""
    if (a.r, a.c) != (b.r, b.c):
        return None
    i = next((i for i, y in enumerate(b.v) if y), None)
    if i is None:
        return None
    k = a.v[i] * inv_(b.v[i]) % P
    return k if k and all((x - k * y) % P == 0 for x, y in zip(a.v, b.v)) else None


class Scene:
    """two viewpoints (1 = world) carrying cameras, n points; frame 2 in frame 1: R, t"""

    def __init__(self, seed, n, central=False, noisy=False):
        self.n, self.seed = n, seed
        self.R = rot_mat(H('scene R', seed))
        u = unit(('t', seed))
        self.that, self.tau = u, H('tau', seed)
        self.t = sc(self.tau, u)
        self.d = {}
        for k in range(n):
            I = Mat(3, 3, [1, 0, 0, 0, 1, 0, 0, 0, 1])
            r = lambda nm: I if central else rot_mat(H(nm, seed, k))
            o = lambda nm: vec(0, 0, 0) if central else vec(*[H(nm, seed, k, i) for i in range(3)])
            R1, R2, o1, o2 = r('R1'), r('R2'), o('o1'), o('o2')
            f1 = unit(('f1', seed, k))
            X = vadd(mmul(R1, sc(H('depth', seed, k), f1)), o1)
            # the second bearing must have unit length as well: move along the first ray until it has
            f2 = None
            for j in range(200):
                X = vadd(mmul(R1, sc(H('depth', seed, k, j), f1)), o1)
                q = mmul(tr(R2), vsub(mmul(tr(self.R), vsub(X, self.t)), o2))
                s = vdot(q, q)
                w = pow(s, (P + 1) // 4, P)
                if s and w * w % P == s:
                    f2 = sc(inv_(w), q)
                    break
            if noisy:
                f2 = unit(('f2', seed, k))
                X = vec(*[H('X', seed, k, i) for i in range(3)])
            X2 = mmul(tr(self.R), vsub(X, self.t))
            w = H('weight', seed, k)
            self.d[k] = {'getBearingVector1': f1, 'getBearingVector2': f2, 'getCamRotation1': R1, 'getCamRotation2': R2, 'getCamOffset1': o1,
                         'getCamOffset2': o2, 'getBearingVector': f2, 'getCamRotation': R2, 'getCamOffset': o2, 'getPoint': X,
                         'getPoint1': X, 'getPoint2': X2, 'getWeight': w, 'q2': mmul(tr(R2), vsub(X2, o2))}
        self.E = mmul(skew(self.t), self.R)


DATA = set(Scene(1, 1, True).d[0]) - {'q2'}


class XI(RI):
    """idx: node of the index list (None: explicit index parameters in fix, values BASE+k)"""

    def __init__(self, g, scene, idx=None, fix=None, whole=False):
        self.g, self.s, self.idx, self.fix0, self.whole = g, scene, idx, dict(fix or {}), whole
        f = dict(fix or {})
        if idx is not None:
            f[size(idx)] = scene.n
        RI.__init__(self, scene.seed, fix=f)
        self.unroll = True
        self.nonneg = set()
        self.seen_data = set()
        self.depth = 0

    def child(self, extra):
        c = self.__class__.__new__(self.__class__)
        c.__dict__.update(self.__dict__)
        c.m = dict(self.fix0)
        if self.idx is not None:
            c.m[size(self.idx)] = self.s.n
        c.m.update(self.extra if hasattr(self, 'extra') else {})
        c.m.update(extra)
        c.extra = dict(getattr(self, 'extra', {}))
        c.extra.update(extra)
        return c

    # ---- leaves
    def ev_(self, n):
        op, a = n.op, n.a
        if op == 'el' and a[0] is self.idx:
            k = self.sc(a[1])
            return BASE + k if k < self.s.n else None
        if op == 'acc' and a[0] in DATA and len(a) >= 3:
            k = self.sc(a[-1])
            if self.whole:
                k += BASE
            self.seen_data.add((a[0], k))
            if 0 <= k - BASE < self.s.n:
                return self.s.d[k - BASE][a[0]]
            return None
        if op == 'abs' and self.sc(a[0]) == 0:
            return 0
        if self.ismin(n) and self.isnonneg(n) and any(self.sc(y) == 0 for y in a[1:]):
            return 0
        if op == 'lt':
            return self.lt_value(a[0], a[1])
        if op == 'le':
            return (1 - self.lt_value(a[1], a[0])) % P
        if op == 'ite':
            c = self.sc(a[0])
            if c in (0, 1):
                return self.ev(a[1] if c else a[2])
            return RI.ev_(self, n)
        if op == 'acc' and a[0] == 'getNumberCorrespondences':
            return self.s.n if self.whole else None
        if op == 'lx' and a[0] in self.g.loops:
            r = self.loop(self.g.loops[a[0]], a[1])
            if r is not None:
                return r
        if op == 'fn' and isinstance(a[1] if len(a) > 1 else None, N):
            nm = str(a[0]).split('::')[-1].lstrip('.')
            if nm in ('matrixV', 'matrixU', 'singularValues') and a[1].op == 'ctor' and 'SVD' in str(a[1].a[0]):
                A = self.ev(a[1].a[1])
                if isinstance(A, Mat):
                    return self.svd(a[1], A, nm)
            if nm in ('eigenvalues', 'eigenvectors') and a[1].op == 'ctor' and 'Eigen' in str(a[1].a[0]):
                A = self.ev(a[1].a[1])
                if isinstance(A, Mat):
                    return self.eig(a[1], A, nm)
        return RI.ev_(self, n)

    # ---- loops whose number of rounds is determined by the scene
    def loop(self, L, mu):
        if getattr(L, 'breaks', None) or getattr(L, 'returns', None):
            return None
        vals = {v[1]: self.ev(v[2]) for v in L.vars}
        for it in range(200):
            c = self.child(vals)
            try:
                go = c.sc(L.cond) if L.cond is not None else 0
            except Undecided:
                return None
            if go == 0:
                return vals.get(mu)
            if go != 1:
                return None
            vals = {v[1]: c.ev(v[3]) for v in L.vars}
        return None

    # ---- comparisons
    def is_tol(self, n):
        if n.op == 'num':
            return isinstance(n.a[0], float) and 0 < n.a[0] <= 1e-3 or n.a[0] == 0
        return any(x.op == 'call' and str(x.a[0]).endswith('epsilon') for x in nodes(n))

    def sigma(self, n):
        """a singular value (nonnegative, the largest ones generically positive)"""
        if n.op == 'blk':
            n = n.a[0]
        return n.op == 'fn' and str(n.a[0]).lstrip('.') == 'singularValues'

    def isnonneg(self, n):
        if n.op == 'ite':
            return self.isnonneg(n.a[1]) and self.isnonneg(n.a[2])
        if self.ismin(n):
            return all(self.isnonneg(y) for y in n.a[1:])
        return n.op in ('norm', 'abs') or self.sigma(n) or n.op == 'fn' and str(n.a[0]).split('::')[-1].lstrip('.') in ('sqrt', 'fabs', 'abs', 'squaredNorm')

    @staticmethod
    def ismin(n):
        return n.op == 'fn' and str(n.a[0]).split('::')[-1] == 'min' and len(n.a) >= 3

    @staticmethod
    def tiny(v):
        """the integer a field value stands for, when it is small"""
        return v if v < 1 << 20 else v - P if P - v < 1 << 20 else None

    def less(self, x, y):
        """1, 0 or None: x < y"""
        vx, vy = self.sc(x), self.sc(y)
        if self.isnonneg(x) and self.is_tol(y):
            return int(vx == 0 and not (y.op == 'num' and y.a[0] == 0))
        if self.isnonneg(y) and self.is_tol(x):
            return int(vy != 0)
        a, b = self.tiny(vx), self.tiny(vy)
        if a is not None and b is not None:
            return int(a < b)
        if self.isnonneg(x) and self.isnonneg(y):
            if vx == 0:
                return int(vy != 0)
            if vy == 0:
                return 0
        return self.choose(x, y, (vx - vy) % P)

    def choose(self, x, y, d):
        return None

    def lt_value(self, x, y):
        r = self.less(x, y)
        return H(self.seed, 'lt', (self.sc(x) - self.sc(y)) % P) if r is None else r

    def sqrt(self, v):
        if v % P == 0:
            return 0
        return RI.sqrt(self, v)

    def opaque(self, n):
        if n.op in ('lt', 'le'):
            pass
        return RI.opaque(self, n)

    # ---- decompositions
    def svd(self, ctor, A, what):
        if (A.r, A.c) == (3, 3):
            # k [t]x R, or its transpose
            for tp in (False, True):
                k = proportional(tr(A) if tp else A, self.s.E)
                if k is not None:
                    U, S, V = self.essential_svd(k)
                    if tp:
                        U, V = V, U
                    return {'matrixU': U, 'matrixV': V, 'singularValues': S}[what]
        N_ = nullspace(A)
        if len(N_) == 0 and A.r >= A.c:
            # full column rank: factors that make V inv(S) U' the pseudo-inverse
            V = orthonormal(A.c, ('V', self.seed, A.c))
            S = [H('sv', self.seed, ctor.id, i) for i in range(A.c)]
            if what == 'matrixV':
                return V
            if what == 'singularValues':
                return Mat(A.c, 1, S)
            At = tr(A)
            G = minverse(mmul(At, A))
            pinv = mmul(G, At)
            D = Mat(A.c, A.c, [S[i] if i == j else 0 for i in range(A.c) for j in range(A.c)])
            return tr(mmul(D, mmul(tr(V), pinv)))
        if A.r < A.c and what == 'matrixU' and A.r <= 4:
            return orthonormal(A.r, ('U', self.seed, A.r))
        if N_ and what == 'matrixV':
            k = len(N_)
            cols = [[H('vcol', self.seed, ctor.id, i, j) for i in range(A.c)] for j in range(A.c - k)]
            for j in range(k):
                w = [H('mix', self.seed, j, i) for i in range(k)]
                cols.append([sum(w[i] * N_[i][r] for i in range(k)) % P for r in range(A.c)])
            return Mat(A.c, A.c, [cols[j][i] for i in range(A.c) for j in range(A.c)])
        return None

    def essential_svd(self, k):
        """singular value decomposition of k [t]x R in the field"""
        s = self.s
        th = s.that
        a = unit(('perp', s.seed))
        # an orthonormal frame with third column t/|t|: rotate e3 onto it
        x, y, z = th.v
        q = inv_((1 + z) % P)
        U = Mat(3, 3, [(1 - x * x * q) % P, -x * y * q % P, x, -x * y * q % P, (1 - y * y * q) % P, y, -x % P, -y % P, z])
        c, d = H('ang', s.seed), 0
        n2 = inv_((1 + c * c) % P)
        co, si = (1 - c * c) * n2 % P, 2 * c * n2 % P
        U = mmul(U, Mat(3, 3, [co, -si % P, 0, si, co, 0, 0, 0, 1]))
        Wz = Mat(3, 3, [0, P - 1, 0, 1, 0, 0, 0, 0, 1])
        Vt = mmul(mmul(Wz, tr(U)), s.R)
        lam = k * s.tau % P
        V = tr(Vt)
        if H('flipU', s.seed) & 1:
            U = Mat(3, 3, [e if i % 3 != 2 else -e % P for i, e in enumerate(U.v)])
        if H('flipV', s.seed) & 1:
            V = Mat(3, 3, [e if i % 3 != 2 else -e % P for i, e in enumerate(V.v)])
        return U, Mat(3, 1, [lam, lam, 0]), V

    def eig(self, ctor, A, what):
        return None
