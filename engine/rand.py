"""Random interpretation of value graphs: every graph is evaluated once in the
field of integers modulo a large prime, atoms taking pseudo-random field values
(rotations take the values of a random rotation), arithmetic and fixed-size
matrix algebra interpreted exactly, every other operation as an uninterpreted
function of its operands' values. Graphs with equal values are equal as
rational expressions over uninterpreted functions (error probability below
2^-50 per comparison); no program code is run."""
import hashlib
from fractions import Fraction
import nodes as _n
from nodes import N, nodes, is_rot

P = (1 << 61) - 636873       # prime; 7 mod 8, and every prime up to 47 is a square


class Mat:
    __slots__ = ('r', 'c', 'v')

    def __init__(self, r, c, v):
        self.r, self.c, self.v = r, c, v

    def __eq__(self, o):
        return isinstance(o, Mat) and (self.r, self.c, self.v) == (o.r, o.c, o.v)

    def __hash__(self):
        return hash((self.r, self.c, tuple(self.v)))


def H(*parts):
    m = hashlib.blake2b(digest_size=16)
    for p in parts:
        m.update(repr(p).encode() + b'\0')
    return int.from_bytes(m.digest(), 'big') % P


def inv_(x):
    return pow(x, -1, P) if x % P else H('1/0')


def rot_mat(seed):
    w, x, y, z = (H('quat', k, seed) for k in range(4))
    s = inv_(w * w + x * x + y * y + z * z)
    v = [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
         2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
         2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]
    return Mat(3, 3, [e * s % P for e in v])


def key(v):
    return ('M', v.r, v.c) + tuple(v.v) if isinstance(v, Mat) else v


def as_mat(v, r, c):
    if isinstance(v, Mat):
        return v if (v.r, v.c) == (r, c) else None
    if (r, c) == (1, 1):
        return Mat(1, 1, [v])
    return Mat(r, c, [H('elem', v, i, j) for i in range(r) for j in range(c)])


def mmul(a, b):
    if a.c != b.r:
        return None
    return Mat(a.r, b.c, [sum(a.v[i * a.c + k] * b.v[k * b.c + j] for k in range(a.c)) % P for i in range(a.r) for j in range(b.c)])


def tr(a):
    return Mat(a.c, a.r, [a.v[i * a.c + j] for j in range(a.c) for i in range(a.r)])


def minverse(a):
    n = a.r
    M = [a.v[i * n:(i + 1) * n] + [1 if i == j else 0 for j in range(n)] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] % P), None)
        if p is None:
            return None
        M[c], M[p] = M[p], M[c]
        s = inv_(M[c][c])
        M[c] = [x * s % P for x in M[c]]
        for r in range(n):
            if r != c and M[r][c]:
                f = M[r][c]
                M[r] = [(x - f * y) % P for x, y in zip(M[r], M[c])]
    return Mat(n, n, [M[i][n + j] for i in range(n) for j in range(n)])


def det(a):
    n = a.r
    M = [a.v[i * n:(i + 1) * n] for i in range(n)]
    d = 1
    for c in range(n):
        p = next((r for r in range(c, n) if M[r][c] % P), None)
        if p is None:
            return 0
        if p != c:
            M[c], M[p] = M[p], M[c]
            d = -d
        d = d * M[c][c] % P
        s = inv_(M[c][c])
        for r in range(c + 1, n):
            f = M[r][c] * s % P
            if f:
                M[r] = [(x - f * y) % P for x, y in zip(M[r], M[c])]
    return d % P


def small(d):
    return d is not None and d != (1, 1) and d[0] > 0 and d[1] > 0 and d[0] * d[1] <= 900


class RI:
    def __init__(self, seed=0, fix=None):
        self.m = dict(fix or {})     # nodes with given values
        self.seed = seed
        self.unroll = bool(fix)      # sums and loops with given bounds are unrolled

    def num(self, c):
        if isinstance(c, int):
            return c % P
        if c != c or c in (float('inf'), float('-inf')):
            return H('special', str(c))
        f = Fraction(c)
        g = f.limit_denominator(1000000)
        if g != f and abs(float(g) - c) <= 4e-16 * abs(c):
            f = g
        return f.numerator % P * inv_(f.denominator % P) % P

    def ev(self, n):
        r = self.m.get(n)
        if r is None:
            r = self.ev_(n)
            if r is None:
                r = self.opaque(n)
            self.m[n] = r
        return r

    def parts(self, a):
        if isinstance(a, N):
            return key(self.ev(a))
        if isinstance(a, tuple):
            return tuple(self.parts(x) for x in a)
        return a

    def opaque(self, n):
        h = H(self.seed, n.op, *[self.parts(a) for a in n.a])
        d = n.dim
        if is_rot(n):
            return rot_mat(h)
        if n in _n.POSES or (n.op == 'el' and n.a[0] in _n.POSES and d == (3, 4)):
            R = rot_mat(h)
            return Mat(3, 4, [R.v[3 * i + j] if j < 3 else H(h, 't', i) for i in range(3) for j in range(4)])
        if small(d):
            return as_mat(h, *d)
        return h

    def sc(self, n):
        v = self.ev(n)
        if isinstance(v, Mat):
            return v.v[0] if (v.r, v.c) == (1, 1) else H('mat', key(v))
        return v

    def mat(self, n, d=None):
        v = self.ev(n)
        if isinstance(v, Mat):
            return v
        d = d or n.dim
        if d and d[0] > 0 and d[1] > 0:
            return as_mat(v, *d)
        return None

    def chain(self, ch, dim):
        """product of a chain; scalars allowed"""
        s, acc_ = 1, None
        ms = []
        for x in ch:
            v = self.ev(x)
            if isinstance(v, Mat) or (x.dim and x.dim != (1, 1)):
                m = self.mat(x)
                if m is None:
                    return None
                ms.append(m)
            elif x.dim == (1, 1):
                ms.append(Mat(1, 1, [v]))
            else:
                return None
        for m in ms:
            if acc_ is None:
                acc_ = m
            elif (acc_.r, acc_.c) == (1, 1) and m.r != 1:
                acc_ = Mat(m.r, m.c, [acc_.v[0] * e % P for e in m.v])
            elif (m.r, m.c) == (1, 1) and acc_.c != 1:
                acc_ = Mat(acc_.r, acc_.c, [m.v[0] * e % P for e in acc_.v])
            else:
                acc_ = mmul(acc_, m)
                if acc_ is None:
                    return None
        return acc_

    def lin(self, terms):
        out = None
        for c, m in terms:
            if m is None:
                return None
            v = [c * e % P for e in m.v]
            if out is None:
                out = Mat(m.r, m.c, v)
            elif (out.r, out.c) != (m.r, m.c):
                return None
            else:
                out = Mat(m.r, m.c, [(a + b) % P for a, b in zip(out.v, v)])
        return out

    def ev_(self, n):
        op, a = n.op, n.a
        if op == 'num':
            return self.num(a[0])
        if op == 'bool':
            return int(a[0])
        if op == 'poly':
            t = 0
            for m, c in a[0]:
                p = self.num(c)
                for x, e in m:
                    v = self.sc(x)
                    p = p * (pow(v, e, P) if e > 0 else pow(inv_(v), -e, P)) % P
                t += p
            return t % P
        if op == 'inv':
            return inv_(self.sc(a[0]))
        if self.unroll:
            r = self.ev_dyn(n)
            if r is not NotImplemented:
                return r
        if op == 'sum' and self.unroll:
            lo, hi = self.sc(a[0]), self.sc(a[1])
            if hi - lo > 64:
                return None
            t = None
            for k in range(lo, hi):
                v = self.ev(_n.subst(a[3], {a[2]: _n.num(k)}))
                if t is None:
                    t = v
                elif isinstance(t, Mat) and isinstance(v, Mat) and (t.r, t.c) == (v.r, v.c):
                    t = Mat(t.r, t.c, [(x + y) % P for x, y in zip(t.v, v.v)])
                elif isinstance(t, int) and isinstance(v, int):
                    t = (t + v) % P
                else:
                    return None
            return t if t is not None else 0
        if op == 'abs':
            v = self.sc(a[0])
            return H(self.seed, 'abs', min(v, P - v))
        if op == 'not':
            return (1 - self.sc(a[0])) % P
        if op == 'and':
            t = 1
            for x in a[0]:
                t = t * self.sc(x) % P
            return t
        if op in ('lt', 'le'):
            if op == 'lt':
                return H(self.seed, 'lt', (self.sc(a[1]) - self.sc(a[0])) % P)
            return (1 - H(self.seed, 'lt', (self.sc(a[0]) - self.sc(a[1])) % P)) % P
        if op == 'eq':
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, int) and isinstance(y, int):
                d = (x - y) % P
                return 1 if d == 0 else H(self.seed, 'eq', min(d, P - d))
            return 1 if x == y else None
        if op == 'ite':
            c = self.sc(a[0])
            x, y = self.ev(a[1]), self.ev(a[2])
            if x == y:
                return x
            if isinstance(x, Mat) or isinstance(y, Mat):
                d = (x.r, x.c) if isinstance(x, Mat) else (y.r, y.c)
                x, y = as_mat(x, *d), as_mat(y, *d)
                return self.lin([(c, x), ((1 - c) % P, y)]) if x and y else None
            return (c * x + (1 - c) * y) % P
        if op == 'fn':
            nm = str(a[0]).split('::')[-1].lstrip('.')
            if len(a) == 2 and isinstance(a[1], N):
                if nm in ('sqrt', 'sqrtl', 'sqrtf'):
                    return self.sqrt(self.sc(a[1]))
                if nm == 'determinant':
                    m = self.mat(a[1])
                    return det(m) if m and m.r == m.c else None
                if nm in ('sum', 'trace', 'squaredNorm'):
                    m = self.mat(a[1])
                    if m:
                        return sum(m.v) % P if nm == 'sum' else sum(m.v[i * m.c + i] for i in range(min(m.r, m.c))) % P if nm == 'trace' else sum(e * e for e in m.v) % P
            if nm in ('Zero', 'Identity', 'Ones') and small(n.dim) and len(a) == 1:
                r, c = n.dim
                return Mat(r, c, [{'Zero': 0, 'Ones': 1}.get(nm, int(i == j)) for i in range(r) for j in range(c)])
            if nm == 'pow' and len(a) == 3:
                e = a[2]
                if e.op == 'num' and e.a[0] == 0.5:
                    return self.sqrt(self.sc(a[1]))
                if e.op == 'num' and isinstance(e.a[0], int) and 0 <= e.a[0] < 64:
                    return pow(self.sc(a[1]), e.a[0], P)
            return None
        if op == 'call':
            nm = str(a[0]).split('::')[-1].lstrip('.')
            if nm in ('Zero', 'Identity', 'Ones') and small(n.dim):
                r, c = n.dim
                return Mat(r, c, [{'Zero': 0, 'Ones': 1}.get(nm, int(i == j)) for i in range(r) for j in range(c)])
            return None
        if op == 'norm':
            m = self.mat(a[0])
            return self.sqrt(sum(e * e for e in m.v) % P) if m else None
        if op == 'mconst':
            v = self.sc(a[2])
            if isinstance(a[0], int) and isinstance(a[1], int) and 0 < a[0] * a[1] <= 900:
                return Mat(a[0], a[1], [v] * (a[0] * a[1]))
            return None
        if op == 'mI':
            if isinstance(a[0], int) and 0 < a[0] <= 30:
                return Mat(a[0], a[0], [int(i == j) for i in range(a[0]) for j in range(a[0])])
            return None
        if op == 'T':
            m = self.mat(a[0])
            return tr(m) if m else None
        if op == 'msum':
            ts = []
            for c, ch in a[0]:
                m = self.chain(ch, n.dim)
                if m is None:
                    return self.msum_opaque(n)
                ts.append((self.sc(c), m))
            return self.lin(ts) or self.msum_opaque(n)
        if op == 'bil':
            m = self.chain(a[0], (1, 1))
            return m.v[0] if m and (m.r, m.c) == (1, 1) else None
        if op == 'blk':
            m = self.ev(a[0])
            r0, c0, nr, nc = [x if isinstance(x, int) else (x.a[0] if isinstance(x, N) and x.op == 'num' else None) for x in a[1:5]]
            if None in (r0, c0, nr, nc) or nr < 1 or nc < 1 or nr * nc > 900:
                return None
            if a[0].op == 'bil' and (r0, c0, nr, nc) == (0, 0, 1, 1):
                return m
            if isinstance(m, Mat):
                if r0 < 0 or c0 < 0 or r0 + nr > m.r or c0 + nc > m.c:
                    return None
                r = Mat(nr, nc, [m.v[(r0 + i) * m.c + c0 + j] for i in range(nr) for j in range(nc)])
            else:
                r = Mat(nr, nc, [H('elem', m, r0 + i, c0 + j) for i in range(nr) for j in range(nc)])
            return r.v[0] if (nr, nc) == (1, 1) else r
        if op == 'mupd':
            nr, nc = a[2], a[3]
            if not (isinstance(nr, int) and isinstance(nc, int) and 0 < nr * nc <= 900):
                return None
            if a[0] is None:
                v = [H('undef', self.seed)] * (nr * nc)
            else:
                b = self.ev(a[0])
                b = as_mat(b, nr, nc)
                if b is None:
                    return None
                v = list(b.v)
            for (r0, c0, h, w, x) in a[1]:
                y = self.ev(x)
                y = as_mat(y, h, w) if not isinstance(y, Mat) else y
                if y is None or (y.r, y.c) != (h, w):
                    return None
                for i in range(h):
                    for j in range(w):
                        v[(r0 + i) * nc + c0 + j] = y.v[i * w + j]
            return Mat(nr, nc, v)
        if op == 'minv':
            m = self.mat(a[0])
            if m and m.r == m.c and m.r <= 12:
                return minverse(m)
            return None
        if op == 'cross':
            x, y = self.mat(a[0], (3, 1)), self.mat(a[1], (3, 1))
            if x is None or y is None or (x.r, x.c) != (3, 1) or (y.r, y.c) != (3, 1):
                return None
            x, y = x.v, y.v
            return Mat(3, 1, [(x[1] * y[2] - x[2] * y[1]) % P, (x[2] * y[0] - x[0] * y[2]) % P, (x[0] * y[1] - x[1] * y[0]) % P])
        return None

    def small_int(self, x):
        v = x if isinstance(x, int) else self.sc(x)
        return v if 0 <= v <= 400 else None

    def ev_dyn(self, n):
        """matrices whose size is known only under the given values"""
        op, a = n.op, n.a
        if op == 'undef' and len(a) == 5 and isinstance(a[3], N):
            r, c = self.small_int(a[3]), self.small_int(a[4])
            return Mat(r, c, [H('undef', self.seed)] * (r * c)) if r and c else None
        if op == 'mconst' and len(a) == 5:
            r, c = self.small_int(a[3]), self.small_int(a[4])
            return Mat(r, c, [self.sc(a[2])] * (r * c)) if r and c else None
        if op == 'mI' and len(a) == 2:
            r = self.small_int(a[1])
            return Mat(r, r, [int(i == j) for i in range(r) for j in range(r)]) if r else None
        if op in ('rows', 'cols'):
            m = self.ev(a[0])
            return (m.r if op == 'rows' else m.c) if isinstance(m, Mat) else None
        if op in ('mloop', 'mst'):
            b = self.ev(a[0])
            if not isinstance(b, Mat):
                return None
            m = Mat(b.r, b.c, list(b.v))
            if op == 'mst':
                return m if self.put(m, *a[1:6]) else None
            lo, hi = self.small_int(a[1]), self.small_int(a[2])
            if lo is None or hi is None:
                return None
            for k in range(lo, hi):
                w = _n.subst(a[4], {a[3]: _n.num(k)}).a[0]
                for i in range(0, len(w), 5):
                    if not self.put(m, *w[i:i + 5]):
                        return None
            return m
        if op == 'blk':
            m = self.ev(a[0])
            x = [self.small_int(y) for y in a[1:5]]
            if isinstance(m, Mat) and None not in x:
                r0, c0, nr, nc = x
                if r0 + nr > m.r or c0 + nc > m.c or nr * nc == 0:
                    return None
                r = Mat(nr, nc, [m.v[(r0 + i) * m.c + c0 + j] for i in range(nr) for j in range(nc)])
                return r.v[0] if (nr, nc) == (1, 1) else r
        return NotImplemented

    def put(self, m, r0, c0, nr, nc, v):
        r0, c0, nr, nc = [self.small_int(x) for x in (r0, c0, nr, nc)]
        if None in (r0, c0, nr, nc) or r0 + nr > m.r or c0 + nc > m.c:
            return False
        y = self.ev(v)
        y = as_mat(y, nr, nc) if not isinstance(y, Mat) else y
        if y is None or (y.r, y.c) != (nr, nc):
            return False
        for i in range(nr):
            for j in range(nc):
                m.v[(r0 + i) * m.c + c0 + j] = y.v[i * nc + j]
        return True

    def sqrt(self, v):
        return H(self.seed, 'sqrt', v)

    def msum_opaque(self, n):
        """sum of products of unknown shape: linear in the products"""
        t = 0
        for c, ch in n.a[0]:
            t += self.sc(c) * H(self.seed, 'chain', *[key(self.ev(x)) for x in ch])
        return t % P


_RI = None


def value(n):
    global _RI
    if _RI is None:
        _RI = RI()
    return _RI.ev(n)


def same_value(a, b, da=None):
    """equal under the random interpretation (shape-adapted)"""
    if a is b:
        return True
    ri = RI()
    x, y = ri.ev(a), ri.ev(b)
    if isinstance(x, Mat) and not isinstance(y, Mat):
        y = as_mat(y, x.r, x.c)
    elif isinstance(y, Mat) and not isinstance(x, Mat):
        x = as_mat(x, y.r, y.c)
    return x is not None and x == y
