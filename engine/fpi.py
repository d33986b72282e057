"""Interpretation of the algebraic core of a solver over a finite field.

The functions of the solver modules are straight algebra on doubles. Here their syntax trees are interpreted with
every double (and every complex number) standing for an element of F_p, p = 2^61 - 1, and integers for themselves.
Additions, products, quotients and matrix products are those of the field, so an algebraic identity that holds for all
real inputs holds for the random field elements as well, and one that does not is refuted except with probability
about degree/p. Decompositions are replaced by their specification: EigenSolver returns the eigenvectors, arbitrarily
scaled, of the eigenvalues lying in the field, the polynomial root finders the roots lying in the field, a null space
of a singular value decomposition an arbitrarily scaled basis of the exact null space.

Order is not defined in the field. A comparison is decided where both sides are known small rationals (a residual that
vanishes, a literal); a quantity that is not known is taken to be larger than one that is, and two of them are ordered
by an oracle that the caller varies. Square roots pick a sign by the oracle as well."""
import random
from fractions import Fraction

from vg import base_ts, eig, edim, is_int_ts, is_float_ts, is_vec_ts

P = (1 << 61) - 636873       # prime; 7 mod 8, and every prime up to 47 is a square
_junk = random.Random(7)


# algorithms of the standard library, and how many of their leading arguments are positions
ALGO = {'iota': 2, 'fill': 2, 'fill_n': 1, 'accumulate': 2, 'inner_product': 3, 'copy': 3, 'transform': 3, 'min_element': 2,
        'max_element': 2}


class Unsupported(Exception):
    pass


class Fault(Exception):
    pass


class _Ret(Exception):
    pass


class _Brk(Exception):
    pass


class _Cont(Exception):
    pass


def inv(x):
    """the quotient by zero is not a number: unknown"""
    if x % P == 0:
        return _junk.randrange(P)
    return pow(x, P - 2, P)


class Cell:
    __slots__ = ('v',)

    def __init__(self, v=None):
        self.v = v


class Mat:
    """a strided view on a list of field elements"""
    __slots__ = ('r', 'c', 'd', 'o', 'rs', 'cs')

    def __init__(self, r, c, d=None, o=0, rs=None, cs=1):
        self.r, self.c = r, c
        self.d = [None] * (r * c) if d is None else d
        self.o = o
        self.rs = c if rs is None else rs
        self.cs = cs

    def at(self, i, j):
        if not (0 <= i < self.r and 0 <= j < self.c):
            raise Fault('element (%s,%s) of a %dx%d matrix' % (i, j, self.r, self.c))
        return self.o + i * self.rs + j * self.cs

    def get(self, i, j):
        return self.d[self.at(i, j)]

    def set(self, i, j, v):
        self.d[self.at(i, j)] = v

    def lin(self, i):
        if self.r == 1:
            return self.at(0, i)
        if self.c == 1:
            return self.at(i, 0)
        return self.at(i % self.r, i // self.r)

    def block(self, i, j, r, c):
        if i < 0 or j < 0 or r < 0 or c < 0 or i + r > self.r or j + c > self.c:
            raise Fault('block (%s,%s)+%sx%s of a %dx%d matrix' % (i, j, r, c, self.r, self.c))
        return Mat(r, c, self.d, self.o + i * self.rs + j * self.cs, self.rs, self.cs)

    def T(self):
        return Mat(self.c, self.r, self.d, self.o, self.cs, self.rs)

    def rows(self):
        d, o, rs, cs = self.d, self.o, self.rs, self.cs
        return [[d[o + i * rs + j * cs] for j in range(self.c)] for i in range(self.r)]

    def flat(self):
        d, o, rs, cs = self.d, self.o, self.rs, self.cs
        return [d[o + i * rs + j * cs] for i in range(self.r) for j in range(self.c)]

    def copy(self):
        return Mat(self.r, self.c, self.flat())

    def map(self, f):
        return Mat(self.r, self.c, [f(x) for x in self.flat()])

    def assign(self, m):
        if (self.r, self.c) != (m.r, m.c):
            if self.r * self.c == m.r * m.c and 1 in (self.r, self.c) and 1 in (m.r, m.c):
                m = Mat(self.r, self.c, m.flat())
            else:
                raise Fault('a %dx%d matrix assigned to a %dx%d one' % (m.r, m.c, self.r, self.c))
        v = m.flat()
        k = 0
        for i in range(self.r):
            b = self.o + i * self.rs
            for j in range(self.c):
                self.d[b + j * self.cs] = v[k]
                k += 1

    def resize(self, r, c):
        self.r, self.c, self.d, self.o, self.rs, self.cs = r, c, [None] * (r * c), 0, c, 1


def mat(rows):
    return Mat(len(rows), len(rows[0]) if rows else 0, [x % P for r in rows for x in r])


def mmul(a, b):
    if a.c != b.r:
        if a.r == 1 and a.c == 1:
            return scale(b, a.get(0, 0))
        if b.r == 1 and b.c == 1:
            return scale(a, b.get(0, 0))
        raise Fault('product of a %dx%d and a %dx%d matrix' % (a.r, a.c, b.r, b.c))
    A, B = a.rows(), b.T().rows()
    return Mat(a.r, b.c, [sum(map(lambda x, y: x * y, ra, cb)) % P for ra in A for cb in B])


def scale(a, s):
    return a.map(lambda x: x * s % P)


def zipm(a, b, f):
    if (a.r, a.c) != (b.r, b.c):
        raise Fault('%dx%d combined with %dx%d' % (a.r, a.c, b.r, b.c))
    return Mat(a.r, a.c, [f(x, y) for x, y in zip(a.flat(), b.flat())])


def rref(rows):
    a = [[x % P for x in r] for r in rows]
    piv = []
    r = 0
    n = len(a[0]) if a else 0
    for c in range(n):
        p = next((i for i in range(r, len(a)) if a[i][c]), None)
        if p is None:
            continue
        a[r], a[p] = a[p], a[r]
        k = pow(a[r][c], P - 2, P)
        ar = a[r] = [x * k % P for x in a[r]]
        nz = [(j, y) for j, y in enumerate(ar) if y]
        for i in range(len(a)):
            if i != r and a[i][c]:
                ai = a[i]
                q = ai[c]
                for j, y in nz:
                    ai[j] = (ai[j] - q * y) % P
        piv.append(c)
        r += 1
        if r == len(a):
            break
    return a, piv


def nullspace(rows):
    a, piv = rref(rows)
    n = len(rows[0])
    out = []
    for f in range(n):
        if f in piv:
            continue
        v = [0] * n
        v[f] = 1
        for i, c in enumerate(piv):
            v[c] = -a[i][f] % P
        out.append(v)
    return out


def minv(m):
    n = m.r
    if n != m.c:
        raise Fault('inverse of a %dx%d matrix' % (m.r, m.c))
    a, piv = rref([r + [1 if i == j else 0 for j in range(n)] for i, r in enumerate(m.rows())])
    if piv != list(range(n)):
        raise Fault('inverse of a singular matrix')
    return Mat(n, n, [x for r in a for x in r[n:]])


def det(m):
    a = [list(r) for r in m.rows()]
    n = len(a)
    d = 1
    for c in range(n):
        p = next((i for i in range(c, n) if a[i][c]), None)
        if p is None:
            return 0
        if p != c:
            a[c], a[p] = a[p], a[c]
            d = -d
        d = d * a[c][c] % P
        k = pow(a[c][c], P - 2, P)
        for i in range(c + 1, n):
            if a[i][c]:
                q = a[i][c] * k % P
                a[i] = [(x - q * y) % P for x, y in zip(a[i], a[c])]
    return d % P


def charpoly(m):
    """coefficients, lowest first, by reduction to Hessenberg form"""
    a = [list(r) for r in m.rows()]
    n = len(a)
    for c in range(n - 2):
        p = next((i for i in range(c + 1, n) if a[i][c]), None)
        if p is None:
            continue
        if p != c + 1:
            a[p], a[c + 1] = a[c + 1], a[p]
            for r in a:
                r[p], r[c + 1] = r[c + 1], r[p]
        k = pow(a[c + 1][c], P - 2, P)
        for i in range(c + 2, n):
            q = a[i][c] * k % P
            if q:
                a[i] = [(x - q * y) % P for x, y in zip(a[i], a[c + 1])]
                for r in a:
                    r[c + 1] = (r[c + 1] + q * r[i]) % P
    ps = [[1]]
    for k in range(1, n + 1):
        prev = ps[-1]
        q = [0] + prev
        for i, x in enumerate(prev):
            q[i] = (q[i] - a[k - 1][k - 1] * x) % P
        t = 1
        for i in range(1, k):
            t = t * a[k - i][k - i - 1] % P
            f = t * a[k - i - 1][k - 1] % P
            if f:
                for j, x in enumerate(ps[k - i - 1]):
                    q[j] = (q[j] - f * x) % P
        ps.append(q)
    return ps[-1]


def ptrim(a):
    while a and a[-1] == 0:
        a.pop()
    return a


def pmod(a, f):
    a = list(a)
    n = len(f) - 1
    k = pow(f[-1], P - 2, P)
    while len(a) > n:
        c = a[-1] * k % P
        if c:
            o = len(a) - n - 1
            for i in range(n):
                a[o + i] = (a[o + i] - c * f[i]) % P
        a.pop()
    return ptrim(a)


def pmulmod(a, b, f):
    if not a or not b:
        return []
    r = [0] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                r[i + j] += x * y
    return pmod([x % P for x in r], f)


def pgcd(a, b):
    a, b = ptrim(list(a)), ptrim(list(b))
    while b:
        a, b = b, pmod(a, b)
    k = pow(a[-1], P - 2, P) if a else 0
    return [x * k % P for x in a]


def pdiv(a, b):
    a = list(a)
    q = [0] * max(len(a) - len(b) + 1, 1)
    k = pow(b[-1], P - 2, P)
    while len(a) >= len(b):
        c = a[-1] * k % P
        o = len(a) - len(b)
        q[o] = c
        for i, x in enumerate(b):
            a[o + i] = (a[o + i] - c * x) % P
        a.pop()
    return ptrim(q)


def roots(f, rng):
    """the distinct roots in the field; coefficients lowest first"""
    f = ptrim([x % P for x in f])
    out = []
    if len(f) < 2:
        return out
    if f[0] == 0:
        out.append(0)
        while f[0] == 0:
            f = f[1:]
    if len(f) < 2:
        return out

    def ppow(b, e, f):
        r = [1]
        b = pmod(b, f)
        for bit in bin(e)[2:]:
            r = pmulmod(r, r, f)
            if bit == '1':
                r = pmulmod(r, b, f)
        return r

    if len(f) > 2:
        x = ppow([0, 1], P, f)
        x = x + [0] * (2 - len(x))
        x[1] = (x[1] - 1) % P
        g = pgcd(f, x)
    else:
        g = f
    st = [g]
    while st:
        g = st.pop()
        if len(g) < 2:
            continue
        if len(g) == 2:
            out.append(-g[0] * pow(g[1], P - 2, P) % P)
            continue
        while True:
            a = rng.randrange(P)
            h = ppow([a, 1], (P - 1) // 2, g)
            h = h + [0] * (1 - len(h))
            h[0] = (h[0] - 1) % P
            d = pgcd(g, h)
            if 1 < len(d) < len(g):
                st += [d, pdiv(g, d)]
                break
    return out


def issq(x):
    x %= P
    return x == 0 or pow(x, (P - 1) // 2, P) == 1


def rsqrt(x):
    return pow(x % P, (P + 1) // 4, P)        # p = 3 mod 4


class FPI:
    def __init__(self, db, seed=0, intercepts=None, steps=30000000):
        self.db = db
        self.bodies = {}
        self.tiny = set()
        self.starts, self.functors = [], []
        self.order = False       # squares are the positive numbers: a sign that is multiplicative
        self.vanishing = None    # outcome of the last comparison of a vanishing with a non-vanishing quantity
        self.positive = set()
        self.rng = random.Random(seed)
        self.known = {}
        self.icpt = intercepts or {}
        self.fns = set()
        self.statements = 0
        self.left = steps
        self.globals = {}
        self.f = None
        self.at = None
        self.nonres = 0
        self.roots = {}

    # ---- entry -------------------------------------------------------------------------------------------------
    def call(self, f, args, this=None):
        """args: Mat, list or number; a reference parameter is bound to the object itself"""
        return self.call_cells(f, [a if isinstance(a, Cell) else Cell(a) for a in args], this)

    env = T = this = None
    depth = 0

    def cp(self, v):
        if isinstance(v, Mat):
            return v.copy()
        if isinstance(v, list):
            return [self.cp(x) for x in v]
        if isinstance(v, dict):
            return {k: Cell(self.cp(c.v)) for k, c in v.items()}
        return v

    def where(self, e):
        return '%s:%s' % (self.f['file'], e.get('l')) if self.f else '?'

    # ---- statements --------------------------------------------------------------------------------------------
    def stmt(self, s):
        if s is None:
            return
        self.left -= 1
        if self.left < 0:
            raise Unsupported('too many steps')
        self.statements += 1
        if 'l' in s:
            self.at = (self.f['file'], s['l'])
        k = s['k']
        if k == 'expr':
            self.ev(s['e'])
        elif k == 'block':
            for x in s['s']:
                self.stmt(x)
        elif k == 'decl':
            for v in s['v']:
                self.decl(v)
        elif k == 'if':
            if s.get('init'):
                self.stmt(s['init'])
            if self.truth(self.ev(s['c'])):
                self.stmt(s['a'])
            else:
                self.stmt(s.get('b'))
        elif k in ('for', 'while'):
            if s.get('i'):
                self.stmt(s['i'])
            while s.get('c') is None or self.truth(self.ev(s['c'])):
                try:
                    self.stmt(s['b'])
                except _Brk:
                    break
                except _Cont:
                    pass
                if s.get('n'):
                    self.stmt(s['n'])
        elif k == 'do':
            while True:
                try:
                    self.stmt(s['b'])
                except _Brk:
                    break
                except _Cont:
                    pass
                if not self.truth(self.ev(s['c'])):
                    break
        elif k == 'return':
            v = self.ev(s['e']) if s.get('e') else None
            if isinstance(v, Mat):
                v = v.copy()
            raise _Ret(v)
        elif k == 'break':
            raise _Brk()
        elif k == 'continue':
            raise _Cont()
        elif k == 'nop':
            pass
        elif k == 'try':
            self.stmt(s['b'])
        elif k == 'rfor':
            self.rfor(s)
        elif k == 'switch':
            self.switch(s)
        elif k in self.EXPR:
            self.ev(s)
        else:
            raise Unsupported('statement ' + k)

    EXPR = {'asg', 'un', 'call', 'mcall', 'op', 'bin', 'cond', 'cast', 'ctor', 'ref', 'lit', 'del', 'throw'}

    def switch(self, s):
        v = self.ev(s['c'])
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        flat = []

        def add(x):
            if x['k'] in ('case', 'default'):
                flat.append(('label', x))
                y = x.get('s')
                if y:
                    add(y)
            else:
                flat.append(('s', x))
        for x in body:
            add(x)
        start = None
        for i, (t, x) in enumerate(flat):
            if t == 'label' and x['k'] == 'case' and x['v'].get('c') == v:
                start = i
                break
        if start is None:
            start = next((i for i, (t, x) in enumerate(flat) if t == 'label' and x['k'] == 'default'), None)
        if start is None:
            return
        try:
            for t, x in flat[start:]:
                if t == 's':
                    self.stmt(x)
        except _Brk:
            pass

    def rfor(self, s):
        x = self.ev(s['r'])
        if not isinstance(x, list):
            raise Unsupported('range of ' + type(x).__name__)
        v = s['v']
        ref = self.T[v['t']].endswith('&')
        i = 0
        while i < len(x):
            el = x[i]
            if ref:
                self.env[v['id']] = Cell(el) if isinstance(el, (Mat, list, dict)) else Elem(x, i)
            else:
                self.env[v['id']] = Cell(self.cp(el))
            i += 1
            try:
                self.stmt(s['b'])
            except _Brk:
                break
            except _Cont:
                pass

    def default(self, ts, line=None):
        t = base_ts(ts)
        if t.endswith(']'):
            i = t.index('[', t.rindex('>') if '>' in t else 0)
            el, dims = t[:i].strip(), [int(x) for x in t[i + 1:-1].split('][')]

            def mk(ds):
                if not ds:
                    return self.default(el)
                return [mk(ds[1:]) for _ in range(ds[0])]
            return mk(dims)
        e = eig(t)
        if e:
            r, c = max(e[1], 0), max(e[2], 0)
            if e[0] in ('Matrix', 'Array'):
                return Mat(r, c)
            return {'solver': Cell(e[0])}
        if t.startswith('std::array<'):
            n = int(t.rsplit(',', 1)[1].strip(' >UL'))
            return [None] * n
        if is_vec_ts(t):
            return []
        if t.startswith('std::complex<'):
            return 0
        if t.startswith('std::pair<'):
            return [None, None]
        if is_int_ts(t) or is_float_ts(t) or t.endswith('*'):
            return None
        if self.db.recT.get(t):
            return {}
        return None

    def decl(self, v):
        ts = self.T[v['t']]
        if ts.endswith('&') or ts.endswith('&&'):
            x = self.lv(v['i']) if v.get('i') else None
            self.env[v['id']] = x if isinstance(x, (Cell, Elem)) else Cell(x)
            return
        if v.get('static') and v['id'] in self.globals:
            self.env[v['id']] = self.globals[v['id']]
            return
        i = v.get('i')
        if i is None or (ts.endswith(']') and i['k'] == 'ctor' and not i['a']):
            x = self.default(ts)
        else:
            x = self.ev(i)
            if isinstance(x, list) and ts.endswith('*'):
                x = Ptr(x, 0)
            x = self.conv(self.cp(x), ts)
        self.env[v['id']] = Cell(x)

    def conv(self, x, ts):
        d = edim(base_ts(ts))
        e = eig(base_ts(ts))
        if e and e[0] in ('Matrix', 'Array') and isinstance(x, Mat):
            r, c = e[1], e[2]
            if (r >= 0 and x.r != r) or (c >= 0 and x.c != c):
                if x.r * x.c == max(r, 1) * max(c, 1) and 1 in (x.r, x.c):
                    x = Mat(r if r >= 0 else x.r, c if c >= 0 else x.c, x.flat())
                else:
                    raise Fault('a %dx%d matrix initialised from a %dx%d one' % (r, c, x.r, x.c))
        return x

    # ---- values ------------------------------------------------------------------------------------------------
    def truth(self, v):
        if v is None:
            raise Fault('a value that was never set decides a branch')
        return bool(v)

    def num(self, x):
        f = Fraction(str(x)) if not isinstance(x, Fraction) else x
        v = f.numerator * pow(f.denominator, P - 2, P) % P
        self.known[v] = f
        return v

    def real(self, v):
        """the small rational that a field element stands for, or None"""
        if v in self.known:
            return self.known[v]
        if v < 1 << 20:
            return Fraction(v)
        if P - v < 1 << 20:
            return Fraction(v - P)
        a, b, s, t = P, v, 0, 1
        while b >= 1 << 20:
            q = a // b
            a, b, s, t = b, a - q * b, t, s - q * t
        if abs(t) < 1 << 20:
            r = Fraction(b, t)
            return r
        return None

    def less(self, x, y):
        if x is None or y is None:
            raise Fault('comparison of a value that was never set')
        if x == y:
            return False
        a, b = self.real(x), self.real(y)
        if a is not None and b is not None:
            return a < b
        if self.order and x not in self.tiny and y not in self.tiny:
            if a is None and b is None:
                return issq((y - x) % P)
            if a == 0 or b == 0:
                self.vanishing = a is not None
            # beyond every known number on its side
            return issq(y) if a is not None else not issq(x)
        if x in self.positive and b is not None and b <= 0 or y in self.positive and a is not None and a <= 0:
            return a is not None
        if P - x in self.positive and b is not None and b >= 0 or P - y in self.positive and a is not None and a >= 0:
            return b is not None
        if y in self.tiny:
            return a is not None and a <= 0
        if x in self.tiny:
            return b is None or b > 0
        if a is None and b is None:
            return self.rng.random() < 0.5
        if a == 0 or b == 0:
            self.vanishing = a is not None
        return a is not None

    def cbrt(self, x):
        if ('cbrt', x) not in self.roots:
            r = roots([-x % P, 0, 0, 1], self.rng) if x else [0]
            if not r:
                self.nonres += 1
            self.roots['cbrt', x] = self.rng.choice(r) if r else self.rng.randrange(P)
        return self.roots['cbrt', x]

    def angle(self, o, x, y):
        """an angle is a pair of a cosine and a sine; a third of it is an oracle choice"""
        third = self.num(Fraction(1, 3))
        if o == '*' and (x == third or y == third) or o == '/' and y == 3:
            a = x if isinstance(x, Angle) else y
            if a.third is None:
                r = roots([-a.c % P, P - 3, 0, 4], self.rng)
                if r:
                    c = self.rng.choice(r)
                    a.third = Angle(c, a.s * inv((4 * c * c - 1) % P) % P)
                else:
                    self.nonres += 1
                    a.third = Angle(self.rng.randrange(P), self.rng.randrange(P))
            return a.third
        raise Unsupported('arithmetic on an angle')

    def isint(self, e):
        return is_int_ts(self.T[e['t']]) or base_ts(self.T[e['t']]).startswith(('enum', 'const int'))

    def sqrt(self, x):
        r = self.real(x)
        if r is not None and r >= 0:
            a, b = int(r.numerator ** 0.5 + 0.5), int(r.denominator ** 0.5 + 0.5)
            if a * a == r.numerator and b * b == r.denominator:
                return self.num(Fraction(a, b))
        if x not in self.roots:
            if not issq(x):
                self.nonres += 1
                self.roots[x] = self.rng.randrange(P)
            else:
                s = rsqrt(x)
                if self.order:
                    self.roots[x] = s if issq(s) else P - s
                else:
                    self.roots[x] = s if self.rng.random() < 0.5 else P - s
        return self.roots[x]

    # ---- lvalues -----------------------------------------------------------------------------------------------
    def lv(self, e):
        """a Cell, a Mat view, a list (by identity) or an (container, key) element wrapped as Elem"""
        k = e['k']
        if k == 'ref':
            if e.get('id') in self.env:
                return self.env[e['id']]
            return Cell(self.ev(e))
        if k in ('cast', 'paren', 'constcast', 'mat', 'bindtmp'):
            if e.get('ck') in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'LValueToRValue', None):
                return self.lv(e['e'])
            return Cell(self.ev(e))
        if k == 'mem':
            if e['b']['k'] == 'this':
                if self.this is None:
                    raise Unsupported('member of this')
                return self.field(self.this, e)
            b = self.ev(e['b'])
            if isinstance(b, list) and e['f'] in ('first', 'second'):
                return Elem(b, 0 if e['f'] == 'first' else 1)
            if isinstance(b, Ptr) and isinstance(b.c[b.i], dict):
                b = b.c[b.i]
            if isinstance(b, dict):
                return self.field(b, e)
            raise Unsupported('member ' + e['f'])
        if k == 'op' and e.get('fn') in self.db.fn:
            return Cell(self.ev(e))
        if k == 'idx' or (k == 'op' and e['o'] in ('[]', '()')) or (k == 'mcall' and e['n'] in ('at', 'coeffRef')):
            if k == 'idx':
                b, ix = self.ev(e['x']), [self.ev(e['y'])]
            elif k == 'mcall':
                b, ix = self.base(e), [self.ev(a) for a in e['a']]
            else:
                b, ix = self.ev(e['a'][0]), [self.ev(a) for a in e['a'][1:]]
            if isinstance(b, Ptr):
                return Elem(b.c, b.i + ix[0])
            if isinstance(b, list):
                if ix[0] is None or not 0 <= ix[0] < len(b):
                    raise Fault('element %s of %d' % (ix[0], len(b)))
                return Elem(b, ix[0])
            if isinstance(b, Mat):
                return MEl(b.d, b.at(*ix) if len(ix) == 2 else b.lin(ix[0]))
            if isinstance(b, It) :
                return Elem(b.c, b.i + ix[0])
            raise Unsupported('indexing of ' + type(b).__name__)
        if k == 'mcall' and e['n'] in ('back', 'front'):
            b = self.base(e)
            if not b:
                raise Fault(e['n'] + ' of an empty container')
            return Elem(b, len(b) - 1 if e['n'] == 'back' else 0)
        if k == 'mcall' and e['n'] in ('x', 'y', 'z', 'w'):
            b = self.base(e)
            return MEl(b.d, b.lin('xyzw'.index(e['n'])))
        if k == 'un' and e['o'] == '*':
            p = self.ev(e['e'])
            if isinstance(p, (Ptr, It)):
                return Elem(p.c, p.i)
            return p if isinstance(p, (Cell, Elem)) else Cell(p)
        if k == 'op' and e['o'] == '*' and len(e['a']) == 1:
            p = self.ev(e['a'][0])
            if isinstance(p, (Ptr, It)):
                return Elem(p.c, p.i)
        if k == 'asg':
            self.ev(e)
            return self.lv(e['x'])
        if k == 'un' and e['o'] in ('p++', '++', '--', 'p--', '++p', '--p'):
            self.ev(e)
            return self.lv(e['e'])
        if k == 'cond':
            return self.lv(e['y'] if self.truth(self.ev(e['x'])) else e['z'])
        v = self.ev(e)
        return v if isinstance(v, Mat) else Cell(v)

    def field(self, o, e):
        c = o.get(e['f'])
        if c is None:
            t = self.T[e['t']]
            c = o[e['f']] = Cell(self.default(t) if t.endswith(']') or eig(base_ts(t)) or is_vec_ts(base_ts(t)) else None)
        return c

    def body(self, u, n):
        """the definition behind a name, also when declaration and definition differ in top-level const"""
        f = self.db.fn.get(u)
        if f is not None and f.get('body') is not None:
            return f
        if u not in self.bodies:
            d = f or self.db.decl.get(u)
            r = None
            if d and d.get('q', '').startswith('opengv::'):
                c = [x for x in self.db.functions(d['q']) if x.get('body') is not None and len(x['params']) == n]
                r = c[0] if len(c) == 1 else None
            self.bodies[u] = r
        return self.bodies[u] or f

    def base(self, e):
        b = e['b']
        v = self.ev(b)
        return v

    def read(self, l):
        if isinstance(l, Cell):
            return l.v
        if isinstance(l, (Elem, MEl)):
            return l.c[l.i]
        return l

    def write(self, l, v, ts=None):
        if isinstance(l, Mat):
            l.assign(v)
            return
        old = self.read(l)
        if isinstance(old, Mat) and isinstance(v, Mat):
            if (old.r, old.c) != (v.r, v.c):
                d = edim(base_ts(ts)) if ts else None
                if d and (d[0] < 0 or d[1] < 0):
                    v = v.copy()
                    old.resize(v.r, v.c)
                    old.assign(v)
                    return
            old.assign(v.copy())
            return
        v = self.cp(v)
        if isinstance(l, Cell):
            if isinstance(old, list) and isinstance(v, list):
                old[:] = v
            else:
                l.v = v
        else:
            l.c[l.i] = v

    # ---- expressions -------------------------------------------------------------------------------------------
    def ev(self, e):
        m = self.DISP.get(e['k'])
        if m is None:
            raise Unsupported('%s at %s' % (e['k'], self.where(e)))
        return m(self, e)

    def e_lit(self, e):
        t = self.T[e['t']]
        c = e['c']
        if is_float_ts(t) or t.startswith('std::complex'):
            return self.num(c)
        return int(c) if not isinstance(c, bool) else c

    def e_str(self, e):
        return e.get('v')

    def e_null(self, e):
        return None

    def e_zero(self, e):
        t = self.T[e['t']]
        if is_int_ts(t) or is_float_ts(t):
            return 0
        return self.default(t)

    def e_this(self, e):
        return self.this

    def e_ref(self, e):
        dk = e.get('dk')
        if dk == 'fn':
            return ('fn', e['fn'])
        if dk == 'enum':
            return e.get('c', 0)
        c = self.env.get(e.get('id')) if e.get('id') is not None else None
        if c is None:
            if e.get('c') is not None:
                return self.num(e['c']) if is_float_ts(self.T[e['t']]) else e['c']
            u = e.get('u') or e.get('q')
            if u in self.globals:
                return self.globals[u].v
            g = self.db.globals.get(e.get('u')) or self.db.globals.get(e.get('q'))
            if g and g.get('init'):
                self.globals[u] = Cell(self.ev(g['init']))
                return self.globals[u].v
            raise Unsupported('name %s at %s' % (e.get('n'), self.where(e)))
        return self.read(c)

    def e_mem(self, e):
        return self.read(self.lv(e))

    def e_cast(self, e):
        ck = e.get('ck')
        if ck == 'IntegralToFloating':
            v = self.ev(e['e'])
            if v is None:
                raise Fault('a value that was never set')
            return v % P
        if ck == 'FloatingToIntegral':
            v = self.real(self.ev(e['e']))
            if v is None:
                raise Unsupported('conversion of an unknown to an integer')
            return int(v)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean'):
            return self.truth(self.ev(e['e']))
        if ck == 'ToVoid':
            return None
        if ck == 'IntegralCast':
            v = self.ev(e['e'])
            if isinstance(v, int) and v < 0 and base_ts(self.T[e['t']]) in ('unsigned long', 'size_t'):
                return v + (1 << 64)
            if isinstance(v, int) and v >= 1 << 63 and base_ts(self.T[e['t']]) in ('int', 'long'):
                return v - (1 << 64)
            return v
        if ck == 'ArrayToPointerDecay':
            v = self.ev(e['e'])
            return Ptr(v, 0) if isinstance(v, list) else v
        return self.ev(e['e'])

    def e_pass(self, e):
        return self.ev(e['e'])

    def e_un(self, e):
        o = e['o']
        if o in ('p++', 'p--', '++', '--', '++p', '--p'):
            l = self.lv(e['e'])
            v = self.read(l)
            d = 1 if '+' in o else -1
            if isinstance(v, Ptr):
                w = Ptr(v.c, v.i + d)
            else:
                w = v + d
                if not is_int_ts(self.T[e['e']['t']]):
                    w %= P
            self.write(l, w)
            return v if o.startswith('p') else w
        if o == '&':
            l = self.lv(e['e'])
            if isinstance(l, Elem):
                return Ptr(l.c, l.i)
            return l
        if o == '*':
            return self.read(self.lv(e))
        v = self.ev(e['e'])
        if o == '!':
            return not self.truth(v)
        if v is None:
            raise Fault('a value that was never set')
        if o == '-':
            return -v if is_int_ts(self.T[e['t']]) else -v % P
        if o == '+':
            return v
        if o == '~':
            return ~v
        raise Unsupported('operator ' + o)

    def arith(self, o, x, y, isint, ts=''):
        if x is None or y is None:
            raise Fault('a value that was never set')
        if isint:
            if o == '+':
                r = x + y
            elif o == '-':
                r = x - y
            elif o == '*':
                r = x * y
            elif o == '/':
                if y == 0:
                    raise Fault('division by zero')
                r = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            elif o == '%':
                if y == 0:
                    raise Fault('division by zero')
                r = abs(x) % abs(y) * (1 if x >= 0 else -1)
            elif o == '<<':
                r = x << y
            elif o == '>>':
                r = x >> y
            elif o == '&':
                r = x & y
            elif o == '|':
                r = x | y
            elif o == '^':
                r = x ^ y
            else:
                raise Unsupported('operator ' + o)
            if base_ts(ts) in ('unsigned long', 'size_t'):
                r &= (1 << 64) - 1
            return r
        if isinstance(x, Angle) or isinstance(y, Angle):
            return self.angle(o, x, y)
        if o == '+':
            return (x + y) % P
        if o == '-':
            return (x - y) % P
        if o == '*':
            if x in self.tiny or y in self.tiny:
                if x and y:
                    self.tiny.add(x * y % P)
            return x * y % P
        if o == '/':
            return x * inv(y) % P
        raise Unsupported('operator ' + o)

    def compare(self, o, x, y, isint):
        if isinstance(x, (It, Ptr)) or isinstance(y, (It, Ptr)):
            if isinstance(x, (It, Ptr)) and isinstance(y, (It, Ptr)):
                a, b = x.i, y.i
                if o in ('==', '!=') and x.c is not y.c:
                    return o == '!='
            else:
                return o == '!='
            return {'==': a == b, '!=': a != b, '<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[o]
        if x is None or y is None:
            raise Fault('comparison of a value that was never set')
        if o == '==':
            return x == y
        if o == '!=':
            return x != y
        if isint:
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[o]
        if o == '<':
            return self.less(x, y)
        if o == '>':
            return self.less(y, x)
        if o == '<=':
            return x == y or self.less(x, y)
        return x == y or self.less(y, x)

    def e_bin(self, e):
        o = e['o']
        if o == '&&':
            return self.truth(self.ev(e['x'])) and self.truth(self.ev(e['y']))
        if o == '||':
            return self.truth(self.ev(e['x'])) or self.truth(self.ev(e['y']))
        x = self.ev(e['x'])
        y = self.ev(e['y'])
        if o == ',':
            return y
        if o in ('==', '!=', '<', '<=', '>', '>='):
            return self.compare(o, x, y, self.isint(e['x']) and self.isint(e['y']))
        if isinstance(x, (Ptr, It)):
            if isinstance(y, (Ptr, It)):
                return x.i - y.i
            return type(x)(x.c, x.i + (y if o == '+' else -y))
        return self.arith(o, x, y, is_int_ts(self.T[e['t']]), self.T[e['t']])

    def e_asg(self, e):
        o = e['o']
        l = self.lv(e['x'])
        y = self.ev(e['y'])
        if o != '=':
            x = self.read(l)
            if isinstance(x, Ptr):
                y = Ptr(x.c, x.i + (y if o[0] == '+' else -y))
            else:
                it = is_int_ts(self.T[e['x']['t']])
                y = self.arith(o[:-1], x, y, it, self.T[e['x']['t']])
        self.write(l, y)
        return y

    def e_cond(self, e):
        return self.ev(e['y'] if self.truth(self.ev(e['x'])) else e['z'])

    def e_idx(self, e):
        return self.read(self.lv(e))

    def e_other(self, e):
        if not e.get('a'):
            return None
        if len(e['a']) == 1:
            return self.ev(e['a'][0])
        raise Unsupported('%s at %s' % (e.get('cls'), self.where(e)))

    def e_ilist(self, e):
        t = base_ts(self.T[e['t']])
        xs = [self.cp(self.ev(a)) for a in e['a']]
        r = self.db.recT.get(t)
        if r is not None and not t.startswith('std::'):
            return {f['n']: Cell(x) for f, x in zip(r['fields'], xs)}
        if t.endswith(']') or t.startswith('std::array<'):
            d = self.default(t)
            for i in range(len(d)):
                d[i] = xs[i] if i < len(xs) else 0 if not isinstance(d[i], list) else d[i]
            return d
        if is_vec_ts(t) or t.startswith('std::pair'):
            return xs
        if len(xs) == 1:
            return xs[0]
        raise Unsupported('initialiser of ' + t)

    def e_new(self, e):
        if e.get('arr'):
            n = self.ev(e['n'])
            return Ptr([self.default(self.T[e['at']]) for _ in range(n)], 0)
        v = self.default(self.T[e['at']])
        if e.get('init'):
            v = self.cp(self.ev(e['init']))
        return Ptr([v], 0)

    def e_del(self, e):
        self.ev(e['e'])

    def e_lambda(self, e):
        return Lam(e, self.env, self.T, self.this, self.f)

    def values(self, l, xs):
        """a lambda on values"""
        if not isinstance(l, Lam):
            raise Unsupported('a function object')
        sv = (self.env, self.T, self.this, self.f)
        self.env = dict(l.env)
        self.env.update({p['id']: Cell(x) for p, x in zip(l.e['params'], xs)})
        self.T, self.this, self.f = l.T, l.this, l.f
        try:
            self.stmt(l.e['body'])
        except _Ret as r:
            return r.args[0]
        finally:
            self.env, self.T, self.this, self.f = sv

    def algorithm(self, n, xs, isint, e):
        a = xs[0]
        if n in ('iota', 'fill'):
            v = xs[2]
            for i in range(a.i, xs[1].i):
                a.c[i] = self.cp(v) if n == 'fill' else (xs[2] + i - a.i)
            return None
        if n == 'fill_n':
            for i in range(a.i, a.i + xs[1]):
                a.c[i] = self.cp(xs[2])
            return None
        add = lambda x, y: x + y if isint else self.binary('+', x, y, e) if isinstance(x, Mat) else (x + y) % P
        r = range(a.i, xs[1].i)
        if r and not 0 <= r[0] <= r[-1] < len(a.c):
            raise Fault('past the end')
        if n == 'accumulate':
            v = self.cp(xs[2])
            for i in r:
                v = self.values(xs[3], [v, a.c[i]]) if len(xs) > 3 else add(v, a.c[i])
            return v
        if n == 'inner_product':
            v, b = xs[3], xs[2]
            for i in r:
                v = add(v, a.c[i] * b.c[b.i + i - a.i])
            return v
        if n == 'copy':
            b = xs[2]
            for i in r:
                b.c[b.i + i - a.i] = self.cp(a.c[i])
            return It(b.c, b.i + len(r))
        if n == 'transform' and len(xs) in (4, 5):
            b = xs[-2]
            v = [self.cp(self.values(xs[-1], [a.c[i]] + ([xs[2].c[xs[2].i + i - a.i]] if len(xs) == 5 else []))) for i in r]
            for i, x in enumerate(v):
                b.c[b.i + i] = x
            return It(b.c, b.i + len(r))
        if n in ('min_element', 'max_element'):
            lt = (lambda x, y: self.values(xs[2], [x, y])) if len(xs) > 2 else self.less
            k = a.i
            for i in r:
                if lt(a.c[i], a.c[k]) if n == 'min_element' else lt(a.c[k], a.c[i]):
                    k = i
            return It(a.c, k)
        raise Unsupported('call of std::' + n)

    def call_lambda(self, l, args):
        sv = (self.env, self.T, self.this, self.f)
        xs = []
        for p, a in zip(l.e['params'], args):
            if l.T[p['t']].endswith('&'):
                v = self.lv(a)
                if isinstance(v, (Elem, MEl)) and isinstance(v.c[v.i], (Mat, list, dict)):
                    v = Cell(v.c[v.i])
                xs.append(v if isinstance(v, (Cell, Elem)) else Cell(v))
            else:
                xs.append(Cell(self.cp(self.ev(a))))
        self.env = dict(l.env)
        self.env.update({p['id']: x for p, x in zip(l.e['params'], xs)})
        self.T, self.this, self.f = l.T, l.this, l.f
        try:
            self.stmt(l.e['body'])
        except _Ret as r:
            return r.args[0]
        finally:
            self.env, self.T, self.this, self.f = sv

    # ---- construction ------------------------------------------------------------------------------------------
    def e_ctor(self, e):
        t = base_ts(self.T[e['t']])
        args = e['a']
        g = eig(t)
        if g and g[0] == 'Map':
            xs = [self.ev(a) for a in args if a['k'] != 'defarg']
            xs = [x for x in xs if isinstance(x, (Ptr, It, list)) or isinstance(x, int)]
            p = xs[0] if isinstance(xs[0], (Ptr, It)) else Ptr(xs[0], 0)
            r, c = g[1], g[2]
            if r < 0 or c < 0:
                r, c = (xs[1], xs[2]) if len(xs) > 2 else (xs[1] if r < 0 else r, xs[1] if c < 0 else c)
            if isinstance(p.c, list) and (r == 1 or c == 1):
                if p.i < 0 or p.i + r * c > len(p.c):
                    raise Fault('a map of %d elements past the end' % (r * c))
                return Mat(r, c, p.c, p.i)
            if isinstance(p.c, Data) and (p.c.m.r == 1 or p.c.m.c == 1) and (r == 1 or c == 1):
                m = p.c.m
                v = m.block(p.i, 0, r * c, 1) if m.c == 1 else m.block(0, p.i, 1, r * c)
                return v if (v.r, v.c) == (r, c) else v.T()
            raise Unsupported('a map of ' + t)
        if g and g[0] in ('Matrix', 'Array'):
            r, c = g[1], g[2]
            if not args:
                return Mat(max(r, 0), max(c, 0))
            xs = [self.ev(a) for a in args if a['k'] != 'defarg']
            if len(xs) == 1 and isinstance(xs[0], Mat):
                return self.conv(xs[0].copy(), t)
            if len(xs) == 1 and isinstance(xs[0], (Ptr, list)):
                p = xs[0] if isinstance(xs[0], Ptr) else Ptr(xs[0], 0)
                n = r * c
                v = p.c[p.i:p.i + n]
                m = Mat(r, c)
                for i in range(n):
                    m.set(i % r, i // r, v[i])
                return m
            if r >= 0 and c >= 0 and len(xs) == r * c and not (len(xs) == 2 and self.isint(args[0]) and r * c != 2):
                if len(xs) > 1 or not self.isint(args[0]) or r * c == 1:
                    return Mat(r, c, list(xs))
            if all(isinstance(x, int) for x in xs):
                if len(xs) == 2:
                    return Mat(xs[0], xs[1])
                if len(xs) == 1:
                    return Mat(r if r >= 0 else (xs[0] if c >= 0 else xs[0]), c if c >= 0 else xs[0])
            raise Unsupported('construction of ' + t)
        if g:
            s = {'solver': Cell(g[0])}
            xs = [self.ev(a) for a in args if a['k'] != 'defarg']
            if xs and isinstance(xs[0], Mat):
                s['m'] = Cell(xs[0].copy())
                s['opt'] = Cell(xs[1] if len(xs) > 1 and isinstance(xs[1], int) else 0)
            elif xs and isinstance(xs[0], dict):
                return xs[0]
            return s
        if t.startswith('std::complex<'):
            xs = [self.ev(a) for a in args if a['k'] != 'defarg']
            if not xs:
                return 0
            if len(xs) > 1 and xs[1] != 0:
                raise Unsupported('an imaginary part')
            return xs[0]
        if t.startswith('std::pair<'):
            xs = [self.cp(self.ev(a)) for a in args]
            if len(xs) == 1:
                return xs[0]
            return xs or [None, None]
        if is_vec_ts(t):
            xs = [self.ev(a) for a in args if a['k'] not in ('defarg',)]
            xs = [x for x, a in zip(xs, [a for a in args if a['k'] != 'defarg'])
                  if 'allocator' not in base_ts(self.T[a['t']]).split('<')[0]]
            if not xs:
                return self.default(t) if t.startswith('std::array') else []
            if isinstance(xs[0], list):
                return self.cp(xs[0])
            if isinstance(xs[0], (It, Ptr)):
                return self.cp(xs[0].c[xs[0].i:xs[1].i])
            if isinstance(xs[0], int):
                el = t[t.index('<') + 1:]
                z = xs[1] if len(xs) > 1 else (0 if el.startswith(('double', 'int', 'unsigned', 'size', 'bool', 'std::complex')) else None)
                if z is None:
                    from vg import vec_elem_ts
                    z = self.default(vec_elem_ts(t))
                return [self.cp(z) for _ in range(xs[0])]
            raise Unsupported('construction of ' + t)
        if t.startswith(('Eigen::NumericalDiff<', 'Eigen::LevenbergMarquardt<')):
            b = self.ev(args[0])
            return b if 'solver' in b else {'solver': Cell('LevenbergMarquardt'), 'fun': Cell(b), 'parameters': Cell({})}
        if e.get('copy') or e.get('move'):
            return self.cp(self.ev(args[0]))
        h = self.icpt.get(t)
        if h:
            return h(self, 'ctor', None, [self.ev(a) for a in args if a['k'] != 'defarg'])
        f = self.db.fn.get(e.get('fn'))
        if f is not None and f.get('body') is not None:
            obj = {'__cls__': Cell(t)}
            self.invoke(f, args, obj)
            return obj
        if len(args) == 1:
            return self.ev(args[0])
        if '__normal_iterator' in t or t.startswith('std::allocator'):
            return self.ev(args[0]) if args else None
        if not args:
            return {}
        raise Unsupported('construction of ' + t)

    # ---- calls -------------------------------------------------------------------------------------------------
    def invoke(self, f, args, this=None):
        T = f['T']
        xs = []
        for i, p in enumerate(f['params']):
            ts = T[p['t']] if 't' in p else p['ts']
            if i >= len(args) or args[i]['k'] == 'defarg':
                d = args[i].get('e') if i < len(args) else p.get('d')
                if d is None:
                    raise Unsupported('default argument')
                xs.append(Cell(self.ev(d)))
                continue
            a = args[i]
            if ts.endswith('&') or ts.endswith('&&'):
                l = self.lv(a)
                if isinstance(l, Mat):
                    l = Cell(l)
                elif isinstance(l, (Elem, MEl)):
                    v = l.c[l.i]
                    l = Cell(v) if isinstance(v, (Mat, list, dict)) else l
                xs.append(l)
            else:
                v = self.ev(a)
                if isinstance(v, list) and ts.endswith('*'):
                    v = Ptr(v, 0)
                xs.append(Cell(self.conv(self.cp(v), ts)))
        return self.call_cells(f, xs, this)

    def call_cells(self, f, xs, this):
        if self.depth > 60:
            raise Unsupported('recursion')
        sv = (self.env, self.T, self.this, self.f)
        self.env = {p['id']: x for p, x in zip(f['params'], xs)}
        self.T, self.this, self.f = f['T'], this, f
        self.depth += 1
        self.fns.add((f['file'], f['line'], f['q']))
        try:
            if f.get('ctor') and this is not None:
                for it in f.get('inits') or []:
                    if it.get('base') and it.get('e') and it['e'].get('k') == 'ctor':
                        b = self.db.fn.get(it['e'].get('fn'))
                        if b is not None and b.get('body') is not None:
                            self.invoke(b, it['e']['a'], this)
                    if it.get('f') and it.get('e') is not None:
                        ft = f['T'][it['ft']]
                        if ft.endswith('&'):
                            l = self.lv(it['e'])
                            this[it['f']] = l if isinstance(l, (Cell, Elem)) else Cell(l)
                        else:
                            this[it['f']] = Cell(self.conv(self.cp(self.ev(it['e'])), ft))
            self.stmt(f['body'])
        except _Ret as r:
            return r.args[0]
        finally:
            self.env, self.T, self.this, self.f = sv
            self.depth -= 1
        return None

    def e_call(self, e):
        n = e.get('n') or ''
        u = e.get('fn')
        f = self.body(u, len(e['a']))
        d = self.db.decl.get(u) or {}
        q = (f or d).get('q') or n
        h = self.icpt.get(q)
        if h:
            r = h(self, 'call', e, None)
            if r is not NotImplemented:
                return r
        if f is not None and f.get('body') is not None:
            return self.invoke(f, e['a'])
        if n in ('Zero', 'Identity', 'Ones', 'Constant', 'Random'):
            g = eig(self.T[e['t']])
            xs = [self.ev(a) for a in e['a']]
            r, c = g[1], g[2]
            if n == 'Constant':
                z = xs.pop()
            dy = [x for x in xs if isinstance(x, int)]
            if len(dy) == 2:
                r, c = dy
            elif len(dy) == 1:
                r, c = (dy[0] if r < 0 else r), (dy[0] if c < 0 else c)
            if n == 'Random':
                return Mat(r, c, [self.rng.randrange(P) for _ in range(r * c)])
            if n == 'Identity':
                return Mat(r, c, [1 if i == j else 0 for i in range(r) for j in range(c)])
            return Mat(r, c, [{'Zero': 0, 'Ones': 1}.get(n, None) if n != 'Constant' else z] * (r * c))
        if n in ('UnitX', 'UnitY', 'UnitZ'):
            return Mat(3, 1, [1 if i == 'XYZ'.index(n[-1]) else 0 for i in range(3)])
        if n.startswith('operator') and len(e['a']) == 2:
            return self.e_op(dict(e, k='op', o=n[8:]))
        if n in ('sort', 'stable_sort'):
            self.ev(e['a'][0])
            return None
        if n in ('swap',):
            a, b = self.lv(e['a'][0]), self.lv(e['a'][1])
            va, vb = self.cp(self.read(a)), self.cp(self.read(b))
            self.write(a, vb)
            self.write(b, va)
            return None
        if n in ('move', 'forward', 'addressof', 'ref', 'cref', 'as_const'):
            return self.ev(e['a'][0])
        xs = [self.ev(a) for a in e['a'] if a['k'] != 'defarg']
        it = is_int_ts(self.T[e['t']])
        if n in ALGO and xs and isinstance(xs[0], (It, Ptr)) and all(isinstance(x, (It, Ptr, Lam)) or i >= ALGO[n]
                                                                     for i, x in enumerate(xs)):
            return self.algorithm(n, xs, it, e)
        if n in ('hypot',):
            return self.sqrt(sum(x * x for x in xs) % P)
        if n == 'fma':
            return (xs[0] * xs[1] + xs[2]) % P
        if n == 'pow':
            b = xs[1]
            k = b if e['a'][1]['k'] != 'cast' and is_int_ts(self.T[e['a'][1]['t']]) else self.real(b)
            if k is None:
                raise Unsupported('power')
            k = Fraction(k).limit_denominator(1000)
            if k.denominator not in (1, 2, 3):
                raise Unsupported('power')
            if xs[0] is None:
                raise Fault('a value that was never set')
            x = xs[0]
            if k.denominator == 2:
                x, k = self.sqrt(x), k * 2
            if k.denominator == 3:
                x, k = self.cbrt(x), k * 3
            k = int(k)
            return pow(x % P, k, P) if k >= 0 else pow(inv(x), -k, P)
        if n in ('sqrt', 'sqrtf', 'sqrtl'):
            return self.sqrt(xs[0])
        if n == 'cbrt':
            return self.cbrt(xs[0])
        if n in ('acos', 'asin'):
            s = self.sqrt((1 - xs[0] * xs[0]) % P)
            return Angle(xs[0], s) if n == 'acos' else Angle(s, xs[0])
        if n in ('cos', 'sin') and isinstance(xs[0], Angle):
            return xs[0].c if n == 'cos' else xs[0].s
        if n in ('fabs', 'abs', 'fabsf'):
            if it:
                return abs(xs[0])
            r = self.real(xs[0])
            if self.order and r is None and xs[0] is not None:
                return xs[0] if issq(xs[0]) else P - xs[0]
            return -xs[0] % P if r is not None and r < 0 else xs[0]
        if n in ('real', 'conj'):
            return xs[0]
        if n == 'imag':
            return 0
        if n == 'norm' and len(xs) == 1:
            return xs[0] * xs[0] % P
        if n in ('min', 'max') and len(xs) == 2:
            lt = xs[1] < xs[0] if it else self.less(xs[1], xs[0])
            return xs[1] if lt == (n == 'min') else xs[0]
        if n == 'make_pair':
            return [self.cp(x) for x in xs]
        if n in ('floor', 'ceil', 'round', 'trunc'):
            r = self.real(xs[0])
            if r is None:
                raise Unsupported(n + ' of an unknown')
            k = r.numerator // r.denominator
            if n == 'ceil':
                k = -(-r.numerator // r.denominator)
            elif n == 'round':
                k = (2 * r.numerator + r.denominator) // (2 * r.denominator)
            elif n == 'trunc' and r < 0:
                k = -(-r.numerator // r.denominator)
            return self.num(Fraction(k))
        if n in ('epsilon', 'dummy_precision', 'min', 'max', 'highest', 'lowest', 'infinity') and not xs:
            r = self.num(Fraction(1, 10 ** 12)) if n[0] in 'ed' else self.num(Fraction(10 ** 12))
            if n[0] in 'ed':
                self.tiny.add(r)
            return r
        if n in ('isnan', 'isinf'):
            return False
        if n in ('isfinite',):
            return True
        if n in ('begin', 'end') and isinstance(xs[0], list):
            return It(xs[0], 0 if n == 'begin' else len(xs[0]))
        raise Unsupported('call of %s at %s' % (q or n, self.where(e)))

    def e_mcall(self, e):
        n = e['n']
        u = e.get('fn')
        f = self.body(u, len(e['a']))
        d = self.db.decl.get(u) or {}
        q = (f or d).get('q') or n
        h = self.icpt.get(q) or self.icpt.get(q.rsplit('::', 1)[0])
        if h:
            r = h(self, 'mcall', e, None)
            if r is not NotImplemented:
                return r
        b = self.ev(e['b'])
        if isinstance(b, Cell):
            b = b.v
        if e.get('ar') and isinstance(b, Ptr):
            b = b.c[b.i]
        if f is not None and f.get('body') is not None:
            return self.invoke(f, e['a'], b if isinstance(b, dict) else None)
        if isinstance(b, Mat):
            return self.m_mat(n, b, e)
        if isinstance(b, Wise):
            return self.m_wise(n, b, e)
        if isinstance(b, list):
            return self.m_vec(n, b, e)
        if isinstance(b, dict) and 'solver' in b:
            return self.m_solver(n, b, e)
        if isinstance(b, bool) or isinstance(b, int) or b is None:
            if n == 'real':
                return b
            if n == 'imag':
                return 0
            if n.startswith('operator'):
                return b
        raise Unsupported('method %s of %s at %s' % (n, type(b).__name__, self.where(e)))

    def m_mat(self, n, b, e):
        xs = [self.ev(a) for a in e['a'] if a['k'] != 'defarg']
        g = edim(self.T[e['t']])
        if n in ('block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            ij, rc = (xs[:2], xs[2:]) if n == 'block' else ((None, None), xs)
            r, c = rc if len(rc) == 2 else (g[0], g[1])
            if n != 'block':
                ij = (0 if 'top' in n else b.r - r, 0 if 'Left' in n else b.c - c)
            return b.block(ij[0], ij[1], r, c)
        if n == 'row':
            return b.block(xs[0], 0, 1, b.c)
        if n == 'col':
            return b.block(0, xs[0], b.r, 1)
        if n in ('head', 'tail', 'segment'):
            k = xs[-1] if (n != 'segment' and xs) or len(xs) == 2 else max(g)
            o = 0 if n == 'head' else (b.r * b.c - k if n == 'tail' else xs[0])
            return b.block(o, 0, k, 1) if b.c == 1 else b.block(0, o, 1, k)
        if n in ('topRows', 'bottomRows', 'middleRows', 'leftCols', 'rightCols', 'middleCols'):
            rows = 'Rows' in n
            k = xs[-1] if xs and not (n.startswith('middle') and len(xs) == 1) else g[0 if rows else 1]
            tot = b.r if rows else b.c
            o = xs[0] if n.startswith('middle') else (0 if n[0] in 'tl' else tot - k)
            return b.block(o, 0, k, b.c) if rows else b.block(0, o, b.r, k)
        if n in ('transpose', 'adjoint'):
            return b.T()
        if n == 'transposeInPlace':
            b.assign(b.T().copy())
            return b
        if n in ('eval', 'derived', 'noalias', 'array', 'matrix', 'real', 'conjugate', 'lazyProduct', 'cast', 'template cast', 'nestByValue'):
            return b
        if n == 'imag':
            return Mat(b.r, b.c, [0] * (b.r * b.c))
        if n == 'inverse':
            if (eig(self.T[e['t']]) or ('',))[0] == 'CwiseUnaryOp':
                return b.map(inv)
            return minv(b)
        if n in ('square', 'abs2', 'cwiseAbs2', 'cube'):
            return b.map(lambda v: v * v % P * (v if n == 'cube' else 1) % P)
        if n in ('sqrt', 'cwiseSqrt'):
            return b.map(self.sqrt)
        if n in ('cwiseInverse',):
            return b.map(inv)
        if n == 'mean':
            return sum(b.flat()) * inv(b.r * b.c) % P
        if n in ('rowwise', 'colwise'):
            return Wise(b, n == 'colwise')
        if n in ('allFinite',):
            return True
        if n in ('hasNaN',):
            return False
        if n == 'isZero':
            return not any(b.flat())
        if n == 'isApprox':
            return b.flat() == xs[0].flat()
        if n == 'homogeneous':
            return Mat(b.r + 1, 1, b.flat() + [1])
        if n == 'hnormalized':
            w = inv(b.flat()[-1])
            return Mat(b.r - 1, 1, [v * w % P for v in b.flat()[:-1]])
        if n == 'reverse':
            f = b.flat()
            return Mat(b.r, b.c, f[::-1])
        if n in ('minCoeff', 'maxCoeff') and not xs:
            r = None
            for v in b.flat():
                if r is None or (self.less(v, r) if n == 'minCoeff' else self.less(r, v)):
                    r = v
            return r
        if n == 'determinant':
            return det(b)
        if n == 'trace':
            return sum(b.get(i, i) for i in range(min(b.r, b.c))) % P
        if n == 'sum':
            return sum(b.flat()) % P
        if n == 'prod':
            r = 1
            for x in b.flat():
                r = r * x % P
            return r
        if n == 'dot':
            return sum(x * y for x, y in zip(b.flat(), xs[0].flat())) % P
        if n == 'cross':
            x, y = b.flat(), xs[0].flat()
            v = [(x[1] * y[2] - x[2] * y[1]) % P, (x[2] * y[0] - x[0] * y[2]) % P, (x[0] * y[1] - x[1] * y[0]) % P]
            return Mat(b.r, b.c, v)
        if n in ('squaredNorm', 'norm', 'normalized', 'normalize', 'stableNorm'):
            s = sum(x * x for x in b.flat()) % P
            if n == 'squaredNorm':
                return s
            s = self.sqrt(s)
            if n in ('norm', 'stableNorm'):
                return s
            m = scale(b, inv(s))
            if n == 'normalized':
                return m
            b.assign(m)
            return None
        if n in ('rows', 'cols', 'size'):
            return {'rows': b.r, 'cols': b.c, 'size': b.r * b.c}[n]
        if n in ('setZero', 'setIdentity', 'setOnes', 'setConstant', 'fill'):
            for i in range(b.r):
                for j in range(b.c):
                    b.set(i, j, 0 if n == 'setZero' else (int(i == j) if n == 'setIdentity' else (1 if n == 'setOnes' else xs[0])))
            return b
        if n in ('x', 'y', 'z', 'w', 'coeff', 'coeffRef', 'operator()', 'operator[]'):
            if n in 'xyzw':
                return b.d[b.lin('xyzw'.index(n))]
            return b.get(*xs) if len(xs) == 2 else b.d[b.lin(xs[0])]
        if n in ('value',) or n.startswith('operator const') or n == 'operator double':
            if (b.r, b.c) != (1, 1):
                raise Fault('a %dx%d matrix used as a number' % (b.r, b.c))
            return b.get(0, 0)
        if n in ('cwiseProduct', 'cwiseQuotient'):
            return zipm(b, xs[0], (lambda x, y: x * y % P) if n == 'cwiseProduct' else (lambda x, y: x * inv(y) % P))
        if n in ('asDiagonal',):
            v = b.flat()
            return Mat(len(v), len(v), [v[i] if i == j else 0 for i in range(len(v)) for j in range(len(v))])
        if n == 'diagonal':
            return Mat(min(b.r, b.c), 1, [b.get(i, i) for i in range(min(b.r, b.c))])
        if n in ('resize', 'conservativeResize'):
            b.resize(*(xs if len(xs) == 2 else (xs[0], 1)))
            return None
        if n == 'swap':
            o = xs[0]
            v = b.copy()
            b.assign(o.copy())
            o.assign(v)
            return None
        if n in ('fullPivLu', 'partialPivLu', 'lu', 'colPivHouseholderQr', 'householderQr', 'fullPivHouseholderQr',
                 'llt', 'ldlt', 'jacobiSvd'):
            return {'solver': Cell(n), 'm': Cell(b.copy())}
        if n in ('finished',):
            return b
        if n == 'data':
            return Ptr(Data(b), 0)
        raise Unsupported('matrix method %s at %s' % (n, self.where(e)))

    def m_wise(self, n, b, e):
        xs = [self.ev(a) for a in e['a'] if a['k'] != 'defarg']
        L = b.lines()
        out = lambda v: Mat(1, len(v), v) if b.cols else Mat(len(v), 1, v)
        if n in ('sum', 'mean', 'squaredNorm', 'norm'):
            v = [sum(l.flat()) % P if n in ('sum', 'mean') else sum(x * x for x in l.flat()) % P for l in L]
            if n == 'mean':
                v = [x * inv(len(l.flat())) % P for x, l in zip(v, L)]
            return out([self.sqrt(x) for x in v] if n == 'norm' else v)
        if n in ('normalized', 'normalize', 'cross', 'reverse', 'homogeneous'):
            r = b.m.copy()
            w = Wise(r, b.cols)
            if n in ('normalized', 'normalize'):
                for l in w.lines():
                    z = inv(self.sqrt(sum(x * x for x in l.flat()) % P))
                    l.assign(l.map(lambda x: x * z % P))
                if n == 'normalize':
                    b.m.assign(r)
                return r
        raise Unsupported('%s of a partial reduction at %s' % (n, self.where(e)))

    def m_vec(self, n, b, e):
        xs = [self.ev(a) for a in e['a'] if a['k'] != 'defarg']
        if n in ('push_back', 'emplace_back'):
            b.append(self.cp(xs[0]))
            return None
        if n == 'size':
            return len(b)
        if n == 'empty':
            return not b
        if n in ('reserve', 'shrink_to_fit'):
            return None
        if n == 'clear':
            del b[:]
            return None
        if n == 'pop_back':
            b.pop()
            return None
        if n in ('begin', 'cbegin'):
            return It(b, 0)
        if n in ('end', 'cend'):
            return It(b, len(b))
        if n in ('at', 'back', 'front'):
            return self.read(self.lv(e))
        if n == 'data':
            return Ptr(b, 0)
        if n == 'resize':
            z = xs[1] if len(xs) > 1 else None
            if z is None:
                from vg import vec_elem_ts
                t = vec_elem_ts(base_ts(self.T[e['b']['t']]))
                z = 0 if is_int_ts(t) or is_float_ts(t) else self.default(t)
            while len(b) < xs[0]:
                b.append(self.cp(z))
            del b[xs[0]:]
            return None
        if n in ('insert', 'emplace'):
            b.insert(xs[0].i, self.cp(xs[1]))
            return It(b, xs[0].i)
        if n == 'erase':
            del b[xs[0].i]
            return It(b, xs[0].i)
        if n == 'swap':
            b[:], xs[0][:] = xs[0][:], b[:]
            return None
        if n == 'fill':
            for i in range(len(b)):
                b[i] = self.cp(xs[0])
            return None
        raise Unsupported('vector method %s at %s' % (n, self.where(e)))

    def m_solver(self, n, b, e):
        xs = [self.ev(a) for a in e['a'] if a['k'] != 'defarg']
        k = b['solver'].v
        if k == 'LevenbergMarquardt':
            if n == 'minimize' or n == 'minimizeInit':
                self.minimize(b['fun'].v, xs[0])
            return 1
        if n == 'compute':
            b['m'] = Cell(xs[0].copy())
            b.pop('eig', None)
            return b
        m = b['m'].v
        if n in ('inverse',):
            return minv(m)
        if n == 'determinant':
            return det(m)
        if n == 'solve':
            # least squares; exact on a square regular system
            a = m
            if a.r != a.c:
                return mmul(minv(mmul(a.T(), a)), mmul(a.T(), xs[0]))
            return mmul(minv(a), xs[0])
        if n == 'rank':
            return len(rref(m.rows())[1])
        if 'EigenSolver' in k:
            if 'eig' not in b:
                b['eig'] = Cell(self.eigen(m))
            D, V = b['eig'].v
            if n == 'eigenvectors' or n == 'pseudoEigenvectors':
                return V.copy()
            if n == 'eigenvalues':
                return D.copy()
            if n == 'info':
                return 0
        if 'SVD' in k or 'Svd' in k:
            if 'svd' not in b:
                b['svd'] = Cell(self.svd(m))
            U, S, V = b['svd'].v
            o = b['opt'].v if 'opt' in b else 0
            if n == 'matrixU' and o & 8:
                U = U.block(0, 0, U.r, S.r)
            if n == 'matrixV' and o & 32:
                V = V.block(0, 0, V.r, S.r)
            if n in ('matrixU', 'matrixV', 'singularValues'):
                return {'matrixU': U, 'matrixV': V, 'singularValues': S}[n].copy()
        raise Unsupported('%s of %s at %s' % (n, k, self.where(e)))

    polar = polar_frame = None

    def method_of(self, cls, name):
        seen, todo = set(), [cls]
        while todo:
            c = todo.pop(0)
            for f in self.db.fn.values():
                if f.get('clsT') == c and f.get('n') == name and f.get('body') is not None:
                    return f
            for b in self.db.bases(c) or []:
                if b not in seen:
                    seen.add(b)
                    todo.append(b)
        return None

    def minimize(self, fun, x):
        """least squares: a point of zero residual is kept, any other one moves somewhere unknown"""
        self.starts.append(x.flat())
        self.functors.append(fun)
        cls = fun['__cls__'].v
        op, vals = self.method_of(cls, 'operator()'), self.method_of(cls, 'values')
        if op is None or vals is None:
            raise Unsupported('minimisation of ' + cls)
        r = self.residual(fun, x, op, vals)
        if any(r.flat()):
            x.assign(x.map(lambda v: self.rng.randrange(P)))

    def residual(self, fun, x, op=None, vals=None):
        cls = fun['__cls__'].v
        op, vals = op or self.method_of(cls, 'operator()'), vals or self.method_of(cls, 'values')
        n = self.call_cells(vals, [], fun)
        r = Mat(n, 1)
        self.call_cells(op, [Cell(x.copy()), Cell(r)], fun)
        if any(v is None for v in r.flat()):
            raise Fault('a residual that was never set')
        return r

    def basis(self, vs):
        """an arbitrary orthonormal basis of the span of vs, or None where the field has none"""
        for _ in range(64):
            out = []
            for _ in vs:
                k = [self.rng.randrange(P) for _ in vs]
                v = [sum(a * w[i] for a, w in zip(k, vs)) % P for i in range(len(vs[0]))]
                for u in out:
                    c = sum(a * b for a, b in zip(u, v)) % P
                    v = [(a - c * b) % P for a, b in zip(v, u)]
                q = sum(a * a for a in v) % P
                if q == 0 or not issq(q):
                    break
                q = inv(rsqrt(q))
                out.append([a * q % P for a in v])
            if len(out) == len(vs):
                return out
        return None

    def svd(self, m):
        """m = U S V': exact where the field contains the decomposition; otherwise the null spaces are exact and the
        other columns unknown"""
        r, c = m.r, m.c
        k = min(r, c)
        if any(x is None for x in m.flat()):
            raise Fault('decomposition of a matrix with elements that were never set')
        if r == c == 3 and self.polar is not None and len(rref(m.rows())[1]) >= 2:
            for R in self.polar:
                # m = R' * symmetric: orthogonal factors with V U' = R
                h = mmul(R, m)
                if h.flat() == h.T().flat():
                    U = self.polar_frame
                    return U, mat([[self.rng.randrange(P)] for _ in range(3)]), mmul(R, U)
        ns = nullspace(m.rows())
        full = None
        if r == 3 and c > 3 and self.polar_frame is not None and len(ns) == c - 3:
            # full row rank: orthonormal U, V with U S V' = m
            U = self.polar_frame
            S = [self.rng.randrange(1, P) for _ in range(3)]
            g = mmul(m.T(), U)
            V = [[g.get(i, j) * inv(S[j]) % P for i in range(c)] for j in range(3)] + ns
            return U, Mat(3, 1, S), Mat(c, c, [V[j][i] for i in range(c) for j in range(c)])
        if r >= c and not ns and r > 3:
            # full column rank: U, S, V with V S^-1 U' the pseudo-inverse
            S = [self.rng.randrange(1, P) for _ in range(c)]
            g = mmul(m, minv(mmul(m.T(), m)))
            U = [[g.get(i, j) * S[j] % P for i in range(r)] for j in range(c)]
            U += nullspace(m.T().rows())
            return Mat(r, r, [U[j][i] for i in range(r) for j in range(r)]), Mat(c, 1, S), \
                Mat(c, c, [int(i == j) for i in range(c) for j in range(c)])
        if r == c and ns and len(ns) < c and c <= 6:
            full = self.svd_exact(m, ns)
        if full:
            return full
        nb = self.basis(ns) if ns else []
        if nb is None:
            nb = ns
        V = [[self.rng.randrange(P) for _ in range(c)] for _ in range(c - len(nb))] + nb
        nl = nullspace(m.T().rows())
        lb = self.basis(nl) if nl else []
        if lb is None:
            lb = nl
        q = c - len(ns)
        S = [self.rng.randrange(1, P) if i < q else 0 for i in range(k)]
        # the unknown columns are chosen so that V S^+ U' is a generalised inverse of m
        v1 = Mat(c, q, [V[j][i] for i in range(c) for j in range(q)])
        g = mmul(m, v1)
        try:
            g = mmul(g, minv(mmul(g.T(), g)))
            U = [[g.get(i, j) * S[j] % P for i in range(r)] for j in range(q)] + lb
        except Exception:
            U = [[self.rng.randrange(P) for _ in range(r)] for _ in range(r - len(lb))] + lb
        return Mat(r, r, [U[j][i] for i in range(r) for j in range(r)]), Mat(k, 1, S), \
            Mat(c, c, [V[j][i] for i in range(c) for j in range(c)])

    def svd_exact(self, m, ns):
        g = mmul(m.T(), m)
        V, S, U = [], [], []
        for l in roots(charpoly(g), self.rng):
            if l == 0:
                continue
            if not issq(l):
                return None
            a = g.rows()
            for i in range(m.c):
                a[i][i] = (a[i][i] - l) % P
            vs = self.basis(nullspace(a))
            if vs is None:
                return None
            s = rsqrt(l)
            for v in vs:
                V.append(v)
                S.append(s)
                w = inv(s)
                U.append([x * w % P for x in mmul(m, Mat(m.c, 1, v)).flat()])
        nb, lb = self.basis(ns), self.basis(nullspace(m.T().rows()))
        if nb is None or lb is None or len(V) + len(nb) != m.c:
            return None
        V += nb
        U += lb
        S += [0] * len(nb)
        n = m.c
        f = lambda W: Mat(n, n, [W[j][i] for i in range(n) for j in range(n)])
        return f(U), Mat(n, 1, S), f(V)

    def eigen(self, m):
        n = m.r
        if n != m.c:
            raise Fault('eigenvalues of a %dx%d matrix' % (m.r, m.c))
        if any(x is None for x in m.flat()):
            raise Fault('eigenvalues of a matrix with elements that were never set')
        ev = []
        for l in roots(charpoly(m), self.rng):
            a = m.rows()
            for i in range(n):
                a[i][i] = (a[i][i] - l) % P
            ns = nullspace(a)
            k = [self.rng.randrange(1, P) for _ in ns]
            ev.append((l, [sum(x * v[i] for x, v in zip(k, ns)) % P for i in range(n)]))
        self.rng.shuffle(ev)
        if not ev:
            ev = [(self.rng.randrange(P), [self.rng.randrange(P) for _ in range(n)])]
        cols = [ev[i % len(ev)] for i in range(n)]
        self.neig = len(ev)
        return (Mat(n, 1, [c[0] for c in cols]),
                Mat(n, n, [cols[j][1][i] for i in range(n) for j in range(n)]))

    def e_op(self, e):
        o = e['o']
        a = e['a']
        f = self.db.fn.get(e.get('fn'))
        if f is not None and f.get('body') is not None and not f.get('implicit') and o != '=':
            if f.get('cls') and not f.get('static'):
                return self.invoke(f, a[1:], self.ev(a[0]))
            return self.invoke(f, a)
        if o in ('()', '[]'):
            if o == '()':
                c = self.ev(a[0])
                if isinstance(c, Lam):
                    return self.call_lambda(c, a[1:])
            return self.read(self.lv(e))
        if o == '=':
            y = self.ev(a[1])
            if isinstance(y, Mat):
                y = y.copy()
            l = self.lv(a[0])
            self.write(l, y, self.T[a[0]['t']])
            return self.read(l)
        if o in ('+=', '-=', '*=', '/='):
            y = self.ev(a[1])
            if isinstance(y, Mat):
                y = y.copy()
            if a[0]['k'] == 'mcall' and a[0].get('n') in ('colwise', 'rowwise'):
                w = self.ev(a[0])
                w.m.assign(self.binary(o[0], w, y, e))
                return None
            l = self.lv(a[0])
            x = self.read(l)
            self.write(l, self.binary(o[0], x, y, e))
            return self.read(l)
        if o == '<<':
            x = self.ev(a[0])
            if isinstance(x, Comma):
                c = x
            elif isinstance(x, Mat):
                c = Comma(x)
            else:
                return x
            c.put(self.ev(a[1]))
            return c
        if o == ',':
            x, y = self.ev(a[0]), self.ev(a[1])
            if isinstance(x, Comma):
                x.put(y)
                return x
            return y
        if o in ('++', '--'):
            l = self.lv(a[0])
            v = self.read(l)
            w = It(v.c, v.i + (1 if o == '++' else -1))
            self.write(l, w)
            return v if len(a) > 1 else w
        if o == '->':
            v = self.ev(a[0])
            return v.c[v.i] if isinstance(v, (It, Ptr)) else v
        if o == '*' and len(a) == 1:
            v = self.ev(a[0])
            if isinstance(v, (It, Ptr)):
                if not 0 <= v.i < len(v.c):
                    raise Fault('past the end')
                return v.c[v.i]
            return v
        xs = [self.ev(x) for x in a]
        if o == '-' and len(a) == 1:
            return xs[0].map(lambda v: -v % P) if isinstance(xs[0], Mat) else -xs[0] % P
        if o == '+' and len(a) == 1:
            return xs[0]
        x, y = xs
        if o in ('==', '!=', '<', '<=', '>', '>='):
            if isinstance(x, Mat):
                r = x.flat() == y.flat()
                return r if o == '==' else not r
            return self.compare(o, x, y, False)
        if isinstance(x, It):
            if isinstance(y, It):
                return x.i - y.i
            return It(x.c, x.i + (y if o == '+' else -y))
        return self.binary(o, x, y, e)

    def binary(self, o, x, y, e):
        mx, my = isinstance(x, Mat), isinstance(y, Mat)
        if mx or my:
            kind = (eig(self.T[e['t']]) or ('',))[0]
            wise = kind in ('CwiseBinaryOp', 'Array', 'ArrayWrapper')
            if mx and my and wise and o in '*/' and (x.r, x.c) == (y.r, y.c):
                return zipm(x, y, (lambda p, q: p * q % P) if o == '*' else (lambda p, q: p * inv(q) % P))
            if wise and mx != my and o in '+-':
                return x.map(lambda v: (v + y if o == '+' else v - y) % P) if mx else \
                    y.map(lambda v: (x + v if o == '+' else x - v) % P)
            if wise and my and not mx and o == '/':
                return y.map(lambda v: x * inv(v) % P)
        if isinstance(x, Wise) and my:
            f = {'+': lambda p, q: (p + q) % P, '-': lambda p, q: (p - q) % P, '*': lambda p, q: p * q % P,
                 '/': lambda p, q: p * inv(q) % P}[o]
            v = y.flat()
            return Mat(x.m.r, x.m.c, [f(x.m.get(i, j), v[i if x.cols else j]) for i in range(x.m.r) for j in range(x.m.c)])
        if mx and not my:
            if y is None:
                raise Fault('a value that was never set')
            if o == '*':
                return scale(x, y)
            if o == '/':
                return scale(x, inv(y))
            raise Unsupported('matrix %s number' % o)
        if my and not mx:
            if o == '*':
                return scale(y, x)
            raise Unsupported('number %s matrix' % o)
        if mx:
            if o == '*':
                return mmul(x, y)
            if o == '+':
                return zipm(x, y, lambda p, q: (p + q) % P)
            if o == '-':
                return zipm(x, y, lambda p, q: (p - q) % P)
            raise Unsupported('matrix %s matrix' % o)
        return self.arith(o, x, y, False)

    DISP = {'lit': e_lit, 'str': e_str, 'null': e_null, 'zero': e_zero, 'this': e_this, 'ref': e_ref, 'mem': e_mem,
            'cast': e_cast, 'paren': e_pass, 'constcast': e_cast, 'un': e_un, 'bin': e_bin, 'asg': e_asg,
            'cond': e_cond, 'idx': e_idx, 'other': e_other, 'new': e_new, 'del': e_del, 'lambda': e_lambda,
            'ctor': e_ctor, 'call': e_call, 'mcall': e_mcall, 'op': e_op, 'ilist': e_ilist}


class Elem:
    __slots__ = ('c', 'i')

    def __init__(self, c, i):
        self.c, self.i = c, i


class MEl(Elem):
    __slots__ = ()


class Ptr(Elem):
    __slots__ = ()


class It(Elem):
    __slots__ = ()


class Wise:
    """column-wise or row-wise view"""
    __slots__ = ('m', 'cols')

    def __init__(self, m, cols):
        self.m, self.cols = m, cols

    def lines(self):
        return [self.m.block(0, j, self.m.r, 1) for j in range(self.m.c)] if self.cols else \
            [self.m.block(i, 0, 1, self.m.c) for i in range(self.m.r)]


class Angle:
    __slots__ = ('c', 's', 'third')

    def __init__(self, c, s):
        self.c, self.s, self.third = c, s, None

    def __mod__(self, p):
        return self

    def __eq__(self, o):
        return self is o

    __hash__ = object.__hash__


class Data:
    """the column-major storage of a dense matrix"""
    __slots__ = ('m',)

    def __init__(self, m):
        self.m = m

    def __getitem__(self, k):
        m = self.m
        if not 0 <= k < m.r * m.c:
            raise Fault('element %d of the storage of a %dx%d matrix' % (k, m.r, m.c))
        return m.get(k % m.r, k // m.r)

    def __setitem__(self, k, v):
        m = self.m
        if not 0 <= k < m.r * m.c:
            raise Fault('element %d of the storage of a %dx%d matrix' % (k, m.r, m.c))
        m.set(k % m.r, k // m.r, v)


class Comma:
    def __init__(self, m):
        self.m, self.i, self.j, self.h = m, 0, 0, 1

    def put(self, v):
        m = self.m
        if not isinstance(v, Mat):
            v = Mat(1, 1, [v])
        if self.j >= m.c:
            self.i, self.j = self.i + self.h, 0
        m.block(self.i, self.j, v.r, v.c).assign(v)
        self.h = v.r
        self.j += v.c


class Lam:
    def __init__(self, e, env, T, this, f):
        self.e, self.env, self.T, self.this, self.f = e, env, T, this, f
