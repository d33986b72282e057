"""Random interpretation over a finite field with an imaginary unit: F_q(i) with
q = 11 (mod 12), small primes squares. Real numbers take values in F_q, where
the quadratic character plays the part of the sign (it is multiplicative; no
argument may use that sums of positive numbers are positive). Square roots of
squares are the square ones, every element of F_q has one cube root, angles are
represented by the point of the unit circle they denote. Only operations that
the program's expressions contain are interpreted; division by zero and roots
of negative real numbers are undefined."""
from fractions import Fraction
import math
import random
from nodes import N


def is_prime(n):
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        if n % p == 0:
            return n == p
    d, s = n - 1, 0
    while d % 2 == 0:
        d, s = d // 2, s + 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def find_q():
    q = (1 << 61) // 24 * 24 + 23
    while True:
        q -= 24
        if (q * q - 1) % 9 and is_prime(q) and all(pow(p, (q - 1) // 2, q) == 1 for p in (2, 3, 5, 7, 11, 13)):
            return q


Q = find_q()
M3 = (Q * Q - 1) // 3                # order of the cubes
C3 = pow(3, -1, M3)
I3 = pow(3, -1, Q - 1)               # cube roots in F_q


class Undefined(Exception):
    pass


class Unknown(Exception):
    pass


class Retry(Exception):
    pass


def sgn(x):
    x %= Q
    return 0 if x == 0 else 1 if pow(x, (Q - 1) // 2, Q) == 1 else -1


def rsqrt(x):
    x %= Q
    if sgn(x) < 0:
        raise Undefined('the square root of a negative number')
    r = pow(x, (Q + 1) // 4, Q)
    return r if sgn(r) >= 0 else Q - r


def rcbrt(x):
    return pow(x % Q, I3, Q)


class Z:
    """a + b*i"""
    __slots__ = ('a', 'b')

    def __init__(self, a, b=0):
        self.a, self.b = a % Q, b % Q

    def __eq__(self, o):
        return (self.a, self.b) == (o.a, o.b)

    def __hash__(self):
        return hash((self.a, self.b))

    def __add__(self, o):
        return Z(self.a + o.a, self.b + o.b)

    def __sub__(self, o):
        return Z(self.a - o.a, self.b - o.b)

    def __mul__(self, o):
        return Z(self.a * o.a - self.b * o.b, self.a * o.b + self.b * o.a)

    def conj(self):
        return Z(self.a, -self.b)

    def zero(self):
        return self.a == 0 and self.b == 0

    def inv(self):
        n = (self.a * self.a + self.b * self.b) % Q
        if n == 0:
            raise Undefined('a division by zero')
        n = pow(n, -1, Q)
        return Z(self.a * n, -self.b * n)

    def pow(self, e):
        if e < 0:
            return self.inv().pow(-e)
        r, x = Z(1), self
        while e:
            if e & 1:
                r = r * x
            x = x * x
            e >>= 1
        return r


def csqrt(z):
    """the square root with positive real part"""
    if z.b == 0:
        return Z(rsqrt(z.a)) if sgn(z.a) >= 0 else Z(0, rsqrt(-z.a))
    n = z.a * z.a + z.b * z.b
    if sgn(n) < 0:
        raise Retry()
    r = rsqrt(n)
    h = pow(2, -1, Q)
    u2 = (z.a + r) * h % Q
    if sgn(u2) < 0:
        r = -r
        u2 = (z.a + r) * h % Q
        if sgn(u2) < 0:
            raise Retry()
    u = rsqrt(u2)
    if u == 0:
        raise Retry()
    return Z(u, z.b * h * pow(u, -1, Q))


def ccbrt(z):
    if z.zero():
        return z
    if z.b == 0:
        return Z(rcbrt(z.a))
    if z.pow(M3) != Z(1):
        raise Retry()
    r = z.pow(C3)
    return r


OMEGA = Z(-pow(2, -1, Q), rsqrt(3 * pow(4, -1, Q)))     # exp(2*pi*i/3)
HALF_TURNS = {Fraction(0): Z(1), Fraction(1): Z(-1), Fraction(1, 2): Z(0, 1), Fraction(3, 2): Z(0, -1), Fraction(2, 3): OMEGA,
              Fraction(4, 3): OMEGA.conj(), Fraction(1, 3): Z(-1) * OMEGA.conj(), Fraction(5, 3): Z(-1) * OMEGA}


class Ang:
    """an angle, by its point of the unit circle"""

    def __init__(self, e):
        self.e = e


class Inf:
    pass


INF = Inf()


class Fq2:
    def __init__(self, values):
        self.m = {}
        self.values = values        # function: atom -> value in F_q or None

    def ev(self, n):
        r = self.m.get(n)
        if r is None:
            r = self.m[n] = self.ev_(n)
        return r

    def z(self, n):
        v = self.ev(n)
        if not isinstance(v, Z):
            raise Undefined('an infinite number') if v is INF else Unknown(n.op)
        return v

    def real(self, n):
        v = self.z(n)
        if v.b:
            raise Unknown('a complex number in a real operation')
        return v.a

    def num(self, c):
        if isinstance(c, int):
            return Z(c)
        if c != c or c in (float('inf'), float('-inf')):
            raise Undefined('a constant that is not a number')
        f = Fraction(c)
        g = f.limit_denominator(1000000)
        if abs(float(g) - c) <= 4e-16 * abs(c):
            return Z(g.numerator * pow(g.denominator, -1, Q))
        s = Fraction(c * c).limit_denominator(10000)
        if abs(float(s) - c * c) <= 1e-15 * c * c:       # the root of a rational number
            r = rsqrt(s.numerator * pow(s.denominator, -1, Q))
            return Z(r if c > 0 else -r)
        return Z(f.numerator * pow(f.denominator, -1, Q))

    def is_complex(self, n, memo={}):
        r = memo.get(n)
        if r is None:
            memo[n] = False
            if n.op == 'ctor':
                r = 'complex' in str(n.a[0])
            elif n.op == 'fn' and str(n.a[0]).split('::')[-1].lstrip('.') in ('real', 'imag', 'abs', 'arg', 'norm', 'atan2', 'fabs'):
                r = False
            elif n.op == 'fn' and str(n.a[0]).split('::')[-1].lstrip('.') in ('polar', 'conj'):
                r = True
            elif n.op in ('eq', 'lt', 'le', 'not', 'and'):
                r = False
            else:
                r = any(self.is_complex(x) for x in kids(n))
            memo[n] = r
        return r

    def angle(self, n):
        """the poly n as an angle"""
        e = Z(1)
        for m, c in n.a[0]:
            if not m:
                t = c / math.pi
                f = Fraction(t).limit_denominator(6) % 2
                if abs(t - round(t * 6) / 6) > 1e-14 or f not in HALF_TURNS:
                    raise Unknown('angle %s' % c)
                e = e * HALF_TURNS[f]
                continue
            if len(m) != 1 or m[0][1] != 1:
                raise Unknown('product of angles')
            x = self.ev(m[0][0])
            if not isinstance(x, Ang):
                raise Unknown('angle plus number')
            e = e * self.turn(x.e, c)
        return Ang(e)

    def turn(self, e, c):
        f = Fraction(c).limit_denominator(12)
        if abs(float(f) - c) > 1e-14:
            raise Unknown('angle times %s' % c)
        d = f.denominator
        while d % 3 == 0:
            e, d = ccbrt(e), d // 3
        while d % 2 == 0:
            e, d = csqrt(e), d // 2
        if d != 1:
            raise Unknown('angle times %s' % c)
        return e.pow(f.numerator)

    def ev_(self, n):
        op, a = n.op, n.a
        v = self.values(n)
        if v is not None:
            return Z(v)
        if op == 'num':
            return self.num(a[0])
        if op == 'bool':
            return Z(int(a[0]))
        if op == 'poly':
            if any(isinstance(self.ev(x), Ang) for m, c in a[0] for x, e in m):
                return self.angle(n)
            t = Z(0)
            for m, c in a[0]:
                p = self.num(c)
                inf = False
                for x, e in m:
                    w = self.ev(x)
                    if w is INF or (isinstance(w, Z) and w.zero() and e < 0):
                        inf = True
                    elif isinstance(w, Z):
                        p = p * w.pow(e)
                    else:
                        raise Unknown(x.op)
                if inf:
                    if p.zero() or len(a[0]) > 1 or self.is_complex(n):
                        raise Undefined('a division by zero')
                    return INF
                t = t + p
            return t
        if op == 'inv':
            return self.z(a[0]).inv()
        if op in ('lt', 'le'):
            s = sgn(self.real(a[1]) - self.real(a[0]))
            return Z(int(s > 0 or (s == 0 and op == 'le')))
        if op == 'eq':
            return Z(int(self.z(a[0]) == self.z(a[1])))
        if op == 'not':
            return Z(1 - self.real(a[0]))
        if op == 'and':
            for x in a[0]:
                if not self.real(x):
                    return Z(0)
            return Z(1)
        if op == 'ite':
            return self.ev(a[1] if self.real(a[0]) else a[2])
        if op == 'abs':
            v = self.z(a[0])
            if self.is_complex(a[0]):
                return Z(rsqrt(v.a * v.a + v.b * v.b))
            return Z(v.a * (sgn(v.a) or 1))
        if op == 'ctor' and 'complex' in str(a[0]):
            xs = [self.z(x) for x in a[1:]]
            if len(xs) == 1:
                return xs[0]
            if len(xs) == 2 and not xs[0].b and not xs[1].b:
                return Z(xs[0].a, xs[1].a)
            if not xs:
                return Z(0)
        if op == 'cast':
            return self.ev(a[-1])
        if op == 'fn':
            r = self.fn(str(a[0]).split('::')[-1].lstrip('.').split('<')[0], a[1:], n)
            if r is not None:
                return r
        raise Unknown('%s %s' % (op, a[0] if a and isinstance(a[0], str) else ''))

    def fn(self, f, xs, n):
        if f in ('real', 'imag'):
            v = self.z(xs[0])
            return Z(v.a if f == 'real' else v.b)
        if f == 'conj':
            return self.z(xs[0]).conj()
        if f == 'norm':
            v = self.z(xs[0])
            return Z(v.a * v.a + v.b * v.b)
        if f in ('sqrt', 'sqrtf'):
            v = self.z(xs[0])
            return csqrt(v) if self.is_complex(xs[0]) else Z(rsqrt(self.real(xs[0])))
        if f == 'cbrt':
            return Z(rcbrt(self.real(xs[0])))
        if f in ('fabs', 'abs'):
            v = self.z(xs[0])
            if self.is_complex(xs[0]):
                return Z(rsqrt(v.a * v.a + v.b * v.b))
            return Z(v.a * (sgn(v.a) or 1))
        if f == 'hypot':
            x, y = self.real(xs[0]), self.real(xs[1])
            return Z(rsqrt(x * x + y * y))
        if f in ('max', 'min', 'fmax', 'fmin'):
            x, y = self.real(xs[0]), self.real(xs[1])
            return Z(x if (sgn(x - y) >= 0) == ('max' in f) else y)
        if f == 'copysign':
            x, y = self.real(xs[0]), self.real(xs[1])
            return Z(x * (sgn(x) or 1) * (sgn(y) or 1))
        if f == 'pow':
            e = xs[1]
            if e.op != 'num':
                raise Unknown('pow with a variable exponent')
            e = Fraction(e.a[0]).limit_denominator(24) if not isinstance(e.a[0], int) else Fraction(e.a[0])
            cx = self.is_complex(xs[0])
            v = self.z(xs[0])
            d = e.denominator
            if d > 1 and not cx and sgn(v.a) < 0:
                raise Undefined('a broken power of a negative number')
            while d % 3 == 0:
                v, d = ccbrt(v), d // 3
            while d % 2 == 0:
                v, d = csqrt(v), d // 2
            if d != 1:
                raise Unknown('pow with exponent %s' % e)
            return v.pow(e.numerator)
        if f == 'atan':
            v = self.ev(xs[0])
            if v is INF:
                return Ang(Z(0, 1))
            t = self.real(xs[0])
            w = 1 + t * t
            if sgn(w) < 0:
                raise Retry()
            return Ang(Z(1, t) * Z(rsqrt(w)).inv())
        if f in ('atan2', 'arg'):
            if f == 'atan2':
                y, x = self.real(xs[0]), self.real(xs[1])
            else:
                v = self.z(xs[0])
                x, y = v.a, v.b
            w = x * x + y * y
            if sgn(w) < 0:
                raise Retry()
            if w % Q == 0:
                return Ang(Z(1))
            return Ang(Z(x, y) * Z(rsqrt(w)).inv())
        if f in ('acos', 'asin'):
            x = self.real(xs[0])
            w = 1 - x * x
            if sgn(w) < 0:
                raise Undefined('the %s of a number beyond 1' % f)
            return Ang(Z(x, rsqrt(w)) if f == 'acos' else Z(rsqrt(w), x))
        if f in ('cos', 'sin'):
            v = self.ev(xs[0])
            if isinstance(v, Ang):
                return Z(v.e.a if f == 'cos' else v.e.b)
            if isinstance(v, Z) and v.zero():
                return Z(int(f == 'cos'))
        if f == 'polar':
            r = self.real(xs[0])
            v = self.ev(xs[1])
            if isinstance(v, Ang):
                return Z(r) * v.e
        return None


def kids(n):
    out = []

    def w(x):
        if isinstance(x, N):
            out.append(x)
        elif isinstance(x, tuple):
            for y in x:
                w(y)
    for x in n.a:
        w(x)
    return out
