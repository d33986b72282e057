"""Interpretation of value graphs over rational data. Values live in a prime
field large enough to recover every rational number that occurs, so that the
order of two values is decided exactly; expressions with a value that is not a
small enough fraction stay undecided. No program code is run."""
from fractions import Fraction
import rand
from rand import RI, Mat, H
from nodes import TRUE, FALSE

rand.P = (1 << 4423) - 1
LIMIT = 1 << 2100


class Undecided(Exception):
    pass


def rational(v):
    """the fraction v stands for"""
    P = rand.P
    v %= P
    r0, r1, s0, s1 = P, v, 0, 1
    while r1 >= LIMIT:
        q = r0 // r1
        r0, r1, s0, s1 = r1, r0 - q * r1, s1, s0 - q * s1
    if s1 == 0 or abs(s1) >= LIMIT:
        return None
    return Fraction(r1, s1)


def field(f):
    f = Fraction(f)
    return f.numerator % rand.P * pow(f.denominator, -1, rand.P) % rand.P


def root(f, k):
    """the positive k-th root of f when it is rational"""
    def r(n):
        x = round(n ** (1.0 / k)) if n < 1 << 50 else 1 << ((n.bit_length() + k - 1) // k)
        while True:
            y = ((k - 1) * x + n // x ** (k - 1)) // k if x else 0
            if abs(y - x) <= 1:
                break
            x = y
        for c in range(max(0, x - 3), x + 4):
            if c ** k == n:
                return c
    if f < 0:
        return None
    a, b = r(f.numerator), r(f.denominator)
    return None if a is None or b is None else Fraction(a, b)


class Rat(RI):
    def __init__(self, values=None, fix=None, atoms=None):
        RI.__init__(self, 0, fix=fix)
        self.unroll = True
        self.values = values or {}
        self.atoms = atoms

    def frac(self, n):
        r = rational(self.sc(n))
        if r is None:
            raise Undecided(n.op)
        return r

    def ev_(self, n):
        op, a = n.op, n.a
        if self.atoms is not None:
            v = self.atoms(self, n)
            if v is not None:
                return v
        if op in ('lt', 'le'):
            x, y = self.frac(a[0]), self.frac(a[1])
            return int(x < y if op == 'lt' else x <= y)
        if op == 'abs' or (op == 'fn' and str(a[0]).split('::')[-1] in ('fabs', 'abs')):
            return field(abs(self.frac(a[-1])))
        if op == 'eq':
            x, y = self.ev(a[0]), self.ev(a[1])
            return int(x == y)
        if op == 'ite':
            return self.ev(a[1] if self.sc(a[0]) else a[2])
        if op == 'and':
            for x in a[0]:
                if not self.sc(x):
                    return 0
            return 1
        if op == 'fn':
            nm = str(a[0]).split('::')[-1].lstrip('.')
            if nm in ('max', 'min', 'fmax', 'fmin') and len(a) == 3:
                x, y = self.frac(a[1]), self.frac(a[2])
                return field(max(x, y) if 'max' in nm else min(x, y))
            if nm in ('pow', 'sqrt', 'cbrt'):
                x = self.frac(a[1])
                e = Fraction(1, 2) if nm == 'sqrt' else Fraction(1, 3) if nm == 'cbrt' else self.frac(a[2]).limit_denominator(64)
                r = root(abs(x), e.denominator)
                if r is None or (x < 0 and (nm == 'pow' or e.denominator == 2) and e.denominator > 1) or (r == 0 and e < 0):
                    raise Undecided('%s of %s' % (nm, x))
                if x < 0:
                    r = -r
                return field(r ** e.numerator)
        return RI.ev_(self, n)

    def decide(self, c):
        """for VG.hyp: the condition under the given data"""
        try:
            v = self.sc(c)
        except Undecided:
            return c
        return TRUE if v == 1 else FALSE if v == 0 else c
