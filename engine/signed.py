"""Random interpretation in which the signs of some field values are declared, so
that comparisons, absolute values and square roots are decided for one cell of a
case analysis over all inputs."""
from nodes import N
from rand import RI, Mat, H, P as PR, inv_

NAN = H('not a number')


def has_nan(v):
    return NAN in v.v if isinstance(v, Mat) else v == NAN


class Retry(Exception):
    pass


class Signed(RI):
    """field interpretation in which the signs of some values are known"""

    def __init__(self, seed=0, strict=False, fix=None):
        RI.__init__(self, seed, fix=fix)
        self.pos = {}
        self.strict = strict     # square roots of non-squares raise Retry (choose other data)

    def positive(self, v, coefs=(1,)):
        for c in coefs:
            for k in (v * c % PR, v * inv_(c) % PR):
                self.pos[k] = 1
                self.pos[PR - k] = -1

    def sign(self, v):
        return 0 if v % PR == 0 else self.pos.get(v % PR)

    def sqrt(self, v):
        r = pow(v, (PR + 1) // 4, PR)
        if r * r % PR == v % PR:
            s = self.sign(r)
            if s is not None:
                return r * s % PR
            if self.strict:
                self.positive(r)
                return r
        elif self.strict:
            raise Retry()
        return RI.sqrt(self, v)

    def undefined(self, n):
        """0/0 or x/0 somewhere in the scalar operation n (branches not taken excepted)"""
        op, a = n.op, n.a
        if op == 'poly':
            for m, c in a[0]:
                for x, e in m:
                    v = self.ev(x)
                    if v == NAN or (e < 0 and v == 0):
                        return True
        elif op == 'inv':
            return self.ev(a[0]) in (NAN, 0)
        elif op in ('abs', 'fn', 'lt', 'le', 'norm', 'cross'):
            return any(isinstance(x, N) and has_nan(self.ev(x)) for x in a)
        elif op == 'bil':
            return any(has_nan(self.ev(x)) for x in a[0])
        elif op == 'msum':
            return any(has_nan(self.ev(c)) or any(has_nan(self.ev(x)) for x in ch) for c, ch in a[0])
        return False

    def ev_(self, n):
        op, a = n.op, n.a
        if self.undefined(n):
            return NAN
        if op in ('lt', 'le'):
            s = self.sign((self.sc(a[1]) - self.sc(a[0])) % PR)
            if s is not None:
                return int(s > 0 or (s == 0 and op == 'le'))
        if op == 'abs' or (op == 'fn' and str(a[0]).split('::')[-1] in ('fabs', 'abs')):
            v = self.sc(a[-1])
            s = self.sign(v)
            if s is not None:
                return v * s % PR
        if op == 'fn' and str(a[0]).split('::')[-1] in ('max', 'min', 'fmax', 'fmin') and len(a) == 3:
            x, y = self.sc(a[1]), self.sc(a[2])
            s = self.sign((x - y) % PR)
            if s is not None:
                return (x if s >= 0 else y) if 'max' in a[0] else (y if s >= 0 else x)
        if op == 'fn' and str(a[0]).split('::')[-1] == 'copysign' and len(a) == 3:
            s, t = self.sign(self.sc(a[1])), self.sign(self.sc(a[2]))
            if s is not None and t is not None:
                return self.sc(a[1]) * s * (1 if t >= 0 else -1) % PR
        return RI.ev_(self, n)
