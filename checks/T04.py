"""Value-graph rules for the polynomial root finders. o3_roots and o4_roots are
reduced to value graphs and interpreted over finite fields with an imaginary
unit (the quadratic character standing for the sign) for polynomials with given
roots of every kind (all real, complex pairs, double, triple and quadruple roots,
biquadratic, vanishing invariants): the values must be the real parts of all
roots. For the Sturm sequence the constructor must store p, p' and the negated
remainders up to positive factors, over generic and degenerate polynomials; the
chain evaluation must count sign variations for every combination of signs; the
initial bound must exceed the largest root any polynomial with these coefficient
magnitudes can have; one pass of the bracketing loops (decided case by case for
0 to 3 roots and brackets wider and narrower than the tolerance) must replace the
bracket it removes by brackets that cover its roots with the right variation
counts, or output one estimate inside it when it holds one root and is narrow
(or polished); polishing takes Newton steps of p."""
import random
from fractions import Fraction as Fr
from resid import *
import rat
import rand
from rat import Rat, Undecided, rational, field
from rand import Mat, RI
import fq2
from fq2 import Fq2, Z, Q, sgn, rsqrt, OMEGA
MIN_OBLIGATIONS = 150
ASSUMPTIONS = ['real arithmetic: rounding, and the loss of a root to cancellation, are not modelled', 'leading coefficients are not zero',
               'Sturm sequences: polynomials with simple roots, sizes 2 to 5', 'convergence of Newton steps is not claimed']
CP = 'opengv::math::'


# ---------------------------------------------------------------- closed forms
def expand(roots, lead):
    p = [Z(lead)]
    for r in roots:
        p = [(p[i] if i < len(p) else Z(0)) - (r * p[i - 1] if i else Z(0)) for i in range(len(p) + 1)]
    assert all(c.b == 0 for c in p)
    return [c.a for c in p]


def families(deg, rnd):
    """(name, roots) with roots in F_q(i)"""
    R = lambda: Z(rnd.randrange(Q))
    pos = lambda: Z(pow(rnd.randrange(1, Q), 2, Q))
    two = Z(2)

    def pair():
        u, v = rnd.randrange(Q), rnd.randrange(Q)
        return [Z(u, v), Z(u, -v)]

    def ipair(m):
        v = rnd.randrange(Q)
        return [m + Z(0, v), m + Z(0, -v)]

    def zero_sum(rs):
        return rs[:-1] + [Z(0) - sum_(rs[:-1])]

    def sum_(rs):
        t = Z(0)
        for r in rs:
            t = t + r
        return t

    def mobius(rs):
        a, b, c, d = R(), R(), R(), R()
        return [(a * r + b) * (c * r + d).inv() if r is not None else a * c.inv() for r in rs]

    m, s, t = R(), R(), R()
    if deg == 3:
        yield 'three real roots', [R(), R(), R()]
        yield 'three real roots, sum 0', zero_sum([R(), R(), R()])
        yield 'one real root', [R()] + pair()
        p = pair()
        yield 'one real root, sum 0', [Z(0) - sum_(p)] + p
        yield 'root 0 and two real roots', [Z(0), R(), R()]
        yield 'root 0 and a complex pair', [Z(0)] + pair()
        yield 'root 0 twice', [Z(0), Z(0), R()]
        yield 'symmetric real roots', [m - s, m, m + s]
        yield 'symmetric real roots about 0', [Z(0) - s, Z(0), s]
        yield 'a real root between a symmetric complex pair', [m] + ipair(m)
        yield 'imaginary roots and 0', [Z(0)] + ipair(Z(0))
        yield 'double root', [s, s, t]
        yield 'triple root', [s, s, s]
        yield 'triple root 0', [Z(0)] * 3
        yield 'shifted pure cubic', [m + s, m + s * OMEGA, m + s * OMEGA.conj()]
        yield 'pure cubic', [s, s * OMEGA, s * OMEGA.conj()]
    else:
        yield 'four real roots', [R(), R(), R(), R()]
        yield 'four real roots, sum 0', zero_sum([R(), R(), R(), R()])
        yield 'two real roots', [R(), R()] + pair()
        yield 'no real root', pair() + pair()
        p = pair()
        yield 'no real root, sum 0', p + [Z(-p[0].a, s.a), Z(-p[0].a, -s.a)]
        yield 'root 0', [Z(0), R(), R(), R()]
        yield 'double root and two real roots', [s, s, R(), R()]
        yield 'double root and a complex pair', [s, s] + pair()
        yield 'triple root', [s, s, s, t]
        yield 'triple root 0', [Z(0)] * 3 + [t]
        yield 'quadruple root', [s] * 4
        yield 'quadruple root 0', [Z(0)] * 4
        yield 'two double roots', [s, s, t, t]
        p = pair()
        yield 'double complex pair', p + p
        p = ipair(m)
        yield 'double imaginary pair', p + p
        yield 'biquadratic, four real roots', [m - s, m + s, m - t, m + t]
        yield 'biquadratic, two real roots', [m - s, m + s] + ipair(m)
        yield 'biquadratic, imaginary roots', ipair(m) + ipair(m)
        yield 'biquadratic about 0, two real roots', [Z(0) - s, s] + ipair(Z(0))
        u, v = rnd.randrange(Q), rnd.randrange(Q)
        yield 'biquadratic, complex roots', [m + Z(u, v), m + Z(u, -v), m + Z(-u, v), m + Z(-u, -v)]
        yield 'biquadratic with root 0 twice', [m, m, m + s, m - s]
        yield 'vanishing quadratic invariant', mobius([None, Z(1), OMEGA, OMEGA.conj()])
        yield 'vanishing quadratic invariant with root 0', mobius([Z(0), Z(1), Z(0) - OMEGA, Z(0) - OMEGA.conj()])
        yield 'pure quartic plus linear term', [Z(0), s, s * OMEGA, s * OMEGA.conj()]


SUMS = ('three real roots', 'three real roots, sum 0', 'root 0 and two real roots')


def input_values(f, coeffs):
    """values of the input's elements, whatever the container"""
    p = mk('par', f['params'][0]['n'])
    m = {}
    for b in (p, mk('deref', p)):
        for i, c in enumerate(coeffs):
            m[sel_el(b, num(i))] = c
            for r, k in ((i, 0), (0, i)):
                m[mk('blk', b, r, k, 1, 1)] = c
                m[mk('blk', b, num(r), num(k), 1, 1)] = c
    return m


def as_list(v):
    return list(v.a[0]) if v.op == 'tup' else None


def closed_form(C, D, f, deg):
    inst = '%s(%s)' % (f['q'].replace(CP, ''), 'matrix' if 'Matrix' in param_ts(f, 0) else 'vector')
    w = loc(f)
    C.functions.add(f['q'])
    g = make_vg(D)
    v, st, fr = g.run(f)
    C.vg(g)
    if isinstance(v, LV):
        v = g.read(st, v)
    bad, done = {}, {}
    rnd = random.Random(7 * deg)
    names = [n for n, _ in families(deg, random.Random(0))]
    for rep in range(60):
        if all(done.get(n, 0) >= 8 for n in names):
            break
        for name, roots in families(deg, rnd):
            if done.get(name, 0) >= 8 or name in bad:
                continue
            lead = rnd.randrange(1, Q)
            coeffs = expand(roots, lead)
            vals = input_values(f, coeffs)
            E = Fq2(vals.get)
            try:
                r, cond = v, v
                while r.op == 'ite':
                    r = r.a[1] if E.real(r.a[0]) else r.a[2]
                xs = as_list(r)
                if xs is None:
                    k = as_repeat(r)
                    if k is None:
                        raise fq2.Unknown(r.op)
                    xs = [k[0]] * k[1]
                got = sorted(E.real(x) for x in xs)
            except fq2.Retry:
                continue
            except fq2.Undefined as ex:
                if name in SUMS and 'square root' in str(ex):
                    continue        # b*b-3ac is a sum of squares, which a finite field does not know
                bad[name] = 'the formula contains %s' % ex
                continue
            except fq2.Unknown as ex:
                bad[name] = 'undecided: %s' % ex
                continue
            done[name] = done.get(name, 0) + 1
            exp = sorted(r.a for r in roots)
            if got != exp:
                bad[name] = '%d of the %d values are real parts of roots' % (common(got, exp), len(got))
    for n in names:
        C.ob('all-roots', '%s | %s' % (inst, n), w, n not in bad and done.get(n, 0) >= 4,
             'not the real parts of all roots for polynomials of the kind "%s": %s' % (n, bad.get(n, 'too few samples decided')))


def common(a, b):
    b, k = list(b), 0
    for x in a:
        if x in b:
            b.remove(x)
            k += 1
    return k


def as_repeat(v):
    if v.op in ('vec0', 'map', 'resized'):
        n = size(v)
        if is_num(n):
            return sel_el(v, ZERO), val(n)
    return None


# ---------------------------------------------------------------- Sturm sequence
class Lists(Rat):
    """rational interpretation with sequences"""

    def ev_(self, n):
        op, a = n.op, n.a
        if op == 'tup':
            return list(self.ev(x) for x in a[0])
        if op == 'st':
            b = self.ev(a[0])
            k = rational(self.sc(a[1]))
            if isinstance(b, list) and k is not None and k.denominator == 1 and 0 <= k < len(b):
                b = list(b)
                b[int(k)] = self.ev(a[2])
                return b
        if op == 'push':
            b = self.ev(a[0])
            if isinstance(b, list):
                return b + [self.ev(a[1])]
        if op == 'size':
            b = self.ev(a[0])
            if isinstance(b, list):
                return len(b)
        if op == 'el':
            b = self.ev(a[0])
            if isinstance(b, list):
                k = rational(self.sc(a[1]))
                if k is not None and k.denominator == 1 and 0 <= k < len(b):
                    return b[int(k)]
                raise Undecided('index')
        return Rat.ev_(self, n)

    def parts(self, a):
        if isinstance(a, N):
            v = self.ev(a)
            return repr(v) if isinstance(v, list) else Rat.parts(self, a)
        return Rat.parts(self, a)


def sturm_fields(D):
    r = D.recT['opengv::math::Sturm']
    m = [f['n'] for f in r['fields'] if 'Matrix' in f['ts']]
    k = [f['n'] for f in r['fields'] if f['ts'] in ('unsigned long', 'int', 'long', 'unsigned int')]
    return m[0] if len(m) == 1 else None, k


def this_env(D, n, rows=None):
    cf, kf = sturm_fields(D)
    M = mk('sym', 'chain%d' % n)
    M.dim = (n, n)
    th = mk('par', 'this')
    return M, {('obj', th): mk('rec', 'opengv::math::Sturm', th, ((cf, M),) + tuple((k, num(n)) for k in kf))}


def poly_neg_rem(a, b):
    """-(a mod b); coefficients, leading first"""
    a, b = strip(a), strip(b)
    if not b:
        return []
    a = list(a)
    while len(a) >= len(b):
        f = a[0] / b[0]
        for i in range(len(b)):
            a[i] -= f * b[i]
        a = a[1:]
    return strip([-x for x in a])


def strip(p):
    p = list(p)
    while p and p[0] == 0:
        p = p[1:]
    return p


def derivative(p):
    return [c * (len(p) - 1 - i) for i, c in enumerate(p[:-1])]


def chain_of(p):
    out = [strip(p), strip(derivative(p))]
    while len(out) < len(p):
        out.append(poly_neg_rem(out[-2], out[-1]))
    return out


def from_roots(rs, lead=1):
    p = [Fr(lead)]
    for r in rs:
        p = [(p[i] if i < len(p) else 0) - (r * p[i - 1] if i else 0) for i in range(len(p) + 1)]
    return p


def sturm_polynomials(n, rnd):
    R = lambda: Fr(rnd.randrange(-999, 1000) or 1, rnd.randrange(1, 60))
    yield 'generic', [R() for _ in range(n)]
    yield 'generic, negative leading coefficient', [-abs(R())] + [R() for _ in range(n - 1)]
    yield 'two terms', [R()] + [Fr(0)] * (n - 2) + [R()]
    if n > 3:
        yield 'vanishing second and third coefficients', [R(), Fr(0), Fr(0)] + [R() for _ in range(n - 3)]
        yield 'vanishing second coefficient', [R(), Fr(0)] + [R() for _ in range(n - 2)]
        yield 'three terms', [R()] + [Fr(0)] * (n - 3) + [R(), R()]
        yield 'even or odd', [R() if i % 2 == 0 else Fr(0) for i in range(n)]
        yield 'root 0', [R() for _ in range(n - 1)] + [Fr(0)]
        # remainder whose degree drops: q*p' / (deg) plus a low-degree part
        d = n - 1
        base = from_roots([R()] * 1, 1)
        p = [Fr(1)]
        for _ in range(d):
            p = [(p[i] if i < len(p) else 0) - (base[1] * -1 * p[i - 1] if i else 0) for i in range(len(p) + 1)]
        p[-1] += R()
        if n > 4:
            p[-2] += R()
        yield 'shifted power plus a low-degree part', p


def constructor(C, D, f):
    kind = 'matrix' if 'Matrix' in param_ts(f, 0) else 'vector'
    C.functions.add(f['q'])
    cf, kf = sturm_fields(D)
    for n in range(2, 6):
        rnd = random.Random(n)
        for name, coeffs in sturm_polynomials(n, rnd):
            syms = [mk('sym', 'c%d' % i) for i in range(n)]
            fix = {s: field(c) for s, c in zip(syms, coeffs)}
            if kind == 'vector':
                arg = tup(tuple(syms))
            else:
                arg = mk('sym', 'p%d' % n)
                arg.dim = (1, n)
                fix[arg] = Mat(1, n, [field(c) for c in coeffs])
                fix[mk('cols', arg)], fix[mk('rows', arg)] = n, 1
            E = Lists(fix=fix)
            g = make_vg(D)
            g.hyp = E.decide
            v, st, fr = g.run(f, args=[arg])
            if n == 3:
                C.vg(g)
            th = g.read(st, LV(('obj', mk('par', 'this'))))
            M = g.read(st, LV(('obj', mk('par', 'this')), (('f', cf, 'opengv::math::Sturm'),)))
            inst = 'Sturm(%s) size %d | %s' % (kind, n, name)
            try:
                m = E.mat(M, (n, n))
                rows = None
                if isinstance(m, Mat) and (m.r, m.c) == (n, n):
                    rows = [[rational(x) for x in m.v[i * n:i * n + n]] for i in range(n)]
            except Undecided as ex:
                rows = None
            ok = rows is not None and all(x is not None for r in rows for x in r)
            if ok:
                exp = chain_of(coeffs)
                for i in range(n):
                    e = [Fr(0)] * (n - len(exp[i])) + exp[i]
                    k = next((j for j in range(n) if e[j] != 0), None)
                    if k is None:
                        ok = ok and not any(rows[i])
                    else:
                        s = rows[i][k] / e[k]
                        ok = ok and s > 0 and all(x == s * y for x, y in zip(rows[i], e)) and (i != 0 or s == 1)
            C.ob('sturm-sequence', inst, loc(f), ok, 'the rows stored are not p, p\' and the negated remainders' if rows else 'the stored sequence is not decided')
            dims = [g.read(st, LV(('obj', mk('par', 'this')), (('f', k, 'opengv::math::Sturm'),))) for k in kf]
            C.ob('sturm-size', inst, loc(f), all(E.sc(d) == n for d in dims), 'the number of rows is not recorded')


def variations(s):
    s = [x for x in s if x]
    return sum(1 for a, b in zip(s, s[1:]) if a != b)


def valid_signs(s):
    """sign patterns a Sturm sequence of a polynomial with simple roots can take"""
    if not any(s):
        return False
    last = max(i for i, x in enumerate(s) if x)
    t = s[:last + 1]
    for i, x in enumerate(t):
        if x == 0 and i > 0 and (t[i - 1] * t[i + 1] != -1):
            return False
        if x == 0 and i == 0 and (len(t) == 1 or t[1] == 0):
            return False
    return True


def chain_evaluation(C, D, f):
    from itertools import product
    C.functions.add(f['q'])
    for n in (2, 3, 4, 5):
        M, env = this_env(D, n)
        g = make_vg(D)
        v, st, fr = g.run(f, env=env)
        if n == 3:
            C.vg(g)
        x = mk('par', f['params'][0]['n'])
        bad, cnt = None, 0
        rnd = random.Random(n)
        for s in product((-1, 0, 1), repeat=n):
            if not valid_signs(s):
                continue
            cnt += 1
            b = Fr(rnd.randrange(-40, 40) or 3, 7)
            rows = []
            for i in range(n):
                r = [Fr(0)] * i + [Fr(rnd.randrange(-50, 50), 3) for _ in range(n - i)]
                t = sum(c * b ** (n - 1 - j) for j, c in enumerate(r[:-1]))
                r[-1] = s[i] * Fr(rnd.randrange(1, 90), 11) - t
                rows.append(r)
            E = Lists(fix={M: Mat(n, n, [field(c) for r in rows for c in r]), x: field(b)})
            allowed = {variations(s)}
            if s[0] == 0:
                allowed = {variations((k,) + s[1:]) for k in (-1, 1)}
            try:
                got = rational(E.sc(v))
            except Undecided as ex:
                got = None
            if got not in allowed:
                bad = 'row signs %s give %s variations, expected %s' % (s, got, ' or '.join(map(str, sorted(allowed))))
                break
        C.ob('variations', '%s size %d' % (f['n'], n), loc(f), bad is None, bad or '')


def initial_bound(C, D, f):
    C.functions.add(f['q'])
    for n in (2, 3, 4, 5):
        M, env = this_env(D, n)
        g = make_vg(D)
        v, st, fr = g.run(f, env=env)
        if n == 3:
            C.vg(g)
        rnd = random.Random(n)
        cases = {'no root but 0': [Fr(0)] * (n - 1)}
        for k in range(n - 1):
            t = [Fr(0)] * (n - 1)
            t[k] = Fr(rnd.randrange(1, 9), 3)
            cases['one coefficient, power %d' % (n - 2 - k)] = t
        for k in range(12):
            cases['coefficients %d' % k] = [Fr(rnd.randrange(0, 9), rnd.choice((1, 2, 7, 50))) for _ in range(n - 1)]
        cases['equal moduli'] = [Fr(2, 3)] * (n - 1)
        cases['descending'] = [Fr(n - k) for k in range(n - 1)]
        cases['ascending'] = [Fr(k + 1) for k in range(n - 1)]
        bad = None
        for name, t in cases.items():
            for lead in (Fr(1), Fr(-3, 2), Fr(7)):
                row = [lead] + [lead * rnd.choice((-1, 1)) * t[k] ** (k + 1) for k in range(n - 1)]
                mat = row + [Fr(rnd.randrange(-20, 20)) for _ in range(n * n - n)]
                E = Lists(fix={M: Mat(n, n, [field(c) for c in mat])})
                try:
                    b = rational(E.sc(v))
                except Undecided as ex:
                    b = None
                    bad = 'undecided: %s' % ex
                if b is None:
                    bad = bad or 'the bound is not decided for %s' % name
                elif not (b > 0 and b ** (n - 1) > sum(t[k] ** (k + 1) * b ** (n - 2 - k) for k in range(n - 1))):
                    bad = 'for p = %s the bound %.6g does not lie beyond every real root that coefficients of these magnitudes allow' % ([float(x) for x in row], float(b))
                if bad:
                    break
            if bad:
                break
        C.ob('bound-strict', '%s size %d' % (f['n'], n), loc(f), bad is None, bad or '')


# ---------------------------------------------------------------- bracketing loops
class Cannot(Exception):
    pass


class Brk(dict):
    pass


class Case:
    """values of one pass of the loop for given brackets and roots"""

    def __init__(self, m, objs, roots, choose, seed=0):
        self.m, self.objs, self.roots, self.choose, self.seed = dict(m), objs, roots, choose, seed

    def V(self, x):
        return Fr(sum(1 for r in self.roots if r > x))

    def ev(self, n):
        r = self.m.get(n)
        if r is None:
            r = self.e(n)
            self.m[n] = r
        return r

    def e(self, n):
        op, a = n.op, n.a
        if op == 'num':
            return Fr(a[0])
        if op == 'bool':
            return Fr(int(a[0]))
        if op == 'poly':
            t = Fr(0)
            for m, c in a[0]:
                p = Fr(c)
                for x, e in m:
                    v = self.ev(x)
                    if e < 0 and v == 0:
                        raise Cannot('a division by zero')
                    p *= v ** e
                t += p
            return t
        if op == 'inv':
            v = self.ev(a[0])
            if v == 0:
                raise Cannot('a division by zero')
            return 1 / v
        if op in ('lt', 'le'):
            x, y = self.ev(a[0]), self.ev(a[1])
            return Fr(int(x < y if op == 'lt' else x <= y))
        if op == 'eq':
            return Fr(int(self.ev(a[0]) == self.ev(a[1])))
        if op == 'not':
            return 1 - self.ev(a[0])
        if op == 'and':
            for x in a[0]:
                if not self.ev(x):
                    return Fr(0)
            return Fr(1)
        if op == 'ite':
            return self.ev(a[1] if self.ev(a[0]) else a[2])
        if op == 'abs' or (op == 'fn' and str(a[0]).split('::')[-1] in ('fabs', 'abs')):
            return abs(self.ev(a[-1]))
        if op == 'fn' and str(a[0]).split('::')[-1] in ('max', 'min', 'fmax', 'fmin') and len(a) == 3:
            return (max if 'max' in a[0] else min)(self.ev(a[1]), self.ev(a[2]))
        if op == 'V':
            return self.V(self.ev(a[0]))
        if op == 'tup':
            return [self.ev(x) for x in a[0]]
        if op == 'push':
            return self.ev(a[0]) + [self.ev(a[1])]
        if op == 'cat':
            return self.ev(a[0]) + self.ev(a[1])
        if op in ('tail', 'front_of'):
            l = self.ev(a[0])
            if not l:
                raise Cannot('an element removed from an empty list')
            return l[1:] if op == 'tail' else l[:-1]
        if op == 'size':
            return Fr(len(self.ev(a[0])))
        if op == 'el':
            l, i = self.ev(a[0]), self.ev(a[1])
            if not isinstance(l, list) or not 0 <= i < len(l):
                raise Cannot('an element outside of the list')
            return l[int(i)]
        if op == 'deref':
            return self.ev(a[0])
        if op == 'fld':
            b = self.ev(a[0])
            if isinstance(b, Brk) and a[1] in b:
                return b[a[1]]
        if op in ('new', 'addr') and ('obj', n) in self.objs:
            return self.ev(self.objs[('obj', n)])
        if op == 'rec':
            out = Brk()
            if a[1] is not None:
                try:
                    b = self.ev(a[1])
                    if isinstance(b, Brk):
                        out.update(b)
                except Cannot:
                    pass
            for k, v in a[2]:
                out[k] = self.ev(v)
            return out
        v = self.choose(self, n)
        if v is not None:
            return v
        raise Cannot(op)


def abstract_chain(vg, e, d, base, args, fr, st):
    """variation counts and the initial bound stand for themselves"""
    if (d.get('q') or '').startswith('opengv::math::Sturm::') and not d.get('ctor'):
        if len(args) == 1 and d.get('rs') in SIZES and [p['ts'] for p in d.get('p', ())] == ['double']:
            x = vg.rv(args[0], fr, st)
            r = mk('V', x)
            r.meta = 'i'
            return r
        if not args and d.get('rs') == 'double':
            return mk('sym', 'bound')
    return NotImplemented


SIZES = ('unsigned long', 'int', 'long', 'unsigned int')


def const_choice(values):
    return lambda case, n: values.get(n)


def bracketing(C, D, f):
    inst = f['n']
    w = loc(f)
    C.functions.add(f['q'])
    n = 5
    M, env = this_env(D, n)
    g = make_vg(D, intercepts=[abstract_chain])
    v, st, fr = g.run(f, env=env)
    C.vg(g)
    out_key = ('obj', mk('par', f['params'][0]['n'])) if f['params'] else None
    loops = g.loops.values() if isinstance(g.loops, dict) else g.loops
    bound = mk('sym', 'bound')
    params = [mk('par', p['n']) for p in f['params'][1:]]

    def is_stack(en):
        return en.op == 'tup' and len(en.a[0]) == 1 and en.a[0][0].op in ('new', 'rec')
    outer = [L for L in loops if any(is_stack(en) for _, _, en, _ in L.vars)]
    if not C.ob('bracket-loop', inst, w, len(outer) == 1, 'no single loop over a list of brackets that starts from one bracket'):
        return
    L = outer[0]
    sv = next(x for x in L.vars if is_stack(x[2]))
    ov = [x for x in L.vars if (x[0].root, x[0].path) == (out_key, ())]
    res = g.read(st, LV(out_key)) if out_key else v
    if not C.ob('result-collected', inst, w, len(ov) == 1 and res.op == 'lx' and res.a[1] is ov[0][1], 'the result is not the list the loop collects: ' + show(res, 4)):
        return
    ov = ov[0]
    objs = dict(L.back_env)
    # roles of the bracket's fields, from the initial bracket
    roots0 = [Fr(-2), Fr(1, 3), Fr(5, 2)]
    eps = Fr(1)
    base = {bound: Fr(3)}
    for k, p in enumerate(params):
        base[p] = eps
    c0 = Case(base, dict(L.env_header), roots0, const_choice({}))
    try:
        first = c0.ev(sv[2])[0]
    except Cannot as ex:
        C.ob('initial-bracket', inst, w, False, 'the initial bracket is not decided: %s' % ex)
        return
    # the values were chosen so that -3, 3 (bound), V(-3) = 3 and V(3) = 0 overlap: use another bound to separate them
    base2 = dict(base)
    base2[bound] = Fr(11, 4)
    f2 = Case(base2, dict(L.env_header), roots0, const_choice({})).ev(sv[2])[0]
    role = {}
    for k, x in f2.items():
        role[k] = 'L' if x == Fr(-11, 4) else 'U' if x == Fr(11, 4) else 'cL' if x == 3 else 'cU' if x == 0 else 'flag' if x == 1 else '?'
    inv = {}
    for k, r in role.items():
        inv.setdefault(r, []).append(k)
    ok = all(len(inv.get(r, ())) == 1 for r in ('L', 'U', 'cL', 'cU')) and '?' not in inv
    if not C.ob('initial-bracket', inst, w, ok, 'the initial bracket is not [-bound, bound] with the variation counts of its ends: %s' % {k: str(x) for k, x in f2.items()}):
        return
    kL, kU, kcL, kcU = (inv[r][0] for r in ('L', 'U', 'cL', 'cU'))

    def bracket(lo, hi, roots):
        c = lambda x: Fr(sum(1 for r in roots if r > x))
        return Brk({kL: lo, kU: hi, kcL: c(lo), kcU: c(hi), **{k: Fr(1) for k in inv.get('flag', ())}})

    # inner loops: values they leave behind, confined to the bracket
    inner = [x for x in loops if x is not L]
    lxs = {}
    for I in inner:
        for (lv, mu, en, bk) in I.vars:
            lxs[mk('lx', I.id, mu)] = (I, mu, en, bk)
    used = set()
    ncase = 0
    problems = {}
    for nroots in range(4):
        for width in (Fr(1, 2), Fr(4)):
            for variant in range(3):
                roots, brs = [], []
                for b in range(3):
                    lo = Fr(10 * b) - 7
                    hi = lo + width
                    brs.append((lo, hi))
                    pos = ([Fr(1, 9), Fr(2, 5), Fr(5, 7)], [Fr(3, 5), Fr(7, 9), Fr(8, 9)], [Fr(1, 2), Fr(1, 5), Fr(1, 7)])[variant][:nroots]
                    roots += [lo + width * x for x in pos]
                stack = [bracket(lo, hi, roots) for lo, hi in brs]
                for flags in range(8):
                    atoms = {}

                    def choose(case, nd, flags=flags, atoms=atoms, width=width):
                        if nd not in lxs:
                            return None
                        I, mu, en, bk = lxs[nd]
                        used.add(nd)
                        if is_flag(mu, en, bk):
                            atoms.setdefault(nd, len(atoms))
                            return Fr(flags >> min(atoms[nd], 2) & 1)
                        x = case.ev_in_loop(I, mu, nd)
                        return x
                    case = InCase({**base, sv[1]: stack, ov[1]: []}, objs, roots, choose, brs)
                    name = '%d root%s, %s bracket' % (nroots, '' if nroots == 1 else 's', 'narrow' if width < eps else 'wide')
                    try:
                        go = case.ev(L.cond)
                        esc = any(case.ev(gd) for gd, _ in L.breaks) or any(case.ev(x[0]) for x in L.returns)
                        new = case.ev(sv[3])
                        case.idx = next((i for i, b in enumerate(stack) if not any(x is b for x in new)), 0)
                        out = case.ev(ov[3])
                    except Cannot as ex:
                        problems.setdefault(name, 'undecided: %s' % ex)
                        break
                    ncase += 1
                    p = None
                    gone = [b for b in stack if not any(x is b for x in new)]
                    fresh = [b for b in new if not any(x is b for x in stack)]
                    if not go or esc:
                        p = 'the loop ends while brackets are left'
                    elif len(gone) != 1:
                        p = 'not exactly one bracket is taken from the list'
                    else:
                        p = judge(gone[0], fresh, out, roots, width < eps, (kL, kU, kcL, kcU), inv.get('flag', ()), case)
                    if p:
                        problems.setdefault(name, p)
                    if len(atoms) <= 0 or flags >= (1 << len(atoms)) - 1:
                        break
    for nroots in range(4):
        for width in ('narrow', 'wide'):
            name = '%d root%s, %s bracket' % (nroots, '' if nroots == 1 else 's', width)
            C.ob('bracket-pass', '%s | %s' % (inst, name), w, name not in problems, problems.get(name, ''))
    # what inner loops leave behind lies in the bracket and has a known polynomial value
    for nd in used:
        I, mu, en, bk = lxs[nd]
        if not is_flag(mu, en, bk):
            polishing(C, D, f, g, L, I, mu, en, bk, sv, base, objs, (kL, kU), bracket, M, n)


def is_flag(mu, en, bk):
    """a variable that only ever holds 0 or 1"""
    ok = (TRUE, FALSE, ZERO, ONE)

    def leaves(x):
        if x.op == 'ite':
            return leaves(x.a[1]) and leaves(x.a[2])
        return x in ok or x is mu or x.op in ('lt', 'le', 'eq', 'not', 'and')
    return en in ok and leaves(bk)


def pinned(L, mu, en, bk, d, ri0):
    """elements of the matrix mu that keep their first value in every pass of the loop"""
    a = ri0.mat(en, d)
    keep = set(range(d[0] * d[1]))
    while True:
        m = Mat(d[0], d[1], [a.v[i] if i in keep else rand.H('elem', i) for i in range(len(a.v))])
        b = RI(fix={mu: m}).mat(bk, d)
        lost = {i for i in keep if b is None or b.v[i] != a.v[i]}
        if not lost:
            return m
        keep -= lost


class InCase(Case):
    def __init__(self, m, objs, roots, choose, brs):
        Case.__init__(self, m, objs, roots, choose)
        self.brs = brs
        self.polished = set()
        self.idx = 0

    def ev_in_loop(self, I, mu, nd):
        """a value an inner loop leaves, somewhere in the bracket processed"""
        lo, hi = self.cur()
        x = lo + (hi - lo) * Fr(3, 11)
        self.polished.add(x)
        return x

    def cur(self):
        return self.brs[self.idx]


def judge(b, fresh, out, roots, narrow, names, flags, case):
    kL, kU, kcL, kcU = names
    lo, hi = b[kL], b[kU]
    mine = [r for r in roots if lo < r <= hi]
    if out:
        if len(mine) != 1:
            return 'a bracket with %d roots yields an estimate' % len(mine)
        if len(out) != 1 or fresh:
            return 'a bracket with one root yields %d estimates and %d brackets' % (len(out), len(fresh))
        if not lo <= out[0] <= hi:
            return 'the estimate does not lie in its bracket'
        if not narrow and out[0] not in case.polished:
            return 'a bracket wider than the tolerance yields an estimate that was not polished'
        return None
    iv = sorted((x[kL], x[kU]) for x in fresh if isinstance(x, Brk) and kL in x and kU in x)
    if len(iv) != len(fresh):
        return 'something that is not a bracket is put on the list'
    for x in fresh:
        if not (x.get(kcL) == case.V(x[kL]) and x.get(kcU) == case.V(x[kU])):
            return 'a new bracket does not carry the variation counts of its ends'
        if any(x.get(k) != 1 for k in flags):
            return 'a new bracket is not marked as evaluated'
        if not (lo <= x[kL] < x[kU] <= hi) or x[kU] - x[kL] > (hi - lo) * Fr(9, 10):
            return 'a new bracket is not a part of the old one'
    if any(a[1] > c[0] for a, c in zip(iv, iv[1:])):
        return 'new brackets overlap'
    for r in mine:
        if not any(a < r <= c for a, c in iv):
            return 'a root of the bracket is lost'
    return None


def polishing(C, D, f, g, L, I, mu, en, bk, sv, base, objs, names, bracket, M, n):
    inst, w = f['n'], loc(f)
    # confinement: sampled pass with arbitrary function values
    bad, seen = None, 0
    lo, hi = Fr(-7), Fr(-3)
    roots = [Fr(-6)]
    b = bracket(lo, hi, roots)
    rnd = random.Random(3)
    scal = {m: (e, k) for (lv, m, e, k) in I.vars}
    for trial in range(60):
        stack = [b, b, b]

        def choose(case, nd):
            if nd.op in ('bil', 'blk', 'lx', 'mu', 'mloop', 'msum', 'norm', 'par', 'sym'):
                if nd.op == 'mu' and nd.dim not in (None, (1, 1)):
                    return None
                return Fr(rnd.randrange(-300, 300) or 1, rnd.choice((1, 3, 50)))
            return None
        m = {**base, sv[1]: stack}
        e0 = Case(m, objs, roots, choose)
        try:
            if trial == 0 and not (lo <= e0.ev(en) <= hi):
                bad = 'polishing starts outside of the bracket'
            m[mu] = rnd.choice((lo, hi, lo + (hi - lo) * Fr(rnd.randrange(1, 100), 100)))
            c = Case(m, objs, roots, choose)
            if not c.ev(I.back_guard):
                continue
            seen += 1
            if not (lo <= c.ev(bk) <= hi):
                bad = 'a polished estimate can leave its bracket'
        except Cannot as ex:
            bad = 'undecided: %s' % ex
        if bad:
            break
    C.ob('polish-confined', inst, w, bad is None and seen >= 3, bad or 'no pass of the polishing loop is decided')
    # a carried value is the polynomial at the estimate
    ok = False
    fix = {}
    for (lv, m3, e3, b3) in L.vars:
        d = e3.dim or m3.dim
        if d and d[0] > 0 and d[1] > 0 and d != (1, 1):
            fix[m3] = pinned(L, m3, e3, b3, d, RI())
    for (lv, m2, e2, b2) in I.vars:
        if m2 is mu or m2.dim not in (None, (1, 1)):
            continue
        good = True
        for est, value in ((en, e2), (bk, b2)):
            ri = RI(fix=dict(fix))
            mm = ri.mat(M, (n, n))
            x = ri.sc(est)
            p = 0
            for j in range(n):
                p = (p * x + mm.v[j]) % rand.P
            good = good and ri.sc(value) == p
        ok = ok or good
    C.ob('polish-value', inst, w, ok, 'no value carried by the polishing loop equals the polynomial at the estimate')


def newton(C, D, f):
    C.functions.add(f['q'])
    n = 4
    M, env = this_env(D, n)
    start = [mk('sym', 'r0'), mk('sym', 'r1')]

    def ic(vg, e, d, base, args, fr, st):
        if d.get('n') == 'bracketRoots' and len(args) >= 1:
            vg.write(st, vg.lvof(args[0], fr, st), tup(tuple(start)))
            return None
        return NotImplemented
    g = make_vg(D, intercepts=[ic])
    v, st, fr = g.run(f, env=env)
    C.vg(g)
    if isinstance(v, LV):
        v = g.read(st, v)
    inst, w = f['n'], loc(f)
    xs = as_list(v)
    if not C.ob('one-per-bracket', inst, w, xs is not None and len(xs) == 2, 'two brackets do not yield two roots: ' + show(v, 3)):
        return
    rnd = random.Random(1)
    row = [rnd.randrange(rand.P) for _ in range(n)]
    der = [c * (n - 1 - i) % rand.P for i, c in enumerate(row[:-1])]
    mat = row + [0] + der + [rnd.randrange(rand.P) for _ in range(n * n - 2 * n)]
    r = [rnd.randrange(rand.P) for _ in xs]
    ri = RI(fix={M: Mat(n, n, mat), start[0]: r[0], start[1]: r[1]})
    ev = lambda p, x: sum(c * pow(x, len(p) - 1 - i, rand.P) for i, c in enumerate(p)) % rand.P
    got = [ri.sc(x) for x in xs]
    steps = []
    for k in range(12):
        steps.append(list(r))
        r = [(x - ev(row, x) * pow(ev(der, x), -1, rand.P)) % rand.P for x in r]
    ok = got in steps or got[::-1] in steps
    C.ob('newton-steps', inst, w, ok, 'the roots returned are not the bracketed estimates after a number of Newton steps of p')


def run(C):
    D = load()
    for q, deg in (('o3_roots', 3), ('o4_roots', 4)):
        fs = [f for f in D.functions(CP + q) if f.get('body')]
        C.count(q, len(fs))
        for f in fs:
            closed_form(C, D, f, deg)
    methods = [f for f in D.fn.values() if f.get('clsT') == CP + 'Sturm' and f.get('body')]
    for f in sorted(methods, key=lambda f: f['line']):
        ps = f['params']
        if f.get('ctor') and len(ps) == 1 and not f.get('implicit') and 'Sturm' not in param_ts(f, 0):
            constructor(C, D, f)
        elif f.get('ctor') or f.get('implicit'):
            continue
        elif len(ps) == 1 and param_ts(f, 0) == 'double' and D.decl[f['u']]['rs'] in SIZES:
            chain_evaluation(C, D, f)
        elif not ps and D.decl[f['u']]['rs'] == 'double':
            initial_bound(C, D, f)
        elif f['n'] in ('bracketRoots', 'findRoots2'):
            bracketing(C, D, f)
        elif f['n'] == 'findRoots':
            newton(C, D, f)
