"""Hash-consed value nodes with normal forms (global value numbering).

Scalars are kept as polynomials over atoms, matrices as sums of scalar
coefficients times products of atoms, matrices that are assembled piecewise as
a base value with disjoint regions, vectors as literal tuples / index maps.
Two expressions that denote the same value by the rules below are the same
object, whatever statements produced them."""
import sys
sys.setrecursionlimit(20000)


class N:
    __slots__ = ('op', 'a', 'id', 'dim', 'meta')

    def __repr__(self):
        return show(self)


_tab = {}
_cnt = [0]


def mk(op, *a, dim=None):
    k = (op,) + a
    n = _tab.get(k)
    if n is None:
        n = N()
        n.op = op
        n.a = a
        _cnt[0] += 1
        n.id = _cnt[0]
        n.dim = dim
        n.meta = None
        _tab[k] = n
    elif dim is not None and n.dim is None:
        n.dim = dim
    return n


def fresh_id():
    _cnt[0] += 1
    return _cnt[0]


# ---------------------------------------------------------------- scalars
def num(c):
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, float) and c == int(c) if (isinstance(c, float) and abs(c) < 1e15) else False:
        c = int(c)
    return mk('num', c)


TRUE = mk('bool', True)
FALSE = mk('bool', False)
NULL = mk('null')
ZERO = num(0)
ONE = num(1)


def undefm(d):
    return mk('undef', 'm', d[0], d[1], dim=tuple(d))


def undefdyn(r, c):
    """unwritten matrix of r x c elements (nodes)"""
    d = tuple(val(x) if is_num(x) and isinstance(val(x), int) else -1 for x in (r, c))
    if -1 not in d:
        return undefm(d)
    return mk('undef', 'm', d[0], d[1], r, c, dim=d)


def mrows(b, k=0):
    """number of rows (k=1: columns) of a matrix node"""
    if b.dim and b.dim[k] >= 0:
        return num(b.dim[k])
    if b.op == 'undef' and len(b.a) == 5:
        return b.a[3 + k]
    if b.op == 'mconst' and len(b.a) == 5:
        return b.a[3 + k]
    if b.op in ('mst', 'mloop'):
        return mrows(b.a[0], k)
    if b.op == 'T':
        return mrows(b.a[0], 1 - k)
    return mk('cols' if k else 'rows', b)


def is_num(n):
    return n.op == 'num'


def val(n):
    return n.a[0]


def _terms(n):
    """polynomial view: list of (monomial, coeff); monomial tuple of (atom, exp)"""
    if n.op == 'num':
        return [((), n.a[0])] if n.a[0] != 0 else []
    if n.op == 'poly':
        return list(n.a[0])
    if n.op == 'bool':
        return [((), int(n.a[0]))] if n.a[0] else []
    return [(((n, 1),), 1)]


def _poly(d):
    items = [(m, c) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items.sort(key=lambda mc: tuple((x.id, e) for x, e in mc[0]))
    return mk('poly', tuple(items))


def _lift_ite(f, x, y):
    return None


def add(x, y):
    d = {}
    for m, c in _terms(x):
        d[m] = d.get(m, 0) + c
    for m, c in _terms(y):
        d[m] = d.get(m, 0) + c
    return _poly(d)


def scale(x, k):
    return _poly({m: c * k for m, c in _terms(x)})


def neg(x):
    return scale(x, -1)


def sub(x, y):
    return add(x, neg(y))


def _mmul(a, b):
    d = {}
    for x, e in a:
        d[x] = d.get(x, 0) + e
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(((x, e) for x, e in d.items() if e != 0), key=lambda p: p[0].id))


def mul(x, y):
    tx, ty = _terms(x), _terms(y)
    if len(tx) * len(ty) > 120:
        if len(tx) > 1:
            tx = [(((x, 1),), 1)]
        if len(ty) > 1 and len(tx) * len(ty) > 120:
            ty = [(((y, 1),), 1)]
    d = {}
    for m, c in tx:
        for n, k in ty:
            p = _mmul(m, n)
            d[p] = d.get(p, 0) + c * k
    return _poly(d)


def inv(x):
    t = _terms(x)
    if len(t) == 1:
        m, c = t[0]
        return _poly({tuple((a, -e) for a, e in m): (1.0 / c if c not in (1, -1) else c)})
    return mk('inv', x)


def div(x, y):
    if y.op == 'num' and y.a[0] == 0:
        return mk('div0', x)
    return mul(x, inv(y))


def idiv(x, y):
    if is_num(x) and is_num(y) and val(y) != 0:
        q = abs(val(x)) // abs(val(y))
        return num(q if (val(x) < 0) == (val(y) < 0) else -q)
    if y is ONE:
        return x
    return mk('idiv', x, y)


def mod(x, y):
    if is_num(x) and is_num(y) and val(y) != 0:
        r = abs(val(x)) % abs(val(y))
        return num(r if val(x) >= 0 else -r)
    return mk('mod', x, y)


# --------------------------------------------------------------- booleans
def bnot(x):
    if x is TRUE:
        return FALSE
    if x is FALSE:
        return TRUE
    if x.op == 'not':
        return x.a[0]
    return mk('not', x)


def band(*xs):
    s = {}
    st = list(xs)
    while st:
        x = st.pop()
        if x is TRUE:
            continue
        if x is FALSE:
            return FALSE
        if x.op == 'and':
            st.extend(x.a[0])
        else:
            s[x.id] = x
    # absorb: and(not(and(p,q)), p) -> and(not q, p)
    for i, x in list(s.items()):
        if bnot(x).id in s:
            return FALSE
    changed = True
    while changed:
        changed = False
        for i, x in list(s.items()):
            if x.op == 'not' and x.a[0].op == 'and':
                inner = x.a[0].a[0]
                keep = [y for y in inner if y.id not in s]
                if len(keep) != len(inner):
                    del s[i]
                    if not keep:
                        return FALSE
                    y = bnot(band(*keep))
                    if y is FALSE:
                        return FALSE
                    if y is not TRUE:
                        if y.op == 'and':
                            for z in y.a[0]:
                                if bnot(z).id in s:
                                    return FALSE
                                s[z.id] = z
                        else:
                            if bnot(y).id in s:
                                return FALSE
                            s[y.id] = y
                    changed = True
                    break
                # a conjunct is contradicted inside: not(and(..not p..)) with p -> true
                if any(bnot(y).id in s for y in inner):
                    del s[i]
                    changed = True
                    break
    if not s:
        return TRUE
    if len(s) == 1:
        return next(iter(s.values()))
    return mk('and', tuple(s[k] for k in sorted(s)))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def as_bool(x):
    if x.op == 'num':
        return TRUE if x.a[0] != 0 else FALSE
    if x.op in ('bool', 'not', 'and', 'lt', 'le', 'eq'):
        return x
    if x.op == 'ite' and x.a[1].op in ('num', 'bool') and x.a[2].op in ('num', 'bool'):
        return ite(x.a[0], as_bool(x.a[1]), as_bool(x.a[2]))
    return x


def is_boolish(x):
    return x.op in ('bool', 'not', 'and', 'lt', 'le', 'eq') or x.meta == 'b'


def nonneg(x):
    """value known not to be negative (container sizes and sums of them)"""
    if x.op == 'num':
        return val(x) >= 0
    if x.op in ('size', 'norm', 'abs', 'rows', 'cols'):
        return True
    if x.op == 'poly':
        return all(c > 0 and all(nonneg(a) for a, e in m) for m, c in x.a[0])
    return False


def lt(x, y, isint):
    d = sub(y, x)
    if is_num(d):
        return TRUE if val(d) > 0 else FALSE
    if isint:
        if x is ZERO and nonneg(y):
            return bnot(eq(y, ZERO))
        if y is ZERO and nonneg(x):
            return FALSE
        if y is ONE and nonneg(x):
            return eq(x, ZERO)
        if x.op == 'ite' or y.op == 'ite':
            r = _cmp_ite(lambda p, q: lt(p, q, isint), x, y)
            if r is not None:
                return r
    return mk('lt', x, y)


def _cmp_ite(f, x, y):
    """push comparisons with constants into ite of constants"""
    if x.op == 'ite' and y.op == 'num' and _leaves_num(x):
        return ite(x.a[0], f(x.a[1], y), f(x.a[2], y))
    if y.op == 'ite' and x.op == 'num' and _leaves_num(y):
        return ite(y.a[0], f(x, y.a[1]), f(x, y.a[2]))
    return None


def _leaves_num(x):
    if x.op == 'ite':
        return _leaves_num(x.a[1]) and _leaves_num(x.a[2])
    return x.op == 'num'


def le(x, y, isint):
    if isint:
        return bnot(lt(y, x, True))
    d = sub(y, x)
    if is_num(d):
        return TRUE if val(d) >= 0 else FALSE
    return mk('le', x, y)


def eq(x, y):
    if x is y:
        return TRUE
    if is_boolish(x) and y.op in ('bool', 'num'):
        return x if (val(y) not in (0, False)) else bnot(x)
    if is_boolish(y) and x.op in ('bool', 'num'):
        return y if (val(x) not in (0, False)) else bnot(y)
    d = sub(x, y) if (x.op in ('num', 'poly') or y.op in ('num', 'poly')) else None
    if d is not None and is_num(d):
        return TRUE if val(d) == 0 else FALSE
    if x.op in ('new', 'addr') and y is NULL or y.op in ('new', 'addr') and x is NULL:
        return FALSE
    r = _cmp_ite(eq, x, y)
    if r is not None:
        return r
    if x.id > y.id:
        x, y = y, x
    return mk('eq', x, y)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    if c.op in ('lt', 'le') and (c.a[0] is a and c.a[1] is b or c.a[0] is b and c.a[1] is a) and a.dim in (None, (1, 1)):
        r = fn('min' if c.a[0] is a else 'max', a, b)
        if a.meta == 'i' and b.meta == 'i':
            r.meta = 'i'
        return r
    if c.op == 'eq' and ZERO in c.a and b.op in ('sum', 'fmap', 'map') and b.a[0] is ZERO and (b.a[1] is c.a[1] or b.a[1] is c.a[0]) \
            and a is (ZERO if b.op == 'sum' else EMPTY):
        return b        # over an empty range the fold is its neutral element
    if a.op == 'bool' or b.op == 'bool' or (is_boolish(a) and is_boolish(b)):
        if a is TRUE:
            return bor(c, as_bool(b))
        if a is FALSE:
            return band(bnot(c), as_bool(b))
        if b is TRUE:
            return bor(bnot(c), as_bool(a))
        if b is FALSE:
            return band(c, as_bool(a))
    if a.op == 'ite' and a.a[0] is c:
        return ite(c, a.a[1], b)
    if b.op == 'ite' and b.a[0] is c:
        return ite(c, a, b.a[2])
    if a.op == 'ite' and a.a[2] is b:
        return ite(band(c, a.a[0]), a.a[1], b)
    if a.op == 'ite' and a.a[1] is b:
        return ite(band(c, bnot(a.a[0])), a.a[2], b)
    if b.op == 'ite' and b.a[1] is a:
        return ite(bor(c, b.a[0]), a, b.a[2])
    if b.op == 'ite' and b.a[2] is a:
        return ite(bor(c, bnot(b.a[0])), a, b.a[1])
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and a.a[1] is b.a[1]:
        fa, fb = dict(a.a[2]), dict(b.a[2])
        out = {}
        for f in set(fa) | set(fb):
            x = fa[f] if f in fa else sel_field(b.a[1], f) if b.a[1] else mk('undef', '?')
            y = fb[f] if f in fb else sel_field(b.a[1], f) if b.a[1] else mk('undef', '?')
            out[f] = ite(c, x, y)
        return rec(a.a[0], a.a[1], out)
    if a.op == 'rec' and a.a[1] is b:
        return ite(c, a, rec(a.a[0], b, {}))
    if b.op == 'rec' and b.a[1] is a:
        return ite(c, rec(b.a[0], a, {}), b)
    if a.op == 'mupd' and b.op == 'mupd' and a.a[0] is b.a[0] and \
            [r[:4] for r in a.a[1]] == [r[:4] for r in b.a[1]]:
        return mk('mupd', a.a[0], tuple(r[:4] + (ite(c, r[4], s[4]),) for r, s in zip(a.a[1], b.a[1])),
                  a.a[2], a.a[3], dim=(a.a[2], a.a[3]))
    return mk('ite', c, a, b, dim=a.dim or b.dim)


def fn(name, *args, dim=None):
    """pure uninterpreted function"""
    if name == 'sqrt' and len(args) == 1:
        x = args[0]
        if x.op == 'num' and val(x) >= 0:
            return num(val(x) ** 0.5)
        if x.op == 'bil' and len(x.a[0]) == 2 and transpose(x.a[0][0]) is x.a[0][1]:
            return norm(x.a[0][1])
    if name in ('fabs', 'abs'):
        return absv(args[0])
    if name in ('max', 'min', 'fmax', 'fmin'):
        args = tuple(sorted(args, key=lambda n: n.id))
        name = name[-3:]
        if args[0] is args[1]:
            return args[0]
        if is_num(args[0]) and is_num(args[1]):
            return num({'max': max, 'min': min}[name](val(args[0]), val(args[1])))
    if name == 'pow' and is_num(args[1]) and isinstance(val(args[1]), int) and 0 < val(args[1]) <= 4:
        r = args[0]
        for _ in range(val(args[1]) - 1):
            r = mul(r, args[0])
        return r
    return mk('fn', name, *args, dim=dim)


def absv(x):
    t = _terms(x)
    if len(t) == 1:
        m, c = t[0]
        if all(nonneg(a) or e % 2 == 0 for a, e in m):
            return _poly({m: abs(c)})
        if c < 0:
            return absv(_poly({m: -c}))
    return mk('abs', x)


# ---------------------------------------------------------------- records
def rec(cls, base, fields):
    return mk('rec', cls, base, tuple(sorted(fields.items())))


def sel_field(v, f):
    if v.op == 'rec':
        for k, x in v.a[2]:
            if k == f:
                return x
        if v.a[1] is None:
            return mk('undef', '?')
        return sel_field(v.a[1], f)
    if v.op == 'ite':
        return ite(v.a[0], sel_field(v.a[1], f), sel_field(v.a[2], f))
    return mk('fld', v, f)


def upd_field(v, f, x, cls=''):
    if v.op == 'rec':
        d = dict(v.a[2])
        d[f] = x
        return rec(v.a[0], v.a[1], d)
    if v.op == 'undef':
        return rec(cls, None, {f: x})
    return rec(cls, v, {f: x})


# ---------------------------------------------------------------- vectors
EMPTY = mk('tup', ())


def tup(xs):
    return mk('tup', tuple(xs))


def vec0(n, v):
    """n copies of v"""
    if is_num(n) and 0 <= val(n) <= 80:
        return tup([v] * int(val(n)))
    return vmap(ZERO, n, mk('bv', _bvdepth(v) + 1), v)


SIZEOF = {}    # loop-carried containers whose length is loop invariant


def size(v):
    if v in SIZEOF:
        return SIZEOF[v]
    if v.op == 'tup':
        return num(len(v.a[0]))
    if v.op == 'st':
        return size(v.a[0])
    if v.op == 'push':
        return add(size(v.a[0]), ONE)
    if v.op == 'map':
        return sub(v.a[1], v.a[0])
    if v.op == 'cat':
        return add(size(v.a[0]), size(v.a[1]))
    if v.op == 'mapst' or v.op == 'packed':
        return size(v.a[0])
    if v.op == 'resized':
        return v.a[1]
    if v.op == 'ite':
        return ite(v.a[0], size(v.a[1]), size(v.a[2]))
    if v.op == 'sorted' or v.op == 'shuf':
        return size(v.a[0])
    if v.op in ('tail', 'front_of'):      # all but the first / last element
        return sub(size(v.a[0]), ONE)
    if v.op == 'fmap':
        return vsum(v.a[0], v.a[1], v.a[2], ite(v.a[3], ONE, ZERO))
    if v.op == 'resid':
        return size(v.a[1])
    if v.op == 'el' and v.a[0].op == 'resid':
        return size(sel_el(v.a[0].a[1], v.a[1]))
    n = mk('size', v)
    n.meta = 'i'
    return n


def distinct(i, j):
    d = sub(i, j)
    return is_num(d) and val(d) != 0


def sel_el(v, i):
    while True:
        if v.op == 'tup':
            if is_num(i):
                k = val(i)
                if isinstance(k, int) and 0 <= k < len(v.a[0]):
                    return v.a[0][k]
                return mk('oob', v, i)
            if v.a[0] and all(x is v.a[0][0] for x in v.a[0]):
                return v.a[0][0]
            return mk('el', v, i)
        if v.op == 'st':
            if v.a[1] is i:
                return v.a[2]
            if distinct(v.a[1], i):
                v = v.a[0]
                continue
            return mk('el', v, i)
        if v.op == 'push':
            s = size(v.a[0])
            if s is i:
                return v.a[1]
            d = sub(s, i)
            if is_num(d) and val(d) > 0 or (is_num(s) is False and is_num(i) and False):
                v = v.a[0]
                continue
            return mk('el', v, i)
        if v.op == 'tail':
            v, i = v.a[0], add(i, ONE)
            continue
        if v.op == 'front_of':
            v = v.a[0]
            continue
        if v.op == 'map':
            return subst(v.a[3], {v.a[2]: add(i, v.a[0]) if v.a[0] is not ZERO else i})
        if v.op == 'resized':
            return mk('el', v.a[0], i) if v.a[0].op not in ('tup',) else sel_el(v.a[0], i) if is_num(i) else mk('el', v, i)
        if v.op == 'ite':
            return ite(v.a[0], sel_el(v.a[1], i), sel_el(v.a[2], i))
        return mk('el', v, i)


def upd_el(v, i, x):
    if v.op == 'tup' and is_num(i) and isinstance(val(i), int) and 0 <= val(i) < len(v.a[0]):
        l = list(v.a[0])
        l[val(i)] = x
        return tup(l)
    if v.op == 'st':
        if v.a[1] is i:
            return upd_el(v.a[0], i, x)
        if distinct(v.a[1], i) and v.a[1].id > i.id:
            return mk('st', upd_el(v.a[0], i, x), v.a[1], v.a[2])
    if v.op == 'ite':
        # branches that differ only in the element overwritten now
        a, b = _strip(v.a[1], i), _strip(v.a[2], i)
        if a is b:
            return upd_el(a, i, x)
    if v.op not in ('undef',) and x is sel_el(v, i) and x.op == 'el':
        return v
    return mk('st', v, i, x)


def _strip(v, i):
    while v.op == 'st' and v.a[1] is i:
        v = v.a[0]
    if v.op == 'ite':
        a, b = _strip(v.a[1], i), _strip(v.a[2], i)
        if a is b:
            return a
    return v


def push(v, x):
    if v.op == 'tup' and len(v.a[0]) < 400:
        return tup(v.a[0] + (x,))
    return mk('push', v, x)


def resize(v, n, fillv):
    if v.op == 'tup':
        if is_num(n) and 0 <= val(n) <= 80:
            l = list(v.a[0])[:val(n)]
            return tup(l + [fillv] * (val(n) - len(l)))
        if not v.a[0]:
            return vec0(n, fillv)
    if size(v) is n:
        return v
    if v.op == 'packed' and size(v.a[1]) is n:
        return v.a[1]
    return mk('resized', v, n, fillv)


def _bvdepth(n, memo=None):
    if memo is None:
        memo = {}
    if n in memo:
        return memo[n]
    d = 0
    if n.op == 'bv':
        d = n.a[0]
    else:
        for x in children(n):
            d = max(d, _bvdepth(x, memo))
    memo[n] = d
    return d


def vmap(lo, hi, var, body):
    """[ body(var) for var in [lo,hi) ] with a canonical bound variable"""
    depth = _bvdepth(subst(body, {var: ZERO})) if True else 0
    bv = mk('bv', depth + 1)
    if bv is not var:
        body = subst(body, {var: bv})
    if lo is ZERO and body.op == 'el' and body.a[1] is bv and not contains(body.a[0], bv) \
            and size(body.a[0]) is hi:
        return body.a[0]
    return mk('map', lo, hi, bv, body)


def vfilter(lo, hi, var, cond, body):
    depth = max(_bvdepth(subst(body, {var: ZERO})), _bvdepth(subst(cond, {var: ZERO})))
    bv = mk('bv', depth + 1)
    return mk('fmap', lo, hi, bv, subst(cond, {var: bv}), subst(body, {var: bv}))


def vmapst(base, lo, hi, var, body):
    depth = _bvdepth(subst(body, {var: ZERO}))
    bv = mk('bv', depth + 1)
    body = subst(body, {var: bv})
    if lo is ZERO and size(base) is hi:
        return mk('map', lo, hi, bv, body) if not (body.op == 'el' and body.a[1] is bv and body.a[0] is base) else base
    return mk('mapst', base, lo, hi, bv, body)


def vsum(lo, hi, var, body):
    depth = _bvdepth(subst(body, {var: ZERO}))
    bv = mk('bv', depth + 1)
    body = subst(body, {var: bv})
    if is_num(lo) and is_num(hi) and val(hi) <= val(lo):
        return ZERO
    return mk('sum', lo, hi, bv, body, dim=body.dim)


def cat(a, b):
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    return mk('cat', a, b)


# --------------------------------------------------------------- matrices
# a matrix node carries dim=(rows,cols), ints, -1 when unknown
def mterms(n):
    if n.op == 'msum':
        return list(n.a[0])
    if n.op == 'mconst' and n.a[2] is ZERO:
        return []
    return [(ONE, (n,))]


def msum(terms, dim):
    d = {}
    for c, ch in terms:
        d[ch] = add(d[ch], c) if ch in d else c
    items = [(c, ch) for ch, c in d.items() if c is not ZERO]
    if not items:
        return mk('mconst', dim[0], dim[1], ZERO, dim=dim)
    if len(items) == 1 and items[0][0] is ONE and len(items[0][1]) == 1:
        return items[0][1][0]
    items.sort(key=lambda t: tuple(x.id for x in t[1]))
    return mk('msum', tuple(items), dim=dim)


def isvecdim(d):
    return d is not None


def madd(x, y, dim):
    return msum(mterms(x) + mterms(y), dim or x.dim or y.dim)


def mscale(k, x, dim=None):
    dim = dim or x.dim
    if x.op == 'mupd' and x.a[0] is None:
        return mk('mupd', None, tuple(r[:4] + ((mul(k, r[4]) if r[2:4] == (1, 1) else mscale(k, r[4])),) for r in x.a[1]),
                  x.a[2], x.a[3], dim=dim)
    return msum([(mul(k, c), ch) for c, ch in mterms(x)], dim)


def transpose(x):
    if x.op == 'T':
        return x.a[0]
    if x.op == 'msum':
        d = (x.dim[1], x.dim[0]) if x.dim else None
        return msum([(c, tuple(transpose(a) for a in reversed(ch))) for c, ch in x.a[0]], d)
    if x.op == 'mconst':
        return mk('mconst', x.a[1], x.a[0], x.a[2], dim=(x.a[1], x.a[0]))
    if x.op == 'mI':
        return x
    if x.op == 'ite':
        return ite(x.a[0], transpose(x.a[1]), transpose(x.a[2]))
    if x.op == 'mupd':
        regs = tuple(sorted(((c0, r0, nc, nr, v if (nr, nc) == (1, 1) else transpose(v)) for r0, c0, nr, nc, v in x.a[1]),
                            key=lambda r: r[:4]))
        return mk('mupd', transpose(x.a[0]) if x.a[0] is not None else None, regs, x.a[3], x.a[2],
                  dim=(x.a[3], x.a[2]))
    if x.dim == (1, 1):
        return x
    return mk('T', x, dim=(x.dim[1], x.dim[0]) if x.dim else None)


def _cuts_cols(x):
    """column cut positions when every region spans all rows, else None"""
    if x.op == 'mupd' and x.a[0] is None and all(r[0] == 0 and r[2] == x.a[2] for r in x.a[1]):
        s = {0, x.a[3]}
        for r in x.a[1]:
            s.add(r[1])
            s.add(r[1] + r[3])
        return s
    return None


def _cuts_rows(x):
    if x.op == 'mupd' and x.a[0] is None and all(r[1] == 0 and r[3] == x.a[3] for r in x.a[1]):
        s = {0, x.a[2]}
        for r in x.a[1]:
            s.add(r[0])
            s.add(r[0] + r[2])
        return s
    return None


def is_scalar(x):
    return x.dim is None or x.dim == (1, 1)


def mprod(x, y, dim):
    """matrix product; both operands matrices (dims known or not)"""
    if x.op == 'mI':
        return y
    if y.op == 'mI':
        return x
    if x.op == 'ite' or y.op == 'ite':
        pass
    cx, cy = _cuts_cols(x), _cuts_rows(y)
    if (cx or cy) and x.dim and y.dim and x.dim[1] == y.dim[0] and x.dim[1] > 0:
        cuts = sorted((cx or set()) | (cy or set()))
        if 2 < len(cuts) <= 5 and (cx is None or cy is None or True) and \
                not (len(cuts) - 1 == x.dim[1] and (cx is None or cy is None)):
            r = None
            for p, q in zip(cuts, cuts[1:]):
                a = region(x, 0, p, x.dim[0], q - p)
                b = region(y, p, 0, q - p, y.dim[1])
                t = times(a, b, dim, (x.dim[0], q - p), (q - p, y.dim[1]))
                r = t if r is None else plus(r, t, dim)
            return r
    tx, ty = mterms(x), mterms(y)
    if not tx or not ty:
        return ZERO if dim == (1, 1) else mk('mconst', dim[0], dim[1], ZERO, dim=dim)
    if len(tx) * len(ty) > 24:
        if len(tx) > 1:
            tx = [(ONE, (x,))]
        if len(ty) > 1 and len(tx) * len(ty) > 24:
            ty = [(ONE, (y,))]
    out = []
    for c, a in tx:
        for k, b in ty:
            out.append((mul(c, k), _simp_chain(a + b)))
    if dim == (1, 1):
        r = ZERO
        for c, ch in out:
            r = add(r, mul(c, bil(ch)))
        return r
    return msum(out, dim)


# nodes known to be rotation matrices (facts stated by the check)
ROT = set()
POSES = set()    # 3x4 [R t] values, or vectors of them


def is_rot(x):
    if x.op == 'acc':
        return 'CamRotation' in x.a[0]
    if x.op == 'blk' and x.a[1:] == (0, 0, 3, 3):
        b = x.a[0]
        return b in POSES or (b.op == 'el' and b.a[0] in POSES)
    return x in ROT


def _simp_chain(ch):
    l = list(ch)
    i = 0
    while i < len(l):
        if i + 1 < len(l):
            p, q = l[i], l[i + 1]
            if (p.op == 'T' and p.a[0] is q and is_rot(q)) or (q.op == 'T' and q.a[0] is p and is_rot(p)):
                l[i:i + 2] = [mk('mI', 3, dim=(3, 3))] if len(l) == 2 else []
                i = 0
                continue
        if l[i].op == 'mI' and len(l) > 1:
            del l[i]
            continue
        if i + 1 < len(l) and ((l[i].op == 'minv' and l[i].a[0] is l[i + 1]) or (l[i + 1].op == 'minv' and l[i + 1].a[0] is l[i])):
            n = l[i].dim[0] if l[i].dim else -1
            l[i:i + 2] = [mk('mI', n, dim=(n, n))] if len(l) == 2 else []
            i = 0
            continue
        i += 1
    return tuple(l)


def bil(ch):
    """scalar-valued product chain, identified with its transpose"""
    if len(ch) == 1:
        return ch[0] if ch[0].dim in (None, (1, 1)) else mk('bil', ch)
    rev = tuple(transpose(a) for a in reversed(ch))
    # inner product: expand small known vectors
    if tuple(x.id for x in rev) < tuple(x.id for x in ch):
        ch = rev
    if len(ch) == 2 and ch[0].op == 'mupd' and ch[1].op == 'mupd' and ch[0].a[0] is None and ch[1].a[0] is None \
            and ch[0].dim and ch[0].dim[1] == ch[1].dim[0] and ch[0].dim[1] <= 4:
        r = ZERO
        for k in range(ch[0].dim[1]):
            r = add(r, mul(region(ch[0], 0, k, 1, 1), region(ch[1], k, 0, 1, 1)))
        return r
    return mk('bil', ch)


def plus(a, b, dim):
    if is_scalar(a) and is_scalar(b) and dim in (None, (1, 1)):
        return add(a, b)
    return madd(a, b, dim)


def times(a, b, dim, da=None, db=None):
    """product where operands may be scalars or matrices"""
    da = da or a.dim
    db = db or b.dim
    if da in (None, (1, 1)) and db in (None, (1, 1)):
        return mul(a, b)
    if a.op != 'mupd' and (a.dim is None or a.dim == (1, 1)) and a.op != 'msum':
        return mscale(a, b, dim)
    if b.dim is None or b.dim == (1, 1):
        return mscale(b, a, dim)
    return mprod(a, b, dim)


def norm(x):
    t = mterms(x)
    if len(t) == 1:
        c, ch = t[0]
        if c is not ONE:
            return mul(absv(c), norm(msum([(ONE, ch)], x.dim)))
    elif t and len(t) > 1:
        # sign-normalise
        c = t[0][0]
        if _terms(c) and _terms(c)[0][1] < 0:
            return norm(mscale(num(-1), x))
    return mk('norm', x)


def normalized(x):
    t = mterms(x)
    if len(t) == 1:
        c, ch = t[0]
        tc = _terms(c)
        if len(tc) == 1 and tc[0][1] > 0 and all(nonneg(a) for a, e in tc[0][0]):
            x = msum([(ONE, ch)], x.dim)
    return mscale(inv(norm(x)), x)


def minv(x):
    if x.op == 'minv':
        return x.a[0]
    if x.op == 'mI':
        return x
    if is_rot(x) or (x.op == 'T' and is_rot(x.a[0])):
        return transpose(x)
    return mk('minv', x, dim=x.dim)


def cross(x, y):
    tx, ty = mterms(x), mterms(y)
    if len(tx) == 1 and len(ty) == 1:
        (c, a), (k, b) = tx[0], ty[0]
        s = mul(c, k)
        a = msum([(ONE, a)], (3, 1))
        b = msum([(ONE, b)], (3, 1))
        if a is b:
            return mk('mconst', 3, 1, ZERO, dim=(3, 1))
        if a.id > b.id:
            a, b = b, a
            s = neg(s)
        return mscale(s, mk('cross', a, b, dim=(3, 1)))
    if not tx or not ty:
        return mk('mconst', 3, 1, ZERO, dim=(3, 1))
    r = None
    if len(tx) * len(ty) <= 9:
        for c, a in tx:
            for k, b in ty:
                t = mscale(mul(c, k), cross(msum([(ONE, a)], (3, 1)), msum([(ONE, b)], (3, 1))))
                r = t if r is None else madd(r, t, (3, 1))
        return r
    return mk('cross', x, y, dim=(3, 1))


def region(m, r0, c0, nr, nc):
    """sub-block read; r0,c0,nr,nc ints or nodes"""
    conv = lambda v: val(v) if isinstance(v, N) and is_num(v) else v
    r0, c0, nr, nc = conv(r0), conv(c0), conv(nr), conv(nc)
    const = all(isinstance(v, int) for v in (r0, c0, nr, nc))
    dim = (nr if isinstance(nr, int) else -1, nc if isinstance(nc, int) else -1)
    if m.dim and const and (r0, c0) == (0, 0) and m.dim == (nr, nc):
        return m
    if m.op == 'ite':
        return ite(m.a[0], region(m.a[1], r0, c0, nr, nc), region(m.a[2], r0, c0, nr, nc))
    if m.op == 'mconst':
        return m.a[2] if dim == (1, 1) else mk('mconst', dim[0], dim[1], m.a[2], dim=dim)
    if m.op == 'mI' and dim == (1, 1) and const:
        return ONE if r0 == c0 else ZERO
    if m.op == 'mupd' and const:
        inside = []
        over = False
        for (a, b, h, w, v) in m.a[1]:
            if a >= r0 + nr or r0 >= a + h or b >= c0 + nc or c0 >= b + w:
                continue
            if a <= r0 and b <= c0 and a + h >= r0 + nr and b + w >= c0 + nc:
                if (h, w) == (1, 1):
                    return v
                return region(v, r0 - a, c0 - b, nr, nc)
            over = True
            # clip
            ra, rb = max(a, r0), max(b, c0)
            rh, rw = min(a + h, r0 + nr) - ra, min(b + w, c0 + nc) - rb
            inside.append((ra - r0, rb - c0, rh, rw,
                           v if (h, w) == (1, 1) else region(v, ra - a, rb - b, rh, rw)))
        base = m.a[0]
        if not over:
            return region(base, r0, c0, nr, nc) if base is not None else undefm(dim)
        sub_base = None
        if sum(x[2] * x[3] for x in inside) < nr * nc:
            sub_base = region(base, r0, c0, nr, nc) if base is not None else undefm(dim)
        return mupd_norm(sub_base, inside, nr, nc)
    if m.op == 'msum' and m.dim:
        if all(len(ch) == 1 for c, ch in m.a[0]):
            r = None
            for c, ch in m.a[0]:
                t = region(ch[0], r0, c0, nr, nc)
                t = mul(c, t) if dim == (1, 1) else mscale(c, t, dim)
                r = t if r is None else plus(r, t, dim)
            return r
    if m.op == 'mst':
        (b, R0, C0, NR, NC, v) = m.a
        if (R0, C0, NR, NC) == (r0, c0, nr, nc):
            return v
        if _reg_disjoint((R0, C0, NR, NC), (r0, c0, nr, nc)):
            return region(b, r0, c0, nr, nc)
    if m.op == 'T' and const:
        return_t = region(m.a[0], c0, r0, nc, nr)
        return return_t if dim == (1, 1) else transpose(return_t)
    if m.op == 'blk' and const and all(isinstance(v, int) for v in m.a[1:5]):
        return region(m.a[0], m.a[1] + r0, m.a[2] + c0, nr, nc)
    if m.op == 'undef':
        return undefm(dim)
    if m.op == 'mgen':
        pass
    return mk('blk', m, r0, c0, nr, nc, dim=dim)


def _as_node(x):
    return x if isinstance(x, N) else num(x)


def _reg_disjoint(A, B):
    for s, n, t, m in ((A[0], A[2], B[0], B[2]), (A[1], A[3], B[1], B[3])):
        if isinstance(n, int) and isinstance(m, int):
            d = sub(_as_node(s), _as_node(t))
            if is_num(d) and (val(d) >= m or val(d) <= -n):
                return True
    return False


def mupd_norm(base, regs, nr, nc):
    # splice nested fully assembled values
    out = []
    for (a, b, h, w, v) in regs:
        if v.op == 'mupd' and v.a[0] is None:
            for (p, q, hh, ww, x) in v.a[1]:
                out.append((a + p, b + q, hh, ww, x))
        elif v.op == 'mconst' and h * w > 1 and h * w <= 64:
            out.extend((a + i, b + j, 1, 1, v.a[2]) for i in range(h) for j in range(w))
        elif v.op == 'mI' and h * w <= 64:
            out.extend((a + i, b + j, 1, 1, ONE if i == j else ZERO) for i in range(h) for j in range(w))
        else:
            out.append((a, b, h, w, v))
    out.sort(key=lambda r: r[:4])
    if sum(r[2] * r[3] for r in out) >= nr * nc:
        base = None
        # recombine regions that together are one block of the same value
        if len(out) > 1:
            src = None
            ok = True
            for (a, b, h, w, v) in out:
                if v.op == 'blk' and all(isinstance(t, int) for t in v.a[1:5]):
                    s = (v.a[0], v.a[1] - a, v.a[2] - b)
                    if src is None:
                        src = s
                    elif src != s:
                        ok = False
                        break
                else:
                    ok = False
                    break
            if ok:
                return region(src[0], src[1], src[2], nr, nc)
        if all(r[2:4] == (1, 1) for r in out) and all(r[4] is out[0][4] for r in out) and out[0][4] is ZERO:
            return mk('mconst', nr, nc, ZERO, dim=(nr, nc))
        if nr == nc and all(r[2:4] == (1, 1) for r in out) and all(r[4] is (ONE if r[0] == r[1] else ZERO) for r in out):
            return mk('mI', nr, dim=(nr, nr))
        if len(out) == 1 and out[0][:4] == (0, 0, nr, nc):
            return out[0][4]
    return mk('mupd', base, tuple(out), nr, nc, dim=(nr, nc))


def upd_region(m, r0, c0, nr, nc, v, dim):
    conv = lambda q: val(q) if isinstance(q, N) and is_num(q) else q
    r0, c0, nr, nc = conv(r0), conv(c0), conv(nr), conv(nc)
    const = all(isinstance(x, int) for x in (r0, c0, nr, nc))
    if dim and const and dim[0] > 0 and dim[1] > 0:
        if (r0, c0, nr, nc) == (0, 0) + tuple(dim):
            return v
        if m.op in ('mconst', 'mI') and dim[0] * dim[1] <= 64 or m.op == 'mupd' or m.op == 'undef':
            base, regs = (m.a[0], list(m.a[1])) if m.op == 'mupd' else (m if m.op == 'undef' else None, [])
            if m.op in ('mconst', 'mI'):
                regs = [(i, j, 1, 1, (m.a[2] if m.op == 'mconst' else (ONE if i == j else ZERO)))
                        for i in range(dim[0]) for j in range(dim[1])]
        elif m.op == 'mst' or dim[0] * dim[1] > 400:
            return mk('mst', m, r0, c0, nr, nc, v, dim=dim)
        else:
            base, regs = m, []
        out = []
        for (a, b, h, w, x) in regs:
            if a >= r0 + nr or r0 >= a + h or b >= c0 + nc or c0 >= b + w:
                out.append((a, b, h, w, x))
                continue
            if a >= r0 and b >= c0 and a + h <= r0 + nr and b + w <= c0 + nc:
                continue
            # partial overlap: split the old region into single elements
            for i in range(h):
                for j in range(w):
                    if not (r0 <= a + i < r0 + nr and c0 <= b + j < c0 + nc):
                        out.append((a + i, b + j, 1, 1, region(x, i, j, 1, 1)))
        out.append((r0, c0, nr, nc, v))
        return mupd_norm(base, out, dim[0], dim[1])
    if m.op == 'mst' and m.a[1:5] == (r0, c0, nr, nc):
        m = m.a[0]
    return mk('mst', m, r0, c0, nr, nc, v, dim=dim)


# ------------------------------------------------------------ graph utils
def children(n):
    out = []
    st = list(n.a)
    while st:
        x = st.pop()
        if isinstance(x, N):
            out.append(x)
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def nodes(*roots):
    seen = set()
    st = [r for r in roots if r is not None]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def contains(n, x):
    return any(y is x for y in nodes(n))


def contains_any(n, pred):
    return any(pred(y) for y in nodes(n))


def _map_arg(a, f):
    if isinstance(a, N):
        return f(a)
    if isinstance(a, tuple):
        return tuple(_map_arg(x, f) for x in a)
    return a


EXTRA_REBUILD = {}


def rebuild(n, a):
    op = n.op
    if op in EXTRA_REBUILD:
        return EXTRA_REBUILD[op](n, a)
    if op == 'poly':
        r = ZERO
        for m, c in a[0]:
            t = num(c)
            for x, e in m:
                if e < 0:
                    x = inv(x)
                    e = -e
                for _ in range(e):
                    t = mul(t, x)
            r = add(r, t)
        return r
    if op == 'inv':
        return inv(a[0])
    if op == 'idiv':
        return idiv(*a)
    if op == 'mod':
        return mod(*a)
    if op == 'not':
        return bnot(a[0])
    if op == 'and':
        return band(*a[0])
    if op == 'lt':
        x = mk('lt', n.a[0], n.a[1])
        isint = x.meta == 'i'
        return lt(a[0], a[1], False)
    if op == 'le':
        return le(a[0], a[1], False)
    if op == 'eq':
        return eq(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'fn':
        return fn(*a, dim=n.dim)
    if op == 'abs':
        return absv(a[0])
    if op == 'rec':
        return mk('rec', *a)
    if op == 'fld':
        return sel_field(*a)
    if op == 'size':
        return size(a[0])
    if op == 'el':
        r = sel_el(*a)
        if r.dim is None and n.dim is not None and r.op == 'el':
            r.dim = n.dim
        return r
    if op == 'st':
        return upd_el(*a)
    if op == 'push':
        return push(*a)
    if op == 'cat':
        return cat(*a)
    if op == 'map':
        return vmap(*a)
    if op == 'sum':
        return vsum(*a)
    if op == 'fmap':
        return vfilter(*a)
    if op == 'mapst':
        return vmapst(*a)
    if op == 'resized':
        return resize(*a)
    if op == 'msum':
        r = None
        for c, ch in a[0]:
            p = ch[0]
            for q in ch[1:]:
                p = times(p, q, (p.dim[0] if p.dim else -1, q.dim[1] if q.dim else -1))
            t = mscale(c, p, n.dim)
            r = t if r is None else madd(r, t, n.dim)
        return r
    if op == 'bil':
        ch = a[0]
        p = ch[0]
        for i, q in enumerate(ch[1:]):
            d = (1, 1) if i == len(ch) - 2 else (p.dim[0] if p.dim else -1, q.dim[1] if q.dim else -1)
            p = times(p, q, d) if p.dim != (1, 1) else mul(p, q)
        return p
    if op == 'T':
        return transpose(a[0])
    if op == 'norm':
        return norm(a[0])
    if op == 'cross':
        return cross(*a)
    if op == 'minv':
        return minv(a[0])
    if op == 'blk':
        return region(*a)
    if op == 'mupd':
        r = a[0]
        return mupd_norm(a[0], a[1], a[2], a[3])
    if op == 'mst':
        return upd_region(a[0], a[1], a[2], a[3], a[4], a[5], n.dim)
    return mk(op, *a, dim=n.dim)


def subst(n, m, memo=None):
    """replace nodes; re-normalises"""
    if memo is None:
        memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if x in m:
            r = m[x]
        elif not x.a:
            r = x
        else:
            a = tuple(_map_arg(y, go) for y in x.a)
            if all(p is q or p == q for p, q in zip(a, x.a)):
                r = x
            else:
                r = rebuild(x, a)
        memo[x] = r
        return r
    return go(n)


def show(n, depth=12):
    if not isinstance(n, N):
        if isinstance(n, tuple):
            return '(' + ','.join(show(x, depth) for x in n) + ')'
        return str(n)
    if depth <= 0:
        return '…'
    d = depth - 1
    op, a = n.op, n.a
    s = lambda x: show(x, d)
    if op == 'num':
        return str(a[0])
    if op == 'bool':
        return str(a[0]).lower()
    if op == 'poly':
        out = []
        for m, c in a[0]:
            ms = '*'.join(s(x) + ('^%d' % e if e != 1 else '') for x, e in m)
            out.append((str(c) if c != 1 or not m else '') + ('*' if c != 1 and m else '') + ms)
        return '(' + ' + '.join(out) + ')'
    if op == 'msum':
        out = []
        for c, ch in a[0]:
            out.append(('' if c is ONE else s(c) + '·') + '·'.join(s(x) for x in ch))
        return '[' + ' + '.join(out) + ']'
    if op == 'bil':
        return '<' + '·'.join(s(x) for x in a[0]) + '>'
    if op == 'T':
        return s(a[0]) + "'"
    if op == 'fld':
        return s(a[0]) + '.' + a[1]
    if op == 'el':
        return s(a[0]) + '[' + s(a[1]) + ']'
    if op == 'ite':
        return 'ite(%s, %s, %s)' % (s(a[0]), s(a[1]), s(a[2]))
    if op == 'lt':
        return '(%s < %s)' % (s(a[0]), s(a[1]))
    if op == 'le':
        return '(%s <= %s)' % (s(a[0]), s(a[1]))
    if op == 'eq':
        return '(%s == %s)' % (s(a[0]), s(a[1]))
    if op == 'not':
        return '!' + s(a[0])
    if op == 'and':
        return '(' + ' && '.join(s(x) for x in a[0]) + ')'
    if op == 'fn':
        return a[0] + '(' + ', '.join(s(x) for x in a[1:]) + ')'
    if op == 'bv':
        return '$%d' % a[0]
    if op == 'par':
        return a[0]
    if op == 'deref':
        return s(a[0])
    if op == 'mupd':
        return 'M{%s%s}' % ('' if a[0] is None else s(a[0]) + '; ', ', '.join('%s,%s,%sx%s:=%s' % (r[0], r[1], r[2], r[3], s(r[4])) for r in a[1]))
    return op + '(' + ', '.join(s(x) for x in a) + ')'
