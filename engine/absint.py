"""Abstract interpretation of function bodies over the resolved syntax tree: integer
intervals, element-wise definite assignment of local storage, and the dimensions of
arrays, matrices and containers. Loops whose condition stays decided are followed pass
by pass; all others are solved by fixpoint with widening. Calls of library functions
are analysed in the context of the call. Nothing is executed: values of measured or
computed data are unknown throughout."""
import re
from math import gcd
from vg import edim, eig, base_ts, is_int_ts

INF = float('inf')
CONT = ('std::vector<', 'std::list<', 'std::deque<')
SCALARS = ('double', 'float', 'int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'bool', 'char', 'short', 'long double', 'unsigned char',
           'long long', 'unsigned long long', 'unsigned short', 'signed char')


class Stop(Exception):
    pass


class TooBig(Exception):
    def __init__(self, u):
        self.u = u


class Obj:
    __slots__ = ('dec', 'id', 'name', 'kind', 'shape', 'n', 'ts', 'line', 'fields', 'un0', 'dyn', 'file', 'owner', 'per')


class Ref:
    """a view: obj None = storage that is always assigned. strides None = position not known exactly"""
    __slots__ = ('obj', 'shape', 'st', 'off', 'mask', 'ts', 'temp', 'all', 'rc')

    def __init__(self, obj, shape, st=None, off=0, mask=None, ts=''):
        self.obj, self.shape, self.st, self.off, self.mask, self.ts = obj, shape, st, off, mask, ts
        self.temp = False
        self.all = False
        self.rc = None

    @property
    def exact(self):
        return self.st is not None and None not in self.shape

    def cells(self):
        if self.obj is None or self.obj.n is None:
            return 0
        if not self.exact:
            return self.mask if self.mask is not None else (1 << self.obj.n) - 1
        m = [self.off]
        for d, s in zip(self.shape, self.st):
            m = [x + k * s for x in m for k in range(d)]
        r = 0
        for x in m:
            if 0 <= x < self.obj.n:
                r |= 1 << x
        return r

    def classes(self):
        """of a matrix with dimensions that are not constants: the classes of elements (row and
        column modulo the period of the dimensions) this view may denote, and whether all of them"""
        kr, kc = self.obj.per or (1, 1)
        a, b = self.rc or (('all',), ('all',))
        rows = range(kr) if a[0] in ('all', 'tot') else a[1]
        cols = range(kc) if b[0] in ('all', 'tot') else b[1]
        m = 0
        for x in rows:
            for y in cols:
                m |= 1 << (x * kc + y)
        return m, 'any' not in (a[0], b[0])

    def celllist(self):
        m = [self.off]
        for d, s in zip(self.shape, self.st):
            m = [x + k * s for x in m for k in range(d)]
        return m


def strides(shape):
    st = []
    k = 1
    for d in reversed(shape):
        st.append(k)
        k *= d
    return tuple(reversed(st))


def iv(lo, hi, dd=False, m=1, r=0):
    """integers lo..hi congruent to r modulo m; dd: the range stems from a choice made on data"""
    if lo == hi:
        m, r = 0, lo
    elif m > 1:
        r %= m
    else:
        m, r = 1, 0
    return ('i', lo, hi, dd, m, r)


def iadd(x, y):
    m = gcd(x[4], y[4])
    return iv(x[1] + y[1], x[2] + y[2], x[3] or y[3], m, x[5] + y[5] if m else 0)


def ineg(x):
    return iv(-x[2], -x[1], x[3], x[4], -x[5])


def imul(x, y):
    p = [0 if a == 0 or b == 0 else a * b for a in x[1:3] for b in y[1:3]]
    m = gcd(gcd(x[4] * y[4], x[4] * y[5]), y[4] * x[5])
    return iv(min(p), max(p), x[3] or y[3], m, x[5] * y[5] if m else 0)


def ijoin(a, b, dd):
    return iv(min(a[1], b[1]), max(a[2], b[2]), a[3] or b[3] or dd, gcd(gcd(a[4], b[4]), abs(a[5] - b[5])), a[5])


def pick(sel, x, n, k):
    """rows (or columns) x .. x+n-1 of a selection of residues modulo k"""
    if sel[0] == 'tot':
        return ('any', list(range(k)))
    if sel[0] == 'all':
        if k == 1:
            return sel
        if n is None or n >= k:
            return ('all',) if n is not None and n % k == 0 or n is None and single(x) and x[1] == 0 else ('any', list(range(k)))
        l = residues(x, k, n)
        return ('lit', l) if l is not None else ('any', list(range(k)))
    if sel[0] == 'lit' and single(x) and n is not None and 0 <= x[1] and x[1] + n <= len(sel[1]):
        return ('lit', sel[1][int(x[1]):int(x[1] + n)])
    return ('any', sel[1])


def periods(xs):
    out = []
    for x in xs:
        if single(x):
            out.append(int(x[1]) if 0 < x[1] <= 60 else 1)
        elif is_iv(x) and 2 <= x[4] <= 60 and x[5] == 0:
            out.append(x[4])
        else:
            out.append(1)
    return tuple(out)


def residues(x, k, n=1):
    """residues modulo k of positions x, x+1, .. x+n-1; None when not known"""
    if not is_iv(x) or n is None or k is None or x[4] % k:
        return None
    return [(x[5] + j) % k for j in range(min(n, k))]


def is_iv(v):
    return isinstance(v, tuple) and v and v[0] == 'i'


def single(v):
    return is_iv(v) and v[1] == v[2] and v[1] not in (INF, -INF)


def finite(v):
    return is_iv(v) and v[1] > -INF and v[2] < INF


UNK = None


def vjoin(a, b, dd):
    if a == b:
        return a
    if is_iv(a) and is_iv(b):
        return ijoin(a, b, dd)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'p' and same_ref(a[1], b[1]):
        return a
    return None


def same_ref(a, b):
    return a is b or isinstance(a, Ref) and isinstance(b, Ref) and a.obj is b.obj and a.shape == b.shape and a.st == b.st and a.off == b.off and a.mask == b.mask


class St:
    """abstract state"""
    __slots__ = ('val', 'un', 'ln', 'el', 'shp', 'rel')

    def __init__(self):
        self.val, self.un, self.ln, self.el, self.shp, self.rel = {}, {}, {}, {}, {}, {}

    def copy(self):
        t = St()
        t.val, t.un, t.ln, t.el, t.shp, t.rel = dict(self.val), dict(self.un), dict(self.ln), dict(self.el), dict(self.shp), dict(self.rel)
        return t

    def same(self, o):
        return self.val == o.val and self.un == o.un and self.rel == o.rel and self.ln == o.ln and self.shp == o.shp and self.el.keys() == o.el.keys() and all(self.el[k] == o.el[k] for k in self.el)


class AI:
    def __init__(self, D, budget=3000000, unroll=700, depth=12):
        self.D = D
        self.steps = 0
        self.budget = budget
        self.unroll = unroll
        self.maxdepth = depth
        self.objs = {}
        self.quiet = 0
        self.alarms = {}        # (kind, file, line, text) -> function
        self.obl = {}           # kind -> set of (file, line, column-like key)
        self.stack = []
        self.calls = []
        self.own = {}
        self.saved = []
        self.opaque_calls = set()
        self.nobj = 0
        self.alt = self.split = None
        self.lam = {}
        self.fns = set()

    # ------------------------------------------------------------ objects
    def new(self, name, ts, line, file, kind='cells', shape=(), dyn=False, un=False):
        o = Obj()
        self.nobj += 1
        o.id, o.name, o.kind, o.ts, o.line, o.file = self.nobj, name, kind, ts, line, file
        o.shape = shape
        o.fields = {}
        o.owner = o.per = None
        o.dyn = dyn
        n = 1
        for d in shape:
            n = None if d is None or n is None else n * d
        o.n = n if kind == 'cells' and n is not None and n <= 20000 else None
        o.un0 = un
        self.objs[o.id] = o
        return o

    def whole(self, o, st=None):
        shape = o.shape
        if st is not None and o.id in st.shp:
            r = Ref(o, st.shp[o.id], None, 0, 0, o.ts)
        elif o.kind == 'cells' and None not in shape and o.n is not None:
            r = Ref(o, shape, strides(shape), 0, None, o.ts)
        else:
            r = Ref(o, shape, None, 0, None, o.ts)
        r.all = True
        return r

    def typed(self, ts, shape=None):
        """a temporary of the type: assigned, dimensions known from the type"""
        d = edim(ts)
        if shape is None:
            shape = ()
            if d:
                shape = tuple(x if x >= 0 else None for x in d)
            else:
                m = re.findall(r'\[(\d+)\]', ts)
                if m and not self.is_cont(ts):
                    shape = tuple(int(x) for x in m)
        elif d:
            shape = tuple(x if x >= 0 else (shape[i] if i < len(shape) else None) for i, x in enumerate(d))
        r = Ref(None, shape, None, 0, None, ts)
        r.temp = True
        return r

    def is_cont(self, ts):
        return base_ts(ts).startswith(CONT)

    def unmask(self, st, o):
        if o.n is None:
            return 0
        return self.un_of(st, o.id)

    # ------------------------------------------------------------ reports
    def where(self, fr, e):
        return fr.file, (e or {}).get('l') or fr.line

    def alarm(self, kind, fr, e, text):
        if self.quiet:
            return
        f, l = self.where(fr, e)
        self.alarms.setdefault((kind, f, l, text), fr.f['q'])

    def oblige(self, kind, fr, e, what):
        if self.quiet:
            return
        f, l = self.where(fr, e)
        self.obl.setdefault(kind, {})[(f, l, id(e), what)] = 1

    def use(self, r, st, fr, e):
        if not isinstance(r, Ref) or r.obj is None:
            return
        o = r.obj
        if o.kind == 'struct':
            return
        m = self.unmask(st, o)
        self.oblige('read', fr, e, o.name)
        w = st.un.get(('w', o.id))
        if w:
            c, sure = r.classes()
            kr, kc = o.per or (1, 1)
            if w & c and (sure or w & c == c):
                k = next(i for i in range(kr * kc) if (w & c) >> i & 1)
                pos = '' if w == (1 << kr * kc) - 1 else ' (rows %s, columns %s)' % tuple('%d' % q if d == n else '%d modulo %d' % (q, n) if n > 1 else 'any'
                                                                                     for q, n, d in ((k // kc, kr, None), (k % kc, kc, None)))
                self.alarm('uninit', fr, e, '%s%s is read before it is assigned' % (o.name, pos))
                st.un[('w', o.id)] = 0
        if not m:
            return
        c = r.cells()
        if m & c:
            if r.exact and True:
                bad = [k for k in range(o.n) if (m & c) >> k & 1]
                pos = ''
                if o.n > 1:
                    pos = ' (%s)' % ', '.join(self.pos(o, k) for k in bad[:4]) + (' and %d more' % (len(bad) - 4) if len(bad) > 4 else '')
            else:
                pos = ' (some elements)'
            self.alarm('uninit', fr, e, '%s%s is read before it is assigned' % (o.name, pos))
            st.un[o.id] = m & ~c

    def pos(self, o, k):
        out = []
        for s, d in zip(strides(o.shape), o.shape):
            out.append(str(k // s))
            k %= s
        return ','.join(out)

    def define(self, r, st):
        if not isinstance(r, Ref) or r.obj is None:
            return
        o = r.obj
        if o.kind == 'struct':
            self.define_struct(o, st)
            return
        if st.un.get(('w', o.id)):
            st.un[('w', o.id)] &= ~r.classes()[0]
        if o.n is None:
            return
        m = self.unmask(st, o)
        if m:
            # a write at a position that is not known assigns every position it may be
            c = r.cells()
            st.un[o.id] = m & ~c if c else 0
        if o.id in st.val:
            if not o.shape or o.n == 1:
                st.val[o.id] = None
                st.rel.pop(o.id, None)

    def define_struct(self, o, st):
        o2 = list(o.fields.values())
        for x in o2:
            if x.kind == 'struct':
                self.define_struct(x, st)
            else:
                st.un[x.id] = 0
                st.un.pop(('w', x.id), None)
                st.val.pop(x.id, None)
        st.un[('s', o.id)] = 0

    def smear(self, r, st):
        """storage handed to code that is not analysed: assigned, value unknown"""
        if isinstance(r, tuple) and r[0] == 'p':
            r = r[1]
        if not isinstance(r, Ref) or r.obj is None:
            return
        o = r.obj
        if o.kind == 'struct':
            self.define_struct(o, st)
            return
        if o.kind == 'vec':
            st.ln[o.id] = iv(0, INF)
            st.el.pop(o.id, None)
            return
        st.un[o.id] = 0
        st.un.pop(('w', o.id), None)
        if o.id in st.val:
            st.val[o.id] = None
        if o.dyn:
            st.shp[o.id] = tuple(None if o.dyn is True or d is None else d for d in o.shape)
            t = edim(o.ts)
            if t:
                st.shp[o.id] = tuple(x if x >= 0 else None for x in t)

    # ------------------------------------------------------------- joins
    def join(self, a, b, dd):
        if a is None:
            return b
        if b is None:
            return a
        r = St()
        for k in set(a.val) | set(b.val):
            if k in a.val and k in b.val:
                r.val[k] = vjoin(a.val[k], b.val[k], dd)
            else:
                r.val[k] = a.val[k] if k in a.val else b.val[k]
                ex = a if k in a.val else b
                # absent in one state: declared in one branch only (dead after it)
        for k in set(a.un) | set(b.un):
            if isinstance(k, tuple) and k[0] == 'w':
                r.un[k] = self.un_of(a, k) & self.un_of(b, k)       # no element assigned on either path
            else:
                r.un[k] = self.un_of(a, k) | self.un_of(b, k)
        for k in set(a.ln) | set(b.ln):
            if k in a.ln and k in b.ln:
                r.ln[k] = vjoin(a.ln[k], b.ln[k], dd)
            else:
                r.ln[k] = a.ln.get(k) or b.ln.get(k)
        for k in set(a.el) & set(b.el):
            x, y = a.el[k], b.el[k]
            if len(x) == len(y):
                r.el[k] = x if x == y else tuple(vjoin(p, q, dd) for p, q in zip(x, y))
        for k in set(a.shp) | set(b.shp):
            o = self.objs[k]
            x, y = a.shp.get(k, o.shape), b.shp.get(k, o.shape)
            r.shp[k] = tuple(p if p == q else None for p, q in zip(x, y))
        self.join_rel(a, b, r)
        return r

    def un_of(self, st, k):
        m = st.un.get(k)
        if m is None:
            if isinstance(k, tuple):
                if k[0] == 'w':
                    return 0
                return int(bool(self.objs[k[1]].un0))
            o = self.objs[k]
            if o.owner is not None and st.un.get(('s', o.owner)) == 0:
                return 0
            return (1 << o.n) - 1 if o.un0 and o.n is not None else 0
        return m

    def join_rel(self, a, b, r):
        """which storage is assigned given the truth of an integer variable"""
        diff = [k for k in r.un if not (isinstance(k, tuple) and k[0] == 'w') and self.un_of(a, k) != self.un_of(b, k)]
        vs = set(a.rel) | set(b.rel)
        if diff:
            for k, x in a.val.items():
                y = b.val.get(k)
                if x != y and single(x) and single(y) and (x[1] != 0) != (y[1] != 0):
                    vs.add(k)
        for v in vs:
            if v not in a.val or v not in b.val:
                continue
            keys = set(diff)
            for s in (a, b):
                for d in s.rel.get(v, ()):
                    keys |= set(d)
            out = []
            for t in (False, True):
                d = {}
                for k in keys:
                    if k not in r.un:
                        continue
                    m = 0
                    for s in (a, b):
                        x = s.val.get(v)
                        if single(x) and (x[1] != 0) != t:
                            continue
                        u = self.un_of(s, k)
                        if v in s.rel and k in s.rel[v][t]:
                            u &= s.rel[v][t][k]
                        m |= u
                    if m != r.un[k]:
                        d[k] = m
                out.append(d)
            if out[0] or out[1]:
                r.rel[v] = tuple(out)

    def apply_rel(self, st, rel, truth):
        for k, m in rel[truth].items():
            st.un[k] = self.un_of(st, k) & m

    def full(self, o, st):
        """every element counts as assigned"""
        st.un[o.id] = 0
        st.un.pop(('w', o.id), None)

    def unrel(self, st, k):
        """storage k is unassigned again: what was known about it no longer holds"""
        for v, (f, t) in list(st.rel.items()):
            if k in f or k in t:
                st.rel[v] = ({a: b for a, b in f.items() if a != k}, {a: b for a, b in t.items() if a != k})

    def widen(self, old, new):
        r = new.copy()
        for k, v in new.val.items():
            w = old.val.get(k)
            if is_iv(v) and is_iv(w) and v != w:
                r.val[k] = iv(-INF if v[1] < w[1] else v[1], INF if v[2] > w[2] else v[2], v[3], v[4], v[5])
        for k, v in new.ln.items():
            w = old.ln.get(k)
            if is_iv(v) and is_iv(w) and v != w:
                r.ln[k] = iv(0 if v[1] < w[1] else v[1], INF if v[2] > w[2] else v[2], v[3], v[4], v[5])
                r.el.pop(k, None)
        return r

    # ---------------------------------------------------------- functions
    def root(self, f):
        while True:
            try:
                return self.root1(f)
            except TooBig:
                # the callee that took most of the budget is not followed any more
                own = sorted(((n, u) for u, n in self.own.items() if u != f['u'] and u not in self.opaque_calls), reverse=True)
                if not own or len(self.opaque_calls) > 8:
                    raise Stop('budget')
                self.opaque_calls.add(own[0][1])
                self.opaque_calls |= set(u for n, u in own if n > self.budget // 50)
                self.steps = 0
                self.own = {}
                self.quiet = 0
                self.alarms, self.obl, self.stack, self.calls, self.saved, self.split = {}, {}, [], [], [], None

    def root1(self, f):
        fr = Frame(f)
        st = St()
        for p in f['params']:
            ts = f['T'][p['t']]
            fr.alias[p['id']] = self.param_root(p, ts, f)
        fr.this = self.this_root(f)
        if f.get('ctor'):
            pass
        self.fns.add(f['u'])
        self.stack.append(f['u'])
        try:
            r = self.body(f, fr, st)
        finally:
            self.stack.pop()
        return r

    def param_root(self, p, ts, f):
        t = base_ts(ts.rstrip('&').strip())
        if ts.rstrip().endswith('*') or ts.rstrip().endswith('*const'):
            m = None
        d = edim(t)
        if d:
            o = self.new(p['n'], t, f['line'], f['file'], shape=tuple(x if x >= 0 else None for x in d), dyn=min(d) < 0)
        elif self.is_cont(t) and '[' not in t:
            o = self.new(p['n'], t, f['line'], f['file'], kind='vec')
        elif t in SCALARS or t.endswith('*'):
            o = self.new(p['n'], t, f['line'], f['file'], shape=())
        elif '[' in t and '(*)' not in t and re.search(r'\[\d+\]$', t):
            o = self.new(p['n'], t, f['line'], f['file'], shape=tuple(int(x) for x in re.findall(r'\[(\d+)\]', t)))
        else:
            o = self.new(p['n'], t, f['line'], f['file'], kind='struct')
        return self.whole(o)

    def this_root(self, f):
        if not f.get('clsT') or f.get('static'):
            return None
        o = self.new('this', f['clsT'], f['line'], f['file'], kind='struct')
        return Ref(o, (), None, 0, None, f['clsT'])

    def body(self, f, fr, st):
        ex = Ex()
        if f.get('ctor'):
            st = self.inits(f, fr, st)
        e = self.stmt(f['body'], fr, st, ex)
        ret = None
        outs = list(ex.ret)
        if e is not None:
            outs.append((e, None))
        if not outs:
            return None, None
        s, v = outs[0]
        alt = None
        if len(outs) > 1 and all(single(x) for _, x in outs):
            alt = {}
            for t, x in outs:
                b = x[1] != 0
                alt[b] = self.join(alt.get(b), t, True) if b in alt else t
            if len(alt) != 2:
                alt = None
        for s2, v2 in outs[1:]:
            s = self.join(s, s2, True)
            if isinstance(v, Ref) and isinstance(v2, Ref):
                v = v if same_ref(v, v2) else Ref(None, tuple(a if a == b else None for a, b in zip(v.shape, v2.shape)), None, 0, None, v.ts)
            else:
                v = vjoin(v, v2, True) if not isinstance(v, Ref) and not isinstance(v2, Ref) else None
        self.alt = None
        if alt:
            d = []
            for t in (False, True):
                d.append({k: self.un_of(alt[t], k) for k in s.un if not (isinstance(k, tuple) and k[0] == 'w') and self.un_of(alt[t], k) != s.un[k]})
            if d[0] or d[1]:
                self.alt = tuple(d)
        return v, s

    def inits(self, f, fr, st):
        for i in f.get('inits', []):
            n = i.get('n') or i.get('f')
            e = i.get('e') or i.get('i')
            if e is None:
                continue
            if fr.this is not None and n:
                fl = self.field(fr.this, n, None, fr, st)
                self.init_obj(fl, e, fr, st)
            else:
                self.rv(e, fr, st)
        return st

    # --------------------------------------------------------- statements
    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise TooBig(None)

    def stmt(self, s, fr, st, ex):
        if s is None or st is None:
            return st
        self.tick()
        if s.get('l'):
            fr.line = s['l']
        k = s['k']
        m = getattr(self, 's_' + k, None)
        if m is None:
            if 'cls' in s:
                return st
            raise Stop('statement %s' % k)
        return m(s, fr, st, ex)

    def s_block(self, s, fr, st, ex):
        for x in s['s']:
            st = self.stmt(x, fr, st, ex)
            if st is None:
                return None
        return st

    def s_nop(self, s, fr, st, ex):
        return st

    def s_expr(self, s, fr, st, ex):
        fr.dead = False
        self.ev(s['e'], fr, st)
        if fr.dead:
            fr.dead = False
            return None
        return st

    def s_try(self, s, fr, st, ex):
        return self.stmt(s['b'], fr, st, ex)

    def s_return(self, s, fr, st, ex):
        v = None
        if s.get('e') is not None:
            rts = fr.f['T'][fr.f['ret']] if fr.f.get('ret') is not None and not fr.inlam else ''
            v = self.ev(s['e'], fr, st)
            if isinstance(v, Ref) and not rts.endswith('&'):
                if v.obj is not None and v.obj.kind == 'struct':
                    pass
                elif v.obj is not None and v.obj.kind == 'vec':
                    pass
                else:
                    self.use(v, st, fr, s['e'])
                    x = self.load(v, st)
                    v = x if x is not None else Ref(None, v.shape, None, 0, None, v.ts) if v.shape else None
        ex.ret.append((st, v))
        return None

    def s_break(self, s, fr, st, ex):
        ex.brk.append(st)
        return None

    def s_continue(self, s, fr, st, ex):
        ex.cnt.append(st)
        return None

    def s_if(self, s, fr, st, ex):
        if s.get('init'):
            st = self.stmt(s['init'], fr, st, ex)
        if s.get('cv'):
            self.decl_var(s['cv'], fr, st)
        c = self.cond(s['c'], fr, st)
        a = b = None
        if c is not False:
            t = st.copy() if c is None else st
            t = self.refine(s['c'], True, fr, t)
            a = self.stmt(s['a'], fr, t, ex) if t is not None else None
        if c is not True:
            t = self.refine(s['c'], False, fr, st)
            b = self.stmt(s.get('b'), fr, t, ex) if t is not None else None
        return self.join(a, b, True)

    def s_decl(self, s, fr, st, ex):
        for v in s['v']:
            self.decl_var(v, fr, st)
        return st

    def decl_var(self, v, fr, st):
        ts = fr.T[v['t']]
        i = v.get('i')
        if v.get('static'):
            fr.alias[v['id']] = self.param_root({'n': v['n']}, ts, {'line': v['l'], 'file': fr.file})
            return
        if ts.endswith('&'):
            x = self.ev(i, fr, st) if i is not None else None
            if not isinstance(x, Ref):
                o = self.new(v['n'], base_ts(ts.rstrip('&')), v['l'], fr.file, shape=())
                st.val[o.id] = x
                x = self.whole(o)
            fr.alias[v['id']] = x
            return
        r = self.make(v['n'], ts, v['l'], fr)
        fr.alias[v['id']] = r
        self.init_obj(r, i, fr, st)

    def make(self, name, ts, line, fr):
        t = base_ts(ts)
        d = edim(t)
        if d and eig(t)[0] in ('Matrix', 'Array'):
            o = self.new(name, t, line, fr.file, shape=tuple(x if x >= 0 else None for x in d), dyn=min(d) < 0,
                         un=min(d) >= 0 and 'complex' not in t)      # complex elements are zero by construction
        elif d and eig(t)[0] in DECOMP:
            o = self.new(name, t, line, fr.file, kind='struct')
            o.un0 = False
        elif d:
            return self.typed(ts)
        elif self.is_cont(t) and not t.endswith(']'):
            o = self.new(name, t, line, fr.file, kind='vec')
        elif t in SCALARS or t.endswith('*') or t.endswith('*const'):
            o = self.new(name, t, line, fr.file, shape=(), un=True)
        elif '(*)' in t:
            o = self.new(name, t, line, fr.file, shape=(), un=True)
        elif re.search(r'\[\d+\]$', t):
            m = re.search(r'((\[\d+\])+)$', t).group(1)
            el = t[:-len(m)].strip()
            un = el in SCALARS
            if self.is_cont(el) or not un and not el.endswith('*'):
                o = self.new(name, t, line, fr.file, kind='arr', shape=tuple(int(x) for x in re.findall(r'\d+', m)))
            else:
                o = self.new(name, t, line, fr.file, shape=tuple(int(x) for x in re.findall(r'\d+', m)), un=un)
        else:
            o = self.new(name, t, line, fr.file, kind='struct')
            rt = self.D.recT.get(t)
            o.un0 = False
            if rt is not None:
                o.un0 = 'rec'
        return self.whole(o)

    def init_obj(self, r, i, fr, st):
        o = r.obj
        if o is None:
            if i is not None:
                self.args_use(i, fr, st)
            return
        if o.kind == 'vec':
            self.init_vec(o, i, fr, st)
            return
        if o.kind == 'struct':
            self.init_struct(o, i, fr, st)
            return
        if i is None:
            if o.dyn:
                st.shp[o.id] = tuple(0 if d is None else d for d in o.shape)
            return
        if o.kind == 'arr':
            return
        if i['k'] == 'ctor' and not i.get('copy') and eig(o.ts):
            self.init_eigen(o, i, fr, st)
            return
        if i['k'] == 'ilist':
            for x in i['a']:
                if x is not None and x['k'] == 'ilist':
                    for y in x['a']:
                        self.rvu(y, fr, st)
                else:
                    self.rvu(x, fr, st)
            st.un[o.id] = 0
            return
        v = self.ev(i, fr, st)
        self.assign(self.whole(o, st), v, fr, st, i)
        self.pend(self.whole(o), i, st)

    def init_eigen(self, o, i, fr, st):
        a = i['a']
        if not a:
            if o.dyn:
                d = edim(o.ts)
                st.shp[o.id] = tuple(0 if x < 0 else x for x in d)
            else:
                st.un[o.id] = (1 << o.n) - 1
            return
        xs = [self.ev(x, fr, st) for x in a]
        ints = [is_int_ts(fr.T[x['t']].replace('const ', '').rstrip('&').strip()) if 't' in x else False for x in a]
        d = edim(o.ts)
        if o.dyn and len(a) <= 2 and all(ints):
            ds, vs = [], []
            for x, y in zip(a, xs):
                y = self.tov(y, st, fr, x)
                vs.append(y)
                ds.append(y[1] if single(y) else None)
            if len(a) == 1:
                shape = tuple(ds[0] if x < 0 else x for x in d)
                vs = [vs[0] if x < 0 else iv(x, x) for x in d]
            else:
                shape = tuple(ds)
            self.reshape(o, shape, st, periods(vs))
            return
        if len(xs) == 1 and isinstance(xs[0], Ref) and xs[0].shape:
            self.assign(self.whole(o), xs[0], fr, st, i)
            return
        for x, e in zip(xs, a):
            if isinstance(x, Ref):
                if len(a) == 1 and x.obj is not None and x.exact and x.obj.n == (o.n or -1):
                    pass
                self.use(x, st, fr, e)
        if len(xs) == 1 and isinstance(xs[0], Ref) and xs[0].shape:
            if o.dyn:
                st.shp[o.id] = self.fit(d, xs[0].shape)
            else:
                self.dims(self.whole(o), xs[0], fr, i)
        elif o.dyn:
            st.shp[o.id] = tuple(x if x >= 0 else None for x in d)
        self.full(o, st)

    def fit(self, d, shape):
        out = []
        for k, x in enumerate(d):
            if x >= 0:
                out.append(x)
            else:
                out.append(shape[k] if k < len(shape) else None)
        return tuple(out)

    def reshape(self, o, shape, st, per=None):
        """a dynamic matrix gets new dimensions; its elements are unassigned"""
        self.unrel(st, o.id)
        st.un.pop(('w', o.id), None)
        if None not in shape and o.n is None and shape[0] * shape[1] <= 5000:
            # dimensions are a matter of the state; elements are told apart for the first ones seen
            o.shape = shape
            o.n = shape[0] * shape[1]
        if None not in shape and o.shape == shape and o.n is not None:
            st.shp.pop(o.id, None)
            st.un[o.id] = (1 << o.n) - 1
            return
        st.shp[o.id] = shape
        st.un[o.id] = 0
        if o.per is None:
            o.per = per or (1, 1)
        if 0 not in shape and o.per == (per or (1, 1)):
            st.un[('w', o.id)] = (1 << o.per[0] * o.per[1]) - 1

    def init_struct(self, o, i, fr, st):
        if i is None:
            return
        if i['k'] == 'ctor':
            f = self.D.fn.get(i['fn'])
            if eig(o.ts) and eig(o.ts)[0] in DECOMP and not i.get('copy'):
                self.decompose(o, i['a'], fr, st)
                o.un0 = False
                return
            if i.get('copy'):
                x = self.ev(i['a'][0], fr, st)
                self.copy_struct(o, x, st)
                return
            if f is not None and not f.get('implicit') and not i.get('def') or f is not None and f.get('ctor') and not f.get('implicit'):
                o.un0 = 'rec'
                self.call_fn(f, Ref(o, (), None, 0, None, o.ts), i['a'], fr, st, i)
                return
            xs = [self.ev(x, fr, st) for x in i['a']]
            for x, e in zip(xs, i['a']):
                if isinstance(x, Ref) and x.obj is not None and x.obj.kind != 'struct':
                    ts = ''
                    d = self.D.decl.get(i['fn'], {})
                    self.ext_arg(x, d, i['a'].index(e), st, fr, e)
            if i['a'] or f is None and o.ts not in self.D.recT:
                o.un0 = False
            return
        if i['k'] == 'ilist':
            for x in i['a']:
                self.rvu(x, fr, st)
            o.un0 = False
            return
        x = self.ev(i, fr, st)
        self.copy_struct(o, x, st)

    def decompose(self, o, args, fr, st):
        """what is decomposed and which parts are requested: (shape, options)"""
        xs = [self.rvu(a, fr, st) for a in args]
        t = eig(o.ts)
        x = xs[0] if xs else None
        shape = x.shape if isinstance(x, Ref) and len(x.shape) == 2 else None
        opt = None
        if len(args) > 1:
            v = xs[1] if is_iv(xs[1]) else self.tov(xs[1], st, fr, args[1]) if isinstance(xs[1], Ref) else None
            c = args[1].get('c')
            opt = c if c is not None else v[1] if single(v) else None
        elif t[0] == 'JacobiSVD' or t[0] == 'BDCSVD':
            opt = 0
        else:
            opt = 1
        if not args:
            shape, opt = None, ()       # nothing decomposed yet
        old = getattr(o, 'dec', None)
        if old is not None and old[1] != () and old != (shape, opt):
            shape, opt = shape if shape == old[0] else None, opt if opt == old[1] else None
        o.dec = (shape, opt)

    def decomp_part(self, n, b, ts, fr, st, e):
        """the part of a decomposition a method hands out"""
        t = eig(b.ts)[0]
        shape, opt = b.obj.dec
        part = {'matrixU': 'the left singular vectors', 'matrixV': 'the right singular vectors', 'singularValues': 'the singular values',
                'eigenvectors': 'the eigenvectors', 'eigenvalues': 'the eigenvalues'}.get(n)
        if part is None:
            return None
        self.oblige('read', fr, e, '')
        if opt == ():
            self.alarm('uninit', fr, e, '%s of %s are read before anything is decomposed' % (part, b.obj.name))
        elif opt is not None:
            need = {'matrixU': 12, 'matrixV': 48}.get(n) if t in ('JacobiSVD', 'BDCSVD') else None
            opt = int(opt)
            if need and not opt & need or n == 'eigenvectors' and (opt == 0 or t == 'SelfAdjointEigenSolver' and opt == 64):
                self.alarm('uninit', fr, e, '%s of %s are read but were not requested' % (part, b.obj.name))
        if shape is None or None in shape:
            return None
        r, c = shape
        m = min(r, c)
        if n == 'matrixU':
            d = (r, r) if opt and opt & 4 else (r, m) if opt else None
        elif n == 'matrixV':
            d = (c, c) if opt and opt & 16 else (c, m) if opt else None
        elif n == 'eigenvectors':
            d = (r, r)
        else:
            d = (m, 1)
        return self.typed(ts, d) if d else None

    def copy_struct(self, o, x, st):
        if isinstance(x, tuple) and x and x[0] == 'lam':
            st.val[o.id] = x
            o.un0 = False
            return
        if isinstance(x, Ref) and x.obj is not None and isinstance(st.val.get(x.obj.id), tuple) and st.val[x.obj.id][:1] == ('lam',):
            st.val[o.id] = st.val[x.obj.id]
            o.un0 = False
            return
        if isinstance(x, Ref) and x.obj is not None and x.obj.kind == 'struct':
            o.un0 = x.obj.un0
            for n, fo in x.obj.fields.items():
                if fo.kind == 'cells':
                    c = self.new(o.name + '.' + n, fo.ts, o.line, o.file, 'cells', fo.shape, fo.dyn, fo.un0)
                    o.fields[n] = c
                    if fo.n is not None and c.n is not None:
                        st.un[c.id] = self.unmask(st, fo)
            if ('s', x.obj.id) in st.un:
                st.un[('s', o.id)] = st.un[('s', x.obj.id)]
        else:
            o.un0 = False

    # ----------------------------------------------------------- vectors
    def init_vec(self, o, i, fr, st):
        st.ln[o.id] = iv(0, INF)
        st.el.pop(o.id, None)
        if i is None:
            st.ln[o.id] = iv(0, 0)
            st.el[o.id] = ()
            return
        if i['k'] == 'ctor':
            a = [x for x in i['a'] if x is None or x['k'] != 'other' or x.get('cls') != 'CXXDefaultArgExpr']
            a = [x for x in a if not ('t' in x and 'llocator' in fr.T[x['t']].split('<')[0])]
            if not a and not i.get('copy'):
                st.ln[o.id] = iv(0, 0)
                st.el[o.id] = ()
                return
            xs = [self.ev(x, fr, st) for x in a]
            x0 = xs[0]
            if isinstance(x0, Ref) and x0.obj is not None and x0.obj.kind == 'vec':
                st.ln[o.id] = st.ln.get(x0.obj.id, iv(0, INF))
                if x0.obj.id in st.el:
                    st.el[o.id] = st.el[x0.obj.id]
                return
            n = self.tov(x0, st, fr, a[0])
            for x, e in list(zip(xs, a))[1:]:
                if isinstance(x, Ref):
                    self.use(x, st, fr, e)
            if is_iv(n) and is_int_ts(fr.T[a[0]['t']].replace('const ', '').rstrip('&').strip()):
                st.ln[o.id] = iv(max(0, n[1]), n[2], n[3], n[4], n[5])
            return
        if i['k'] == 'ilist':
            for x in i['a']:
                self.rvu(x, fr, st)
            st.ln[o.id] = iv(len(i['a']), len(i['a']))
            return
        x = self.ev(i, fr, st)
        if isinstance(x, Ref) and x.obj is not None and x.obj.kind == 'vec':
            st.ln[o.id] = st.ln.get(x.obj.id, iv(0, INF))
            if x.obj.id in st.el:
                st.el[o.id] = st.el[x.obj.id]

    def vec_method(self, n, r, e, args, fr, st):
        o = r.obj
        if o is None or o.kind != 'vec':
            for a in args:
                self.rvu(a, fr, st)
            ts = fr.T[e['t']] if 't' in e else ''
            return self.elem(r.ts, None, None, fr)
        ln = st.ln.get(o.id, iv(0, INF))
        el = st.el.get(o.id)
        if n in ('operator[]', 'at'):
            x = self.rv(args[0], fr, st)
            return self.vec_at(o, x, ln, el, fr, st, e)
        if n in ('front', 'back'):
            if single(ln) and ln[1] == 0 and not ln[3]:
                self.alarm('bounds', fr, e, '%s() of %s, which is empty' % (n, o.name))
            if el:
                return self.elem_val(o, el[0 if n == 'front' else -1], fr)
            return self.elem(o.ts, None, None, fr)
        if n in ('push_back', 'emplace_back'):
            xs = [self.ev(a, fr, st) for a in args]
            v = None
            for x, a in zip(xs, args):
                if isinstance(x, Ref):
                    if x.obj is not None and x.obj.kind in ('struct', 'vec', 'arr'):
                        if x.obj.kind == 'vec':
                            c = self.new(o.name + '[]', x.obj.ts, o.line, o.file, kind='vec')
                            st.ln[c.id] = st.ln.get(x.obj.id, iv(0, INF))
                            if x.obj.id in st.el:
                                st.el[c.id] = st.el[x.obj.id]
                            v = ('r', Ref(c, (), None, 0, None, c.ts))
                        continue
                    self.use(x, st, fr, a)
                    v = self.load(x, st)
                else:
                    v = x
            st.ln[o.id] = iadd(ln, iv(1, 1))
            if el is not None and len(el) < 1500 and single(ln):
                st.el[o.id] = el + (v,)
            else:
                st.el.pop(o.id, None)
            return None
        if n == 'pop_back':
            st.ln[o.id] = iv(max(0, ln[1] - 1), max(0, ln[2] - 1), ln[3])
            if el:
                st.el[o.id] = el[:-1]
            return None
        if n == 'clear':
            st.ln[o.id] = iv(0, 0)
            st.el[o.id] = ()
            return None
        if n in ('resize', 'assign'):
            x = self.rv(args[0], fr, st)
            for a in args[1:]:
                self.rvu(a, fr, st)
            st.ln[o.id] = iv(max(0, x[1]), x[2], x[3], x[4], x[5]) if is_iv(x) else iv(0, INF)
            st.el.pop(o.id, None)
            return None
        if n == 'size':
            return ln
        if n == 'empty':
            if ln[1] > 0:
                return iv(0, 0)
            if ln[2] == 0:
                return iv(1, 1)
            return iv(0, 1)
        for a in args:
            self.rvu(a, fr, st)
        if n in ('reserve', 'capacity', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'max_size', 'get_allocator', 'shrink_to_fit'):
            if n in ('begin', 'end', 'rbegin', 'rend', 'data'):
                st.el.pop(o.id, None)
            return None
        st.ln[o.id] = iv(0, INF)
        st.el.pop(o.id, None)
        return None

    def vec_at(self, o, x, ln, el, fr, st, e):
        if single(ln) and finite(x) and not ln[3]:
            self.oblige('bounds', fr, e, o.name)
            if (x[1] < 0 or x[2] >= ln[1]) and not x[3]:
                self.alarm('bounds', fr, e, 'position %s of %s, which has %d elements' % (self.rng(x), o.name, ln[1]))
        if el is not None and single(x) and 0 <= x[1] < len(el):
            r = self.elem_val(o, el[int(x[1])], fr)
            if r is not None:
                if isinstance(r, tuple):
                    q = Ref(None, (), None, 0, ('v', o.id, int(x[1]), r), '')
                    return q
                return r
        return self.elem(o.ts, (o.id, int(x[1])) if single(x) else (o.id, None), None, fr)

    def elem_val(self, o, v, fr):
        if isinstance(v, tuple) and v[0] == 'r':
            return v[1]
        if v is None:
            return None
        return v

    def elem(self, ts, slot, v, fr):
        """an element of a container: assigned, of the element type"""
        m = re.match(r'(?:const )?std::(?:vector|list|deque)<(.*)', ts)
        t = m.group(1) if m else ''
        depth = 0
        for k, c in enumerate(t):
            if c == '<':
                depth += 1
            elif c == '>':
                depth -= 1
            if depth < 0 or depth == 0 and c == ',':
                t = t[:k]
                break
        mm = re.match(r'Eigen::(?:Matrix|Array)<([^,]+(?:<[^<>]*>)?), (-?\d+), (-?\d+)', t)
        if mm:
            r = Ref(None, tuple(int(x) if int(x) >= 0 else None for x in mm.groups()[1:]), None, 0, None, t)
            return r
        if t.startswith(CONT):
            o = self.new('element', t, fr.line, fr.file, kind='vec')
            return Ref(o, (), None, 0, None, t)
        return Ref(None, (), None, 0, ('v',) + slot + (None,) if slot else None, t)

    @staticmethod
    def rng(x):
        return '%d' % x[1] if x[1] == x[2] else '%d..%d' % (x[1], x[2])

    # -------------------------------------------------------------- loops
    def s_for(self, s, fr, st, ex):
        st = self.stmt(s.get('i'), fr, st, ex)
        return self.loop(s.get('c'), s.get('n') or s.get('inc'), s['b'], fr, st, ex)

    def s_while(self, s, fr, st, ex):
        return self.loop(s['c'], None, s['b'], fr, st, ex)

    def s_do(self, s, fr, st, ex):
        return self.loop(s['c'], None, s['b'], fr, st, ex, True)

    def s_rfor(self, s, fr, st, ex):
        rng = s.get('r') or s.get('range')
        x = self.ev(rng, fr, st) if rng else None
        v = s['v']
        ts = fr.T[v['t']]
        el = st.el.get(x.obj.id) if isinstance(x, Ref) and x.obj is not None and x.obj.kind == 'vec' else None
        ln = st.ln.get(x.obj.id) if isinstance(x, Ref) and x.obj is not None and x.obj.kind == 'vec' else None

        def bind(t, item):
            if ts.endswith('&'):
                fr.alias[v['id']] = item if isinstance(item, Ref) else self.wrap(item, v, fr, t)
            else:
                r = self.make(v['n'], ts, v['l'], fr)
                fr.alias[v['id']] = r
                if r.obj is not None:
                    t.un[r.obj.id] = 0
                    r.obj.un0 = False
                    if r.obj.kind == 'vec':
                        t.ln[r.obj.id] = iv(0, INF)
                    elif not isinstance(item, Ref):
                        t.val[r.obj.id] = item
        if el is not None and single(ln) and len(el) <= self.unroll:
            out = Ex()
            cur = st
            for item in el:
                it = self.elem_val(x.obj, item, fr)
                bind(cur, it if it is not None else self.elem(x.ts, None, None, fr))
                sub = Ex()
                sub.ret = ex.ret
                cur = self.stmt(s['b'], fr, cur, sub)
                out.brk += sub.brk
                for c in sub.cnt:
                    cur = self.join(cur, c, True)
                if cur is None:
                    break
            for b in out.brk:
                cur = self.join(cur, b, True)
            return cur

        def body(t, sx):
            bind(t, self.elem(x.ts if isinstance(x, Ref) else '', None, None, fr))
            return self.stmt(s['b'], fr, t, sx)
        return self.fix(lambda t: None, lambda t, b: t, lambda t: t, body, fr, st, ex, False)

    def wrap(self, v, d, fr, st):
        o = self.new(d['n'], base_ts(fr.T[d['t']].rstrip('&')), d['l'], fr.file, shape=())
        st.val[o.id] = v
        return self.whole(o)

    def loop(self, c, inc, b, fr, st, ex, do=False):
        if st is None:
            return None
        fc = (lambda t: self.cond(c, fr, t)) if c is not None else (lambda t: True)
        fref = (lambda t, k: self.refine(c, k, fr, t)) if c is not None else (lambda t, k: t if k else None)

        def fi(t):
            if inc is not None:
                self.ev(inc, fr, t)
            return t
        fb = lambda t, sx: self.stmt(b, fr, t, sx)
        # follow the passes while the condition is decided
        cur = st.copy()
        n = 0
        brk = []
        s0 = self.steps
        first = do
        al = dict(fr.alias)
        mark = len(ex.ret)
        self.begin()
        ok = True
        while True:
            if not first:
                k = fc(cur)
                if k is False:
                    break
                if k is None:
                    ok = False
                    break
            first = False
            n += 1
            if n > self.unroll or self.steps - s0 > self.budget // 6:
                ok = False
                break
            sub = Ex()
            sub.ret = ex.ret
            nx = self.stmt(b, fr, cur, sub)
            for x in sub.cnt:
                nx = self.join(nx, x, True)
            brk += sub.brk
            if nx is None:
                cur = None
                break
            cur = fi(nx)
        if ok:
            self.commit()
            for x in brk:
                cur = self.join(cur, x, True)
            return cur
        self.rollback()
        fr.alias.clear()
        fr.alias.update(al)
        del ex.ret[mark:]
        return self.fix(fc, fref, fi, fb, fr, st, ex, do)

    def begin(self):
        self.saved.append((len(self.alarms), {k: len(v) for k, v in self.obl.items()}))

    def commit(self):
        self.saved.pop()

    def rollback(self):
        a, o = self.saved.pop()
        while len(self.alarms) > a:
            self.alarms.popitem()
        for k, v in self.obl.items():
            n = o.get(k, 0)
            while len(v) > n:
                v.popitem()

    def fix(self, fc, fref, fi, fb, fr, st, ex, do):
        # the first pass is followed on its own
        t = st.copy()
        k = True if do else fc(t)
        out = fref(t.copy(), False) if k is not True and not do else None
        t = (t if do else fref(t, True)) if k is not False else None
        if t is None:
            return out
        sub = Ex()
        sub.ret = ex.ret
        nx = fb(t, sub)
        for x in sub.cnt:
            nx = self.join(nx, x, True)
        for x in sub.brk:
            out = self.join(out, x, True)
        if nx is None:
            return out
        nx = fi(nx)
        return self.join(out, self.fix1(fc, fref, fi, fb, fr, nx, ex, False), True)

    def fix1(self, fc, fref, fi, fb, fr, st, ex, do):
        mark = len(ex.ret)
        head = st.copy()
        al = dict(fr.alias)
        om = self.nobj
        self.quiet += 1
        try:
            for it in range(12):
                fr.alias.clear()
                fr.alias.update(al)
                sub = Ex()
                sub.ret = []
                t = head.copy()
                k = True if do and it == 0 else fc(t)
                t = fref(t, True) if k is not False else None
                nx = fb(t, sub) if t is not None else None
                for x in sub.cnt:
                    nx = self.join(nx, x, False)
                if nx is not None:
                    nx = fi(nx)
                new = self.join(head, nx, True if False else False)
                new = self.limit(new, head, om)
                if new.same(head):
                    break
                if it >= 2:
                    new = self.widen(head, new)
                if it >= 8:
                    for kk in list(new.val):
                        if new.val[kk] != head.val.get(kk):
                            new.val[kk] = None
                    for kk in list(new.ln):
                        if new.ln[kk] != head.ln.get(kk):
                            new.ln[kk] = iv(0, INF)
                            new.el.pop(kk, None)
                    new.el = {a: b for a, b in new.el.items() if head.el.get(a) == b}
                head = new
            else:
                raise Stop('no fixpoint')
        finally:
            self.quiet -= 1
        fr.alias.clear()
        fr.alias.update(al)
        sub = Ex()
        sub.ret = ex.ret
        t = head.copy()
        k = fc(t)
        out = None
        if k is not True and not do:
            out = fref(t.copy(), False)
        t2 = fref(t, True) if k is not False and not do else t
        nx = fb(t2, sub) if t2 is not None else None
        for x in sub.cnt:
            nx = self.join(nx, x, True)
        if nx is not None:
            nx = fi(nx)
            if do:
                fc(nx)
                out = fref(nx, False)
        for x in sub.brk:
            out = self.join(out, x, True)
        return out

    def limit(self, new, head, mark):
        """drop what the loop body introduced: objects declared inside are dead outside"""
        for d, h in ((new.val, head.val), (new.ln, head.ln), (new.el, head.el), (new.shp, head.shp), (new.un, head.un)):
            for k in list(d):
                if k not in h and (k[1] if isinstance(k, tuple) else k) > mark:
                    del d[k]
        for v in list(new.rel):
            if v not in new.val:
                del new.rel[v]
            else:
                new.rel[v] = tuple({k: m for k, m in d.items() if k in new.un} for d in new.rel[v])
        return new

    def s_switch(self, s, fr, st, ex):
        self.rvu(s['c'], fr, st)
        v = self.rv(s['c'], fr, st)
        body = s['b']['s'] if s['b']['k'] == 'block' else [s['b']]
        cur = None
        out = None
        sub = Ex()
        sub.ret, sub.cnt = ex.ret, ex.cnt
        seen = False
        hit = False
        for x in body:
            while x is not None and x['k'] in ('case', 'default'):
                if x['k'] == 'default':
                    seen = True
                    cur = self.join(cur, st.copy(), True)
                else:
                    c = x['v'].get('c')
                    if not (single(v) and c is not None and v[1] != c):
                        cur = self.join(cur, st.copy(), True)
                        if single(v) and c == v[1]:
                            hit = True
                x = x['s']
            cur = self.stmt(x, fr, cur, sub)
        out = cur
        for b in sub.brk:
            out = self.join(out, b, True)
        if not seen and not hit:
            out = self.join(out, st.copy(), True)
        return out

    # --------------------------------------------------------- conditions
    def cond(self, c, fr, st):
        v = self.rv(c, fr, st)
        if is_iv(v):
            if v[1] == v[2] == 0:
                return False
            if v[1] > 0 or v[2] < 0:
                return True
        return None

    def var_of(self, e, fr, st):
        while isinstance(e, dict) and e.get('k') == 'cast' and 'Float' not in e.get('ck', '') and e.get('ck') in ('IntegralCast', 'LValueToRValue', 'NoOp', 'IntegralToBoolean'):
            e = e['e']
        if isinstance(e, dict) and e.get('k') == 'ref' and e.get('dk') in ('var', 'parm'):
            r = fr.alias.get(e['id'])
            if isinstance(r, Ref) and r.obj is not None and r.obj.kind == 'cells' and r.shape == () and r.obj.shape == () and is_int_ts(r.obj.ts):
                return r.obj
        return None

    def refine(self, c, truth, fr, st):
        """the state under the condition (None when it cannot hold)"""
        if c is None or st is None:
            return st
        k = c.get('k')
        if k == 'cast':
            return self.refine(c['e'], truth, fr, st)
        if k == 'un' and c['o'] == '!':
            return self.refine(c['e'], not truth, fr, st)
        if k in ('call', 'mcall') and self.split is not None and self.split[0] == id(c):
            self.apply_rel(st, self.split[1], truth)
            return st
        if k == 'ref':
            r = fr.alias.get(c.get('id'))
            if isinstance(r, Ref) and r.obj is not None and r.obj.id in st.rel:
                self.apply_rel(st, st.rel[r.obj.id], truth)
        if k == 'bin' and c['o'] in ('&&', '||'):
            if (c['o'] == '&&') == truth:
                st = self.refine(c['x'], truth, fr, st)
                return self.refine(c['y'], truth, fr, st) if st is not None else None
            return st
        if k == 'bin' and c['o'] in ('<', '<=', '>', '>=', '==', '!='):
            o = c['o']
            if not truth:
                o = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[o]
            self.quiet += 1
            x = self.rv(c['x'], fr, st.copy())
            y = self.rv(c['y'], fr, st.copy())
            self.quiet -= 1
            for side, a, b, op in ((c['x'], x, y, o), (c['y'], y, x, {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[o])):
                v = self.var_of(side, fr, st)
                if v is None or not is_iv(b):
                    continue
                a = st.val.get(v.id)
                if not is_iv(a):
                    a = iv(-INF, INF)
                lo, hi = a[1], a[2]
                if op in ('<', '<='):
                    hi = min(hi, b[2] - (op == '<'))
                elif op in ('>', '>='):
                    lo = max(lo, b[1] + (op == '>'))
                elif op == '==':
                    lo, hi = max(lo, b[1]), min(hi, b[2])
                elif op == '!=' and single(b):
                    if lo == b[1]:
                        lo += 1
                    if hi == b[1]:
                        hi -= 1
                if lo > hi:
                    return None
                st.val[v.id] = iv(lo, hi, a[3], a[4], a[5])
        return st

    # -------------------------------------------------------- expressions
    def ev(self, e, fr, st):
        if e is None:
            return None
        self.tick()
        if 'c' in e and isinstance(e['c'], (int, bool)) and e['k'] in ('lit', 'cast', 'ref', 'bin', 'un', 'other', 'cond', 'call'):
            if not (e['k'] == 'un' and ('++' in e['o'] or '--' in e['o'])):
                return iv(int(e['c']), int(e['c']))
        m = getattr(self, 'e_' + e['k'], None)
        if m is None:
            raise Stop('expression %s' % e['k'])
        return m(e, fr, st)

    def load(self, r, st):
        if r.obj is None:
            if isinstance(r.mask, tuple) and r.mask[0] == 'v':
                return r.mask[3]
            return None
        if r.obj.kind == 'cells' and r.obj.shape == ():
            return st.val.get(r.obj.id)
        return None

    def tov(self, x, st, fr, e):
        if isinstance(x, Ref):
            if x.obj is not None and x.obj.kind == 'cells':
                self.use(x, st, fr, e)
            return self.load(x, st)
        return x

    def rv(self, e, fr, st):
        return self.tov(self.ev(e, fr, st), st, fr, e)

    def rvu(self, e, fr, st):
        """evaluate, every element counts as read"""
        x = self.ev(e, fr, st)
        if isinstance(x, Ref):
            if x.obj is not None and x.obj.kind == 'cells':
                self.use(x, st, fr, e)
        return x

    def args_use(self, i, fr, st):
        for a in i.get('a', []) if i['k'] in ('ctor', 'other') else [i]:
            self.rvu(a, fr, st)

    def e_lit(self, e, fr, st):
        return None

    def e_str(self, e, fr, st):
        return None

    def e_null(self, e, fr, st):
        return None

    def e_zero(self, e, fr, st):
        return iv(0, 0) if is_int_ts(fr.T[e['t']]) else self.typed(fr.T[e['t']])

    def e_this(self, e, fr, st):
        return ('p', fr.this) if fr.this is not None else None

    def e_ref(self, e, fr, st):
        if e.get('dk') in ('var', 'parm'):
            r = fr.alias.get(e['id'])
            if r is None:
                return self.typed(fr.T[e['t']])
            if isinstance(r, Ref) and r.obj is not None and (r.obj.id in st.shp or r.all and r.obj.dyn):
                return self.dynref(r, st) if r.all else r
            return r
        if e.get('dk') == 'global':
            return self.typed(fr.T[e['t']])
        return None

    def dynref(self, r, st):
        return self.whole(r.obj, st)

    def e_mem(self, e, fr, st):
        b = self.ev(e['b'], fr, st)
        if isinstance(b, tuple) and b[0] == 'p':
            b = b[1]
        elif isinstance(b, Ref) and e.get('ar'):
            v = self.load(b, st)
            b = v[1] if isinstance(v, tuple) and v[0] == 'p' else None
        return self.field(b if isinstance(b, Ref) else None, e['f'], fr.T[e['t']], fr, st)

    def field(self, b, name, ts, fr, st):
        if b is None or b.obj is None or b.obj.kind != 'struct':
            return self.typed(ts) if ts else Ref(None, (), None, 0, None, '')
        o = b.obj
        if name not in o.fields:
            if ts is None:
                r = self.D.recT.get(base_ts(o.ts)) or {}
                for x in r.get('fields', []):
                    if x['n'] == name:
                        ts = x['ts']
                if ts is None:
                    return Ref(None, (), None, 0, None, '')
                mm = re.match(r'Eigen::(?:Matrix|Array)<([^,]+(?:<[^<>]*>)?), (-?\d+), (-?\d+)', ts)
                if mm:
                    ts = 'E|Matrix|%s|%s|%s' % (mm.group(2), mm.group(3), mm.group(1))
            if ts.rstrip().endswith('&'):
                return self.typed(ts)
            r = self.make(o.name + '.' + name, ts, o.line, fr)
            if r.obj is None:
                return r
            if r.obj.kind in ('cells', 'struct'):
                r.obj.un0 = o.un0 and r.obj.un0
            o.fields[name] = r.obj
            r.obj.owner = o.id
        c = o.fields[name]
        if c.kind == 'cells' and c.un0 and c.id not in st.un and st.un.get(('s', o.id)) == 0:
            self.full(c, st)
        if c.kind == 'vec' and c.id not in st.ln:
            st.ln[c.id] = iv(0, INF)
        return self.whole(c, st) if c.id not in st.shp else self.dynref(self.whole(c), st)

    def e_cast(self, e, fr, st):
        x = self.ev(e['e'], fr, st)
        ck = e.get('ck', '')
        if ck == 'ArrayToPointerDecay':
            return ('p', x) if isinstance(x, Ref) else x
        if ck in ('FloatingToIntegral', 'IntegralToFloating', 'FloatingCast', 'FloatingComplexToReal'):
            self.tov(x, st, fr, e['e'])
            return None
        if ck == 'IntegralToBoolean' or ck == 'IntegralCast':
            return self.tov(x, st, fr, e['e'])
        if ck in ('PointerToBoolean', 'FloatingToBoolean', 'ToVoid', 'NullToPointer'):
            self.tov(x, st, fr, e['e'])
            return None
        if ck == 'LValueToRValue':
            return self.tov(x, st, fr, e['e'])
        return x

    e_constcast = e_cast

    def e_cond(self, e, fr, st):
        c = self.cond(e['x'], fr, st)
        if c is True:
            return self.ev(e['y'], fr, st)
        if c is False:
            return self.ev(e['z'], fr, st)
        t = self.refine(e['x'], True, fr, st.copy())
        dead0 = fr.dead
        a = b = None
        da = db = True
        if t is not None:
            fr.dead = False
            a = self.ev(e['y'], fr, t)
            a = self.unlocal(a, t, fr, e['y'])
            da = fr.dead
        u = self.refine(e['x'], False, fr, st.copy())
        if u is not None:
            fr.dead = False
            b = self.ev(e['z'], fr, u)
            b = self.unlocal(b, u, fr, e['z'])
            db = fr.dead
        fr.dead = dead0
        if da and db:
            fr.dead = True
            return None
        j = t if db else u if da else self.join(t, u, True)
        self.become(st, j)
        if da:
            return b
        if db:
            return a
        if isinstance(a, Ref) and isinstance(b, Ref):
            if same_ref(a, b):
                return a
            self.use(a, st, fr, e)
            self.use(b, st, fr, e)
            return self.typed(fr.T[e['t']])
        if isinstance(a, Ref) or isinstance(b, Ref):
            return self.typed(fr.T[e['t']]) if edim(fr.T[e['t']]) else None
        return vjoin(a, b, True)

    def unlocal(self, x, st, fr, e):
        if isinstance(x, Ref) and x.shape == () and x.obj is not None and x.obj.kind == 'cells':
            return self.tov(x, st, fr, e)
        return x

    def become(self, st, j):
        st.val, st.un, st.ln, st.el, st.shp, st.rel = j.val, j.un, j.ln, j.el, j.shp, j.rel

    def e_bin(self, e, fr, st):
        o = e['o']
        if o == ',':
            self.ev(e['x'], fr, st)
            return self.ev(e['y'], fr, st)
        if o in ('&&', '||'):
            c = self.cond(e['x'], fr, st)
            if c is (o == '||'):
                return iv(int(c), int(c))
            t = st.copy()
            t = self.refine(e['x'], o == '&&', fr, t)
            if t is None:
                return iv(int(o == '||'), int(o == '||'))
            y = self.cond(e['y'], fr, t)
            if c is not None:
                self.become(st, t)
                return iv(int(y), int(y)) if y is not None else None
            j = self.join(st.copy(), t, True)
            # only assignments of the right operand matter; keep the weaker state
            self.become(st, j)
            if y is not None and y is (o == '||'):
                pass
            if y is False and o == '&&':
                return iv(0, 0)
            if y is True and o == '||':
                return iv(1, 1)
            return None
        x = self.rv(e['x'], fr, st)
        y = self.rv(e['y'], fr, st)
        if isinstance(x, tuple) and x and x[0] == 'p' and o in ('+', '-') and (is_iv(y) or y is None):
            return self.padd(x, y if o == '+' else (ineg(y) if is_iv(y) else None))
        if isinstance(y, tuple) and y and y[0] == 'p' and o == '+':
            return self.padd(y, x)
        if o in ('+', '-', '*', '%', '/', '<', '<=', '>', '>=', '==', '!='):
            whole = iv(-INF, INF)
            if x is None and is_int_ts(base_ts(fr.T[e['x']['t']])):
                x = whole
            if y is None and is_int_ts(base_ts(fr.T[e['y']['t']])):
                y = whole
        if not (is_iv(x) and is_iv(y)):
            return None
        dd = x[3] or y[3]
        if o == '+':
            return iadd(x, y)
        if o == '-':
            return iadd(x, ineg(y))
        if o == '*':
            return imul(x, y)
        if o == '/' and single(y) and y[1] > 0 and finite(x):
            q = lambda a: int(a / y[1]) if a >= 0 else -int(-a / y[1])
            return iv(q(x[1]), q(x[2]), dd)
        if o == '%' and single(y) and y[1] > 0:
            if single(x) and x[1] >= 0:
                return iv(x[1] % y[1], x[1] % y[1], dd)
            if x[4] % y[1] == 0 and x[1] >= 0:
                return iv(x[5] % y[1], x[5] % y[1], dd)
            if x[1] >= 0 and x[2] < y[1]:
                return x
            if x[1] == -INF and x[2] == INF:
                return iv(-(y[1] - 1), y[1] - 1, True)
            return iv(0 if x[1] >= 0 else -(y[1] - 1), y[1] - 1, dd)
        if o in ('<', '<=', '>', '>=', '==', '!='):
            return self.cmp(o, x, y)
        if o == '<<' and single(x) and single(y) and 0 <= y[1] < 63:
            return iv(x[1] << y[1], x[1] << y[1], dd)
        if o == '>>' and single(x) and single(y) and 0 <= y[1] < 63:
            return iv(x[1] >> y[1], x[1] >> y[1], dd)
        if o == '&' and single(x) and single(y):
            return iv(x[1] & y[1], x[1] & y[1], dd)
        return None

    @staticmethod
    def m(a, b):
        if a == 0 or b == 0:
            return 0
        return a * b

    @staticmethod
    def cmp(o, x, y):
        T, F = iv(1, 1), iv(0, 0)
        if o in ('>', '>='):
            x, y, o = y, x, {'>': '<', '>=': '<='}[o]
        if o == '<':
            return T if x[2] < y[1] else F if x[1] >= y[2] else None
        if o == '<=':
            return T if x[2] <= y[1] else F if x[1] > y[2] else None
        if single(x) and single(y):
            r = (x[1] == y[1])
        elif x[2] < y[1] or y[2] < x[1]:
            r = False
        else:
            return None
        if o == '!=':
            r = not r
        return T if r else F

    def padd(self, p, k):
        r = p[1]
        if not isinstance(r, Ref):
            return None
        if r.obj is not None and r.exact and r.shape and single(k) or r.obj is not None and r.exact and r.shape and k is None:
            if k is None:
                return ('p', Ref(r.obj, (None,) + r.shape[1:], None, 0, r.cells(), r.ts))
            n = r.shape[0] - k[1]
            return ('p', Ref(r.obj, (n,) + r.shape[1:], r.st, r.off + int(k[1]) * r.st[0], None, r.ts), ) if n >= 0 else None
        return ('p', Ref(r.obj, (None,) + tuple(r.shape[1:]), None, 0, r.mask if not isinstance(r.mask, tuple) else None, r.ts)) if r.shape else None

    def e_un(self, e, fr, st):
        o = e['o']
        if '++' in o or '--' in o:
            r = self.ev(e['e'], fr, st)
            v = self.tov(r, st, fr, e)
            d = 1 if '++' in o else -1
            nv = iadd(v, iv(d, d)) if is_iv(v) else self.padd(v, iv(d, d)) if isinstance(v, tuple) and v[0] == 'p' else None
            if isinstance(r, Ref):
                self.store(r, nv, st)
            return v if o.startswith('p') else r
        if o == '&':
            x = self.ev(e['e'], fr, st)
            return ('p', x) if isinstance(x, Ref) else None
        if o == '*':
            x = self.ev(e['e'], fr, st)
            if isinstance(x, Ref):
                x = self.tov(x, st, fr, e)
            if isinstance(x, tuple) and x[0] == 'p' and isinstance(x[1], Ref):
                r = x[1]
                if r.shape and r.obj is not None and r.obj.kind == 'cells' and (eig(r.ts) is None):
                    return self.sub(r, [iv(0, 0)], fr, st, e)
                return r
            return self.typed(fr.T[e['t']])
        if o == '!':
            c = self.cond(e['e'], fr, st)
            return iv(int(not c), int(not c)) if c is not None else None
        x = self.rv(e['e'], fr, st)
        if o == '-' and is_iv(x):
            return ineg(x)
        if o == '+':
            return x
        return None

    def store(self, r, v, st):
        if r.obj is None:
            if isinstance(r.mask, tuple) and r.mask[0] == 'v':
                _, oid, k, _ = r.mask
                el = st.el.get(oid)
                if el is not None:
                    if k is not None and k < len(el):
                        st.el[oid] = el[:k] + (v,) + el[k + 1:]
                    else:
                        st.el.pop(oid, None)
            return
        self.define(r, st)
        if r.obj.kind == 'cells' and r.obj.shape == ():
            st.val[r.obj.id] = v
            st.rel.pop(r.obj.id, None)

    def pend(self, r, e, st):
        """a variable takes the outcome of a call whose effects depend on it"""
        while isinstance(e, dict) and e.get('k') == 'cast':
            e = e['e']
        if self.split is not None and isinstance(e, dict) and self.split[0] == id(e) and isinstance(r, Ref) and r.obj is not None \
                and r.obj.kind == 'cells' and r.obj.shape == () and is_int_ts(r.obj.ts):
            st.rel[r.obj.id] = self.split[1]

    def assign(self, r, v, fr, st, e):
        """r = v"""
        if isinstance(v, Ref):
            if v.obj is not None and v.obj.kind == 'struct' or r.obj is not None and r.obj.kind == 'struct':
                if r.obj is not None and r.obj.kind == 'struct':
                    self.assign_struct(r.obj, v, st)
                else:
                    self.store(r, None, st)
                return
            if v.obj is not None and v.obj.kind == 'vec' and r.obj is not None and r.obj.kind == 'vec':
                st.ln[r.obj.id] = st.ln.get(v.obj.id, iv(0, INF))
                if v.obj.id in st.el:
                    st.el[r.obj.id] = st.el[v.obj.id]
                else:
                    st.el.pop(r.obj.id, None)
                return
            if r.shape:
                if v.obj is not None and v.all and r.obj is not None and r.obj.dyn and self.is_whole(r) and (self.unmask(st, v.obj) or st.un.get(('w', v.obj.id))):
                    un = self.unmask(st, v.obj)
                    if None not in v.shape:
                        self.reshape(r.obj, v.shape, st)
                    else:
                        st.shp[r.obj.id] = self.fit(edim(r.obj.ts), v.shape)
                        self.full(r.obj, st)
                    if r.obj.id not in st.shp and r.obj.n == v.obj.n:
                        st.un[r.obj.id] = un
                    if st.un.get(('w', v.obj.id)):
                        st.un[('w', r.obj.id)] = 1
                    return
                if v.obj is not None and v.exact and r.exact and r.obj is not None and v.shape == r.shape and v.obj is not r.obj and self.whole_copy(v) and self.unmask(st, v.obj) & v.cells():
                    # copied as a whole: what is unassigned stays unassigned
                    m = self.unmask(st, r.obj) & ~r.cells()
                    un = self.unmask(st, v.obj)
                    self.unrel(st, r.obj.id)
                    for a, b in zip(r.celllist(), v.celllist()):
                        if un >> b & 1:
                            m |= 1 << a
                    st.un[r.obj.id] = m
                    return
                self.use(v, st, fr, e)
                if v.shape:
                    self.dims(r, v, fr, e)
                if r.obj is not None and r.obj.dyn and self.is_whole(r):
                    d = edim(r.obj.ts)
                    sh = self.fit(d, v.shape) if v.shape else tuple(x if x >= 0 else None for x in d)
                    if None not in sh and sh == r.obj.shape and r.obj.n is not None:
                        st.shp.pop(r.obj.id, None)
                    else:
                        st.shp[r.obj.id] = sh
                    self.full(r.obj, st)
                    return
                self.define(r, st)
                return
            x = self.tov(v, st, fr, e)
            self.store(r, x, st)
            return
        if r.shape and r.obj is not None and r.obj.dyn and self.is_whole(r):
            d = edim(r.obj.ts)
            if d:
                st.shp[r.obj.id] = tuple(x if x >= 0 else None for x in d)
            self.full(r.obj, st)
            return
        self.store(r, v, st)

    def is_whole(self, r):
        return r.obj is not None and (r.all or r.exact and r.shape == r.obj.shape)

    def whole_copy(self, v):
        return v.obj.n is not None and v.cells() == (1 << v.obj.n) - 1

    def assign_struct(self, o, v, st):
        src = v.obj if v.obj is not None and v.obj.kind == 'struct' else None
        if src is None:
            self.define_struct(o, st)
            return
        for n, fo in src.fields.items():
            if fo.kind == 'cells':
                if n not in o.fields:
                    c = self.new(o.name + '.' + n, fo.ts, o.line, o.file, 'cells', fo.shape, fo.dyn, False)
                    o.fields[n] = c
                c = o.fields[n]
                if c.n is not None and c.n == fo.n:
                    st.un[c.id] = self.unmask(st, fo)
            elif fo.kind == 'vec' and n in o.fields:
                st.ln[o.fields[n].id] = st.ln.get(fo.id, iv(0, INF))
        for n, c in o.fields.items():
            if n not in src.fields:
                if c.kind == 'cells' and c.n is not None:
                    st.un[c.id] = (1 << c.n) - 1 if src.un0 and st.un.get(('s', src.id)) != 0 else 0
                elif c.kind == 'vec':
                    st.ln[c.id] = iv(0, INF)
                    st.el.pop(c.id, None)

    def e_asg(self, e, fr, st):
        o = e['o']
        y = self.ev(e['y'], fr, st)
        if o == '=':
            if isinstance(y, Ref) and not y.shape:
                y = self.tov(y, st, fr, e['y'])
            x = self.ev(e['x'], fr, st)
            if isinstance(x, Ref):
                self.assign(x, y, fr, st, e)
                self.pend(x, e['y'], st)
            return x
        y = self.tov(y, st, fr, e['y'])
        x = self.ev(e['x'], fr, st)
        if isinstance(x, Ref):
            v = self.tov(x, st, fr, e['x'])
            nv = None
            if is_iv(v) and is_iv(y):
                if o == '+=':
                    nv = iadd(v, y)
                elif o == '-=':
                    nv = iadd(v, ineg(y))
                elif o == '*=':
                    nv = imul(v, y)
                elif o == '/=' and single(y) and y[1] > 0 and finite(v) and v[1] >= 0:
                    nv = iv(v[1] // y[1], v[2] // y[1], v[3] or y[3])
            elif isinstance(v, tuple) and v[0] == 'p':
                nv = self.padd(v, y) if o == '+=' else None
            self.store(x, nv, st)
        return x

    def sub(self, r, idx, fr, st, e):
        """element or sub-array of a view"""
        shape = r.shape
        eg = eig(r.ts) is not None
        if not shape:
            return Ref(None, (), None, 0, None, '')
        if eg and len(idx) == 1:
            # linear access
            if shape[0] == 1 and len(shape) == 2:
                idx = [iv(0, 0)] + idx
            elif len(shape) == 2 and shape[1] == 1:
                idx = idx + [iv(0, 0)]
            elif len(shape) == 2 and None not in shape:
                x = idx[0]
                n = shape[0] * shape[1]
                self.check(x, n, r, fr, e)
                if single(x) and 0 <= x[1] < n:
                    idx = [iv(x[1] % shape[0], x[1] % shape[0]), iv(x[1] // shape[0], x[1] // shape[0])]
                else:
                    return Ref(r.obj, (), None, 0, r.cells() if r.obj is not None else None, '')
            else:
                if r.obj is None:
                    return Ref(None, (), None, 0, None, '')
                q = Ref(r.obj, (), None, 0, r.cells(), '')
                q.rc = (('any', list(range((r.obj.per or (1, 1))[0]))), ('any', list(range((r.obj.per or (1, 1))[1]))))
                return q
        ok = r.exact
        off = r.off
        for k, x in enumerate(idx):
            if k >= len(shape):
                break
            d = shape[k]
            if d is not None:
                self.check(x, d, r, fr, e)
            if ok and single(x) and (d is None or 0 <= x[1] < d):
                off += int(x[1]) * r.st[k]
            else:
                ok = False
        rest = shape[len(idx):]
        ts = '' if not rest else r.ts
        if ok:
            return Ref(r.obj, rest, r.st[len(idx):], off, None, ts)
        m = None
        if r.obj is not None and r.obj.n is not None:
            m = self.range_cells(r, idx)
        q = Ref(r.obj, rest, None, 0, m, ts)
        if len(idx) == 2 and eg:
            self.narrow(q, r, (idx[0], 1), (idx[1], 1))
        elif not eg:
            q.rc = (('any', list(range((r.obj.per or (1, 1))[0]))), ('any', list(range((r.obj.per or (1, 1))[1])))) if r.obj is not None else None
        return q

    def range_cells(self, r, idx):
        if not r.exact:
            return r.cells()
        cells = [r.off]
        for k, (d, s) in enumerate(zip(r.shape, r.st)):
            if k < len(idx) and finite(idx[k]):
                lo, hi = max(0, int(idx[k][1])), min(d - 1, int(idx[k][2]))
            else:
                lo, hi = 0, d - 1
            cells = [c + j * s for c in cells for j in range(lo, hi + 1)]
        m = 0
        for c in cells:
            if 0 <= c < r.obj.n:
                m |= 1 << c
        return m

    def check(self, x, d, r, fr, e):
        if not finite(x) or d is None:
            return
        self.oblige('bounds', fr, e, (r.obj.name if r.obj is not None else r.ts))
        if (x[1] < 0 or x[2] >= d) and not x[3]:
            self.alarm('bounds', fr, e, 'position %s of %s, where only 0..%d exist' % (self.rng(x), r.obj.name if r.obj is not None else 'a temporary', d - 1))

    def dims(self, a, b, fr, e):
        """assigned or combined element by element"""
        if len(a.shape) != len(b.shape) or not a.shape:
            return
        if a.obj is not None and a.obj.dyn and self.is_whole(a):
            return
        if None in a.shape or None in b.shape:
            known = [(x, y) for x, y in zip(a.shape, b.shape) if x is not None and y is not None]
            if any(x != y for x, y in known) and not (1 in a.shape or 1 in b.shape):
                self.alarm('dims', fr, e, 'a %s matrix is combined with a %s one' % (self.sh(a), self.sh(b)))
            return
        self.oblige('dims', fr, e, '')
        if a.shape != b.shape and not (a.shape[0] * a.shape[1] == b.shape[0] * b.shape[1] and 1 in a.shape and 1 in b.shape):
            self.alarm('dims', fr, e, 'a %s matrix is combined with a %s one' % (self.sh(a), self.sh(b)))

    @staticmethod
    def sh(a):
        return 'x'.join('?' if x is None else str(x) for x in a.shape)

    def e_idx(self, e, fr, st):
        b = self.ev(e['x'], fr, st)
        i = self.rv(e['y'], fr, st)
        if isinstance(b, Ref) and b.obj is not None and b.obj.kind == 'arr':
            return self.arr_at(b, i, fr, st, e)
        if isinstance(b, Ref) and b.shape and eig(b.ts) is None:
            b = ('p', b)
        if isinstance(b, Ref):
            v = self.load(b, st)
            if isinstance(v, tuple) and v[0] == 'p':
                self.use(b, st, fr, e['x'])
                b = v
        if isinstance(b, tuple) and b[0] == 'p':
            r = b[1]
            if isinstance(r, Ref) and r.obj is not None and r.obj.kind == 'arr':
                return self.arr_at(r, i, fr, st, e)
            if isinstance(r, Ref) and r.shape and eig(r.ts) is None:
                return self.sub(r, [i], fr, st, e)
            if isinstance(r, Ref) and single(i) and i[1] == 0:
                return r
        return self.typed(fr.T[e['t']])

    def arr_at(self, r, i, fr, st, e):
        o = r.obj
        if len(r.shape) >= 1 and finite(i):
            self.check(i, r.shape[0], r, fr, e)
        if len(r.shape) > 1:
            q = Ref(o, r.shape[1:], None, 0, None, r.ts)
            return q
        ts = fr.T[e['t']]
        if single(i):
            k = '%d' % i[1]
            if k not in o.fields:
                q = self.make('%s[%s]' % (o.name, k), ts, o.line, fr)
                if q.obj is None:
                    return q
                o.fields[k] = q.obj
                if q.obj.kind == 'vec' and q.obj.id not in st.ln:
                    st.ln[q.obj.id] = iv(0, 0)
                    st.el[q.obj.id] = ()
                if q.obj.kind == 'cells':
                    q.obj.un0 = False
            if o.fields[k].kind == 'vec' and o.fields[k].id not in st.ln:
                st.ln[o.fields[k].id] = iv(0, 0)
                st.el[o.fields[k].id] = ()
            return self.whole(o.fields[k], st)
        for c in o.fields.values():
            if c.kind == 'vec':
                st.ln[c.id] = iv(0, INF)
                st.el.pop(c.id, None)
        q = self.make(o.name + '[?]', ts, o.line, fr)
        if q.obj is not None:
            q.obj.un0 = False
            if q.obj.kind == 'vec':
                st.ln[q.obj.id] = iv(0, INF)
        o.un0 = 'lost'
        return q

    def e_ilist(self, e, fr, st):
        for a in e['a']:
            self.rvu(a, fr, st)
        return self.typed(fr.T[e['t']])

    def e_new(self, e, fr, st):
        at = fr.T[e['at']]
        if e.get('arr'):
            n = self.rv(e['n'], fr, st) if e.get('n') else None
            t = base_ts(at)
            if t in SCALARS:
                o = self.new('new %s[]' % t, t, e['l'], fr.file, shape=(n[1] if single(n) else None,), un=not e.get('init'))
                if o.n is None and not e.get('init'):
                    st.un[('w', o.id)] = 1
                return ('p', self.whole(o))
            return None
        d = {'n': 'new ' + at, 't': e['at'], 'l': e['l']}
        r = self.make('new ' + at[:30], at, e['l'], fr)
        i = e.get('init')
        if r.obj is not None:
            if i is None and r.obj.kind == 'vec':
                self.init_vec(r.obj, None, fr, st)
            else:
                self.init_obj(r, i, fr, st)
        return ('p', r)

    def e_del(self, e, fr, st):
        self.rv(e['e'], fr, st)
        return None

    def e_memfn(self, e, fr, st):
        self.ev(e['b'], fr, st)
        return None

    def e_lambda(self, e, fr, st):
        for c in e['caps']:
            if not c.get('ref') and 'id' in c:
                pass
        return ('lam', e, fr)

    def e_other(self, e, fr, st):
        xs = [self.rvu(a, fr, st) for a in e.get('a', [])]
        if e.get('cls') == 'CXXThrowExpr':
            fr.dead = True
        if len(xs) == 1:
            return xs[0]
        return self.typed(fr.T[e['t']]) if 't' in e else None

    # ------------------------------------------------------------- calls
    def e_ctor(self, e, fr, st):
        ts = fr.T[e['t']]
        t = base_ts(ts)
        if e.get('copy') and len(e['a']) == 1:
            return self.ev(e['a'][0], fr, st)
        r = self.make('temporary', ts, e.get('l') or fr.line, fr)
        if r.obj is None:
            xs = [self.rvu(a, fr, st) for a in e['a']]
            if eig(t) and len(xs) == 1 and isinstance(xs[0], Ref) and eig(t)[0] == 'Matrix':
                return self.typed(ts, xs[0].shape)
            return self.typed(ts)
        if t in SCALARS:
            xs = [self.rv(a, fr, st) for a in e['a']]
            return xs[0] if xs else iv(0, 0)
        if r.obj.kind == 'struct' and t not in self.D.recT:
            for k, a in enumerate(e['a']):
                x = self.ev(a, fr, st)
                self.ext_arg(x, self.D.decl.get(e['fn'], {}), k, st, fr, a)
            r.obj.un0 = False
            return r
        self.init_obj(r, e, fr, st)
        return self.whole(r.obj, st) if r.obj.kind != 'struct' and r.obj.id not in st.shp else self.dynref(r, st) if r.obj.id in st.shp else r

    def e_op(self, e, fr, st):
        o = e['o']
        d = self.D.decl.get(e.get('fn'), {})
        a = e['a']
        f = self.D.fn.get(e.get('fn'))
        if o == '()' and a:
            b = self.ev(a[0], fr, st)
            if isinstance(b, Ref) and b.obj is not None and b.obj.id in st.val and isinstance(st.val[b.obj.id], tuple) and st.val[b.obj.id][0] == 'lam':
                return self.call_lambda(st.val[b.obj.id], a[1:], fr, st)
            if isinstance(b, tuple) and b[0] == 'lam':
                return self.call_lambda(b, a[1:], fr, st)
            if isinstance(b, Ref) and b.obj is not None and b.obj.kind == 'struct' and f is not None:
                return self.call_fn(f, b, a[1:], fr, st, e)
            if isinstance(b, Ref) and eig(b.ts):
                idx = [self.rv(x, fr, st) for x in a[1:]]
                return self.sub(b, idx, fr, st, e)
            for x in a[1:]:
                self.rvu(x, fr, st)
            return self.typed(fr.T[e['t']])
        if o == '[]':
            b = self.ev(a[0], fr, st)
            if isinstance(b, Ref):
                if eig(b.ts):
                    return self.sub(b, [self.rv(a[1], fr, st)], fr, st, e)
                if b.obj is not None and b.obj.kind == 'vec':
                    return self.vec_method('operator[]', b, e, a[1:], fr, st)
                if self.is_cont(b.ts):
                    self.rv(a[1], fr, st)
                    return self.elem(b.ts, None, None, fr)
            self.rvu(a[1], fr, st)
            return self.typed(fr.T[e['t']])
        if o == '=':
            y = self.ev(a[1], fr, st)
            x = self.ev(a[0], fr, st)
            if isinstance(x, Ref):
                if f is not None and not f.get('implicit') and x.obj is not None and x.obj.kind == 'struct':
                    self.define_struct(x.obj, st)
                    return x
                self.assign(x, y, fr, st, e)
            return x
        if o in ('+=', '-=', '*=', '/='):
            y = self.rvu(a[1], fr, st)
            x = self.ev(a[0], fr, st)
            if isinstance(x, Ref):
                if x.obj is not None and x.obj.kind == 'cells':
                    self.use(x, st, fr, a[0])
                if o in ('+=', '-=') and isinstance(y, Ref) and y.shape and x.shape:
                    self.dims(x, y, fr, e)
            return x
        if o in ('<<', ',') and 't' in e and (eig(fr.T[e['t']]) or 'CommaInitializer' in fr.T[e['t']]):
            return self.comma(e, fr, st)
        if o in ('->', '*') and len(a) == 1:
            b = self.ev(a[0], fr, st)
            v = self.load(b, st) if isinstance(b, Ref) else b
            if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], Ref):
                return v[1] if o == '*' else v
            r = self.typed(fr.T[e['t']])
            return r
        xs = [self.rvu(x, fr, st) for x in a]
        if f is not None and f['u'] not in self.stack:
            return self.call_fn(f, None, a, fr, st, e) if not f.get('clsT') else self.call_fn(f, xs[0] if isinstance(xs[0], Ref) else None, a[1:], fr, st, e)
        ts = fr.T[e['t']] if 't' in e else ''
        if o in ('*', '+', '-') and len(xs) == 2 and all(isinstance(x, Ref) and x.shape for x in xs):
            p, q = xs
            if o == '*':
                if len(p.shape) == 2 and len(q.shape) == 2:
                    if p.shape[1] is not None and q.shape[0] is not None:
                        self.oblige('dims', fr, e, '')
                        if p.shape[1] != q.shape[0]:
                            self.alarm('dims', fr, e, 'a %s matrix is multiplied by a %s one' % (self.sh(p), self.sh(q)))
                    return self.typed(ts, (p.shape[0], q.shape[1]))
            else:
                self.dims(Ref(None, p.shape), q, fr, e)
                return self.typed(ts, tuple(x if x is not None else y for x, y in zip(p.shape, q.shape)))
        if o in ('*', '/', '-', '+') and base_ts(ts).startswith('E|'):
            for x in xs:
                if isinstance(x, Ref) and x.shape:
                    return self.typed(ts, x.shape)
        return self.typed(ts) if ts and edim(ts) else None

    def comma(self, e, fr, st):
        b = self.ev(e['a'][0], fr, st)
        self.rvu(e['a'][1], fr, st)
        if isinstance(b, Ref) and e['o'] == '<<':
            self.define(b, st)
            return b
        return b

    def call_lambda(self, lam, args, fr, st):
        _, e, f0 = lam
        if e.get('fn') in self.stack or len(self.stack) > self.maxdepth:
            for x in args:
                self.rvu(x, fr, st)
            return None
        sub = Frame(f0.f)
        sub.alias = dict(f0.alias)
        sub.this, sub.line, sub.inlam = f0.this, f0.line, True
        for p, x in zip(e['params'], args):
            ts = f0.T[p['t']]
            self.bind(sub, p, ts, x, fr, st)
        ex = Ex()
        self.stack.append(e.get('fn'))
        try:
            t = self.stmt(e['body'], sub, st.copy(), ex)
        finally:
            self.stack.pop()
        outs = [(t, None)] if t is not None else []
        outs += ex.ret
        if not outs:
            return None
        s, v = outs[-1]
        for s2, v2 in outs[:-1]:
            s = self.join(s, s2, True)
            v = vjoin(v, v2, True) if not isinstance(v, Ref) and not isinstance(v2, Ref) else None
        self.become(st, s)
        return v

    @staticmethod
    def mode(ts):
        ts = ts.strip()
        if ts.endswith('&'):
            return 'cref' if ts.startswith('const ') else 'mref'
        if ts.endswith(('*', '*const')):
            return 'cptr' if ts.startswith('const ') else 'mptr'
        return 'val'

    def ext_arg(self, x, d, k, st, fr, e):
        """an argument of a function that is not analysed"""
        ps = d.get('p', [])
        p = ps[k] if k < len(ps) else {}
        m = p.get('m', 'val')
        if m in ('mptr', 'cptr', 'val') and isinstance(x, Ref) and x.obj is not None and not x.shape:
            v = self.load(x, st)
            if isinstance(v, tuple) and v[0] == 'p':
                self.use(x, st, fr, e)
                x = v
        if m == 'cptr' and isinstance(x, tuple) and x and x[0] == 'p':
            x = x[1]
        if m in ('ref', 'mref', 'mptr', 'rref', 'nref') or m not in ('val', 'cref', 'cptr'):
            if m in ('val', 'cref', 'cptr'):
                pass
            else:
                self.smear(x, st)
                return
        if isinstance(x, tuple) and x[0] == 'p' and m == 'val' and not p.get('ts', '').startswith('const'):
            self.smear(x[1], st)
            return
        if isinstance(x, Ref) and x.obj is not None and x.obj.kind == 'cells':
            self.use(x, st, fr, e)

    def e_call(self, e, fr, st):
        n = e.get('n', '')
        if n in ('__assert_fail', 'exit', 'abort', '_Exit', 'quick_exit', 'terminate', '__throw_out_of_range', '__builtin_unreachable'):
            fr.dead = True
            return None
        f = self.D.fn.get(e.get('fn'))
        ts = fr.T[e['t']] if 't' in e else ''
        if f is not None:
            return self.call_fn(f, None, e['a'], fr, st, e)
        d = self.D.decl.get(e.get('fn'), {})
        if n in ('Zero', 'Ones', 'Random', 'Identity', 'Constant') and ts and edim(ts):
            xs = [self.rv(a, fr, st) for a in e['a']]
            k = edim(ts)
            if k[0] < 0 or k[1] < 0:
                sh = [x[1] if single(x) else None for x in xs if True]
                if len(sh) == 1 or n == 'Constant' and len(sh) == 2 and 1 in k:
                    sh = [sh[0] if k[0] < 0 else k[0], sh[0] if k[1] < 0 else k[1]]
                if len(sh) >= 2:
                    return self.typed(ts, tuple(sh[:2]))
            return self.typed(ts)
        if n in ('move', 'forward') and len(e['a']) == 1:
            return self.ev(e['a'][0], fr, st)
        if n in ('swap',) and len(e['a']) == 2:
            x, y = self.ev(e['a'][0], fr, st), self.ev(e['a'][1], fr, st)
            for q, a in ((x, e['a'][0]), (y, e['a'][1])):
                if isinstance(q, Ref) and q.obj is not None and q.obj.kind == 'cells':
                    self.use(q, st, fr, a)
            if isinstance(x, Ref) and isinstance(y, Ref):
                u, v = self.load(x, st), self.load(y, st)
                if x.obj is not None and x.obj.kind == 'vec':
                    for q in (x, y):
                        self.smear(q, st)
                else:
                    if not x.shape and not y.shape:
                        self.store(x, v, st)
                        self.store(y, u, st)
            return None
        xs = [self.ev(a, fr, st) for a in e['a']]
        if n in ('min', 'max', '__builtin_abs', 'abs') and xs:
            vs = [self.tov(x, st, fr, a) for x, a in zip(xs, e['a'])]
            if len(vs) == 2 and all(is_iv(v) for v in vs):
                g = min if n == 'min' else max
                return iv(g(vs[0][1], vs[1][1]), g(vs[0][2], vs[1][2]), vs[0][3] or vs[1][3])
            return None
        for k, (x, a) in enumerate(zip(xs, e['a'])):
            self.ext_arg(x, d, k, st, fr, a)
        if isinstance(e.get('callee'), dict):
            b = self.rv(e['callee'], fr, st)
        return self.typed(ts) if ts else None

    def e_mcall(self, e, fr, st):
        b = self.ev(e['b'], fr, st)
        n = e.get('n', '')
        if isinstance(b, Ref) and e.get('ar'):
            v = self.load(b, st)
            b = v[1] if isinstance(v, tuple) and v[0] == 'p' and isinstance(v[1], Ref) else self.typed(base_ts(fr.T[e['b']['t']]).rstrip('*').strip()) if b.obj is None or b.obj.kind != 'struct' else None
        elif isinstance(b, tuple) and b and b[0] == 'p':
            b = b[1] if isinstance(b[1], Ref) else None
        d = self.D.decl.get(e.get('fn'), {})
        ts = fr.T[e['t']] if 't' in e else ''
        if isinstance(b, Ref):
            if b.obj is not None and b.obj.kind == 'vec':
                return self.vec_method(n, b, e, e['a'], fr, st)
            if eig(b.ts) and eig(b.ts)[0] in DECOMP and b.obj is not None and hasattr(b.obj, 'dec'):
                if n == 'compute':
                    self.decompose(b.obj, e['a'], fr, st)
                    return b
                x = self.decomp_part(n, b, ts, fr, st, e)
                if x is not None:
                    for a in e['a']:
                        self.rvu(a, fr, st)
                    return x
            if eig(b.ts) and eig(b.ts)[0] not in DECOMP:
                return self.eig_method(n, b, e, d, ts, fr, st)
        f = self.D.fn.get(e.get('fn'))
        if f is not None and not (d.get('virt') and not e.get('qual') and self.virtual(d, f)):
            return self.call_fn(f, b if isinstance(b, Ref) else None, e['a'], fr, st, e)
        for k, a in enumerate(e['a']):
            x = self.ev(a, fr, st)
            self.ext_arg(x, d, k, st, fr, a)
        if isinstance(b, Ref) and b.obj is not None and b.obj.kind == 'struct' and not d.get('const') and f is not None:
            self.define_struct(b.obj, st)
        if isinstance(b, Ref) and self.is_cont(b.ts) and n in ('operator[]', 'at', 'front', 'back'):
            return self.elem(b.ts, None, None, fr)
        return self.typed(ts) if ts else None

    def virtual(self, d, f):
        try:
            return bool(self.D.overriders(f['u']))
        except Exception:
            return True

    def view(self, r, r0, c0, nr, nc, ts, fr, e):
        """block of a matrix view"""
        R, C_ = (r.shape + (None, None))[:2]
        for x, k, D_ in ((r0, nr, R), (c0, nc, C_)):
            if finite(x) and D_ is not None and k is not None:
                self.oblige('bounds', fr, e, r.obj.name if r.obj is not None else '')
                if (x[1] < 0 or x[2] + k > D_) and not x[3]:
                    self.alarm('bounds', fr, e, 'block of %d from position %s of %s, where only 0..%d exist' % (k, self.rng(x), r.obj.name if r.obj is not None else 'a temporary', D_ - 1))
        ts = ts or r.ts
        if r.obj is None or not r.exact or not (single(r0) and single(c0)) or nr is None or nc is None:
            m = None
            if r.obj is not None:
                m = r.cells()
            q = Ref(r.obj, (nr, nc), None, 0, m, ts)
            self.narrow(q, r, (r0, nr), (c0, nc))
            return q
        off = r.off + int(r0[1]) * r.st[0] + int(c0[1]) * r.st[1]
        if r0[1] < 0 or c0[1] < 0 or r0[1] + nr > R or c0[1] + nc > C_:
            return Ref(r.obj, (nr, nc), None, 0, r.cells(), ts)
        return Ref(r.obj, (int(nr), int(nc)), r.st, off, None, ts)

    def blur(self, b):
        if b.obj is None or b.obj.per is None:
            return None
        k = b.obj.per
        return tuple(('tot',) if x[0] in ('all', 'tot') else ('any', x[1]) for x in (b.rc or (('all',), ('all',))))

    def narrow(self, q, r, a, b):
        if r.obj is not None and r.obj.n is None and r.obj.per is not None:
            k = r.obj.per
            x, y = r.rc or (('all',), ('all',))
            q.rc = (pick(x, a[0], a[1], k[0]), pick(y, b[0], b[1], k[1]))

    def eig_method(self, n, b, e, d, ts, fr, st):
        args = e['a']
        E_ = edim(ts) if ts else None
        Z = iv(0, 0)
        R, C_ = (tuple(b.shape) + (None, None))[:2]
        num = lambda k: iv(k, k) if k is not None else None
        if n in ('block', 'row', 'col', 'head', 'tail', 'segment', 'topRows', 'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols',
                 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner'):
            xs = [self.rv(a, fr, st) for a in args]
            c = lambda x: x[1] if single(x) else None
            nr = E_[0] if E_ and E_[0] >= 0 else None
            nc = E_[1] if E_ and E_[1] >= 0 else None
            if n == 'block':
                if len(xs) == 4:
                    nr, nc = (nr if nr is not None else c(xs[2])), (nc if nc is not None else c(xs[3]))
                return self.view(b, xs[0], xs[1], nr, nc, ts, fr, e)
            if n == 'row':
                return self.view(b, xs[0], Z, 1, C_, ts, fr, e)
            if n == 'col':
                return self.view(b, Z, xs[0], R, 1, ts, fr, e)
            if n in ('head', 'tail', 'segment'):
                isrow = R == 1 and C_ != 1
                k = nc if isrow else nr
                if k is None and xs:
                    k = c(xs[-1])
                N = C_ if isrow else R
                i0 = xs[0] if n == 'segment' else Z if n == 'head' else (num(N - k) if N is not None and k is not None else None)
                return self.view(b, Z, i0, 1, k, ts, fr, e) if isrow else self.view(b, i0, Z, k, 1, ts, fr, e)
            if n in ('topRows', 'bottomRows', 'middleRows'):
                k = nr if nr is not None else c(xs[-1]) if xs else None
                i0 = Z if n == 'topRows' else xs[0] if n == 'middleRows' else num(R - k) if R is not None and k is not None else None
                return self.view(b, i0, Z, k, C_, ts, fr, e)
            if n in ('leftCols', 'rightCols', 'middleCols'):
                k = nc if nc is not None else c(xs[-1]) if xs else None
                i0 = Z if n == 'leftCols' else xs[0] if n == 'middleCols' else num(C_ - k) if C_ is not None and k is not None else None
                return self.view(b, Z, i0, R, k, ts, fr, e)
            if nr is None and xs:
                nr = c(xs[0])
            if nc is None and len(xs) > 1:
                nc = c(xs[1])
            r0 = Z if n.startswith('top') else num(R - nr) if R is not None and nr is not None else None
            c0 = Z if 'Left' in n else num(C_ - nc) if C_ is not None and nc is not None else None
            return self.view(b, r0, c0, nr, nc, ts, fr, e)
        if n in ('operator()', 'operator[]', 'coeff', 'coeffRef'):
            return self.sub(b, [self.rv(a, fr, st) for a in args], fr, st, e)
        if n in ('x', 'y', 'z', 'w') and not args:
            return self.sub(b, [iv('xyzw'.index(n), 'xyzw'.index(n))], fr, st, e)
        if n in ('rows', 'cols', 'size', 'innerSize', 'outerSize'):
            k = R if n == 'rows' else C_ if n == 'cols' else (R * C_ if R is not None and C_ is not None else None) if n == 'size' else None
            return iv(k, k) if k is not None else None
        if n == 'transpose':
            if b.exact and len(b.shape) == 2:
                return Ref(b.obj, (b.shape[1], b.shape[0]), (b.st[1], b.st[0]), b.off, None, ts)
            q = Ref(b.obj, (C_, R), None, 0, b.mask, ts)
            q.rc = self.blur(b)
            return q
        if n in ('diagonal',):
            if b.exact and len(b.shape) == 2:
                return Ref(b.obj, (min(b.shape), 1), (b.st[0] + b.st[1], 1), b.off, None, ts)
            q = Ref(b.obj, (None, 1), None, 0, b.mask, ts)
            q.rc = self.blur(b)
            return q
        if n in ('noalias', 'array', 'matrix', 'derived', 'const_cast_derived', 'real', 'eval', 'topLeftCorner') and not args:
            if n == 'eval':
                self.use(b, st, fr, e)
                return self.typed(ts, b.shape)
            q = Ref(b.obj, b.shape, b.st, b.off, b.mask, ts if edim(ts) else b.ts)
            q.rc, q.all = b.rc, b.all
            return q
        if n in ('setZero', 'setOnes', 'setIdentity', 'setConstant', 'fill', 'setRandom', 'setLinSpaced'):
            xs = [self.rv(a, fr, st) for a in args]
            dims = xs
            if n in ('setConstant', 'fill'):
                dims = xs[:-1]
            if b.obj is not None and b.obj.dyn and dims and self.is_whole(b):
                t = edim(b.obj.ts)
                ds = [x[1] if single(x) else None for x in dims]
                sh = tuple(ds[:2]) if len(ds) >= 2 else tuple(ds[0] if k < 0 else k for k in t)
                self.reshape(b.obj, sh, st)
                self.full(b.obj, st)
                return b
            self.define(b, st)
            if b.obj is not None and b.obj.n is not None and not b.exact and b.mask in (0, None):
                self.full(b.obj, st)
            return b
        if n == 'data' and not args:
            if b.exact and b.st and len(b.shape) == 2 and b.shape[1] == 1:
                return ('p', Ref(b.obj, (b.shape[0],), (b.st[0],), b.off, None, ''))
            return ('p', Ref(b.obj, (R * C_ if R is not None and C_ is not None else None,), None, 0, b.cells() if b.obj is not None else None, ''))
        if n in ('resize', 'conservativeResize'):
            xs = [self.rv(a, fr, st) for a in args]
            if b.obj is not None and b.obj.dyn:
                t = edim(b.obj.ts)
                ds = [x[1] if single(x) else None for x in xs]
                sh = tuple(ds[:2]) if len(ds) >= 2 else tuple((ds[0] if ds else None) if k < 0 else k for k in t)
                if n == 'resize':
                    self.reshape(b.obj, sh, st, periods(xs[:2] if len(xs) >= 2 else [(xs[0] if xs else None) if k < 0 else iv(k, k) for k in t]))
                else:
                    st.shp[b.obj.id] = sh
                    self.full(b.obj, st)
            return None
        xs = [self.ev(a, fr, st) for a in args]
        for k, (x, a) in enumerate(zip(xs, args)):
            self.ext_arg(x, d, k, st, fr, a)
        if n in ('dot', 'cross') and xs and isinstance(xs[0], Ref) and xs[0].shape and b.shape and None not in xs[0].shape and None not in b.shape:
            self.oblige('dims', fr, e, '')
            if b.shape[0] * b.shape[1] != xs[0].shape[0] * xs[0].shape[1]:
                self.alarm('dims', fr, e, 'a %s vector is combined with a %s one' % (self.sh(b), self.sh(xs[0])))
        if b.obj is not None:
            self.use(b, st, fr, e)
        if E_:
            if n in ('normalized', 'cwiseAbs', 'cwiseAbs2', 'cwiseSqrt', 'cwiseInverse', 'conjugate', 'imag', 'cast', 'exp', 'sqrt', 'abs', 'inverse', 'cwiseProduct', 'cwiseQuotient'):
                return self.typed(ts, b.shape)
            if n == 'adjoint':
                return self.typed(ts, (C_, R))
            return self.typed(ts)
        return None

    def bind(self, sub, p, ts, a, fr, st):
        x = self.ev(a, fr, st)
        if ts.endswith('&'):
            if not isinstance(x, Ref):
                o = self.new(p['n'] or 'arg', base_ts(ts.rstrip('&')), fr.line, fr.file, shape=())
                if isinstance(x, tuple) and x[0] == 'lam' or x is not None:
                    st.val[o.id] = x
                x = self.whole(o)
            elif x.obj is not None and ts.rstrip('&').strip().startswith('const ') is False:
                pass
            sub.alias[p['id']] = x
            return
        r = self.make(p['n'] or 'arg', ts, fr.line, fr)
        sub.alias[p['id']] = r
        if r.obj is None:
            return
        o = r.obj
        if o.kind == 'vec':
            st.ln[o.id] = iv(0, INF)
            if isinstance(x, Ref) and x.obj is not None and x.obj.kind == 'vec':
                st.ln[o.id] = st.ln.get(x.obj.id, iv(0, INF))
                if x.obj.id in st.el:
                    st.el[o.id] = st.el[x.obj.id]
            return
        if o.kind == 'struct':
            if isinstance(x, tuple) and x and x[0] == 'lam':
                st.val[o.id] = x
            else:
                self.copy_struct(o, x, st)
            return
        if isinstance(x, Ref) and x.shape and ts.rstrip().endswith(('*', '*const')):
            x = ('p', x)
        if isinstance(x, Ref) and x.shape:
            self.use(x, st, fr, a)
            o.un0 = False
            self.full(o, st)
            if o.dyn:
                st.shp[o.id] = self.fit(edim(o.ts), x.shape)
            return
        v = self.tov(x, st, fr, a)
        o.un0 = False
        self.full(o, st)
        st.val[o.id] = v

    def call_fn(self, f, this, args, fr, st, e):
        if f['u'] in self.stack or len(self.stack) >= self.maxdepth or f.get('body') is None or f['u'] in self.opaque_calls:
            d = {'p': [{'m': self.mode(f['T'][p['t']])} for p in f['params']]}
            for k, a in enumerate(args):
                self.ext_arg(self.ev(a, fr, st), d, k, st, fr, a)
            if this is not None and this.obj is not None and not f.get('const'):
                self.define_struct(this.obj, st) if this.obj.kind == 'struct' else None
            ts = f['T'][f['ret']] if f.get('ret') is not None else ''
            return self.typed(ts) if ts and ts != 'void' else None
        sub = Frame(f)
        sub.this = this
        if this is None and f.get('clsT') and not f.get('static'):
            sub.this = self.this_root(f)
        for p, a in zip(f['params'], args):
            self.bind(sub, p, f['T'][p['t']], a, fr, st)
        for p in f['params'][len(args):]:
            sub.alias[p['id']] = self.param_root(p, f['T'][p['t']], f)
        self.stack.append(f['u'])
        self.calls.append([f['u'], self.steps, 0])
        self.fns.add(f['u'])
        try:
            v, s = self.body(f, sub, st.copy())
        finally:
            self.stack.pop()
            u, s0, sub_ = self.calls.pop()
            t = self.steps - s0
            self.own[u] = self.own.get(u, 0) + t - sub_
            if self.calls:
                self.calls[-1][2] += t
        if s is None:
            fr.dead = True
            return None
        self.become(st, s)
        if self.alt is not None and e is not None:
            self.split = (id(e), self.alt)
        self.alt = None
        if f['q'] == 'opengv::Indices::size':
            x = self.tov(v, st, fr, e) if isinstance(v, Ref) else v
            if x is None or is_iv(x) and x[1] < 1 < x[2]:      # a solver is given at least one correspondence
                return iv(1, x[2] if x is not None else INF)
        return v if v is not None else (self.typed(f['T'][f['ret']]) if f.get('ret') is not None and f['T'][f['ret']] not in ('void',) and edim(f['T'][f['ret']]) else None)


DECOMP = ('JacobiSVD', 'EigenSolver', 'SelfAdjointEigenSolver', 'FullPivLU', 'PartialPivLU', 'ColPivHouseholderQR', 'HouseholderQR', 'FullPivHouseholderQR',
          'ComplexEigenSolver', 'LLT', 'LDLT', 'BDCSVD', 'LevenbergMarquardt', 'GeneralizedEigenSolver', 'RealSchur', 'ComplexSchur')


class Frame:
    def __init__(self, f):
        self.f, self.T, self.file, self.line = f, f['T'], f['file'], f['line']
        self.alias = {}
        self.this = None
        self.dead = False
        self.inlam = False


class Ex:
    def __init__(self):
        self.ret, self.brk, self.cnt = [], [], []
