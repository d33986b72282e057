"""Hypothesis generation of the robust problems, evaluated symbolically for each
selectable algorithm, with solver functions as uninterpreted results of a given
number of candidates and a sample of the size the problem itself requests."""
from resid import *
from nodes import N
import nodes as _n
import itertools
import re

SOLVERS = ('opengv::absolute_pose', 'opengv::relative_pose', 'opengv::point_cloud')


def is_solver(D, d):
    return '::' in d['q'] and d['q'].rsplit('::', 1)[0] in SOLVERS and bool(d.get('p')) and \
        is_adapter_class(D, base_ts(d['T'][d['p'][0]['t']]).replace('const ', ''))


def elem_dim(ts):
    m = re.search(r'E\|(?:Matrix|Array)\|(\d+)\|(\d+)\|', ts) or re.search(r'Eigen::Matrix<[^,<>]+(?:<[^<>]*>)?, *(\d+), *(\d+)', ts)
    return (int(m.group(1)), int(m.group(2))) if m else None


class Call:
    pass


def sample_member(x, sample):
    return x in sample


class Scenario:
    """one problem class under one algorithm selection"""

    def __init__(self, D, t, alg=None, central=None, frames=2, start=0, size=None):
        self.size = size
        self.extra = None
        self.D, self.t, self.alg, self.central, self.frames, self.start = D, t, alg, central, frames, start
        self.rec, self.multi = problem_classes(D)[t]
        self.afield, self.adapter = adapter_field(D, t)
        self.opaque_calls = []
        self.env = self.construct()
        self.sizes = self.sample_sizes()

    # --- construction through the public constructors
    def ctors(self):
        return [f for f in self.D.fn.values() if f.get('clsT') == self.t and f['n'] == self.rec['q'].rsplit('::', 1)[1]
                and not any(base_ts(param_ts(f, i)).replace('const ', '') == self.t for i in range(len(f['params'])))]

    def construct(self, which=None):
        D, r = self.D, self.rec
        bools = [x['n'] for x in r['fields'] if x['ts'] == 'bool']
        enums = [x['n'] for x in r['fields'] if x['ts'] in D.enums]
        this = LV(('obj', mk('par', 'this')))
        outs = []
        for c in self.ctors():
            ps = [param_ts(c, i) for i in range(len(c['params']))]
            free = [i for i, p in enumerate(ps) if base_ts(p) == 'bool']
            found = None
            for bits in itertools.product((False, True), repeat=len(free)):
                args = [None] * len(ps)
                for i, b in zip(free, bits):
                    args[i] = TRUE if b else FALSE
                if self.alg is not None:
                    for i, p in enumerate(ps):
                        if base_ts(p).replace('const ', '') in D.enums:
                            args[i] = num(self.alg)
                for i, p in enumerate(ps):
                    if self.size is not None and is_int_ts(base_ts(p)) and base_ts(p) != 'bool':
                        args[i] = num(self.size)
                g = make_vg(D, intercepts=[self.ic_env])
                v, st, fr = g.run(c, args=args)
                ok = True
                for n in bools:
                    x = g.read(st, LV(this.root, this.path + (('f', n),)))
                    ok = ok and x is (TRUE if self.central else FALSE) or (is_num(x) and val(x) == int(bool(self.central)))
                for n in enums:
                    x = g.read(st, LV(this.root, this.path + (('f', n),)))
                    ok = ok and (self.alg is None or is_num(x) and val(x) == self.alg)
                if ok:
                    found = {k: w for k, w in st.env.items() if k[0] == 'obj'}
                    break
            outs.append((c, found))
        self.constructors = outs
        for c, e in outs:
            if e is not None:
                self.adapter = next(mk('par', p['n']) for i, p in enumerate(c['params']) if is_adapter_class(self.D, base_ts(param_ts(c, i)).replace('const ', '')))
                return e
        return None

    def ic_env(self, vg, e, d, base, args, fr, st):
        n = d['n']
        if n in ('getNumberFrames', 'getNumberPairs') and base is not None:
            return num(self.frames)
        if n == 'rnd' and not args:
            return num(self.start)
        if n == 'convertMultiIndices' and len(args) == 1 and base is not None:
            x = vg.rv(args[0], fr, st)
            if x.op == 'tup' and all(y.op == 'tup' for y in x.a[0]):
                a = vg.read(st, base) if isinstance(base, LV) else base
                return mk('tup', tuple(acc('convertMultiIndex', self.adapter, num(c), i) for c, y in enumerate(x.a[0]) for i in y.a[0]))
        return NotImplemented

    def sample_sizes(self):
        if self.env is None:
            return None
        f = overrider(self.D, self.t, 'getSampleSizes' if self.multi else 'getSampleSize')
        g = make_vg(self.D, intercepts=[self.ic_env])
        v, st, fr = g.run(f, env=self.env)
        if isinstance(v, LV):
            v = g.read(st, v)
        if not self.multi:
            return int(val(v)) if is_num(v) else None
        if v.op == 'tup' and all(is_num(x) for x in v.a[0]):
            return [int(val(x)) for x in v.a[0]]
        return None

    # --- the hypothesis for n candidates
    def hypothesis(self, ncand, sizes=None):
        sizes = self.sizes if sizes is None else sizes
        D = self.D
        f = overrider(D, self.t, 'computeModelCoefficients')

        def par(nm):
            x = mk('par', nm)
            x.meta = 'i'
            return x
        if self.multi:
            fr_ = [[par('s%d_%d' % (c, k)) for k in range(m)] for c, m in enumerate(sizes)]
            indices = mk('tup', tuple(mk('tup', tuple(y)) for y in fr_))
            self.flat = [acc('convertMultiIndex', self.adapter, num(c), x) for c, y in enumerate(fr_) for x in y]
        else:
            self.flat = [par('s%d' % k) for k in range(sizes)]
            indices = mk('tup', tuple(self.flat))
        calls = []

        def solver(vg, e, d, base, args, fr, st):
            if base is not None or not is_solver(D, d):
                return NotImplemented
            c = Call()
            c.name, c.d, c.line, c.guard = d['n'], d, e.get('l'), st.guard
            ts = [d['T'][p['t']] for p in d['p']]
            vals, outs = [], []
            for i, a in enumerate(args):
                x = vg.ev(a, fr, st)
                if isinstance(x, LV):
                    if ts[i].endswith('&') and not ts[i].startswith('const ') and ' const' not in ts[i] and i > 0:
                        outs.append(x)
                    if i > 0:
                        x = vg.read(st, x)
                vals.append(x)
            c.args = vals
            c.adapter = vals[0]
            c.prior = prior(vg, st, vals[0], fr)
            c.idx = [x for x in vals[1:] if isinstance(x, N) and x.op == 'tup']
            rest = tuple(x for x in vals[1:] if isinstance(x, N))
            key = (d['n'],) + rest
            c.outs = []
            for lv in outs:
                x = mk('solout', *key, len(c.outs))
                vg.write(st, lv, x)
                c.outs.append(x)
            rs = d['rs']
            if 'vector<' in rs:
                dm = elem_dim(rs)
                el = []
                for k in range(ncand):
                    x = mk('sol', *key, k)
                    x.dim = dm
                    if dm == (3, 4):
                        _n.POSES.add(x)
                    el.append(x)
                c.res = mk('tup', tuple(el))
            elif rs != 'void':
                c.res = mk('sol', *key, 0)
                c.res.dim = elem_dim(rs)
                if c.res.dim == (3, 4):
                    _n.POSES.add(c.res)
            else:
                c.res = mk('undef', 'void')
            calls.append(c)
            return c.res
        g = make_vg(D, inline=lambda d, f: not is_solver(D, d), intercepts=[solver, self.ic_env] + ([self.extra] if self.extra else []))
        e0 = State(dict(self.env), TRUE)
        self.entry_prior = prior(g, e0, LV(('obj', self.adapter), (), base_ts(next(x['ts'] for x in self.rec['fields'] if x['n'] == self.afield))), None)
        v, st, fr = g.run(f, args=[indices, None], env=self.env)
        if isinstance(v, LV):
            v = g.read(st, v)
        out = g.read(st, LV(('obj', mk('par', f['params'][1]['n']))))
        self.f, self.g, self.st, self.calls, self.flag, self.out = f, g, st, calls, v, out
        return self


_getters = {}


def prior_getters(D, at):
    if at not in _getters:
        fs = {}
        for t in [at] + [b for b in D.bases(at)]:
            for f in D.fn.values():
                if f['n'] in ('getR', 'gett', 'getR12', 'gett12') and f.get('clsT') == t and not f['params']:
                    fs.setdefault(f['n'], f)
        _getters[at] = fs
    return _getters[at]


def prior(vg, st, a, fr):
    """the pose prior of adapter a where st is, through its public getters"""
    out = {}
    if isinstance(a, LV):
        at = base_ts(vg.classes.get(a.root[1]) or a.ts or '') if a.root[0] == 'obj' else base_ts(a.ts or '')
        at = at.replace('const ', '')
        for n, f in prior_getters(vg.db, at).items():
            g = make_vg(vg.db)
            v, s, _ = g.run(f, this=LV(a.root, a.path, at), env={k: w for k, w in st.env.items() if k[0] == 'obj'})
            out[n] = g.read(s, v) if isinstance(v, LV) else v
    return out
