"""Value-graph rule: every overload of every public solver is reduced to a value
graph with its numeric core (the internal modules) kept as an
uninterpreted function of the values handed to it. Overloads agree when the
value of the index-list overload, with the k-th list element read as the
correspondence it names, is the value of the explicit-index overload, and with
the list read as the identity over all correspondences is the value of the
overload without a list (equality by random interpretation, loops by the values
they carry). In overloads with a list, every access to the adapter's
correspondences goes through a list element and nothing depends on how many
correspondences the adapter has."""
from resid import *
import rand
from rand import RI, Mat, H, key
MIN_OBLIGATIONS = 50
ASSUMPTIONS = ['the internal solver modules are functions of the values handed to them (no state: L01)']
DATA = ('getBearingVector', 'getBearingVector1', 'getBearingVector2', 'getPoint', 'getPoint1', 'getPoint2', 'getCamOffset', 'getCamOffset1',
        'getCamOffset2', 'getCamRotation', 'getCamRotation1', 'getCamRotation2', 'getWeight')
# solver -> overload shapes that must exist: 'all', 'list', number of explicit indices
SOLVERS = {
    'absolute_pose': {'p2p': ('list', 2), 'p3p_kneip': ('list', 3), 'p3p_gao': ('list', 3), 'gp3p': ('list', 3), 'epnp': ('all', 'list'),
                      'gpnp': ('all', 'list'), 'upnp': ('all', 'list')},
    'relative_pose': {'twopt': ('list', 2), 'twopt_rotationOnly': ('list', 2), 'rotationOnly': ('all', 'list'), 'fivept_stewenius': ('all', 'list'),
                      'fivept_nister': ('all', 'list'), 'fivept_kneip': ('list',), 'sevenpt': ('all', 'list'), 'eightpt': ('all', 'list'),
                      'eigensolver': ('all', 'list', 'all+', 'list+'), 'sixpt': ('all', 'list'), 'ge': ('all', 'list', 'all+', 'list+'),
                      'seventeenpt': ('all', 'list')},
    'point_cloud': {'threept_arun': ('all', 'list')}}


class LRI(RI):
    """loops are values: what they start from, what they carry around and when they stop"""

    def __init__(self, loops, seed=0, fix=None):
        RI.__init__(self, seed)
        self.m = dict(fix or {})
        self.loops = loops
        self.lk = {}

    @staticmethod
    def ordered(L):
        """the carried variables in order of declaration"""
        return sorted(L.vars, key=lambda v: (str(v[0].root[0]), v[0].root[2] if len(v[0].root) > 2 and isinstance(v[0].root[2], int) else 0, str(v[0].path)))

    def loop_key(self, lid):
        r = self.lk.get(lid)
        if r is None:
            self.lk[lid] = H('open')
            L = self.loops[lid]
            r = [self.parts(L.cond) if L.cond is not None else None]
            r += [(self.parts(v[2]), self.parts(v[3])) for v in self.ordered(L) if v[2] is not None and v[3] is not None]
            r += [self.parts(g) for g, _ in L.breaks]
            r = self.lk[lid] = H('loop', r)
        return r

    def opaque(self, n):
        h = None
        if n.op == 'mu' and n.a[0] in self.loops:
            vs = [(i, v) for i, v in enumerate(self.ordered(self.loops[n.a[0]])) if v[1] is n]
            if vs:
                i, v = vs[0]
                h = H('mu', i, self.parts(v[2]))
        elif n.op in ('lx', 'lxe', 'lb', 'someiter') and n.a[0] in self.loops:
            h = H(n.op, self.loop_key(n.a[0]), [self.parts(x) for x in n.a[1:]])
        elif n.op == 'undef':
            h = H('undef')
        elif n.op in ('seq', 'new'):
            h = H(n.op)
        if h is None:
            return RI.opaque(self, n)
        d = n.dim
        return rand.as_mat(h, *d) if rand.small(d) else h


class Identity(LRI):
    """the index list idx reads as the identity over cnt correspondences"""

    def __init__(self, loops, idx, cnt):
        LRI.__init__(self, loops)
        self.idx, self.cnt, self.len = idx, cnt, size(idx)

    def ev_(self, n):
        if n.op == 'el' and n.a[0] is self.idx:
            return self.ev(n.a[1])
        if n is self.len:
            return self.ev(self.cnt)
        return LRI.ev_(self, n)


class Listed(LRI):
    """explicit index parameters read as the first elements of the list"""

    def __init__(self, loops, pars, idx):
        LRI.__init__(self, loops)
        self.as_list = {p: sel_el(idx, num(k)) for k, p in enumerate(pars)}

    def ev_(self, n):
        x = self.as_list.get(n)
        return self.ev(x) if x is not None else LRI.ev_(self, n)


def heavy(d, f):
    if f['q'].startswith('opengv::absolute_pose::modules::Epnp::'):
        return f['n'] != 'compute_pose'
    return '::modules::' not in f['q'] and not f['q'].startswith('opengv::math::')


def shape(f):
    """(kind, index parameters, flags, output parameter)"""
    lists, ints, outs = [], [], []
    for i, p in enumerate(f['params'][1:], 1):
        t = param_ts(f, i)
        if 'vector' in t and 'int' in t:
            lists.append(i)
        elif re.sub(r'const\s+', '', t).strip() in ('unsigned long', 'int', 'size_t', 'unsigned int', 'long'):
            ints.append(i)
        elif t.endswith('&') and 'const' not in t:
            outs.append(i)
    if ints:
        return len(ints), [mk('par', f['params'][i]['n']) for i in ints], outs
    if lists:
        return 'list' + '+' * bool(outs), mk('deref', mk('par', f['params'][lists[0]]['n'])), outs
    return 'all' + '+' * bool(outs), None, outs


import re


def evaluate(C, D, f, outs):
    g = make_vg(D, inline=heavy)
    v, st, fr = g.run(f)
    C.vg(g)
    v = g.read(st, v) if isinstance(v, LV) else v
    res = [v if v is not None else mk('none')]
    for i in outs:
        res.append(g.read(st, LV(('obj', mk('par', f['params'][i]['n'])), (), base_ts(param_ts(f, i)))))
    return g, mk('tup', tuple(res)), res


def every_node(g, roots):
    """the nodes of a result, including those inside the loops it depends on"""
    seen, todo = {}, list(roots)
    lp = set()
    while todo:
        r = todo.pop()
        for n in nodes(r):
            if n in seen:
                continue
            seen[n] = 1
            if n.op in ('mu', 'lx', 'lxe', 'lb', 'someiter') and n.a[0] in g.loops and n.a[0] not in lp:
                lp.add(n.a[0])
                L = g.loops[n.a[0]]
                todo += [x for _, _, e, b in L.vars for x in (e, b) if isinstance(x, N)]
                if L.cond is not None:
                    todo.append(L.cond)
    return list(seen)


def run(C):
    D = load()
    for ns, table in SOLVERS.items():
        for name, want in table.items():
            q = 'opengv::%s::%s' % (ns, name)
            fs = [f for f in D.functions(q) if not any('opengv::Indices' in param_ts(f, i) for i in range(len(f['params'])))]
            by = {}
            for f in fs:
                by[shape(f)[0]] = f
            miss = [str(k) for k in want if k not in by]
            if miss:
                raise AnalysisError('%s: public overloads not found: %s' % (q, ', '.join(miss)))
            one(C, D, '%s::%s' % (ns, name), by)
    # the refinements: each used correspondence contributes the residual of the listed index (as in N01)
    import N01
    for ns in ('absolute_pose', 'relative_pose', 'point_cloud'):
        q = 'opengv::%s::optimize_nonlinear' % ns
        for f in D.functions(q):
            if not any('opengv::Indices' in param_ts(f, i) for i in range(len(f['params']))):
                N01.one(C, D, ns, q, f)


def one(C, D, nm, by):
    ev = {}
    for k, f in by.items():
        kind, idx, outs = shape(f)
        g, v, res = evaluate(C, D, f, outs)
        adapter = mk('par', f['params'][0]['n'])
        ev[k] = (f, idx, g, v, res, adapter)
        allv = every_node(g, res)
        accs = [n for n in allv if n.op == 'acc' and n.a[0] in DATA]
        inst = '%s (%s)' % (nm, '%d indices' % k if isinstance(k, int) else k)
        if str(k).startswith('list'):
            bad = [n for n in accs if any(not (x.op == 'el' and x.a[0] is idx) for x in n.a[2:])]
            C.ob('only-listed', inst, loc(f), accs and not bad,
                 'correspondence data read past the index list: ' + '; '.join(show(b, 5) for b in bad[:3]) if accs else 'no correspondence data reach the result')
            bad = [n for n in allv if n.op == 'acc' and n.a[0] == 'getNumberCorrespondences']
            C.ob('count-of-list', inst, loc(f), not bad, 'the result for an index list depends on the number of correspondences in the adapter')
        elif isinstance(k, int):
            bad = [n for n in accs if any(x not in idx for x in n.a[2:])]
            C.ob('only-listed', inst, loc(f), accs and not bad, 'correspondence data of other indices used: ' + '; '.join(show(b, 5) for b in bad[:3]))
    for k in by:
        if isinstance(k, int):
            f, idx, g, v, res, ad = ev[k]
            f2, idx2, g2, v2, res2, ad2 = ev['list']
            a, b = Listed(g.loops, idx, idx2), LRI(g2.loops)
            align(f, f2, a, b)
            C.ob('explicit-overload', nm, loc(f), a.ev(v) == b.ev(v2),
                 'the overload with explicit indices disagrees with the list overload:\n %s\n %s' % (show(v, 12), show(v2, 12)))
    for s in ('', '+'):
        if 'all' + s in by and 'list' + s in by:
            f, _, g, v, res, ad = ev['all' + s]
            f2, idx2, g2, v2, res2, ad2 = ev['list' + s]
            b = Identity(g2.loops, idx2, acc('getNumberCorrespondences', ad2))
            a = LRI(g.loops)
            align(f, f2, a, b)
            ok = a.ev(v) == b.ev(v2)
            C.ob('all-overload', nm + s, loc(f), ok, 'the overload over all correspondences disagrees with the list overload for the identity list:\n %s\n %s' % (show(v, 12), show(v2, 12)))
    # overloads without an output record: same result, started from the adapter's prior rotation
    for k in ('all', 'list'):
        if k + '+' in by:
            f, idx, g, v, res, ad = ev[k]
            f2, idx2, g2, v2, res2, ad2 = ev[k + '+']
            out = mk('par', f2['params'][shape(f2)[2][0]]['n'])
            start = prior(D, f)
            seedless(C, D, nm, k, f, f2, start)


def align(f, f2, a, b):
    """same-named flags and adapters denote the same inputs whatever the parameters are called"""
    for x, y in zip([p for i, p in enumerate(f['params']) if flag(f, i)], [p for i, p in enumerate(f2['params']) if flag(f2, i)]):
        a.m[mk('par', x['n'])] = b.m[mk('par', y['n'])] = H('flag', x['n'])
    for ff, r in ((f, a), (f2, b)):
        r.m[mk('par', ff['params'][0]['n'])] = H('adapter')


def flag(f, i):
    return re.sub(r'const\s+', '', param_ts(f, i)).strip() == 'bool'


def prior(D, f):
    at = base_ts(param_ts(f, 0)).replace('const ', '')
    m = [y for y in D.fn.values() if y.get('clsT') == at and y['n'] == 'getR12' and not y['params']]
    if len(m) != 1:
        raise AnalysisError('%s::getR12 not found' % at)
    g = make_vg(D)
    v, s, _ = g.run(m[0], this=LV(('obj', mk('par', f['params'][0]['n'])), (), at))
    return g.read(s, v) if isinstance(v, LV) else v


def seedless(C, D, nm, k, f, f2, start):
    oi = shape(f2)[2][0]
    ot = base_ts(param_ts(f2, oi))
    root = ('obj', mk('par', f2['params'][oi]['n']))
    g, v, res = evaluate(C, D, f, [])
    recs = [n for n in every_node(g, res) if n.op == 'rec' and n.a[0] == ot and not contains_any(n, lambda x: x.op == 'out')]
    if not C.ob('own-record', '%s (%s)' % (nm, k), loc(f), len(recs) == 1, 'expected one output record prepared by the overload without output record, found %d' % len(recs)):
        return
    if nm.endswith('eigensolver'):
        C.ob('prior-seeded', '%s (%s)' % (nm, k), loc(f), sel_field(recs[0], 'rotation') is start,
             'the iteration starts from %s, not from the adapter\'s prior rotation' % show(sel_field(recs[0], 'rotation'), 6))
    g2 = make_vg(D, inline=heavy)
    v2, st2, _ = g2.run(f2, env={root: recs[0]})
    out = sel_field(g2.read(st2, LV(root, (), ot)), 'rotation')
    a, b = LRI(g.loops), LRI(g2.loops)
    align(f, f2, a, b)
    C.ob('same-with-record', '%s (%s)' % (nm, k), loc(f), a.ev(res[0]) == b.ev(out),
         'the overload without output record is not the rotation of the one with:\n %s\n %s' % (show(res[0], 12), show(out, 12)))
