"""Value-flow composition of every multi-camera adapter's constructor with its
index conversions: frames must be laid out one after the other (flat index =
number of correspondences of all earlier frames + local index, proved from the
loop invariant of the constructor's loop), the frame and local index tables
must list every frame's correspondences in that same order, index-list
conversion must convert member by member, and the totals must be the sums over
frames of the same counts."""
from adapt import *

MIN_OBLIGATIONS = 18
ASSUMPTIONS = ['containers given to one adapter have matching lengths (documented)']
SAME = {A_ + 'NoncentralAbsoluteMultiAdapter': (0, 1, 2, 3), R_ + 'CentralRelativeMultiAdapter': (0, 1), R_ + 'NoncentralRelativeMultiAdapter': (0, 1, 2, 3),
        R_ + 'MANoncentralRelativeMulti': (3, 0, 1)}


def canon(v, P, grp):
    """lengths of containers that match by contract are one length"""
    if not hasattr(v, 'op'):
        return v
    m = {}
    for x in nodes(v):
        if x.op == 'size':
            y = subst(x, {P[k]: P[grp[0]] for k in grp[1:]})
            if y is not x:
                m[x] = y
    return subst(v, m) if m else v


def run(C):
    D = load()
    for t in MULTI:
        rel_ = 'Relative' in t
        nfr = 'getNumberPairs' if rel_ else 'getNumberFrames'
        fidx = 'multiPairIndex' if rel_ else 'multiFrameIndex'
        for x in ctors(D, t):
            g0, st, P = build(D, t, x)
            C.vg(g0)
            grp = SAME[t]
            i = mk('par', '%i')
            p = mk('par', '%p')
            c = mk('par', '%c')
            for z in (i, p, c):
                z.meta = 'i'

            def get(name, *a):
                f = accessor(D, t, name, len(a))
                if f is None:
                    raise AnalysisError('%s::%s not found' % (t, name))
                v, _, g = apply(D, f, st, list(a), t=t)
                C.vg(g)
                return canon(v, P, grp), f
            N, fN = get(nfr)
            n, fn_ = get('getNumberCorrespondences', p)
            inst = '%s/%d' % (t, len(x['params']))
            # local index tables
            for name, want, what in ((fidx, 'frame', 'frame'), ('multiCorrespondenceIndex', 'local', 'local index')):
                v, f = get(name, i)
                ok, why = table(v, i, N, n, p, want)
                C.ob('the %s of a flat index is listed frame by frame' % what, inst, loc(f), ok, '%s: %s' % (why, show(v, 9)[:500]))
            v, f = get('convertMultiIndex', p, c)
            ok, why = offset(g0, v, p, c, N, n, lambda y: canon(y, P, grp))
            C.ob('the flat index is the count of all earlier frames plus the local index', inst, loc(f), ok, '%s: %s' % (why, show(v, 9)[:500]))
            f = accessor(D, t, 'convertMultiIndices', 1)
            g = make_vg(D)
            lst = mk('par', '%list')
            v, st2, fr = g.run(f, env=dict(st.env), cls=t)
            if isinstance(v, LV):
                v = g.read(st2, v)
            C.vg(g)
            par_ = dpar(f['params'][0]['n'])
            ok = convert(v, f, D, t, st, P, grp)
            C.ob('an index list is converted member by member, frame by frame', inst, loc(f), ok, show(v, 10)[:500])
    for b, nfr in ((ADAPTERS[1], 'getNumberPairs'), (ADAPTERS[3], 'getNumberFrames')):
        for t in [b] + [t for t in sorted(D.recT) if b in D.bases(t)]:
            fs = [x for x in D.fn.values() if x.get('clsT') == t and x['n'] == 'getNumberCorrespondences' and not x['params']]
            if not fs:
                if t == b:
                    raise AnalysisError('%s::getNumberCorrespondences not found' % b)
                continue
            g = make_vg(D)
            v, st, fr = g.run(fs[0])
            if isinstance(v, LV):
                v = g.read(st, v)
            C.vg(g)
            this = mk('par', 'this')
            ok = total(v, this, acc(nfr, this))
            C.ob('the total count is the sum over all frames', t, loc(fs[0]), ok, show(v, 9)[:400])


def total(v, this, N):
    if v.op != 'vsum' and v.op != 'sum':
        return False
    lo, hi, bv, body = split_map(v)
    return is_num(lo) and val(lo) == 0 and hi is N and body is acc('getNumberCorrespondences', this, bv)


def split_map(v):
    """(lo, hi, bound variable, body) of map-like nodes"""
    a = v.a
    return a[-4], a[-3], a[-2], a[-1]


def table(v, i, N, n, p, want):
    if v.op != 'el' or v.a[1] is not i:
        return False, 'not a lookup at the flat index'
    t = v.a[0]
    if t.op != 'catloop' or t.a[0].op != 'tup' or t.a[0].a[0]:
        return False, 'the table is not filled frame by frame from empty'
    lo, hi, bv, body = split_map(t)
    if not (is_num(lo) and val(lo) == 0 and hi is N):
        return False, 'the table does not cover the frames 0..count'
    if body.op != 'map':
        return False, 'a frame is not listed correspondence by correspondence'
    l2, h2, b2, el_ = split_map(body)
    if not (is_num(l2) and val(l2) == 0 and h2 is subst(n, {p: bv})):
        return False, 'a frame is not listed with all of its correspondences'
    w = bv if want == 'frame' else b2
    return el_ is w, 'the table lists something else'


def offset(g, v, p, c, N, n, cn):
    rest = sub(v, c)
    if c in set(nodes(rest)):
        return False, 'the local index is not simply added'
    # the per-frame offset is O[p]
    els = [y for y in nodes(rest) if y.op == 'el' and y.a[1] is p]
    O = None
    for y in els:
        if rest is y:
            O = y.a[0]
    if O is None:
        if rest.op in ('vsum', 'sum'):
            lo, hi, bv, body = split_map(rest)
            return is_num(lo) and val(lo) == 0 and hi is p and body is subst(n, {p: bv}), 'not the sum of the counts of earlier frames'
        return False, 'not a lookup at the frame index'
    if O.op != 'lx':
        return False, 'offset table of unknown form'
    mu_ = [y for y in O.a if hasattr(y, 'op') and y.op == 'mu']
    if not mu_:
        return False, 'offset table of unknown form'
    mu_ = mu_[0]
    L = g.loops[mu_.a[0]]
    if not L.trip or L.trip[1] is not ZERO or cn(L.trip[2]) is not N or L.breaks or L.returns or L.conts:
        return False, 'the offsets are not computed for all frames in turn'
    iv = L.trip[0]
    nn = subst(n, {p: iv})
    S = mk('par', '%S')
    m = {}
    vars_ = {mu: (e, b) for lv, mu, e, b in L.vars}
    for lv, mu, e, b in L.vars:
        b = cn(b)
        if e is ZERO and b is add(mu, nn):
            m[mu] = S
        if e.op == 'tup' and not e.a[0] and b.op == 'cat' and b.a[0] is mu and cn(size(b.a[1])) is nn:
            m[size(mu)] = S
    if mu_ not in vars_:
        return False, 'offset table not built in that loop'
    e, b = vars_[mu_]
    b = subst(cn(b), m)
    if b.op == 'push' and b.a[0] is mu_:
        if e.op == 'tup' and not e.a[0] and b.a[1] is S:
            return True, ''
        if e is push(tup0(e), ZERO) and b.a[1] is add(S, nn):
            return True, ''
        return False, 'offset of a frame is %s, not the count of all earlier frames' % show(b.a[1], 6)
    if b is upd_el(mu_, iv, S):
        return True, ''
    return False, 'offset of a frame is %s' % show(b, 6)


def tup0(e):
    return e.a[0] if e.op == 'push' else mk('tup', ())


def convert(v, f, D, t, st, P, grp):
    if v.op != 'catloop' or v.a[0].op != 'tup' or v.a[0].a[0]:
        return False
    lo, hi, bv, body = split_map(v)
    lst = hi.a[0] if hi.op == 'size' else None
    if lst is None or not (is_num(lo) and val(lo) == 0) or body.op != 'map':
        return False
    l2, h2, b2, el_ = split_map(body)
    if not (is_num(l2) and val(l2) == 0 and h2 is size(sel_el(lst, bv))):
        return False
    cf = accessor(D, t, 'convertMultiIndex', 2)
    w1 = acc('convertMultiIndex', mk('par', 'this'), bv, sel_el(sel_el(lst, bv), b2))
    w2, _, _ = apply(D, cf, st, [bv, sel_el(sel_el(lst, bv), b2)], t=t)
    return el_ is w1 or el_ is w2
