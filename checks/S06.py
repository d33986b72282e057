"""Value-flow rules on the sampling machinery of every robust-problem base:
drawIndexSample must copy a prefix of a working permutation that each draw
changes by swapping position i with i + (random mod remaining), for i counting
up from 0; nothing else may write the working permutation except functions that
reset it to the allowed indices; the random source must cover all non-negative
integers; getSamples must hand drawIndexSample a container of exactly the
requested size, only when enough indices exist, and otherwise return no sample
and the largest iteration number, and must return no sample when the problem's own
acceptance test rejects every draw; constructors and setters must install exactly
the requested indices."""
from resid import *
import nodes as _n

MIN_OBLIGATIONS = 40
ASSUMPTIONS = ['index sets given by the user contain no duplicates',
               'std::uniform_int_distribution reaches every value of its range',
               'index sets are smaller than INT_MAX']

INT_MAX = num(2147483647)


def swap_of(v, base):
    """(i, j) when v is base with elements i and j exchanged"""
    if v.op == 'st' and v.a[0].op == 'st' and v.a[0].a[0] is base:
        j, x = v.a[1], v.a[2]
        i, y = v.a[0].a[1], v.a[0].a[2]
        if x is sel_el(base, i) and y is sel_el(base, j):
            return i, j
    return None


def fisher_yates(L, sh, want):
    """the loop draws positions 0..want-1 of sh by swaps; returns an explanation or None.
    sh: (mu, get) with the working vector = get(mu)"""
    mu, bk, get, put = sh
    if L.trip is None or not L.trip[3] or L.breaks or L.returns:
        return 'the drawing loop is not a plain counting loop'
    iv, lo, hi, _ = L.trip
    if lo is not ZERO or hi is not want:
        return 'draws positions %s..%s, expected 0..%s' % (show(lo, 4), show(hi, 6), show(want, 6))
    w = get(mu)
    sw = swap_of(get(bk), w)
    if sw is None:
        return 'an iteration does not exchange two positions of the working indices: %s' % show(get(bk), 8)
    if put is not None and bk is not put(mu, get(bk)):
        return 'an iteration changes other frames too'
    i, j = sw
    if j is iv:
        i, j = j, i
    if i is not iv:
        return 'position %s is exchanged instead of the loop position' % show(i, 6)
    d = sub(j, iv)
    if not (d.op == 'fn' and d.a[0] == 'mod' or d.op == 'mod'):
        return 'the partner is not loop position + (random mod remaining): %s' % show(j, 8)
    a = d.a[1:] if d.op == 'fn' else d.a
    if a[1] is not sub(size(w), iv):
        return 'the partner is drawn from %s positions, expected %s' % (show(a[1], 6), show(sub(size(w), iv), 6))
    if not (a[0].op == 'fn' and a[0].a[0] == 'functor'):
        return 'the partner does not come from the generator of the problem: %s' % show(a[0], 6)
    return None


def as_copy(g, x, base, get, frame=None):
    """a sample filled inside the drawing loop, position by position from the working
    indices just exchanged, is the same as their prefix copied after the loop (later
    passes exchange later positions only)"""
    if x.op != 'lx':
        return x
    L = g.loops[x.a[0]]
    if not L.trip or not L.trip[3]:
        return x
    iv = L.trip[0]
    for lv, mu, entry, bk in L.vars:
        if frame is not None and mu is x.a[1] and entry is base and bk.op == 'st' and bk.a[0] is mu and bk.a[1] is frame:
            mu, bk = sel_el(mu, frame), bk.a[2]
        elif mu is not x.a[1] or entry is not base:
            continue
        if bk.op == 'st' and bk.a[0] is mu and bk.a[1] is iv:
            for lv2, mu2, entry2, bk2 in L.vars:
                if mu2 is not mu and mu2.dim is None and mu2.meta != 'i' and bk.a[2] is sel_el(get(bk2), iv):
                    b = mk('bv', 1)
                    m = mk('map', ZERO, L.trip[2], b, mk('el', get(mk('lx', L.id, mu2)), b))
                    return m if frame is None else mk('st', base, frame, m)
    return x


def check_draw(C, D, t, multi):
    f = overrider(D, t, 'drawIndexSample')
    g = make_vg(D)
    v, st, fr = g.run(f)
    C.vg(g)
    so = ('obj', mk('par', f['params'][0]['n']))
    s0 = mk('deref', so[1])
    out = g.read(st, LV(so))
    inst = t + '::drawIndexSample'
    err = None
    field = None
    if not multi:
        m = as_copy(g, out, s0, lambda x: x)
        if m.op == 'map' and m.a[0] is ZERO and m.a[1] is size(s0) and m.a[3].op == 'el' and m.a[3].a[1] is m.a[2] and \
                m.a[3].a[0].op == 'lx':
            L = g.loops[m.a[3].a[0].a[0]]
            lv, mu, entry, bk = [x for x in L.vars if x[1] is m.a[3].a[0].a[1]][0]
            if lv.root != ('obj', mk('par', 'this')) or len(lv.path) != 1:
                err = 'the sample is copied from something that is not a member of the problem'
            else:
                field = lv.path[0][1]
                if g.read(st, LV(lv.root, lv.path)) is not m.a[3].a[0]:
                    err = 'the working indices change after the copy'
                elif entry is not sel_field(THIS, field):
                    err = 'the working indices are changed before the draws: %s' % show(entry, 6)
                else:
                    err = fisher_yates(L, (mu, bk, lambda x: x, None), size(s0))
        else:
            err = 'the sample is not a prefix of the working indices: %s' % show(out, 8)
    else:
        err = 'the sample is not made of prefixes of the per-frame working indices: %s' % show(out, 8)
        if out.op == 'lx':
            L = g.loops[out.a[0]]
            lv, mu, entry, bk = [x for x in L.vars if x[1] is out.a[1]][0]
            if L.trip and L.trip[3]:
                bk = as_copy(g, bk, mu, lambda x: sel_el(x, L.trip[0]), L.trip[0])
            if L.trip and L.trip[3] and not L.breaks and not L.returns and L.trip[1] is ZERO and L.trip[2] is size(s0) \
                    and entry is s0 and bk.op == 'st' and bk.a[0] is mu and bk.a[1] is L.trip[0]:
                k = L.trip[0]
                m = as_copy(g, bk.a[2], sel_el(mu, k), lambda x: sel_el(x, k))
                src = m.a[3].a[0] if m.op == 'map' and m.a[3].op == 'el' else None
                if m.op == 'map' and m.a[0] is ZERO and m.a[1] is size(sel_el(mu, k)) and m.a[3].op == 'el' and \
                        m.a[3].a[1] is m.a[2] and src.op == 'el' and src.a[1] is k and src.a[0].op == 'lx':
                    L2 = g.loops[src.a[0].a[0]]
                    lv2, mu2, entry2, bk2 = [x for x in L2.vars if x[1] is src.a[0].a[1]][0]
                    outer = [x for x in L.vars if x[0].root == lv2.root and x[0].path == lv2.path]
                    if lv2.root == ('obj', mk('par', 'this')) and len(lv2.path) == 1 and len(outer) == 1 and \
                            outer[0][1] is entry2 and outer[0][3] is src.a[0] and outer[0][2] is sel_field(THIS, lv2.path[0][1]):
                        field = lv2.path[0][1]
                        # the size of the frame is that at the start of the draw
                        _n.SIZEOF.setdefault(sel_el(mu2, k), size(sel_el(entry2, k)))
                        err = fisher_yates(L2, (mu2, bk2, lambda x: sel_el(x, k), lambda m_, x: upd_el(m_, k, x)), size(sel_el(mu, k)))
                    else:
                        err = 'the per-frame working indices are not carried from draw to draw'
    C.ob('sample-is-prefix-of-partial-shuffle', inst, loc(f), err is None, err or '')
    # nothing else of the problem changes
    for r, x in st.env.items():
        if r == ('obj', mk('par', 'this')) and field:
            rest = upd_field(x, field, sel_field(THIS, field))
            same = all(sel_field(x, k) is sel_field(THIS, k) for k, _ in (x.a[2] if x.op == 'rec' else ()) if k != field)
            C.ob('drawing-changes-only-the-working-indices', inst, loc(f), same, show(x, 6))
    return field


def assume(v, c, truth):
    return subst(v, {c: TRUE if truth else FALSE, bnot(c): FALSE if truth else TRUE})


def leaves(v):
    if v.op == 'ite':
        return leaves(v.a[1]) + leaves(v.a[2])
    return [v]


def check_samples(C, D, t, multi):
    f = overrider(D, t, 'getSamples')
    I = allowed_indices(D, t)
    drawn = {}

    def ic(vg, e, d, base, args, fr, st):
        if d['n'] == 'drawIndexSample':
            x = vg.ev(args[0], fr, st)
            drawn[id(e)] = vg.read(st, x)
            vg.write(st, x, mk('drawn', id(e)))
            return None
        if d['n'] == 'isSampleGood':
            x = vg.ev(args[0], fr, st)
            r = mk('good', vg.read(st, x) if isinstance(x, LV) else x, vg.fresh_mu())
            r.meta = 'b'
            return r
        return NotImplemented
    asked = []

    def rejecting(vg, e, d, base, args, fr, st):
        if d['n'] == 'isSampleGood':
            x = vg.ev(args[0], fr, st)
            asked.append(vg.read(st, x) if isinstance(x, LV) else x)
            return FALSE
        return ic(vg, e, d, base, args, fr, st)
    g = make_vg(D, intercepts=[rejecting])
    v, st, fr = g.run(f)
    C.vg(g)
    inst = t + '::getSamples'
    sm = g.read(st, LV(('obj', mk('par', f['params'][1]['n']))))
    C.ob('a-rejected-sample-is-never-returned', inst, loc(f), sm is EMPTY and all(x.op == 'drawn' for x in asked),
         'when isSampleGood rejects every draw the sample returned is %s' % show(sm, 8) if asked else 'isSampleGood is never asked')
    drawn.clear()
    g = make_vg(D, intercepts=[ic])
    v, st, fr = g.run(f)
    C.vg(g)
    it = g.read(st, LV(('obj', mk('par', f['params'][0]['n']))))
    it0 = mk('deref', mk('par', f['params'][0]['n']))
    sm = g.read(st, LV(('obj', mk('par', f['params'][1]['n']))))
    calls = [n for n in nodes(it, sm, *drawn.values()) if n.op == 'call' and
             str(n.a[0]).endswith('::getSampleSizes' if multi else '::getSampleSize')]
    calls = list(dict.fromkeys(calls))
    if len(calls) != 1:
        C.ob('enough-indices-or-no-sample', inst, loc(f), False, 'the requested sample size is read as %s' % [show(c, 4) for c in calls])
        return
    n = calls[0]
    # too few indices
    cond = None
    if not multi:
        cond = lt(size(I), n, True)
        if not contains(it, cond):
            cond = None
    else:
        for x in nodes(it):
            if x.op == 'someiter' and x.a[0] in g.loops:
                L = g.loops[x.a[0]]
                if L.trip and L.trip[1] is ZERO and L.trip[2] is size(n) and L.trip[3]:
                    iv = L.trip[0]
                    want = lt(size(sel_el(I, iv)), sel_el(n, iv), True)
                    if x.a[1] in (want, band(want, lt(iv, size(n), True))):
                        cond = x
    if cond is None:
        C.ob('enough-indices-or-no-sample', inst, loc(f), False,
             'no test "fewer allowed indices than the sample size" decides the result: iterations := %s' % show(it, 8))
    else:
        a, b = assume(it, cond, True), assume(sm, cond, True)
        C.ob('too-few-indices-yield-no-sample-and-stop', inst, loc(f), a is INT_MAX and b is EMPTY,
             'with too few indices iterations := %s, sample := %s' % (show(a, 6), show(b, 6)))
        a, b = assume(it, cond, False), assume(sm, cond, False)
        C.ob('enough-indices-keep-the-iteration-count', inst, loc(f), a is it0, 'iterations := %s' % show(a, 6))
        ok = True
        why = ''
        got = False
        for l in leaves(b):
            if l is EMPTY:
                continue
            if l.op == 'lx':      # only an accepted draw is returned (above), so the loop drew at least once
                l = [bk for lv, mu, entry, bk in g.loops[l.a[0]].vars if mu is l.a[1]][0]
            if l.op != 'drawn':
                ok, why = False, 'a sample that was not drawn is returned: %s' % show(l, 6)
                break
            if not any(l is y for y in asked):
                ok, why = False, 'the sample returned is not the one isSampleGood was asked about'
                break
            got = True
            x = drawn[l.a[0]]
            if x.op == 'mu':      # drawing keeps the sizes, so those before the loop count
                x = [entry for lv, mu, entry, bk in g.loops[x.a[0]].vars if mu is x][0]
            if size(x) is not (size(n) if multi else n):
                ok, why = False, 'sample of size %s, requested %s' % (show(size(x), 6), show(n, 4))
                break
            if multi:
                k = mk('tmpiv', fresh_id())
                if size(sel_el(x, k)) is not sel_el(n, k):
                    ok, why = False, 'frame sample of size %s, requested %s' % (show(size(sel_el(x, k)), 6), show(sel_el(n, k), 4))
                    break
        C.ob('a-returned-sample-was-drawn-with-the-requested-size', inst, loc(f), ok and got, why or 'no sample is ever returned')


def new_target(x):
    return x


def check_indices(C, D, t, base, field, multi):
    """constructors and setters"""
    for f in sorted((f for f in D.fn.values() if f.get('clsT') == t), key=lambda f: f['line']):
        if f['n'] in ('drawIndexSample', 'getSamples') or f.get('dtor'):
            continue
        if not (f.get('ctor') or not f.get('const')):
            continue
        if f['n'] in ('computeModelCoefficients', 'getSelectedDistancesToModel', 'optimizeModelCoefficients',
                      'selectWithinDistance', 'countWithinDistance', 'getDistancesToModel', 'isSampleGood',
                      'getSampleSize', 'getSampleSizes', 'rnd', 'getIndices'):
            continue
        if f.get('ctor') and t == base:
            continue
        g = make_vg(D)
        try:
            v, st, fr = g.run(f)
        except Budget:
            continue
        ptr = ptr_field(D, base)
        this = ('obj', mk('par', 'this'))
        p = g.read(st, LV(this, (('f', ptr),)))
        w = g.read(st, LV(this, (('f', field),)))
        if p is sel_field(THIS, ptr) and w is sel_field(THIS, field) and \
                g.read(st, g.deref(st, p)) is mk('deref', p):
            continue
        C.vg(g)
        now = g.read(st, g.deref(st, p))
        inst = '%s::%s(%s)' % (t, f['n'], ', '.join(x['n'] for x in f['params']))
        C.ob('working-indices-follow-the-allowed-indices', inst, loc(f), w is now,
             'allowed indices := %s, working indices := %s' % (show(now, 8), show(w, 8)))
        given = [i for i in range(len(f['params'])) if is_vec_ts(base_ts(param_ts(f, i)))]
        exp = None
        if f['n'] == 'setUniformIndices':
            pn = f['params'][0]['n']
            i, j = mk('tmpiv', fresh_id()), mk('tmpiv', fresh_id())
            N = mk('par', pn)
            exp = vmap(ZERO, size(N), i, vmap(ZERO, sel_el(N, i), j, j)) if multi else vmap(ZERO, N, j, j)
        elif given:
            exp = mk('deref', mk('par', f['params'][given[0]]['n'])) if param_ts(f, given[0]).endswith('&') else \
                mk('par', f['params'][given[0]]['n'])
        elif f.get('ctor'):
            ad = [i for i in range(len(f['params'])) if is_adapter_class(D, base_ts(param_ts(f, i)))]
            if ad:
                a = mk('par', f['params'][ad[0]]['n'])
                i, j = mk('tmpiv', fresh_id()), mk('tmpiv', fresh_id())
                i.meta = j.meta = 'i'
                if multi:
                    nf = 'getNumberPairs' if 'Relative' in base_ts(param_ts(f, ad[0])) else 'getNumberFrames'
                    exp = vmap(ZERO, acc(nf, a), i, vmap(ZERO, acc('getNumberCorrespondences', a, i), j, j))
                else:
                    exp = vmap(ZERO, acc('getNumberCorrespondences', a), j, j)
        C.ob('allowed-indices-are-those-requested', inst, loc(f), exp is not None and now is exp,
             'allowed indices := %s, expected %s' % (show(now, 8), show(exp, 8) if exp is not None else 'a given set'))


_ptr = {}


def ptr_field(D, base):
    """member holding the allowed indices, read off getIndices()"""
    if base not in _ptr:
        f = overrider(D, base, 'getIndices')
        g = make_vg(D)
        v, st, fr = g.run(f)
        v = g.read(st, v) if isinstance(v, LV) else v
        if v.op != 'fld' and v.op != 'f':
            pass
        c = [x['n'] for x in D.recT[base]['fields'] if sel_field(THIS, x['n']) is v]
        if len(c) != 1:
            raise AnalysisError('getIndices of %s does not return a member' % base)
        _ptr[base] = c[0]
    return _ptr[base]


def check_generator(C, D, t):
    for f in (f for f in D.fn.values() if f.get('clsT') == t and f.get('ctor')):
        g = make_vg(D)
        v, st, fr = g.run(f)
        ds = [n for n in nodes(*[x for x in st.env.values()]) if n.op == 'ctor' and 'uniform_int_distribution' in str(n.a[0])]
        ds = list(dict.fromkeys(ds))
        ok = len(ds) >= 1 and all(len(d.a) == 3 and d.a[1] is ZERO and d.a[2] is INT_MAX for d in ds)
        C.ob('generator-covers-all-non-negative-integers', t, loc(f), ok, 'distributions: %s' % [show(d, 4) for d in ds])


def run(C):
    D = load()
    bases = sac_bases(D)
    if len(bases) < 4:
        raise AnalysisError('robust-problem base instantiations not found')
    cls = problem_classes(D)
    for b, multi in sorted(bases.items()):
        field = check_draw(C, D, b, multi)
        check_samples(C, D, b, multi)
        check_generator(C, D, b)
        if field is None:
            continue
        check_indices(C, D, b, b, field, multi)
        for t, (r, m) in sorted(cls.items()):
            if b in D.bases(t):
                check_indices(C, D, t, b, field, m)
