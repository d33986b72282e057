"""Stopping rule on the transition system of every RANSAC and multi-camera RANSAC
instantiation (see S01): the variable the iteration counter is compared with
starts at 1, is replaced exactly on passes whose hypothesis is the best so far by
log(1-p)/log(q), q = 1-(count/n)^s clipped to [eps, 1-eps] with n the number of
allowed correspondences over all frames and s the size of the sample over all
frames, and a scored pass is followed by another one exactly when the incremented
counter is below it and the budgets of S03 allow."""
from runs import *

MIN_OBLIGATIONS = 60
ASSUMPTIONS = ['real arithmetic; clipping order is immaterial because eps < 1-eps']
EPS = 2.220446049250313e-16


def total(x, multi):
    if not multi:
        return size(x)
    v = mk('tmpiv', fresh_id())
    v.meta = 'i'
    return vsum(ZERO, size(x), v, size(sel_el(x, v)))


def bounds(R, h, sm):
    th, p = sel_field(THIS, 'threshold_'), sel_field(THIS, 'probability_')
    multi = R.kind == 'MultiRansac'
    n = total(mk('deref', mk('indicesptr')), multi)
    out = []
    for s in (total(sm, multi),):
        q = sub(ONE, fn('pow', div(mk('count', h, th), n), s))
        lo, hi = num(EPS), num(1.0 - EPS)
        for a in (fn('max', lo, q), fn('max', q, lo)):
            for b in (fn('min', hi, a), fn('min', a, hi)):
                out.append(b)
        for a in (fn('min', hi, q), fn('min', q, hi)):
            for b in (fn('max', lo, a), fn('max', a, lo)):
                out.append(b)
    return [div(fn('log', sub(ONE, p)), fn('log', b)) for b in out]


def check(C, D, f):
    R = Run(D, f)
    C.vg(R.g)
    w = loc(f)
    mx = sel_field(THIS, 'max_iterations_')
    ki = R.field_key('iterations_')
    it0 = R.vars[ki][1] if ki else None
    hd = lits(R.H)
    ks = [k for k, (lv, mu, e, b) in R.vars.items() if it0 is not None and mk('lt', it0, mu) in hd or it0 is not None and bnot(mk('le', mu, it0)) in hd]
    C.ob('sampling-continues-below-the-required-number', R.name, w, len(ks) == 1,
         'the header of the loop is %s' % [show(x, 5) for x in hd])
    if len(ks) != 1:
        return
    kk = ks[0]
    kmu = R.vars[kk][1]
    C.ob('required-number-starts-at-one', R.name, w, R.vars[kk][2] is ONE, show(R.vars[kk][2], 4))
    sm, = R.samples
    want = bounds(R, mk('hyp', sm), sm)
    better = 0
    for c in R.cases():
        cmp_ = [(a, t) for a, t in c.asg.items() if a.op in ('lt', 'le') and any(n.op == 'count' for n in nodes(a))]
        scored = c.valid is True and bool(cmp_)
        k1 = c.v[('back', kk)]
        if c.exits:
            continue
        if not scored:
            C.ob('unscored-pass-keeps-the-required-number', R.name, w, k1 is kmu, show(k1, 8))
        elif cmp_[0][1]:
            better += 1
            C.ob('required-number-follows-the-best-inlier-ratio', R.name, w, k1 in want, 'computed as %s, expected %s' % (show(k1, 16), show(want[0], 16)))
        else:
            C.ob('no-better-hypothesis-keeps-the-required-number', R.name, w, k1 is kmu, show(k1, 8))
        cont, nxt = continuation(R, c)
        cs = lits(cont)
        i1 = c.v[('back', ki)]
        if scored:
            C.ob('scored-pass-continues-below-the-required-number', R.name, w, mk('lt', i1, k1) in cs or bnot(mk('le', k1, i1)) in cs,
                 'another pass follows when %s' % [show(x, 5) for x in cs])
        for x in cs:
            d = intlit(x)
            ok = x in (mk('lt', i1, k1), bnot(mk('le', k1, i1)))
            if not ok and d is not None:
                e = sub(sub(mx, i1), d)
                ok = is_num(e) and val(e) == 0
                for k, (lv, mu, en, b) in R.vars.items():
                    e = sub(sub(scale(mx, 10), c.v[('back', k)]), d)
                    ok = ok or k != ki and is_num(e) and val(e) == 0
            C.ob('nothing-else-stops-the-run', R.name, w, ok, 'a pass is only followed by another one if %s' % show(x, 8))
    C.ob('better-hypotheses-update-the-required-number', R.name, w, better == 1, '%d' % better)


def run(C):
    D = load()
    fs = [f for f in runs(D) if not f['clsT'].startswith(SAC + 'Lmeds<')]
    if len(fs) < 10:
        raise AnalysisError('expected 10 RANSAC instantiations, found %d' % len(fs))
    for f in fs:
        check(C, D, f)
