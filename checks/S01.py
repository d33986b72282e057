"""Transition-system rule on every instantiation of the three robust estimators:
the sampling loop is reduced to a value graph with the problem's queries (draw,
hypothesis, count, select, residuals) as uninterpreted values, one pass is split
into all outcomes of those queries, and in every outcome the stored sample,
model and best score must move together: replaced by the sample, its hypothesis
and its score exactly when the score is better, kept otherwise - also on the
passes that leave the loop. The reported inliers must be the selection made with
the stored model and the configured threshold, success must mean that a sample
is stored. For LMedS the score must be the median of the squared, zero-clipped
residuals. How counting and selecting are computed is decided by S05."""
from runs import *

MIN_OBLIGATIONS = 80
ASSUMPTIONS = ['the problem\'s own counting, selecting and residual functions behave as stated in S05, S08 and S09',
               'residual functions return one residual per allowed index']


def median_of_squares(m):
    I = mk('deref', mk('indicesptr'))
    n = size(I)
    v = mk('tmpiv', fresh_id())
    v.meta = 'i'
    r = sel_el(mk('resid', m, I), v)
    out = []
    for c in (ite(mk('lt', r, ZERO), ZERO, r), fn('max', ZERO, r), fn('max', r, ZERO), ite(mk('lt', ZERO, r), r, ZERO), ite(mk('le', r, ZERO), ZERO, r)):
        s = mk('sorted', vmap(ZERO, n, v, mul(c, c)))
        out.append(s)
    return out, n


def penalty_ok(p, m):
    """p is the median of the sorted squares"""
    cands, n = median_of_squares(m)
    odd = even = None
    half = mk('idiv', n, num(2))
    for s in cands:
        o = sel_el(s, half)
        lo = sel_el(s, sub(half, ONE))
        for ev in (scale(add(lo, o), __import__('fractions').Fraction(1, 2)), div(add(lo, o), num(2))):
            e = ite(eq(mk('mod', n, num(2)), ZERO), ev, o)
            if p is e:
                return True
    return False


def check(C, D, f):
    R = Run(D, f)
    C.vg(R.g)
    w = loc(f)
    km, kc = R.field_key('model_'), R.field_key('model_coefficients_')
    if km is None or kc is None:
        C.ob('sample-and-model-are-kept', R.name, w, False, 'the loop does not store the sample and the model')
        return
    m0, c0 = R.vars[km][1], R.vars[kc][1]
    C.ob('no-sample-stored-at-the-start', R.name, w, R.vars[km][2] is EMPTY, 'before the loop the stored sample is %s' % show(R.vars[km][2], 4))
    th = sel_field(THIS, 'threshold_')
    score_var = None
    nbetter = nworse = 0
    for c in R.cases():
        name = '%s [%s]' % (R.name, 'no sample' if c.empty else 'invalid hypothesis' if c.valid is False else 'hypothesis')
        for what, gd, val in R.ends(c):
            if gd is FALSE:
                continue
            m1, c1 = val(km), val(kc)
            better = [(a, t) for a, t in c.asg.items() if a.op in ('lt', 'le') and any(n.op in ('count', 'resid') for n in nodes(a))]
            if c.empty or not c.valid or not better:
                C.ob('unscored-passes-keep-the-best', name, w, m1 is m0 and c1 is c0,
                     'sample := %s, model := %s' % (show(m1, 5), show(c1, 5)))
                if score_var is not None:
                    C.ob('unscored-passes-keep-the-best-score', name, w, val(score_var) is R.vars[score_var][1], show(val(score_var), 6))
                continue
            if len(better) != 1:
                C.ob('one-comparison-decides', name, w, False, '; '.join(show(a, 6) for a, _ in better))
                continue
            (a, t), = better
            sm, = R.samples
            h = mk('hyp', sm)
            # normalise to: score better than variable
            if R.kind == 'Lmeds':
                x, y, tt = a.a[0], a.a[1], t
                if a.op == 'le':
                    x, y, tt = y, x, not t
                ok = penalty_ok(x, h)
                C.ob('score-is-the-median-of-squares', R.name, w, ok, 'the score compared is %s' % show(x, 14))
                sc, bv = x, y
            else:
                x, y, tt = a.a[1], a.a[0], t
                sc, bv = x, y
                C.ob('score-is-the-number-of-inliers', R.name, w, sc is mk('count', h, th), 'compared: %s' % show(a, 8))
            ks = [k for k, v in R.vars.items() if v[1] is bv]
            C.ob('hypothesis-beats-the-best-so-far-strictly', R.name, w, len(ks) == 1, 'comparison %s' % show(a, 8))
            if len(ks) != 1:
                continue
            score_var = ks[0]
            e = R.vars[score_var][2]
            if R.kind == 'Lmeds':
                ok = is_num(e) and float(val_(e)) >= 1.7e308 or e.op == 'limit'
            else:
                ok = is_num(e) and val_(e) < 0
            C.ob('first-hypothesis-always-beats-the-start', R.name, w, ok, 'best score starts at %s' % show(e, 4))
            ext = fn('min' if R.kind == 'Lmeds' else 'max', sc, bv)
            if tt:
                nbetter += 1
                C.ob('better-hypothesis-replaces-sample-model-and-score', R.name, w,
                     m1 is sm and c1 is h and val(score_var) in (sc, ext),
                     'sample := %s, model := %s, best := %s' % (show(m1, 5), show(c1, 5), show(val(score_var), 6)))
            else:
                nworse += 1
                C.ob('no-better-hypothesis-keeps-sample-model-and-score', R.name, w,
                     m1 is m0 and c1 is c0 and val(score_var) in (bv, ext),
                     'sample := %s, model := %s, best := %s' % (show(m1, 5), show(c1, 5), show(val(score_var), 6)))
    C.ob('hypotheses-are-compared', R.name, w, nbetter and nworse, 'no pass compares a score with the best so far')
    # after the loop
    lm, lc = mk('lx', R.L.id, m0), mk('lx', R.L.id, c0)
    none = eq(ZERO, size(lm))
    hy = {none: FALSE, bnot(none): TRUE}
    g0 = R.L.g0
    for x in (g0.a[0] if g0.op == 'and' else (g0,)):
        hy[x] = TRUE
        if x.op == 'not':
            hy[x.a[0]] = FALSE
    sub_ = lambda v: subst(v, hy)
    n0 = eq(ZERO, size(mk('deref', mk('indicesptr'))))
    fm, fc, fi, rt = [sub_(R.final(n)) for n in ('model_', 'model_coefficients_', 'inliers_')] + [sub_(R.ret)]
    if R.kind == 'Lmeds':
        fi, rt = subst(fi, {n0: FALSE}), subst(rt, {n0: FALSE})
        I = mk('deref', mk('indicesptr'))
        iv = mk('tmpiv', fresh_id())
        iv.meta = 'i'
        r = sel_el(mk('resid', lc, I), iv)
        want = [vfilter(ZERO, size(I), iv, k, sel_el(I, iv)) for k in (mk('le', r, th), bnot(mk('lt', th, r)))]
    else:
        want = [mk('selected', lc, th)]
    C.ob('reported-sample-is-the-stored-one', R.name, w, fm is lm, show(fm, 6))
    C.ob('reported-model-is-the-stored-one', R.name, w, fc is lc, show(fc, 6))
    C.ob('reported-inliers-belong-to-the-reported-model', R.name, w, fi in want, show(fi, 12))
    C.ob('stored-sample-means-success', R.name, w, rt in (TRUE, ONE), show(rt, 6))
    no = subst(R.ret, {none: TRUE, bnot(none): FALSE})
    no = subst(no, {x: TRUE for x in ()})
    C.ob('no-stored-sample-means-failure', R.name, w, no in (FALSE, ZERO), show(no, 6))


def val_(x):
    return val(x)


def run(C):
    D = load()
    fs = runs(D)
    if len(fs) < 17:
        raise AnalysisError('expected 17 estimator instantiations, found %d' % len(fs))
    for f in fs:
        check(C, D, f)
