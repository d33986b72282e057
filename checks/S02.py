"""Dependence rule on the transition system of every robust-estimator
instantiation (see S01): no value reported at the end of a run - return value,
sample, inliers, iteration number, and the model on success - contains the value
any of these had before the run, nor does any loop-carried value it is computed
from; a run changes nothing of the estimator but these (settings are kept) and
uses no static or global variable; without a stored sample the run returns
failure with an empty sample and no inliers, and failing always leaves the
inliers empty."""
from runs import *

MIN_OBLIGATIONS = 100
REPORT = ('model_', 'inliers_', 'iterations_', 'model_coefficients_')


def check(C, D, f):
    R = Run(D, f)
    C.vg(R.g)
    w = loc(f)
    old = {sel_field(THIS, n): n for n in REPORT}
    this = ('obj', mk('par', 'this'))

    kc = R.field_key('model_coefficients_')
    coef = R.vars[kc][1] if kc else None

    def stale(v, seen=None):
        """entry values of reported fields v depends on, through loops"""
        seen = set() if seen is None else seen
        out = set()
        for n in nodes(v):
            if n in old:
                out.add(old[n])
            if n.op in ('glob',) or n.op == 'init' and 'static' in show(n, 3):
                out.add(show(n, 3))
            if n.op in ('lx', 'lxe', 'lb', 'someiter', 'mu') and n.a[0] in R.g.loops and n.a[0] not in seen and n.op != 'lx':
                pass
            if n.op == 'lx' and n not in seen:
                seen.add(n)
                L = R.g.loops[n.a[0]]
                for lv, mu, e, b in L.vars:
                    if mu is n.a[1]:
                        if mu is coef:       # read only when a sample, hence a model, was stored (see below)
                            e = ZERO
                        out |= stale(e, seen) | stale(b, seen)
                        for g_, env in L.breaks:
                            out |= stale(R.g.read(State(dict(env), TRUE), lv), seen)
            if n.op == 'mu' and n not in seen:
                seen.add(n)
                L = R.g.loops.get(n.a[0])
                if L is not None:
                    for lv, mu, e, b in L.vars:
                        if mu is n:
                            e = ZERO if mu is coef else e
                            out |= stale(e, seen) | stale(b, seen)
        return out
    none = eq(ZERO, size(mk('lx', R.L.id, R.vars[R.field_key('model_')][1]))) if R.field_key('model_') else TRUE
    ok_ret = None
    for what in ('ret', 'model_', 'inliers_', 'iterations_'):
        v = R.ret if what == 'ret' else R.final(what)
        s = stale(v)
        C.ob('reported-values-come-from-this-run', '%s %s' % (R.name, what), w, not s, 'depends on the earlier %s' % sorted(s))
    # the model matters on success only: there it is what the loop stored
    kc = R.field_key('model_coefficients_')
    km = R.field_key('model_')
    if kc is None or km is None:
        C.ob('sample-and-model-are-stored', R.name, w, False)
        return
    e = {}
    for c in R.cases():
        for what, gd, v in R.ends(c):
            if gd is FALSE:
                continue
            # model changes together with the sample: initial content survives only while no sample is stored
            both = (v(km) is R.vars[km][1]) == (v(kc) is R.vars[kc][1])
            C.ob('model-is-stored-with-the-sample', R.name, w, both and not stale(subst(v(kc), {R.vars[kc][1]: ZERO})),
                 'sample := %s, model := %s' % (show(v(km), 5), show(v(kc), 5)))
    C.ob('no-sample-is-stored-at-the-start', R.name, w, R.vars[km][2] is EMPTY, show(R.vars[km][2], 5))
    # what else a run changes
    for r, x in R.st.env.items():
        if r == this:
            ch = [k for k, y in (x.a[2] if x.op == 'rec' else ()) if y is not sel_field(THIS, k)]
            C.ob('settings-are-kept', R.name, w, x.op == 'rec' and set(ch) <= set(REPORT), 'also changes %s' % sorted(set(ch) - set(REPORT)))
        elif r[0] == 'glob':
            C.ob('no-static-state', R.name, w, False, 'writes %s' % (r[1],))
    for k in R.vars:
        C.ob('no-static-state', R.name, w, k[0][0] != 'glob', 'carries %s' % (k[0],))
    # failure
    rt = subst(R.ret, {none: TRUE, bnot(none): FALSE})
    C.ob('no-model-means-failure', R.name, w, rt in (FALSE, ZERO), show(rt, 6))
    fi = subst(R.final('inliers_'), {none: TRUE, bnot(none): FALSE})
    C.ob('no-model-means-no-inliers', R.name, w, fi is EMPTY, show(fi, 6))
    fm = R.final('model_')
    lm = mk('lx', R.L.id, R.vars[km][1])
    C.ob('no-model-means-no-sample', R.name, w, all(l in (lm, EMPTY) for l in leaves(fm)), show(fm, 6))
    # the inliers are empty whenever the run fails
    for g_, r_ in paths(R.ret):
        if r_ in (FALSE, ZERO):
            x = R.final('inliers_')
            x = subst(x, facts(g_))
            # conjunction false: the guard of a stored result is the negation
            if x is not EMPTY:
                x = subst(x, {bnot(g_): FALSE, g_: TRUE})
            C.ob('failure-means-no-inliers', R.name, w, x is EMPTY, 'when %s: %s' % (show(g_, 5), show(x, 6)))


def leaves(v):
    if v.op == 'ite':
        return leaves(v.a[1]) + leaves(v.a[2])
    return [v]


def paths(v, g=TRUE):
    if v.op == 'ite':
        return paths(v.a[1], band(g, v.a[0])) + paths(v.a[2], band(g, bnot(v.a[0])))
    if v.op in ('and', 'not', 'eq', 'lt'):
        return [(v, TRUE), (bnot(v), FALSE)]
    return [(g, v)]


def run(C):
    D = load()
    fs = runs(D)
    if len(fs) < 17:
        raise AnalysisError('expected 17 estimator instantiations, found %d' % len(fs))
    for f in fs:
        check(C, D, f)
