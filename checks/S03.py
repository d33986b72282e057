"""Counter rule on the transition system of every robust-estimator
instantiation (see S01): both counters start at zero; every outcome of a pass
that is followed by another pass increments exactly one of them by one - the
iteration counter when the hypothesis was scored, the skip counter otherwise -
and is followed by another pass only if the incremented counter is still below
its maximum; a pass without a sample ends the run; no pass scores twice. The
iteration number left behind is the counter, or the largest integer when no
sample can be drawn."""
from runs import *

MIN_OBLIGATIONS = 100
ASSUMPTIONS = ['max_iterations_ is not negative and ten times it fits an int']


def check(C, D, f):
    R = Run(D, f)
    C.vg(R.g)
    w = loc(f)
    mx = sel_field(THIS, 'max_iterations_')
    ki = R.field_key('iterations_')
    if ki is None:
        C.ob('iterations-are-counted', R.name, w, False, 'the loop does not change the iteration counter')
        return
    it0 = R.vars[ki][1]
    C.ob('iterations-start-at-zero', R.name, w, R.vars[ki][2] is ZERO, show(R.vars[ki][2], 4))
    ent = {mu: e for k, (lv, mu, e, b) in R.vars.items()}
    hd = lits(subst(R.H, ent))
    C.ob('first-pass-needs-a-budget', R.name, w, subst(R.H, ent) is FALSE or implies_int(hd, mx) or implies_int(hd, scale(mx, 10)) or
         any(bnot(eq(ZERO, x)) in hd for x in (mx, scale(mx, 10))), 'first pass runs when %s' % [show(x, 5) for x in hd])
    limits = set()
    skips = set()
    for c in R.cases():
        tag = 'no sample' if c.empty else 'invalid' if c.valid is False else 'hypothesis'
        scored = c.valid is True and any(a.op in ('lt', 'le') and any(n.op in ('count', 'resid') for n in nodes(a)) for a in c.asg)
        cont, nxt = continuation(R, c)
        if c.empty:
            C.ob('no-sample-ends-the-run', R.name, w, cont is FALSE, 'continues when %s' % show(cont, 6))
            for what, gd, v in R.ends(c):
                if what == 'exit':
                    C.ob('iteration-number-without-sample', R.name, w, v(ki) is (INTMAX if c.few else it0), show(v(ki), 6))
            continue
        for what, gd, v in R.ends(c):
            if gd is FALSE:
                continue
            d = sub(v(ki), it0)
            C.ob('iterations-count-scored-hypotheses', '%s [%s, %s]' % (R.name, tag, what), w, d is (ONE if scored else ZERO),
                 'iterations_ changes by %s on a pass that %s' % (show(d, 5), 'scored a hypothesis' if scored else 'scored nothing'))
        if cont is FALSE:
            continue
        cs = lits(cont)
        if scored:
            C.ob('scored-pass-continues-only-within-the-maximum', R.name, w, implies_int(cs, sub(mx, add(it0, ONE))),
                 'another pass follows when %s' % [show(x, 6) for x in cs])
            for k, (lv, mu, e, b) in R.vars.items():
                if mu in skips:
                    C.ob('scored-pass-is-not-counted-as-skipped', R.name, w, c.v[('back', k)] is mu, show(c.v[('back', k)], 5))
        else:
            got = []
            for k, (lv, mu, e, b) in R.vars.items():
                if k != ki and e is ZERO and sub(c.v[('back', k)], mu) is ONE and implies_int(cs, sub(scale(mx, 10), add(mu, ONE))):
                    got.append(mu)
            C.ob('unscored-pass-uses-one-skip-and-continues-only-within-ten-times-the-maximum', R.name, w, len(got) == 1,
                 'another pass follows when %s' % [show(x, 6) for x in cs])
            skips |= set(got)
    C.ob('one-skip-counter', R.name, w, len(skips) == 1, str(len(skips)))
    # the skip counter never moves down, whatever the outcome
    for c in R.cases():
        for k, (lv, mu, e, b) in R.vars.items():
            if mu in skips and not c.exits:
                C.ob('skip-counter-only-grows', R.name, w, sub(c.v[('back', k)], mu) in (ZERO, ONE), show(c.v[('back', k)], 5))
    for x in R.q.counts + R.q.dists:
        if any(n in R.samples for n in nodes(x[0])):
            v, = R.samples
            gd = subst(x[-2], {mk('valid', v): FALSE})
            C.ob('only-valid-hypotheses-are-scored', R.name, w, gd is FALSE, 'scored when %s' % show(gd, 6))
    # one score and one hypothesis per pass
    sm = R.samples
    sites = {}
    for what, lst in (('hypothesis', R.q.hyps), ('score', R.q.counts + R.q.dists)):
        s = {x[-1] for x in lst if any(n in sm for n in nodes(x[0]))}
        C.ob('one-%s-per-pass' % what, R.name, w, len(s) == 1, 'call sites at lines %s' % sorted(s))
    C.ob('one-draw-per-pass', R.name, w, len(sm) == 1, '%d draws' % len(sm))
    C.ob('iteration-number-is-kept-after-the-loop', R.name, w, subst(R.final('iterations_'), facts(R.L.g0)) is mk('lx', R.L.id, it0),
         show(R.final('iterations_'), 6))


def run(C):
    D = load()
    fs = runs(D)
    if len(fs) < 17:
        raise AnalysisError('expected 17 estimator instantiations, found %d' % len(fs))
    for f in fs:
        check(C, D, f)
