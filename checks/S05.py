"""Value-flow rule over every instantiation of the robust-problem bases: with
the residual vector of (model, allowed indices) uninterpreted, selection must
leave exactly the filtered map "allowed index where residual < threshold" in the
inlier container, counting must return the sum of the same predicate over the
same residuals, and both must ask for residuals of the allowed indices into an
empty container. Overriders in concrete problems are held to the same rule."""
from resid import *

MIN_OBLIGATIONS = 12
ASSUMPTIONS = ['one residual per requested index is produced (decided by S08/S09)']


def run(C):
    D = load()
    bases = sac_bases(D)
    if len(bases) < 4:
        raise AnalysisError('robust-problem base instantiations not found')
    todo = []
    for t, multi in sorted(bases.items()):
        todo.append((t, t, multi))
    for t, (r, m) in problem_classes(D).items():
        for b in D.bases(t):
            if b in bases:
                todo.append((t, b, m))
    for t, b, multi in todo:
        I = allowed_indices(D, b)
        for name in ('selectWithinDistance', 'countWithinDistance'):
            fs = [f for f in D.fn.values() if f.get('clsT') == t and f['n'] == name]
            if not fs:
                if t == b:
                    raise AnalysisError('%s::%s not found' % (t, name))
                continue
            for f in fs:
                calls = []
                g = make_vg(D, intercepts=[resid_intercept(calls)])
                v, st, fr = g.run(f)
                if isinstance(v, LV):
                    v = g.read(st, v)
                C.vg(g)
                inst = '%s::%s' % (t, name)
                model = mk('deref', mk('par', f['params'][0]['n']))
                thr = mk('par', f['params'][1]['n'])
                dist = mk('resid', model, I)
                C.ob('residuals-requested-once-into-empty', inst, loc(f),
                     len(calls) >= 1 and all(c[1] is model and c[2] is I and empty_scores(c[3], I) for c in calls),
                     '; '.join('model %s, indices %s, container holding %s' % (show(c[1], 6), show(c[2], 6), show(c[3], 6)) for c in calls)
                     or 'no residuals requested')
                i, j = mk('tmpiv', fresh_id()), mk('tmpiv', fresh_id())
                i.meta = j.meta = 'i'
                n = size(I)
                if name == 'selectWithinDistance':
                    if multi:
                        exp = vmap(ZERO, n, j, vfilter(ZERO, size(sel_el(I, j)), i, lt(sel_el(sel_el(dist, j), i), thr, False),
                                                       sel_el(sel_el(I, j), i)))
                    else:
                        exp = vfilter(ZERO, n, i, lt(sel_el(dist, i), thr, False), sel_el(I, i))
                    out = g.read(st, LV(('obj', mk('par', f['params'][2]['n']))))
                    rule = 'selects-indices-below-threshold'
                else:
                    one = lambda d: ite(lt(d, thr, False), ONE, ZERO)
                    if multi:
                        exp = vsum(ZERO, n, j, vsum(ZERO, size(sel_el(I, j)), i, one(sel_el(sel_el(dist, j), i))))
                    else:
                        exp = vsum(ZERO, n, i, one(sel_el(dist, i)))
                    out = v
                    rule = 'counts-residuals-below-threshold'
                C.ob(rule, inst, loc(f), out is exp, 'computes\n %s\nexpected\n %s' % (show(out, 12), show(exp, 12)))
    for t, b, multi in todo:
        fs = [f for f in D.fn.values() if f.get('clsT') == t and f['n'] == 'getDistancesToModel']
        for f in fs:
            I = allowed_indices(D, b)
            calls = []
            g = make_vg(D, intercepts=[resid_intercept(calls)])
            v, st, fr = g.run(f)
            model = mk('deref', mk('par', f['params'][0]['n']))
            C.ob('all-distances-are-those-of-the-allowed-indices', '%s::getDistancesToModel' % t, loc(f),
                 g.read(st, LV(('obj', mk('par', f['params'][1]['n'])))) is mk('resid', model, I), 'calls: %s' % (calls,))
