"""Value-flow rule: the scoring function of every relative-pose problem is
reduced to a value graph from its resolved syntax tree (adapter accessors are
uninterpreted, loops are closed to maps, the triangulation is expanded) and the
value left in the score container must be, modulo a normal form for matrix
algebra, the map over the requested indices of the two-view cosine residual of
the point the library's triangulation returns under the scored model."""
from resid import *
from rand import same_value

MIN_OBLIGATIONS = 6
ASSUMPTIONS = ['camera rotations and the rotation block of the model are orthonormal',
               'real arithmetic: rounding is not modelled',
               'what the triangulation computes is decided by T01']


def run(C):
    D = load()
    todo = {'CentralRelativePoseSacProblem': 'c', 'TranslationOnlySacProblem': 'c', 'EigensolverSacProblem': 'e',
            'NoncentralRelativePoseSacProblem': 'n', 'MultiNoncentralRelativePoseSacProblem': 'mn',
            'MultiCentralRelativePoseSacProblem': 'mc'}
    cl = {r['q']: t for t, (r, m) in problem_classes(D).items()}
    for n, kind in sorted(todo.items()):
        q = RP + n
        if q not in cl:
            raise AnalysisError('problem class %s not found' % q)
        t = cl[q]
        _, a = adapter_field(D, t)
        if kind == 'e':
            f0 = overrider(D, t, 'getSelectedDistancesToModel')
            m0 = mk('deref', mk('par', f0['params'][0]['n']))
            eR, et = sel_field(m0, 'rotation'), sel_field(m0, 'translation')
            eR.dim, et.dim = (3, 3), (3, 1)
            rot(eR)
        f, g, st, model, idx, sc, out = run_scoring(D, t)
        C.vg(g)

        def cam(c, i, k):
            """offset and rotation of the camera that took correspondence i in view k"""
            if kind == 'n':
                return acc('getCamOffset%d' % k, a, i), acc('getCamRotation%d' % k, a, i)
            return acc('getMultiCamOffset', a, c), acc('getMultiCamRotation', a, c)

        def F(which):
            def one(*ci):
                c, i = ci if len(ci) == 2 else (None, ci[0])
                ix = ci
                f1, f2 = acc('getBearingVector1', a, *ix), acc('getBearingVector2', a, *ix)
                if kind == 'e':
                    R, tr = eR, et
                elif kind == 'mc':
                    R, tr = block3(sel_el(model, c)), col3(sel_el(model, c))
                else:
                    R, tr = block3(model), col3(model)
                if kind in ('n', 'mn'):
                    o1, r1 = cam(c, i, 1)
                    o2, r2 = cam(c, i, 2)
                    tr, R = mm(T(r1), pl(mi(tr, o1), mm(R, o2))), mm(T(r1), R, r2)
                flat = ci[0] if len(ci) == 1 else acc('convertMultiIndex', a, *ci)
                p = triangulated(D, a, flat, tr, R)[which]
                return relative_residual(f1, f2, p, tr, R)
            return one
        exp = per_index(kind in ('mn', 'mc'), idx, sc, F(0))
        ok = any(same_value(out, x) for x in exp + per_index(kind in ('mn', 'mc'), idx, sc, F(1)))
        C.ob('residual-definition', q, loc(f), ok,
             'scores after the call:\n %s\nexpected\n %s' % (diffshow(out, exp[0]), diffshow(exp[0], out)))
