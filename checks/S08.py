"""Value-flow rule: the scoring function of the absolute-pose, point-cloud and
rotation-only problems is reduced to a value graph from its resolved syntax tree
(calls into adapters are uninterpreted accessors, loops are closed to maps) and
the value left in the score container must be, modulo a normal form for matrix
algebra, the map over the requested indices of the defining residual."""
from resid import *
from rand import same_value

MIN_OBLIGATIONS = 4
ASSUMPTIONS = ['camera rotations and the rotation block of the model are orthonormal',
               'real arithmetic: rounding is not modelled']


def run(C):
    D = load()
    todo = {AP + 'AbsolutePoseSacProblem': 'abs', AP + 'MultiNoncentralAbsolutePoseSacProblem': 'mabs',
            PC + 'PointCloudSacProblem': 'pc', RP + 'RotationOnlySacProblem': 'rot'}
    cl = {r['q']: t for t, (r, m) in problem_classes(D).items()}
    for q, kind in sorted(todo.items()):
        if q not in cl:
            raise AnalysisError('problem class %s not found' % q)
        t = cl[q]
        f, g, st, model, idx, sc, out = run_scoring(D, t)
        C.vg(g)
        _, a = adapter_field(D, t)
        multi = kind == 'mabs'
        if kind == 'abs':
            F = lambda i: absolute_residual(acc('getBearingVector', a, i), acc('getPoint', a, i),
                                            acc('getCamOffset', a, i), acc('getCamRotation', a, i), model)
        elif kind == 'mabs':
            F = lambda c, i: absolute_residual(acc('getBearingVector', a, c, i), acc('getPoint', a, c, i),
                                               acc('getMultiCamOffset', a, c), acc('getMultiCamRotation', a, c), model)
        elif kind == 'pc':
            F = lambda i: pointcloud_residual(acc('getPoint1', a, i), acc('getPoint2', a, i), model)
        else:
            F = lambda i: rotation_residual(acc('getBearingVector1', a, i), acc('getBearingVector2', a, i), model)
        ok = any(same_value(out, x) for x in per_index(multi, idx, sc, F))
        C.ob('residual-definition', q, loc(f), ok,
             'scores after the call:\n %s\nexpected\n %s' % (show(out, 30), show(per_index(multi, idx, sc, F)[0], 30)))
