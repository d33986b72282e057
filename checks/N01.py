"""Value-graph rule: for every public overload of the three non-linear
refinements the starting vector handed to the optimiser, the residual functor
it is given and the pose built from the optimised vector are read off the
value graph of the code. With T(x) the pose the function returns for an
optimised vector x: T(starting vector) must be the adapter's prior pose, and the
functor's k-th residual at x must be the defining residual of the k-th used
correspondence under T(x), for every k below the number of used correspondences
and no other. Equalities are decided by random interpretation."""
from resid import *
import rand
from rand import same_value
MIN_OBLIGATIONS = 24
ASSUMPTIONS = ['the prior rotation and the camera rotations are orthonormal', 'real arithmetic: rounding is not modelled',
               'Eigen\'s LevenbergMarquardt minimises the sum of squares of the functor it is given and leaves the optimum in its argument']


def getter(D, st_env, adapter, at, name):
    m = [y for y in D.fn.values() if y.get('clsT') == at and y['n'] == name and not y['params']]
    if len(m) != 1:
        raise AnalysisError('adapter getter %s::%s not found' % (at, name))
    g = make_vg(D)
    v, s, _ = g.run(m[0], this=LV(('obj', adapter), (), at), env=dict(st_env))
    return g.read(s, v) if isinstance(v, LV) else v


def run(C):
    D = load()
    for ns in ('absolute_pose', 'relative_pose', 'point_cloud'):
        q = 'opengv::%s::optimize_nonlinear' % ns
        fs = [f for f in D.functions(q) if not (len(f['params']) > 1 and 'opengv::Indices' in param_ts(f, 1))]
        if len(fs) != 2:
            raise AnalysisError('%s: expected two public overloads, found %d' % (q, len(fs)))
        for f in fs:
            one(C, D, ns, q, f)


def one(C, D, ns, q, f):
    inst = '%s/%d' % (q.replace('opengv::', ''), len(f['params']))
    w = loc(f)
    at = base_ts(param_ts(f, 0)).replace('const ', '')
    adapter = mk('par', f['params'][0]['n'])
    cap = []

    def ic(vg, e, d, base, args, fr, st):
        if d['n'] == 'minimize' and d['q'].startswith('Eigen::'):
            x = vg.rv(args[0], fr, st)
            cap.append((dict(st.env), vg.read(st, base) if isinstance(base, LV) else base, x, st.guard))
        return NotImplemented
    g = make_vg(D, intercepts=[ic])
    v, st, fr = g.run(f)
    C.vg(g)
    v = g.read(st, v) if isinstance(v, LV) else v
    if not C.ob('one-minimisation', inst, w, len(cap) == 1 and cap[0][3] is TRUE, 'expected exactly one unconditional call of minimize(), found %d' % len(cap)):
        return
    env, lm, pack, _ = cap[0]
    outs = [n for n in nodes(v) if n.op == 'out' and n.a[0].op == 'fn' and n.a[0].a[0] == '.minimize']
    if not C.ob('result-from-optimum', inst, w, len(outs) == 1, 'the returned pose is not built from the vector minimize() leaves:\n ' + show(v, 12)):
        return
    X = mk('par', 'X')
    X.dim = (6, 1)
    TX = subst(v, {outs[0]: X})
    C.ob('nothing-else', inst, w, not contains_any(TX, lambda n: n.op in ('undef', 'lx', 'mu', 'seq')), 'the returned pose depends on more than the optimised vector:\n ' + show(TX, 12))
    R_, t_ = ('R12', 't12') if ns != 'absolute_pose' else ('R', 't')
    pR, pt = getter(D, {}, adapter, at, 'get' + R_), getter(D, {}, adapter, at, 'get' + t_)
    pR.dim, pt.dim = (3, 3), (3, 1)
    rot(pR)
    T0 = subst(v, {outs[0]: pack})
    for nm, x, y in (('rotation', region(T0, 0, 0, 3, 3), pR), ('translation', region(T0, 0, 3, 3, 1), pt)):
        C.ob('start-is-prior', inst + ' ' + nm, w, same_value(x, y),
             'the %s unpacked from the starting vector is not the adapter\'s prior:\n start %s\n unpacked %s' % (nm, show(pack, 12), show(x, 12)))
    # the functor
    funs = [n.a[1] for n in nodes(lm) if n.op == 'ctor' and len(n.a) > 1 and isinstance(n.a[1], N) and n.a[1].op == 'rec' and
            any(h['n'] == 'operator()' for h in D.fn.values() if h.get('clsT') == n.a[1].a[0])]
    funs = list(dict.fromkeys(funs))
    if not C.ob('one-functor', inst, w, len(funs) == 1, 'expected one residual functor behind the optimiser, found %d:\n %s' % (len(funs), show(lm, 6))):
        return
    fun = funs[0]
    op = [h for h in D.fn.values() if h.get('clsT') == fun.a[0] and h['n'] == 'operator()' and len(h['params']) == 2]
    if len(op) != 1:
        raise AnalysisError('%s: residual functor %s has %d call operators' % (q, fun.a[0], len(op)))
    op = op[0]
    wf = loc(op)
    root = ('obj', mk('par', 'FUNCTOR'))
    fv = LV(('obj', mk('par', 'FVEC')), (), base_ts(param_ts(op, 1)))
    env2 = dict(env)
    env2[root] = fun
    g2 = make_vg(D)
    _, st2, _ = g2.run(op, args=[X, fv], this=LV(root, (), fun.a[0]), env=env2)
    C.vg(g2)
    out = g2.read(st2, fv)
    n = size(mk('deref', mk('par', f['params'][1]['n']))) if len(f['params']) == 2 else acc('getNumberCorrespondences', adapter)
    pick = (lambda k: sel_el(mk('deref', mk('par', f['params'][1]['n'])), k)) if len(f['params']) == 2 else (lambda k: k)
    mv = sel_field(fun, 'm_values')
    C.ob('residual-count', inst, wf, mv is n, 'number of residuals announced to the optimiser is %s, expected %s' % (show(mv, 6), show(n, 6)))
    ok = out.op == 'mloop' and out.a[1] is ZERO and out.a[2] is n and len(out.a[4].a[0]) == 5
    if not C.ob('one-residual-each', inst, wf, ok, 'the residual vector is not written exactly once per used correspondence:\n ' + show(out, 8)):
        return
    k = out.a[3]
    r0, c0, nr, nc, body = out.a[4].a[0]
    C.ob('residual-position', inst, wf, r0 is k and c0 is ZERO and nr is ONE and nc is ONE, 'residual k is stored at (%s,%s)' % (show(r0, 4), show(c0, 4)))
    i = pick(k)
    R, t = region(TX, 0, 0, 3, 3), region(TX, 0, 3, 3, 1)
    if ns == 'point_cloud':
        exp = [norm(mi(acc('getPoint1', adapter, i), pl(mm(R, acc('getPoint2', adapter, i)), t)))]
    elif ns == 'absolute_pose':
        p = mm(T(R), mi(acc('getPoint', adapter, i), t))
        c = mm(T(acc('getCamRotation', adapter, i)), mi(p, acc('getCamOffset', adapter, i)))
        exp = [mi(ONE, dot(acc('getBearingVector', adapter, i), normalized(c)))]
    else:
        f1, f2 = acc('getBearingVector1', adapter, i), acc('getBearingVector2', adapter, i)
        o1, r1 = acc('getCamOffset1', adapter, i), acc('getCamRotation1', adapter, i)
        o2, r2 = acc('getCamOffset2', adapter, i), acc('getCamRotation2', adapter, i)
        tr, dR = mm(T(r1), pl(mi(t, o1), mm(R, o2))), mm(T(r1), R, r2)
        exp = [relative_residual(f1, f2, p, tr, dR) for p in triangulated(D, adapter, i, tr, dR)]
    C.ob('residual-definition', inst, wf, any(same_value(body, e) for e in exp),
         'residual k at x:\n %s\nexpected\n %s' % (show(body, 14), show(exp[0], 14)))
