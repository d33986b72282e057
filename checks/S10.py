"""Value-flow rule: optimizeModelCoefficients of every robust problem is reduced to a value
graph with the library's solver and refinement functions uninterpreted. The
model handed back must be the result of the problem's refinement, that refinement
must be given exactly the supplied inliers (mapped to the correspondences they
denote for multi-camera problems), and the supplied model must be in force where it
starts: as the adapter's pose prior, or as the start value of the call."""
from hypo import *
from rand import same_value
import S11
import nodes as _n
MIN_OBLIGATIONS = 30
ASSUMPTIONS = ['the refinement functions themselves are judged by N01 and M01', 'rotation conversions invert each other (T02)']
# problem -> (refinement functions, how the supplied model enters)
REFINE = {'AbsolutePoseSacProblem': ('optimize_nonlinear', 'absolute'), 'MultiNoncentralAbsolutePoseSacProblem': ('optimize_nonlinear', 'absolute'),
          'CentralRelativePoseSacProblem': ('optimize_nonlinear', 'relative'), 'NoncentralRelativePoseSacProblem': ('optimize_nonlinear', 'relative'),
          'MultiNoncentralRelativePoseSacProblem': ('optimize_nonlinear', 'relative'), 'TranslationOnlySacProblem': ('optimize_nonlinear', 'relative'),
          'RotationOnlySacProblem': ('rotationOnly', None), 'PointCloudSacProblem': ('threept_arun|optimize_nonlinear', None),
          'EigensolverSacProblem': ('eigensolver', 'start'), 'MultiCentralRelativePoseSacProblem': (None, None)}


def run(C):
    D = load()
    for t, (rec, multi) in sorted(problem_classes(D).items(), key=lambda x: x[1][0]['q']):
        short = rec['q'].split('::')[-1]
        if short not in REFINE:
            C.ob('known-problem', rec['q'], '%s:%s' % (rec['file'], rec['line']), False, 'no refinement rule for this robust problem')
            continue
        algs, bl = S11.algorithms(D, rec)
        for an, av in algs:
            for b in bl:
                one(C, D, t, rec, multi, short, an, av, b)


def one(C, D, t, rec, multi, short, an, av, b):
    name = short + (' ' + an if an else '') + (' as central' if b else '')
    s = Scenario(D, t, alg=av, central=b, size=10)
    f = overrider(D, t, 'optimizeModelCoefficients')
    where = loc(f)
    if s.env is None:
        C.ob('constructible', name, where, False, 'no constructor selects this configuration')
        return
    pin, pmod, pout = [p['n'] for p in f['params']]
    inliers = mk('deref', mk('par', pin))
    # --- the supplied model
    mts = base_ts(param_ts(f, 1)).replace('const ', '')
    dm = elem_dim(mts)
    model = mk('deref', mk('par', pmod))
    _n.POSES.discard(model)
    model.dim = dm
    if dm == (3, 4):
        _n.POSES.add(model)
    calls = []

    def solver(vg, e, d, base, args, fr, st):
        if base is not None or not is_solver(D, d):
            return NotImplemented
        c = Call()
        c.name, c.d, c.guard, c.line = d['n'], d, st.guard, e.get('l')
        ts = [d['T'][p['t']] for p in d['p']]
        vals, outs = [], []
        for i, a in enumerate(args):
            x = vg.ev(a, fr, st)
            if isinstance(x, LV):
                if ts[i].endswith('&') and not ts[i].startswith('const ') and ' const' not in ts[i] and i > 0:
                    outs.append(x)
                if i > 0:
                    x = vg.read(st, x)
            vals.append(x)
        c.args, c.adapter, c.prior = vals, vals[0], prior(vg, st, vals[0], fr)
        rest = tuple(x for x in vals[1:] if isinstance(x, N))
        c.res = mk('ref', d['n'], len(calls), *rest)
        c.res.dim = elem_dim(d['rs'])
        c.outs = []
        for lv in outs:
            x = mk('refout', d['n'], len(calls), *rest)
            vg.write(st, lv, x)
            c.outs.append(x)
        calls.append(c)
        return c.res
    import lib

    def conv(vg, e, d, base, args, fr, st):
        # rotation -> Cayley parameters -> rotation is the identity (T02)
        if d['n'] in ('rot2cayley', 'rot2quaternion') and d['q'].startswith('opengv::math'):
            x = mk('rparam', d['n'][4:], vg.rv(args[0], fr, st))
            x.dim = (3, 1) if 'cayley' in d['n'] else (4, 1)
            return x
        if d['n'] in ('cayley2rot', 'quaternion2rot') and d['q'].startswith('opengv::math'):
            x = vg.rv(args[0], fr, st)
            y = unparam(x, d['n'].split('2')[0])
            return y if y is not None else NotImplemented
        return NotImplemented
    g = make_vg(D, inline=lambda d, f: not is_solver(D, d), intercepts=[solver, conv])
    env = dict(s.env)
    args = [None, None, None]
    v, st, fr = g.run(f, args=args, env=env)
    C.vg(g)
    out = g.read(st, LV(('obj', mk('par', pout))))
    want, how = REFINE[short]
    if want is None:
        ok = not calls and (out is model or same_value(out, model))
        C.ob('unrefined', name, where, ok, 'a problem without refinement must hand the supplied model back, got ' + show(out, 6))
        return
    if not C.ob('refines', name, where, len(calls) >= 1, 'no refinement is run'):
        return
    c = calls[-1]
    C.ob('refinement', name, where, all(x.name in want.split('|') for x in calls), 'runs %s, the refinement of this problem is %s' % (', '.join(x.name for x in calls), want))
    C.ob('unconditional', name, where, c.guard is TRUE, 'the refinement only runs under %s' % show(c.guard, 5))
    got = [x for x in c.args[1:] if isinstance(x, N)]
    exp = [inliers] if not multi else [mk('acc', 'convertMultiIndices', s.adapter, inliers)]
    okidx = bool(got) and got[0] in exp or multi and bool(got) and flattened(D, s, f, solver, conv, calls, env)
    C.ob('inliers', name, where, okidx, '%s is run on %s instead of the supplied inliers' % (c.name, show(got[0], 6) if got else 'all correspondences'))
    C.ob('adapter', name, where, isinstance(c.adapter, LV) and obj_of(g, c.adapter, st) is s.adapter, 'the refinement works on another adapter')
    if how in ('absolute', 'relative'):
        R, t_ = ('getR', 'gett') if how == 'absolute' else ('getR12', 'gett12')
        C.ob('start-rotation', name, where, R in c.prior and same_value(c.prior[R], block3(model)), 'the refinement starts from rotation %s' % show(c.prior.get(R, ZERO), 6))
        C.ob('start-translation', name, where, t_ in c.prior and same_value(c.prior[t_], col3(model)), 'the refinement starts from translation %s' % show(c.prior.get(t_, ZERO), 6))
        res = [c.res]
    elif how == 'start':
        st0 = got[1] if len(got) > 1 else None
        R0 = sel_field(st0, 'rotation') if st0 is not None else None
        C.ob('start-rotation', name, where, R0 is not None and same_value(R0, sel_field(model, 'rotation')), 'the refinement starts from %s' % (show(R0, 6) if R0 is not None else 'the adapter prior'))
        res = c.outs + [c.res]
    else:
        res = [c.res]
    C.ob('result', name, where, out in res or any(x.dim and same_value(out, x) for x in res), 'the refined model is %s, not the result of the refinement' % show(out, 6))


def unparam(x, kind):
    """the rotation whose parameters x are, if x is known to be parameters"""
    if x.op == 'rparam' and x.a[0] == kind:
        return x.a[1]
    if x.op == 'mupd':
        # element-wise rewrite of parameters by themselves
        for p in S11.nodes_of(x):
            if p.op == 'rparam' and p.a[0] == kind and same_value(x, p):
                return p.a[1]
    return None


def flattened(D, s, f, solver, conv, calls, env):
    """for inlier sets of several shapes the refinement is given exactly the
    correspondences they denote"""
    for shape in ((2, 3), (0, 4, 1), (1,), (3, 0)):
        ins = [[mk('par', 'n%d_%d' % (c, k)) for k in range(m)] for c, m in enumerate(shape)]
        for y in ins:
            for x in y:
                x.meta = 'i'
        s.frames = len(shape)
        n0 = len(calls)
        g = make_vg(D, inline=lambda d, f: not is_solver(D, d), intercepts=[solver, conv, s.ic_env])
        g.run(f, args=[mk('tup', tuple(mk('tup', tuple(y)) for y in ins)), None, None], env=dict(env))
        want = sorted(acc('convertMultiIndex', s.adapter, num(c), x).id for c, y in enumerate(ins) for x in y)
        for c in calls[n0:]:
            got = [x for x in c.args[1:] if isinstance(x, N)]
            if not got or got[0].op != 'tup' or sorted(x.id for x in got[0].a[0]) != want:
                return False
        if len(calls) == n0:
            return False
        del calls[n0:]
    return True
