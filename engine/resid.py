"""Residual definitions shared by the checks on scoring, counting, selecting."""
from lib import *
from spec import *
import nodes as _n

SINGLE, MULTI = 'opengv::sac::SampleConsensusProblem', 'opengv::sac::MultiSampleConsensusProblem'
RP, AP, PC = P + 'relative_pose::', P + 'absolute_pose::', P + 'point_cloud::'


def problem_classes(D):
    """record type -> (record, is multi) of every concrete robust problem"""
    out = {}
    for t, r in D.recT.items():
        bs = D.bases(t)
        s = any(b.startswith(SINGLE + '<') for b in bs)
        m = any(b.startswith(MULTI + '<') for b in bs)
        if (s or m) and r['q'].startswith(P):
            out[t] = (r, m)
    return out


def overrider(D, t, name, nparams=None):
    fs = [f for f in D.fn.values() if f.get('clsT') == t and f['n'] == name and (nparams is None or len(f['params']) == nparams)]
    if len(fs) != 1:
        raise AnalysisError('anchor %s::%s: expected one definition, found %d' % (t, name, len(fs)))
    return fs[0]


THIS = mk('deref', mk('par', 'this'))


def adapter_field(D, t):
    """(field name, value node) of the adapter reference a problem holds"""
    c = [x for x in D.recT[t]['fields'] if x['ts'].endswith('&') and is_adapter_class(D, x['ts'][:-1].replace('const ', ''))]
    if len(c) != 1:
        raise AnalysisError('%s holds %d adapter references, expected one' % (t, len(c)))
    return c[0]['n'], sel_field(THIS, c[0]['n'])


def absolute_residual(f, p, off, crot, model):
    R, t = block3(model), col3(model)
    body = mm(T(R), mi(p, t))
    cam = mm(T(crot), mi(body, off))
    return mi(ONE, dot(f, normalized(cam)))


def pointcloud_residual(p1, p2, model):
    return norm(mi(p1, pl(mm(block3(model), p2), col3(model))))


def rotation_residual(f1, f2, R):
    return mi(ONE, dot(f1, mm(R, f2)))


def relative_residual(f1, f2, p, t, R):
    """p: point in frame 1, view 2 at t with orientation R in frame 1"""
    return pl(mi(ONE, dot(f1, normalized(p))), mi(ONE, dot(f2, normalized(mm(T(R), mi(p, t))))))


def per_index(multi, indices, scores, formula):
    """acceptable final values of the score container for a residual formula;
    formula(i) or formula(f, i)"""
    v1, v2 = mk('tmpiv', fresh_id()), mk('tmpiv', fresh_id())
    v1.meta = v2.meta = 'i'
    if not multi:
        m = vmap(ZERO, size(indices), v1, formula(sel_el(indices, v1)))
        return [cat(scores, m), m]
    m = vmap(ZERO, size(sel_el(indices, v1)), v2, formula(v1, sel_el(sel_el(indices, v1), v2)))
    n = size(indices)
    return [vmapst(scores, ZERO, n, v1, cat(sel_el(scores, v1), m)), vmapst(scores, ZERO, n, v1, m),
            mk('map', *vmap(ZERO, n, v1, m).a)]


def run_scoring(D, t, adapter_classes=None):
    """value graph of the scoring function of problem t"""
    f = overrider(D, t, 'getSelectedDistancesToModel')
    ins = [mk('deref', mk('par', p['n'])) for p in f['params']]
    model, indices, scores = ins
    ts = base_ts(param_ts(f, 0))
    _n.POSES.discard(model)
    model.dim = None
    if '3, 4' in ts or ts.startswith('E|') and '|3|4|' in ts:
        _n.POSES.add(model)
        if not is_vec_ts(ts):
            model.dim = (3, 4)
    elif '3, 3' in ts or ts.startswith('E|') and '|3|3|' in ts:
        model.dim = (3, 3)
        rot(model)
    g = make_vg(D)
    v, st, fr = g.run(f)
    out = g.read(st, LV(('obj', mk('par', f['params'][2]['n']))))
    return f, g, st, model, indices, scores, out


def triangulated(D, adapter, i, t, R):
    """points the library's triangulation functions return for correspondence i
    of the adapter under the relative pose (t, R)"""
    res = []
    for name in ('triangulate2', 'triangulate'):
        f = D.one('opengv::triangulation::' + name)
        g = make_vg(D)
        at = base_ts(param_ts(f, 0))
        a = LV(('obj', adapter), (), at)
        env = {}
        # the prior goes in through the public setter, whatever the field names are
        for setter, x in (('sett12', t), ('setR12', R)):
            m = [y for y in D.fn.values() if y.get('clsT') == at.replace('const ', '') and y['n'] == setter]
            if len(m) != 1:
                raise AnalysisError('adapter setter %s not found' % setter)
            _, s, _ = make_vg(D).run(m[0], args=[x], this=a, env=env)
            env = {k: w for k, w in s.env.items() if k[0] == 'obj'}
        v, s, _ = g.run(f, args=[a, i], env=env)
        if isinstance(v, LV):
            v = g.read(s, v)
        res.append(v)
    return res


def resid_intercept(calls):
    """residuals of (model, indices) become one uninterpreted value; the
    container handed over must be empty (residuals are appended)"""
    def ic(vg, e, d, base, args, fr, st):
        if d['n'] != 'getSelectedDistancesToModel':
            return NotImplemented
        m = vg.rv(args[0], fr, st)
        idx = vg.rv(args[1], fr, st)
        out = vg.ev(args[2], fr, st)
        entry = vg.read(st, out)
        calls.append((vg.read(st, base) if isinstance(base, LV) else base, m, idx, entry, fr, e))
        vg.event('scores', (m, idx, entry), st, e.get('l'), fr)
        vg.write(st, out, mk('resid', m, idx))
        return None
    return ic


def empty_scores(x, idx):
    """an empty container, or (multi) one empty container per frame of idx"""
    return x is EMPTY or (x.op == 'map' and x.a[3] is EMPTY and x.a[0] is ZERO and x.a[1] is size(idx)) or \
        (x.op == 'tup' and all(y is EMPTY for y in x.a[0]))


def allowed_indices(D, cls_t, this=None):
    """content of the container getIndices() of this class returns"""
    f = overrider(D, cls_t, 'getIndices')
    g = make_vg(D)
    v, st, fr = g.run(f)
    if isinstance(v, LV):
        v = g.read(st, v)
    return g.read(st, g.deref(st, v))


def sac_bases(D):
    """instantiated robust-problem base classes: record type -> is multi"""
    return {t: t.startswith(MULTI + '<') for t in D.recT if t.startswith(SINGLE + '<') or t.startswith(MULTI + '<')}
