"""Adapters: composition of constructors with accessors, and the documented
layout of what each adapter class is given."""
from lib import *
from spec import *
import nodes as _n

R_, A_, PC = 'opengv::relative_pose::', 'opengv::absolute_pose::', 'opengv::point_cloud::'


def vec(p, scale, off):
    """the function i -> the three consecutive doubles at p[scale*i+off..]"""
    def f(P, *ix):
        i = ix[-1]
        base = P[p]
        for j in ix[:-1]:
            base = sel_el(base, j)
        base = mk('deref', base)
        return [sel_el(base, add(mul(num(scale), i), num(off + k))) for k in range(3)]
    return f


def el(p, *via):
    """element of argument p at the index, looked up through the given index arguments"""
    def f(P, *ix):
        i = ix[-1]
        for v in via:
            i = sel_el(P[v], i)
        base = P[p]
        for j in ix[:-1]:
            base = mk('deref', sel_el(base, j))
        return sel_el(base, i)
    return f


def zero(P, *ix):
    return [ZERO] * 3


def ident(P, *ix):
    return [num(1 if r == c else 0) for c in range(3) for r in range(3)]


def one(P, *ix):
    return num(1)


def nel(*ps):
    """number of elements: size of any of the containers (equal by contract)"""
    def f(P, *ix):
        out = []
        for p in ps:
            b = P[p]
            for j in ix:
                b = mk('deref', sel_el(b, j))
            out.append(size(b))
        return ('any', out)
    return f


def cnt(*ps):
    def f(P, *ix):
        out = []
        for p in ps:
            b = P[p]
            for j in ix:
                b = sel_el(b, j)
            out.append(b)
        return ('any', out)
    return f


CENTRAL = {'getCamOffset': zero, 'getCamRotation': ident}
CENTRAL2 = {'getCamOffset1': zero, 'getCamRotation1': ident, 'getCamOffset2': zero, 'getCamRotation2': ident}
# class -> (number of data arguments, {accessor: function of arguments and index}, layout size functions for multi classes)
SPEC = {
    A_ + 'CentralAbsoluteAdapter': (2, dict(CENTRAL, getBearingVector=el(0), getPoint=el(1), getWeight=one, getNumberCorrespondences=nel(0, 1))),
    A_ + 'NoncentralAbsoluteAdapter': (5, dict(getBearingVector=el(0), getPoint=el(2), getWeight=one, getCamOffset=el(3, 1), getCamRotation=el(4, 1),
                                               getNumberCorrespondences=nel(0, 1, 2))),
    A_ + 'NoncentralAbsoluteMultiAdapter': (4, dict(getBearingVector=el(0), getPoint=el(1), getWeight=one, getMultiCamOffset=el(2), getMultiCamRotation=el(3),
                                                    getNumberCorrespondences=nel(0, 1), getNumberFrames=nel(0, 1, 2, 3))),
    A_ + 'MACentralAbsolute': (4, dict(CENTRAL, getPoint=vec(0, 3, 0), getBearingVector=vec(1, 3, 0), getWeight=one, getNumberCorrespondences=cnt(2, 3))),
    A_ + 'MANoncentralAbsolute': (4, dict(getPoint=vec(0, 3, 0), getBearingVector=vec(1, 6, 0), getCamOffset=vec(1, 6, 3), getCamRotation=ident, getWeight=one,
                                          getNumberCorrespondences=cnt(2, 3))),
    PC + 'PointCloudAdapter': (2, dict(getPoint1=el(0), getPoint2=el(1), getWeight=one, getNumberCorrespondences=nel(0, 1))),
    PC + 'MAPointCloud': (4, dict(getPoint1=vec(0, 3, 0), getPoint2=vec(1, 3, 0), getWeight=one, getNumberCorrespondences=cnt(2, 3))),
    R_ + 'CentralRelativeAdapter': (2, dict(CENTRAL2, getBearingVector1=el(0), getBearingVector2=el(1), getWeight=one, getNumberCorrespondences=nel(0, 1))),
    R_ + 'CentralRelativeWeightingAdapter': (3, dict(CENTRAL2, getBearingVector1=el(0), getBearingVector2=el(1), getWeight=el(2),
                                                     getNumberCorrespondences=nel(0, 1, 2))),
    R_ + 'NoncentralRelativeAdapter': (6, dict(getBearingVector1=el(0), getBearingVector2=el(1), getWeight=one, getCamOffset1=el(4, 2), getCamRotation1=el(5, 2),
                                               getCamOffset2=el(4, 3), getCamRotation2=el(5, 3), getNumberCorrespondences=nel(0, 1, 2, 3))),
    R_ + 'MACentralRelative': (4, dict(CENTRAL2, getBearingVector1=vec(0, 3, 0), getBearingVector2=vec(1, 3, 0), getWeight=one, getNumberCorrespondences=cnt(2, 3))),
    R_ + 'MANoncentralRelative': (4, dict(getBearingVector1=vec(0, 6, 0), getBearingVector2=vec(1, 6, 0), getCamOffset1=vec(0, 6, 3), getCamOffset2=vec(1, 6, 3),
                                          getCamRotation1=ident, getCamRotation2=ident, getWeight=one, getNumberCorrespondences=cnt(2, 3))),
    R_ + 'CentralRelativeMultiAdapter': (2, dict(getBearingVector1=el(0), getBearingVector2=el(1), getWeight=one, getCamOffset=zero, getCamRotation=ident,
                                                 getNumberCorrespondences=nel(0, 1), getNumberPairs=nel(0, 1))),
    R_ + 'NoncentralRelativeMultiAdapter': (4, dict(getBearingVector1=el(0), getBearingVector2=el(1), getWeight=one, getCamOffset=el(2), getCamRotation=el(3),
                                                    getNumberCorrespondences=nel(0, 1), getNumberPairs=nel(0, 1, 2, 3))),
    R_ + 'MANoncentralRelativeMulti': (4, dict(getBearingVector1=vec(0, 3, 0), getBearingVector2=vec(1, 3, 0), getWeight=one, getCamOffset=vec(2, 3, 0),
                                               getCamRotation=ident, getNumberCorrespondences=cnt(3), getNumberPairs=nel(3, 0, 1))),
}
MULTI = [k for k in SPEC if 'Multi' in k]


def ctors(D, t):
    return [x for x in D.fn.values() if x.get('clsT') == t and x.get('ctor') and not x['implicit'] and not (D.decl.get(x['u']) or {}).get('copy')]


def build(D, t, x):
    """run a constructor; returns (env, values of its parameters)"""
    g = make_vg(D)
    v, st, fr = g.run(x)
    P = []
    for i, p in enumerate(x['params']):
        nm = p['n'] or 'arg%d' % i
        ts = param_ts(x, i)
        if ts.endswith('&'):
            P.append(g.read(st, LV(('obj', mk('par', nm)))))
        else:
            P.append(mk('par', nm))
    return g, st, P


def accessor(D, t, name, nargs):
    """definition of an accessor for class t (its own or inherited)"""
    for c in [t] + D.bases(t):
        fs = [x for x in D.fn.values() if x.get('clsT') == c and x['n'] == name and len(x['params']) == nargs and x.get('body')]
        if fs:
            return fs[0]
    return None


def apply(D, f, st, args, g=None, t=None):
    """value of accessor f on an object in state st"""
    g = g or make_vg(D)
    v, st2, fr = g.run(f, args=args, env=dict(st.env), cls=t)
    if isinstance(v, LV):
        v = g.read(st2, v)
    return v, st2, g


def entries(v, n):
    """the n column-major entries of a small matrix value"""
    if n == 3:
        return [sel_m(v, k, 0) for k in range(3)]
    return [sel_m(v, r, c) for c in range(3) for r in range(3)]


def sel_m(v, r, c):
    if v.op == 'call' or v.op == 'fn':
        q = str(v.a[0])
        if q.endswith('::Zero'):
            return ZERO
        if q.endswith('::Identity'):
            return num(1 if r == c else 0)
        if q.endswith('::Ones'):
            return num(1)
    return region(v, r, c, 1, 1)


def same(v, spec):
    if isinstance(spec, tuple) and spec[0] == 'any':
        return any(v is s for s in spec[1])
    if isinstance(spec, list):
        try:
            es = entries(v, len(spec))
        except AnalysisError:
            return False
        return all(a is b for a, b in zip(es, spec))
    return v is spec


def sshow(spec):
    if isinstance(spec, tuple):
        return ' or '.join(show(s, 6) for s in spec[1])
    if isinstance(spec, list):
        return '[%s]' % ', '.join(show(s, 6) for s in spec)
    return show(spec, 8)
