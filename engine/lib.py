"""Repository-specific vocabulary shared by the checks: adapter accessors as
pure functions of the correspondence, problem classes, and helpers to read the
effect of a function off its value graph."""
import os, sys
import db as _db
from db import AnalysisError, walk, rel, param_ts
from vg import *

P = 'opengv::sac_problems::'
SAC = 'opengv::sac::'
ADAPTERS = ('opengv::relative_pose::RelativeAdapterBase', 'opengv::relative_pose::RelativeMultiAdapterBase',
            'opengv::absolute_pose::AbsoluteAdapterBase', 'opengv::absolute_pose::AbsoluteMultiAdapterBase',
            'opengv::point_cloud::PointCloudAdapterBase')
STATE = {'gett', 'getR', 'sett', 'setR', 'gett12', 'getR12', 'sett12', 'setR12'}

_DB = None


def load():
    global _DB
    if _DB is None:
        _DB = _db.DB(_db.library_tus() + [os.path.join(_db.VERIF, 'driver', 'instantiate.cpp')])
    return _DB


def adapter_classes(D):
    """every class derived from an adapter base (record type strings)"""
    s = set(ADAPTERS)
    for t in D.recT:
        if any(b in s or b in ADAPTERS for b in D.bases(t)):
            s.add(t)
    return s


_acls = {}


def is_adapter_class(D, t):
    k = id(D)
    if k not in _acls:
        _acls[k] = adapter_classes(D)
    return t in _acls[k]


def acc(name, obj, *args, dim=None):
    """canonical accessor node"""
    if len(args) == 1 and args[0].op == 'acc' and args[0].a[0] == 'convertMultiIndex' and args[0].a[1] is obj:
        f, i = args[0].a[2], args[0].a[3]
        if name in ('multiFrameIndex', 'multiPairIndex'):
            return f
        if name == 'multiCorrespondenceIndex':
            return i
        if name in ('getBearingVector', 'getBearingVector1', 'getBearingVector2', 'getPoint', 'getWeight'):
            args = (f, i)
        elif name in ('getCamOffset', 'getCamOffset1', 'getCamOffset2'):
            name, args = 'getMultiCamOffset', (f,)
        elif name in ('getCamRotation', 'getCamRotation1', 'getCamRotation2'):
            name, args = 'getMultiCamRotation', (f,)
    n = mk('acc', name, obj, *args, dim=dim or ACC_DIM.get(name))
    if name in INT_ACC:
        n.meta = 'i'
    return n


ACC_DIM = {n: (3, 1) for n in ('getBearingVector', 'getBearingVector1', 'getBearingVector2', 'getPoint', 'getPoint1', 'getPoint2',
                               'getCamOffset', 'getCamOffset1', 'getCamOffset2', 'getMultiCamOffset')}
ACC_DIM.update({n: (3, 3) for n in ('getCamRotation', 'getCamRotation1', 'getCamRotation2', 'getMultiCamRotation')})
INT_ACC = {'getNumberCorrespondences', 'getNumberFrames', 'getNumberPairs', 'convertMultiIndex', 'multiFrameIndex',
           'multiPairIndex', 'multiCorrespondenceIndex'}


def _rebuild_acc(n, a):
    return acc(a[0], a[1], *a[2:], dim=n.dim)


import nodes as _nodes
_nodes.EXTRA_REBUILD['acc'] = _rebuild_acc


def obj_of(vg, lv, st):
    """identity of the object an lvalue denotes"""
    if isinstance(lv, LV):
        if not lv.path and lv.root[0] == 'obj':
            return lv.root[1]
        return vg.addr_node(lv)
    return lv


def adapter_intercept(vg, e, d, base, args, fr, st):
    """calls of open adapter accessors become pure nodes of (adapter, indices);
    the pose prior (set/get of t, R) is not an accessor and is expanded."""
    if base is None or not d.get('virt') or not d.get('const') or d['n'] in STATE:
        return NotImplemented
    if not is_adapter_class(vg.db, d.get('clsT')):
        return NotImplemented
    lv = base if isinstance(base, LV) else None
    o = obj_of(vg, base, st)
    if lv is not None and (lv.path or lv.root[0] != 'obj' or o.op == 'new'):
        # a locally constructed adapter: expand its accessor
        if vg.resolve_virtual(d, lv, st, e) is not None:
            return NotImplemented
    xs = [vg.rv(a, fr, st) for a in args]
    if d['n'] == 'convertMultiIndices':
        return mk('acc', d['n'], o, *xs)
    name = d['n']
    if name in ('getCamOffset', 'getCamRotation') and 'RelativeMulti' in (d.get('clsT') or '') :
        name = {'getCamOffset': 'getMultiCamOffset', 'getCamRotation': 'getMultiCamRotation'}[name]
    return acc(name, o, *xs, dim=edim(d['rs']))


def make_vg(D, inline=None, intercepts=(), **kw):
    ics = list(intercepts) + [adapter_intercept]

    def ic(vg, e, d, base, args, fr, st):
        for f in ics:
            r = f(vg, e, d, base, args, fr, st)
            if r is not NotImplemented:
                return r
        return NotImplemented
    return VG(D, inline=inline, intercept=ic, **kw)


def no_inline(*names):
    """inline policy: everything but functions whose qualified name contains one of names"""
    def f(d, fn_):
        return not any(n in fn_['q'] for n in names)
    return f


def loc(f):
    return '%s:%s' % (f['file'], f['line'])


def diffshow(a, b, limit=1500):
    """the outermost sub-terms of a that b does not contain"""
    bs = set(nodes(b))
    out = []

    def go(x):
        if x in bs:
            return
        ch = [c for c in children(x)]
        miss = [c for c in ch if c not in bs]
        if not miss:
            out.append(show(x, 14))
            return
        for c in miss:
            go(c)
    go(a)
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return '; '.join(seen)[:limit] or show(a, 12)[:limit]
