"""Every adapter class: each constructor is reduced to a value graph and every
accessor is then evaluated on the object it leaves behind, for a symbolic
correspondence (frame and local index for multi-camera adapters). The result
must be the documented element of the constructor's arguments; inherited
accessors of the multi-camera bases must forward to the per-frame accessor at
the frame and local index of the flat index."""
from adapt import *

MIN_OBLIGATIONS = 120
ASSUMPTIONS = ['containers given to one adapter have matching lengths (documented)', 'indices are in range']


def run(C):
    D = load()
    for t, (nd, acc_) in sorted(SPEC.items()):
        cs = ctors(D, t)
        if not cs:
            raise AnalysisError('no constructor of %s found' % t)
        for x in cs:
            if len(x['params']) < nd:
                raise AnalysisError('constructor of %s takes %d arguments, %d data arguments expected' % (t, len(x['params']), nd))
            g0, st, P = build(D, t, x)
            C.vg(g0)
            for name, sp in sorted(acc_.items()):
                cname = name.replace('getMulti', 'get')
                multi = t in MULTI
                nargs = 0 if name in ('getNumberPairs', 'getNumberFrames') else \
                    (2 if name in ('getBearingVector', 'getBearingVector1', 'getBearingVector2', 'getPoint', 'getWeight') else 1) if multi else \
                    0 if name == 'getNumberCorrespondences' else 1
                f = accessor(D, t, name, nargs)
                inst = '%s/%d::%s' % (t, len(x['params']), name)
                if f is None:
                    raise AnalysisError('accessor %s::%s with %d parameters not found' % (t, name, nargs))
                ix = [mk('par', '%i' + str(k)) for k in range(nargs)]
                for i in ix:
                    i.meta = 'i'
                v, st2, g = apply(D, f, st, list(ix), t=t)
                C.vg(g)
                want = sp(P, *ix)
                C.ob('accessor returns the documented element', inst, loc(f), same(v, want),
                     'returns %s, documented: %s' % (show(v, 8)[:400], sshow(want)[:400]))
    # forwarding accessors of the multi-camera bases
    for b, fi, nv in ((ADAPTERS[1], 'multiPairIndex', ('getBearingVector1', 'getBearingVector2', 'getWeight')),
                      (ADAPTERS[3], 'multiFrameIndex', ('getBearingVector', 'getPoint', 'getWeight'))):
        cams = ('getCamOffset1', 'getCamOffset2', 'getCamRotation1', 'getCamRotation2') if 'Relative' in b else ('getCamOffset', 'getCamRotation')
        this = mk('par', 'this')
        for t in [b] + [t for t in sorted(D.recT) if b in D.bases(t)]:
            for name in nv + cams:
                fs = [x for x in D.fn.values() if x.get('clsT') == t and x['n'] == name and len(x['params']) == 1]
                if name in ('getCamOffset', 'getCamRotation') and 'Relative' in b:
                    fs = []
                if not fs:
                    if t == b:
                        raise AnalysisError('%s::%s not found' % (b, name))
                    continue
                i = mk('par', '%i0')
                i.meta = 'i'
                g = make_vg(D)
                v, st, fr = g.run(fs[0], args=[i])
                if isinstance(v, LV):
                    v = g.read(st, v)
                C.vg(g)
                f_, l_ = acc(fi, this, i), acc('multiCorrespondenceIndex', this, i)
                if name in cams:
                    want = acc('getMultiCamOffset' if 'Offset' in name else 'getMultiCamRotation', this, f_)
                else:
                    want = acc(name, this, f_, l_)
                C.ob('flat access forwards to the frame and local index of the flat index', '%s::%s' % (t, name), loc(fs[0]), v is want,
                     'returns %s, expected %s' % (show(v, 8)[:300], show(want, 8)[:300]))
    C.count('adapter classes', len(SPEC))
