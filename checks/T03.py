"""Value-graph rule with random interpretation in a prime field. The alignments
(threept_arun, arun_complete, rotationOnly, twopt_rotationOnly) must hand Arun's
method a positive multiple of the correlation of the centred data, oldest frame
second, and place the translation so that the centroids coincide; sums over the
correspondences are unrolled for 2, 3 and 5 of them, adapters and index lists
staying symbolic. For twopt the result must be the unit vector normal to both
epipolar plane normals that agrees with the optical flow, for both signs of the
flow. For p2p exact data of a symbolic pose are substituted, and the value must
be the true position, in every ordering (ties included) of the direction's
components and for acute, right and obtuse angles between the bearings."""
from resid import *
import rand
from signed import Signed, Retry, NAN
from rand import RI, Mat, H, P as PR, inv_, mmul, tr, rot_mat
MIN_OBLIGATIONS = 40
ASSUMPTIONS = ['real arithmetic: rounding is not modelled', 'rotation priors are orthonormal, bearing vectors have unit length',
               'math::arun returns the rotation maximising the trace of R*H (T02)', 'sums are uniform in the number of correspondences: analysed for 2, 3 and 5']
ARUN = 'opengv::math::arun'


def keep_arun(vg, e, d, base, args, fr, st):
    if d['q'] == ARUN:
        return rot(mk('call', ARUN, vg.rv(args[0], fr, st), dim=(3, 3)))
    return NotImplemented


def evaluate(C, D, f, pre=()):
    g = make_vg(D, intercepts=list(pre) + [keep_arun])
    v, st, fr = g.run(f)
    C.vg(g)
    return g.read(st, v) if isinstance(v, LV) else v


def ratio(a, b):
    """a == k*b with a small positive rational k"""
    i = next((i for i, y in enumerate(b.v) if y), None)
    if i is None or (a.r, a.c) != (b.r, b.c):
        return False
    k = a.v[i] * inv_(b.v[i]) % PR
    if any((x - k * y) % PR for x, y in zip(a.v, b.v)):
        return False
    return any(k * q % PR in range(1, 65) for q in range(1, 65))


def vadd(*ms):
    return Mat(ms[0].r, ms[0].c, [sum(x) % PR for x in zip(*[m.v for m in ms])])


def sc(k, m):
    return Mat(m.r, m.c, [k * x % PR for x in m.v])


def is_index_list(t):
    return 'vector' in t and 'int' in t


def correlation(C, D, f, first, second, with_t):
    """first/second: accessor (or container parameter) names of the data the rotation maps to and from"""
    ps = [mk('par', p['n']) for p in f['params']]
    inst = '%s/%d' % (f['q'].replace('opengv::', ''), len(ps))
    w = loc(f)
    v = evaluate(C, D, f)
    if first is None:
        A, B = mk('deref', ps[0]), mk('deref', ps[1])
        sizes = [size(A), size(B)]
        d1, d2 = (lambda k: sel_el(A, num(k))), (lambda k: sel_el(B, num(k)))
    else:
        n = len(ps)
        idx = mk('deref', ps[1]) if n == 2 else None
        sizes = [size(idx)] if idx is not None else [acc('getNumberCorrespondences', ps[0])]
        pick = (lambda k: sel_el(idx, num(k))) if idx is not None else (lambda k: num(k))
        d1, d2 = (lambda k: acc(first, ps[0], pick(k))), (lambda k: acc(second, ps[0], pick(k)))
    for cnt in (2, 3, 5):
        ri = RI(fix={s: cnt for s in sizes})
        for k in range(cnt):
            for d in (d1, d2):
                d(k).dim = (3, 1)
        x1, x2 = [ri.mat(d1(k), (3, 1)) for k in range(cnt)], [ri.mat(d2(k), (3, 1)) for k in range(cnt)]
        i_ = inv_(cnt)
        c1, c2 = sc(i_, vadd(*x1)), sc(i_, vadd(*x2))
        Hs = vadd(*[mmul(vadd(b, sc(PR - 1, c2)), tr(vadd(a, sc(PR - 1, c1)))) for a, b in zip(x1, x2)])
        got = ri.ev(v)
        calls = [m for m in nodes(v) if m.op == 'call' and m.a[0] == ARUN]
        if not C.ob('one-alignment', '%s n=%d' % (inst, cnt), w, len(calls) == 1, 'expected the rotation to come from one alignment, found %d:\n %s' % (len(calls), show(v, 14))):
            return
        hm = ri.mat(calls[0].a[1], (3, 3))
        C.ob('correlation', '%s n=%d' % (inst, cnt), w, hm is not None and ratio(hm, Hs),
             'the matrix handed to the alignment is not the correlation sum (x2-c2)*(x1-c1)\' of the centred data:\n ' + show(calls[0].a[1], 18))
        R = ri.mat(calls[0])
        if not with_t:
            C.ob('result', '%s n=%d' % (inst, cnt), w, got == R, 'the result is not the aligning rotation')
            continue
        t = vadd(c1, sc(PR - 1, mmul(R, c2)))
        exp = Mat(3, 4, [R.v[3 * r + c] if c < 3 else t.v[r] for r in range(3) for c in range(4)])
        C.ob('result', '%s n=%d' % (inst, cnt), w, got == exp, 'the result is not [R | c1 - R*c2]:\n ' + show(v, 16))


def two_rotation(C, D, f):
    ps = [mk('par', p['n']) for p in f['params']]
    inst = '%s/%d' % (f['q'].replace('opengv::', ''), len(ps))
    v = evaluate(C, D, f)
    ix = [sel_el(mk('deref', ps[1]), num(k)) for k in range(2)] if len(ps) == 2 else ps[1:]
    ok = v.op == 'call' and v.a[0] == ARUN
    if not C.ob('one-alignment', inst, loc(f), ok, 'the result is not an alignment of the two bearings:\n ' + show(v, 14)):
        return
    ri = RI()
    f1, f2 = ([ri.mat(acc(n, ps[0], i)) for i in ix] for n in ('getBearingVector1', 'getBearingVector2'))
    M = ri.mat(v.a[1], (3, 3))
    # coefficients of f2_i f1_j': apply the dual basis of span(f2) and span(f1)
    co = None
    if M is not None:
        co = solve_bilinear(M, f2, f1)
    ok = False
    if co is not None:
        q = [small_rational(x) for x in co]
        ok = None not in q and q[1] == q[2] and q[0] > 0 and q[0] * q[3] - q[1] * q[2] > 0
    C.ob('correlation', inst, loc(f), ok, 'the matrix handed to the alignment is not a positive definite correlation of the two second-view bearings with the two first-view bearings:\n ' + show(v.a[1], 14))


def small_rational(x):
    from fractions import Fraction
    for q in range(1, 200):
        n = x * q % PR
        if n < 1000:
            return Fraction(n, q)
        if PR - n < 1000:
            return Fraction(-(PR - n), q)
    return None


def solve_bilinear(M, L, Rr):
    """c with M == sum c_ij L_i Rr_j'"""
    def dual(vs):
        a, b = vs
        g = [[sum(x * y for x, y in zip(p.v, q.v)) % PR for q in vs] for p in vs]
        d = inv_((g[0][0] * g[1][1] - g[0][1] * g[1][0]) % PR)
        gi = [[g[1][1] * d % PR, -g[0][1] * d % PR], [-g[1][0] * d % PR, g[0][0] * d % PR]]
        return [vadd(sc(gi[i][0] % PR, a), sc(gi[i][1] % PR, b)) for i in range(2)]
    dl, dr = dual(L), dual(Rr)
    c = [mmul(mmul(tr(dl[i]), M), dr[j]).v[0] for i in range(2) for j in range(2)]
    back = vadd(*[sc(c[2 * i + j], mmul(L[i], tr(Rr[j]))) for i in range(2) for j in range(2)])
    return c if back == M else None


def cross(a, b):
    x, y = a.v, b.v
    return Mat(3, 1, [(x[1] * y[2] - x[2] * y[1]) % PR, (x[2] * y[0] - x[0] * y[2]) % PR, (x[0] * y[1] - x[1] * y[0]) % PR])


def dotm(a, b):
    return sum(x * y for x, y in zip(a.v, b.v)) % PR


def adapter_state(D, f, name):
    """node the adapter's const pose getter returns (its own field)"""
    at = base_ts(param_ts(f, 0)).replace('const ', '')
    m = [y for y in D.fn.values() if y.get('clsT') == at and y['n'] == name and not y['params']]
    if len(m) != 1:
        raise AnalysisError('%s::%s not found' % (at, name))
    g = make_vg(D)
    v, s, _ = g.run(m[0], this=LV(('obj', mk('par', f['params'][0]['n'])), (), at))
    return g.read(s, v) if isinstance(v, LV) else v


def two_translation(C, D, f):
    ps = [mk('par', p['n']) for p in f['params']]
    inst = '%s/%d' % (f['q'].replace('opengv::', ''), len(ps))
    v = evaluate(C, D, f)
    ix = [sel_el(mk('deref', ps[2]), num(k)) for k in range(2)] if len(ps) == 3 else ps[2:]
    prior = adapter_state(D, f, 'getR12')
    for unrot in (0, 1):
        for s in (1, -1):
            for seed in range(60):
                ri = Signed(seed, strict=True)
                ri.m[ps[1]] = unrot
                ri.m[prior] = R = rot_mat(H('R', seed))
                fa, fb = ([ri.mat(acc(n, ps[0], i)) for i in ix] for n in ('getBearingVector1', 'getBearingVector2'))
                if unrot:
                    fb = [mmul(R, x) for x in fb]
                nn = cross(cross(fa[0], fb[0]), cross(fa[1], fb[1]))
                n2 = dotm(nn, nn)
                r = pow(n2, (PR + 1) // 4, PR)
                if r * r % PR != n2:
                    continue
                ri.positive(r)
                flow = vadd(fa[0], sc(PR - 1, fb[0]))
                d = dotm(flow, nn)
                for k in (d, d * r % PR, d * inv_(r) % PR, d * n2 % PR):
                    ri.positive(k * s % PR, (1, 2))
                try:
                    got = ri.ev(v)
                except Retry:
                    continue
                exp = sc(s * inv_(r) % PR, nn)
                C.ob('epipole', '%s unrotate=%d flow%s' % (inst, unrot, '+' if s > 0 else '-'), loc(f), got == exp,
                     'the result is not the unit vector normal to both epipolar plane normals, oriented with the optical flow:\n ' + show(v, 14))
                break
            else:
                raise AnalysisError('twopt: no usable data found')


def position(C, D, f):
    ps = [mk('par', p['n']) for p in f['params']]
    inst = '%s/%d' % (f['q'].replace('opengv::', ''), len(ps))
    v = evaluate(C, D, f)
    ix = [sel_el(mk('deref', ps[1]), num(k)) for k in range(2)] if len(ps) == 2 else ps[1:]
    prior = adapter_state(D, f, 'getR')
    # components of the direction between the points: signs, order (equal entries tie)
    cells = []
    for order in ((3, 2, 1), (3, 1, 2), (2, 3, 1), (1, 3, 2), (2, 1, 3), (1, 2, 3), (2, 2, 1), (2, 1, 2), (1, 2, 2), (1, 1, 2), (1, 2, 1), (2, 1, 1),
                  (2, 2, 0), (2, 0, 2), (0, 2, 2), (2, 0, 0), (0, 2, 0), (0, 0, 2), (2, 1, 0), (1, 2, 0), (2, 0, 1), (1, 0, 2), (0, 2, 1), (0, 1, 2)):
        cells.append((order, (1, -1, 1), 1))
        cells.append((order, (-1, 1, -1), 1))
    for ang in (-1, 0):
        cells.append(((3, 2, 1), (1, 1, 1), ang))
        cells.append(((1, 2, 3), (1, -1, -1), ang))
        cells.append(((1, 3, 2), (-1, 1, 1), ang))
    for order, sg, ang in cells:
        ok = None
        for seed in range(400):
            r = lambda *k: H(seed, order, sg, ang, *k)
            mag = {o: 0 if o == 0 else r('mag', o) for o in set(order)}
            ab = [mag[o] for o in order]
            dv = [x * s_ % PR for x, s_ in zip(ab, sg)]
            d2 = sum(x * x for x in dv) % PR
            dist = pow(d2, (PR + 1) // 4, PR)
            if dist * dist % PR != d2:
                continue
            ri = Signed(seed, strict=True)
            ri.positive(1, (1, 2))
            R, t = rot_mat(r('R')), Mat(3, 1, [r('t', k) for k in range(3)])
            # point 0 = t + R*l0*f0, f0 the image of e_x under a random rotation
            Q = rot_mat(r('f'))
            f0 = Mat(3, 1, Q.v[0::3])
            l0 = r('l0')
            p0 = vadd(t, sc(l0, mmul(R, f0)))
            p1 = vadd(p0, Mat(3, 1, dv))
            g1 = mmul(tr(R), vadd(p1, sc(PR - 1, t)))
            if ang == 0:
                # right angle: the depth of point 0 such that f0 is orthogonal to the ray of point 1
                l0 = (-dotm(f0, mmul(tr(R), Mat(3, 1, dv)))) % PR
                p0 = vadd(t, sc(l0, mmul(R, f0)))
                p1 = vadd(p0, Mat(3, 1, dv))
                g1 = mmul(tr(R), vadd(p1, sc(PR - 1, t)))
            n2 = dotm(g1, g1)
            l1 = pow(n2, (PR + 1) // 4, PR)
            if l1 * l1 % PR != n2:
                continue
            f1 = sc(inv_(l1), g1)
            c = dotm(f0, f1)
            s2 = (1 - c * c) % PR
            sn = pow(s2, (PR + 1) // 4, PR)
            if sn * sn % PR != s2 or (c == 0) != (ang == 0):
                continue
            ca = c * ang % PR
            ri.positive(sn)
            if ang:
                ri.positive(ca)
                ri.positive(ca * inv_(sn) % PR)
                ri.positive(ca * sn % PR)
            ri.positive(dist)
            for k in range(3):
                if ab[k]:
                    ri.positive(ab[k])
                    ri.positive(ab[k] * inv_(dist) % PR)
                    ri.positive(ab[k] * ab[k] % PR)
                for j in range(3):
                    if order[k] > order[j]:
                        ri.positive((ab[k] - ab[j]) % PR)
                        ri.positive((ab[k] - ab[j]) * inv_(dist) % PR)
                        ri.positive((ab[k] * ab[k] - ab[j] * ab[j]) % PR)
            ri.m[prior] = R
            for name, i, x in (('getBearingVector', 0, f0), ('getBearingVector', 1, f1), ('getPoint', 0, p0), ('getPoint', 1, p1)):
                ri.m[acc(name, ps[0], ix[i])] = x
            try:
                ok = ri.ev(v) == t
            except Retry:
                continue
            break
        if ok is None:
            raise AnalysisError('p2p: no usable data found for cell %s %s %s' % (order, sg, ang))
        C.ob('true-position', '%s components %s%s angle %s' % (inst, order, ''.join('-+'[s_ > 0] for s_ in sg), {1: 'acute', -1: 'obtuse', 0: 'right'}[ang]), loc(f), ok,
             'with exact data of a pose the result is not the position of that pose:\n ' + show(v, 10))


def run(C):
    D = load()
    rp, pc, ap = 'opengv::relative_pose::', 'opengv::point_cloud::', 'opengv::absolute_pose::'

    def public(q):
        fs = [f for f in D.functions(q) if not any('opengv::Indices' in param_ts(f, i) for i in range(len(f['params'])))]
        if not fs:
            raise AnalysisError('%s not found' % q)
        return fs
    for f in public(pc + 'threept_arun'):
        correlation(C, D, f, 'getPoint1', 'getPoint2', True)
    for f in public(rp + 'rotationOnly'):
        correlation(C, D, f, 'getBearingVector1', 'getBearingVector2', False)
    for f in public('opengv::math::arun_complete'):
        correlation(C, D, f, None, None, True)
    for f in public(rp + 'twopt_rotationOnly'):
        two_rotation(C, D, f)
    for f in public(rp + 'twopt'):
        two_translation(C, D, f)
    for f in public(ap + 'p2p'):
        position(C, D, f)
