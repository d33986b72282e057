"""Value-graph rule with random interpretation in a prime field: every
conversion is reduced to a value graph and compared, as a rational expression,
with the rotation of the corresponding unit quaternion. For rot2quaternion the
comparisons, absolute values and square roots of the code are decided from the
sign pattern of the true quaternion: all 65 patterns (each component negative,
zero or positive, each non-zero component dominating in turn) are analysed, so
the axis-aligned rotations and the identity are covered. For Arun's alignment
the value must be V*D*U' of the decomposed matrix, with D flipping the direction
of the smallest singular value exactly when the product would be a reflection."""
from resid import *
import itertools
import rand
from signed import Signed, NAN
from rand import RI, Mat, H, P as PR, inv_, mmul, tr, rot_mat
MIN_OBLIGATIONS = 70
ASSUMPTIONS = ['real arithmetic: rounding is not modelled', 'rot2cayley is asked only for rotations its formula is defined on (no half turns)',
               'Eigen\'s SVD sorts singular values in decreasing order']
M_ = 'opengv::math::'


def qrot(q):
    w, x, y, z = q
    v = [w * w + x * x - y * y - z * z, 2 * (x * y - w * z), 2 * (x * z + w * y),
         2 * (x * y + w * z), w * w - x * x + y * y - z * z, 2 * (y * z - w * x),
         2 * (x * z - w * y), 2 * (y * z + w * x), w * w - x * x - y * y + z * z]
    return Mat(3, 3, [e % PR for e in v])


def unit(signs, dom):
    for k in range(200):
        q = [0 if s == 0 else H('unit', signs, dom, k, i) for i, s in enumerate(signs)]
        n2 = sum(x * x for x in q) % PR
        r = pow(n2, (PR + 1) // 4, PR)
        if n2 and r * r % PR == n2:
            return [x * inv_(r) % PR for x in q]


def evaluate(C, D, name, x):
    f = D.one(M_ + name)
    g = make_vg(D)
    v, st, fr = g.run(f, [x])
    C.vg(g)
    return f, (g.read(st, v) if isinstance(v, LV) else v)


def run(C):
    D = load()
    c, R, q, Hm = (par(n, d) for n, d in (('c', (3, 1)), ('R', (3, 3)), ('q', (4, 1)), ('H', (3, 3))))
    # Cayley
    ri = RI()
    ri.m[c] = Mat(3, 1, [H('cayley', i) for i in range(3)])
    cv = ri.m[c].v
    Q = qrot([1] + cv)
    s = inv_(1 + sum(x * x for x in cv))
    f, v = evaluate(C, D, 'cayley2rot', c)
    got = ri.mat(v)
    C.ob('cayley-rotation', 'cayley2rot', loc(f), got == Mat(3, 3, [x * s % PR for x in Q.v]),
         'the value is not the rotation of the quaternion (1, c) normalised:\n ' + show(v, 14))
    f2, v2 = evaluate(C, D, 'cayley2rot_reduced', c)
    C.ob('cayley-rotation', 'cayley2rot_reduced', loc(f2), ri.mat(v2) == Q, 'the value is not (1+|c|^2) times the rotation of (1, c):\n ' + show(v2, 14))
    f3, v3 = evaluate(C, D, 'rot2cayley', R)
    ri.m[R] = Mat(3, 3, [x * s % PR for x in Q.v])
    C.ob('cayley-inverse', 'rot2cayley', loc(f3), ri.mat(v3) == ri.m[c], 'rot2cayley does not recover c from the rotation of c:\n ' + show(v3, 14))
    # quaternion
    f4, v4 = evaluate(C, D, 'quaternion2rot', q)
    ri = RI()
    u = unit((1, 1, 1, 1), 0)
    ri.m[q] = Mat(4, 1, u)
    C.ob('quaternion-rotation', 'quaternion2rot', loc(f4), ri.mat(v4) == qrot(u), 'the value is not the rotation of the unit quaternion (w,x,y,z):\n ' + show(v4, 14))
    f5, v5 = evaluate(C, D, 'rot2quaternion', R)
    for signs in itertools.product((-1, 0, 1), repeat=4):
        first = next((x for x in signs if x), 0)
        if first <= 0:
            continue                       # q and -q are the same rotation
        for d in range(4):
            if signs[d] == 0:
                continue
            u = unit(signs, d)
            ri = Signed()
            ab = [x * s_ % PR for x, s_ in zip(u, signs)]
            co = (1, 2, 4, 8, 16)
            ri.positive(1, co)
            for i in range(4):
                if not signs[i]:
                    continue
                ri.positive(ab[i], co)
                for j in range(i, 4):
                    if signs[j]:
                        ri.positive(ab[i] * ab[j] % PR, co)
            for j in range(4):
                if j != d:
                    ri.positive((ab[d] - ab[j]) % PR, co)
                    ri.positive((ab[d] * ab[d] - ab[j] * ab[j]) % PR, co)
            ri.m[R] = qrot(u)
            w = ri.mat(v5)
            neg_ = Mat(4, 1, [(-x) % PR for x in u])
            nm = '(%s) largest %d' % (''.join('-0+'[s_ + 1] for s_ in signs), d)
            C.ob('quaternion-inverse', 'rot2quaternion ' + nm, loc(f5), w is not None and w in (Mat(4, 1, u), neg_),
                 'for rotations of a unit quaternion with component signs %s the result is neither q nor -q' % nm)
    # Arun
    f6, v6 = evaluate(C, D, 'arun', Hm)
    svd = [n for n in nodes(v6) if n.op == 'ctor' and 'SVD' in str(n.a[0])]
    if not C.ob('one-svd', 'arun', loc(f6), len(svd) == 1 and svd[0].a[1] in (Hm, T(Hm)), 'expected one decomposition of the given matrix:\n ' + show(v6, 12)):
        return
    part = {n: next((m for m in nodes(v6) if m.op == 'fn' and m.a[0] == '.matrix' + n and m.a[1] is svd[0]), None) for n in 'UV'}
    if not C.ob('both-bases', 'arun', loc(f6), all(part.values()), 'the result does not use both singular bases:\n ' + show(v6, 12)):
        return
    U, V = (part['U'], part['V']) if svd[0].a[1] is Hm else (part['V'], part['U'])
    ri = RI()
    vU, vV = as3(ri.ev(U)), as3(ri.ev(V))
    if vU is None or vV is None:
        raise AnalysisError('arun: singular bases have no dimension')
    dt = rand.det(vU) * rand.det(vV) % PR
    neg_ = H(ri.seed, 'lt', (-dt) % PR)
    plain = mmul(vV, tr(vU))
    Vf = Mat(3, 3, [x if j < 2 else (-x) % PR for k, x in enumerate(vV.v) for j in (k % 3,)])
    flip = mmul(Vf, tr(vU))
    exp = [Mat(3, 3, [(c_ * y + (1 - c_) * x) % PR for x, y in zip(plain.v, flip.v)]) for c_ in (neg_, (1 - H(ri.seed, 'lt', dt)) % PR)]
    got = ri.ev(v6)
    # a sign matrix diag(1,1,det) in place of the branch (det of an orthogonal matrix is its own sign)
    Vd = Mat(3, 3, [x if k % 3 < 2 else x * dt % PR for k, x in enumerate(vV.v)])
    exp.append(mmul(Vd, tr(vU)))
    C.ob('proper-rotation', 'arun', loc(f6), got in exp, 'the value is not V*D*U\' with D flipping the last column exactly when det(V*U\') < 0:\n ' + show(v6, 14))


def as3(v):
    return rand.as_mat(v, 3, 3)
