"""Value-graph rule with random interpretation: both triangulation functions
are reduced to a value graph from their resolved syntax trees, with the relative
pose set through the adapter's setters and bearings as accessors of the queried
index. The fast triangulation's result must be, as a rational expression, the
mean of the feet of the common perpendicular of both rays; for the linear one
the matrix handed to the singular value decomposition must consist of rows of
the cross-product constraints of both projections (at least two independent
ones per view) and the result must be the dehomogenised last right singular
vector."""
from resid import *
import rand
from rand import value, Mat, H, inv_, mmul, tr
PR = rand.P
MIN_OBLIGATIONS = 6
ASSUMPTIONS = ['the rotation prior of the adapter is orthonormal', 'real arithmetic: rounding is not modelled',
               'Eigen\'s JacobiSVD sorts singular values in decreasing order']


def col(m, j):
    return [m.v[i * m.c + j] for i in range(m.r)]


def dot3(a, b):
    return sum(x * y for x, y in zip(a, b)) % PR


def parallel(a, b):
    """a is a non-zero multiple of b"""
    if not any(x % PR for x in a):
        return False
    return all((a[i] * b[j] - a[j] * b[i]) % PR == 0 for i in range(4) for j in range(i)) and any(x % PR for x in b)


def run(C):
    D = load()
    a, i = mk('par', 'adapter'), mk('par', 'index')
    t, R = mk('par', 't'), mk('par', 'R')
    t.dim, R.dim = (3, 1), (3, 3)
    rot(R)
    lin, fast = None, None
    fs = {n: D.one('opengv::triangulation::' + n) for n in ('triangulate', 'triangulate2')}
    # the prior must reach the point through gett12/getR12 of the adapter
    fast, lin = triangulated(D, a, i, t, R)
    f1, f2 = acc('getBearingVector1', a, i), acc('getBearingVector2', a, i)
    vt, vR, v1, v2 = (value(x) for x in (t, R, f1, f2))
    v1, v2, vt = (rand.as_mat(x, 3, 1) for x in (v1, v2, vt))
    u = mmul(vR, v2)
    # fast: l1 f1 and t + l2 R f2 with (l1 f1 - t - l2 u) orthogonal to both rays
    A11, A12, A22 = dot3(v1.v, v1.v), (-dot3(v1.v, u.v)) % PR, (-dot3(u.v, u.v)) % PR
    A21 = dot3(v1.v, u.v)
    b1, b2 = dot3(vt.v, v1.v), dot3(vt.v, u.v)
    d = inv_(A11 * A22 - A12 * A21)
    l1, l2 = (b1 * A22 - A12 * b2) * d % PR, (A11 * b2 - A21 * b1) * d % PR
    half = inv_(2)
    mid = Mat(3, 1, [(l1 * v1.v[k] + vt.v[k] + l2 * u.v[k]) * half % PR for k in range(3)])
    got = value(fast)
    C.ob('midpoint', 'triangulate2', loc(fs['triangulate2']), got == mid,
         'the point returned is not the mean of the closest points of the rays (origin, f1) and (t12, R12*f2):\n ' + show(fast, 25))
    # linear
    w = loc(fs['triangulate'])
    svds = [n for n in nodes(lin) if n.op == 'ctor' and 'SVD' in str(n.a[0])]
    svds += [n for n in nodes(lin) if n.op == 'call' and n.a and isinstance(n.a[0], str) and 'vd' in n.a[0].lower() and 'SVD' in n.a[0]]
    if not C.ob('one-svd', 'triangulate', w, len(svds) == 1, 'expected the result to come from one singular value decomposition, found %d:\n %s' % (len(svds), show(lin, 15))):
        return
    A = value(svds[0].a[1])
    if not C.ob('four-columns', 'triangulate', w, isinstance(A, Mat) and A.c == 4, 'the decomposed matrix is not an n x 4 matrix of the analysed form: ' + show(svds[0].a[1], 20)):
        return
    P1 = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 0]]
    Rt = tr(vR)
    Rtt = mmul(Rt, vt)
    P2 = [[Rt.v[3 * r], Rt.v[3 * r + 1], Rt.v[3 * r + 2], (-Rtt.v[r]) % PR] for r in range(3)]
    seen = {1: set(), 2: set()}
    for r in range(A.r):
        row = A.v[4 * r:4 * r + 4]
        hit = None
        for view, P_, f in ((1, P1, v1.v), (2, P2, v2.v)):
            for x, y in ((0, 1), (0, 2), (1, 2)):
                c = [(f[x] * P_[y][k] - f[y] * P_[x][k]) % PR for k in range(4)]
                if parallel(row, c):
                    hit = (view, (x, y))
        C.ob('constraint-row', 'triangulate row %d' % r, w, hit, 'row %d of the decomposed matrix is not a row of the cross-product constraint of view 1 (P=[I|0]) or view 2 (P=[R12\'|-R12\'t12])' % r)
        if hit:
            seen[hit[0]].add(hit[1])
    for view in (1, 2):
        C.ob('rank', 'triangulate view %d' % view, w, len(seen[view]) >= 2, 'only %d independent constraint rows of view %d' % (len(seen[view]), view))
    # dehomogenised last right singular vector
    Vn = [n for n in nodes(lin) if n.a and isinstance(n.a[0], str) and n.a[0].lstrip('.') == 'matrixV']
    ok = False
    for n in Vn:
        V = rand.as_mat(value(n), 4, 4)
        if V is None:
            continue
        c3 = col(V, 3)
        k = inv_(c3[3])
        ok = ok or value(lin) == Mat(3, 1, [c3[j] * k % PR for j in range(3)])
    C.ob('null-vector', 'triangulate', w, ok, 'the point returned is not the last right singular vector divided by its fourth component:\n ' + show(lin, 8))
