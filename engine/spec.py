"""Small algebra for writing specifications as value graphs in normal form."""
from vg import *
import nodes as _n


def rot(x):
    """state the fact that x is a rotation matrix"""
    _n.ROT.add(x)
    return x


def mm(*xs):
    r = xs[0]
    for x in xs[1:]:
        da, db = r.dim or (1, 1), x.dim or (1, 1)
        if da == (1, 1) or db == (1, 1):
            d = db if da == (1, 1) else da
        else:
            d = (da[0], db[1])
        r = times(r, x, d, da, db)
    return r


def pl(x, y):
    return plus(x, y, x.dim or y.dim)


def mi(x, y):
    return plus(x, neg(y) if x.dim in (None, (1, 1)) else mscale(num(-1), y), x.dim or y.dim)


def T(x):
    return transpose(x)


def dot(x, y):
    return mm(T(x), y)


def block3(m):
    return region(m, 0, 0, 3, 3)


def col3(m):
    return region(m, 0, 3, 3, 1)


def par(name, dim=None):
    p = mk('par', name)
    if dim:
        p.dim = dim
    return p


def dpar(name, dim=None):
    """value of the object a reference parameter denotes"""
    p = mk('deref', mk('par', name))
    if dim:
        p.dim = dim
    return p
