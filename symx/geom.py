'''
Planar convex hull and rank stand-ins for the symbolic world (scipy.spatial.ConvexHull and numpy.linalg.svd of up to two planar
vectors).  Orientation tests on symbolic points fork.  Facet normals are scaled to length one in the 1-norm instead of the 2-norm:
the scale only matters for when the outline counts as accurate enough.
'''

import types

import numpy as np

from . import npshim
from .sym import mk, Sym, Unsupported


class QhullError(RuntimeError):
    pass


def _pts(points):
    o = npshim._obj(npshim.symarray(npshim._obj(npshim.array(points))))
    return [[mk(x) for x in r] for r in o.reshape(len(points), -1)]


def _cross(a, b, c):
    return (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])


def _less(a, b):
    d = a[0] - b[0]
    if bool(d < 0):
        return True
    if bool(d > 0):
        return False
    return bool(a[1] - b[1] < 0)


def hull_indices(p):
    order = []
    for i in range(len(p)):          # insertion sort: comparisons may fork
        k = len(order)
        while k > 0 and _less(p[i], p[order[k - 1]]):
            k -= 1
        order.insert(k, i)

    def chain(seq):
        out = []
        for i in seq:
            while len(out) > 1 and not bool(_cross(p[out[-2]], p[out[-1]], p[i]) > 0):
                out.pop()
            out.append(i)
        return out
    lo, up = chain(order), chain(order[::-1])
    return lo[:-1] + up[:-1]


def _abs(x):
    return x if bool(x >= 0) else -x


class ConvexHull:
    def __init__(self, points, **_k):
        p = _pts(points)
        if any(len(x) != 2 for x in p):
            raise Unsupported('convex hull of points that are not planar')
        if len(p) < 3:
            raise QhullError('QH6214 qhull input error: not enough points to construct initial simplex')
        v = hull_indices(p)
        if len(v) < 3:
            raise QhullError('QH6154 Qhull precision error: Initial simplex is flat')
        self.points = npshim.symarray(npshim._obj(npshim.array(points)))
        self.vertices = np.array(v, dtype=int)
        edges = [(v[i], v[(i + 1) % len(v)]) for i in range(len(v))]
        self.simplices = np.array(edges, dtype=int)
        eqs = []
        for i, j in edges:
            n = (p[j][1] - p[i][1], p[i][0] - p[j][0])
            s = _abs(n[0]) + _abs(n[1])
            n = (n[0] / s, n[1] / s)
            eqs.append([n[0], n[1], -(n[0] * p[i][0] + n[1] * p[i][1])])
        self.equations = npshim.array(eqs)
        self.nsimplex = len(edges)


def svd(a, full_matrices=True, **k):
    o = npshim._obj(npshim.array(a))
    if not any(isinstance(v, Sym) and not v.is_const() for v in o.reshape(-1)):
        return npshim._concrete_fn(np.linalg.svd)(a, full_matrices=full_matrices, **k)
    if o.ndim != 2 or o.shape[1] != 2 or o.shape[0] > 2 or not full_matrices:
        raise Unsupported('symbolic svd')
    r = [[mk(x) for x in row] for row in o]
    sizes = [_abs(x[0]) + _abs(x[1]) for x in r]
    big = 0 if len(r) == 1 or bool(sizes[0] >= sizes[1]) else 1
    d = r[big]
    v = npshim.array([d, [-d[1], d[0]]])
    if len(r) == 1:
        s = npshim.array([sizes[0]])
    else:
        det = _abs(r[0][0] * r[1][1] - r[0][1] * r[1][0])
        s = npshim.array([sizes[big], det / sizes[big] if bool(sizes[big] > 0) else mk(0)])
    return None, s, v


class Spatial(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'scipy.spatial')
        self.ConvexHull = ConvexHull
        self.QhullError = QhullError
        self.qhull = self

    def __getattr__(self, name):
        raise Unsupported('scipy.spatial.' + name)
