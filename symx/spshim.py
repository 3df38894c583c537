'''
scipy stand-in: csr / csc / coo / lil matrices with symbolic values, constructors, and matrix-exponential contracts.
'''

import types
import math
from fractions import Fraction

import numpy as np
import scipy as _sp
import scipy.sparse as _sps
import scipy.sparse.linalg as _spl

from . import sym, npshim
from .sym import Sym, mk, Unsupported
from .npshim import SymArray, symarray, wrap, FLOAT, _obj


def _int_arr(lst):
    return np.array([int(x) for x in lst], dtype=np.int32)


def _isnum(x):
    return isinstance(x, (int, float, Sym, np.integer, np.floating, Fraction)) and not isinstance(x, bool)


def _is0(x):
    'x == 0 (forks when symbolic)'
    return bool(x == 0)


class SparseBase:
    'common operations; subclasses store data/indices/indptr (csr, csc) or row/col/data (coo)'

    _is_shim_sparse = True
    __array_priority__ = 10.1
    __array_ufunc__ = None
    ndim = 2
    format = None

    # ---- construction

    def __init__(self, arg1, shape=None, dtype=None, copy=False):
        self.maxprint = 50
        self._dt = FLOAT if dtype is None or npshim._is_float_dtype(dtype) else np.dtype(npshim._real_dtype(dtype))

        if isinstance(arg1, SparseBase):
            ent = arg1._entries()
            self._init_entries(arg1.shape, ent, arg1._dt if dtype is None else self._dt)
            return
        if _sps.issparse(arg1):
            c = arg1.tocoo()
            self._init_entries(arg1.shape, [(int(r), int(k), float(v)) for r, k, v in zip(c.row, c.col, c.data)],
                               self._dt)
            return
        if isinstance(arg1, tuple):
            if len(arg1) == 2 and all(isinstance(x, (int, np.integer)) for x in arg1):
                self._init_entries((int(arg1[0]), int(arg1[1])), [], self._dt)
                return
            if len(arg1) == 2:
                data, (r, c) = arg1
                data = list(symarray(npshim.asarray(data, dtype=float)).reshape(-1))
                r = [int(x) for x in r]
                c = [int(x) for x in c]
                if len(r) != len(data) or len(c) != len(data):
                    raise ValueError('row, column, and data array must all be the same length')
                if shape is None:
                    shape = (max(r) + 1 if r else 0, max(c) + 1 if c else 0)
                shape = (int(shape[0]), int(shape[1]))
                for x in r:
                    if not 0 <= x < shape[0]:
                        raise ValueError('axis 0 index %d exceeds matrix dimension %d' % (x, shape[0]))
                for x in c:
                    if not 0 <= x < shape[1]:
                        raise ValueError('axis 1 index %d exceeds matrix dimension %d' % (x, shape[1]))
                ent = list(zip(r, c, data))
                if self.format in ('csr', 'csc'):
                    # scipy sums duplicates when converting from coo
                    d = {}
                    for a, b, v in ent:
                        d[(a, b)] = d[(a, b)] + v if (a, b) in d else v
                    ent = [(a, b, v) for (a, b), v in d.items()]
                self._init_entries(shape, ent, self._dt)
                return
            if len(arg1) == 3:
                self._init_compressed(arg1, shape)
                return
            raise ValueError('unrecognized %s_matrix constructor usage' % self.format)
        # dense
        a = npshim.array(arg1, dtype=float)
        if a.ndim == 0:
            a = a.reshape((1, 1))
        if a.ndim == 1:
            a = a.reshape((1, a.shape[0]))
        if a.ndim != 2:
            raise TypeError('expected dimension <= 2 array or matrix')
        ent = []
        for i in range(a.shape[0]):
            for j in range(a.shape[1]):
                v = a[i, j]
                if not _is0(v):
                    ent.append((i, j, v))
        if shape is not None and tuple(shape) != a.shape:
            raise ValueError('inconsistent shapes: %s != %s' % (shape, a.shape))
        self._init_entries(a.shape, ent, self._dt)

    def _init_compressed(self, arg1, shape):
        data, indices, indptr = arg1
        data = npshim.array(data, dtype=float)
        if data.ndim != 1:
            raise ValueError('data, indices, and indptr should be 1-D')
        indices = np.array(npshim._unwrap_nested(indices))
        indptr = np.array(npshim._unwrap_nested(indptr))
        for nm, x in (('indices', indices), ('indptr', indptr)):
            if x.size and x.dtype.kind not in 'iu':
                if x.dtype.kind == 'f' or x.dtype == object:
                    raise ValueError('%s must be integers' % nm)
        indices = indices.astype(np.int32) if indices.size else np.zeros(0, dtype=np.int32)
        indptr = indptr.astype(np.int32)
        maj = 0 if self.format == 'csr' else 1
        if shape is None:
            if len(indptr) < 1:
                raise ValueError('unable to infer matrix dimensions')
            M = len(indptr) - 1
            N = int(indices.max()) + 1 if len(indices) else 0
            shape = (M, N) if maj == 0 else (N, M)
        self.shape = (int(shape[0]), int(shape[1]))
        self.data, self.indices, self.indptr = data, indices, indptr
        self.check_format(full_check=False)

    def check_format(self, full_check=True):
        M, N = self.shape if self.format == 'csr' else (self.shape[1], self.shape[0])
        if len(self.indptr) != M + 1:
            raise ValueError('index pointer size %d should be %d' % (len(self.indptr), M + 1))
        if self.indptr[0] != 0:
            raise ValueError('index pointer should start with 0')
        if len(self.indices) != len(self.data):
            raise ValueError('indices and data should have the same size')
        if self.indptr[-1] > len(self.indices):
            raise ValueError('Last value of index pointer should be less than the size of index and data arrays')
        n = int(self.indptr[-1])
        self.indices = self.indices[:n]
        self.data = self.data[:n]
        if full_check and n > 0:
            if self.indices.max() >= N:
                raise ValueError('indices must be < %d' % N)
            if self.indices.min() < 0:
                raise ValueError('indices must be >= 0')
            if any(self.indptr[i + 1] < self.indptr[i] for i in range(M)):
                raise ValueError('indptr must be a non-decreasing sequence')

    def _init_entries(self, shape, ent, dt):
        'from coordinate list (keeps order within a major slice)'
        self.shape = (int(shape[0]), int(shape[1]))
        self._dt = dt
        if self.format == 'coo':
            self.row = _int_arr([e[0] for e in ent])
            self.col = _int_arr([e[1] for e in ent])
            self.data = _vals([e[2] for e in ent])
            return
        maj = 0 if self.format in ('csr', 'lil', 'dok') else 1
        n = self.shape[maj]
        b = [[] for _ in range(n)]
        for e in ent:
            b[e[maj]].append(e)
        inds, data, ptr = [], [], [0]
        for sl in b:
            for e in sl:
                inds.append(e[1 - maj])
                data.append(e[2])
            ptr.append(len(data))
        self.indices = _int_arr(inds)
        self.indptr = _int_arr(ptr)
        self.data = _vals(data)

    def _entries(self):
        if self.format == 'coo':
            return [(int(r), int(c), v) for r, c, v in zip(self.row, self.col, self.data)]
        out = []
        maj = 0 if self.format in ('csr', 'lil', 'dok') else 1
        for m in range(self.shape[maj]):
            for k in range(int(self.indptr[m]), int(self.indptr[m + 1])):
                i = int(self.indices[k])
                out.append((m, i, self.data[k]) if maj == 0 else (i, m, self.data[k]))
        return out

    def _new(self, shape, ent, cls=None):
        cls = cls or (type(self) if self.format != 'lil' else csr_matrix)
        r = cls.__new__(cls)
        r.maxprint = 50
        r._init_entries(shape, ent, FLOAT)
        return r

    # ---- attributes

    @property
    def dtype(self):
        return self._dt

    @property
    def nnz(self):
        return len(self.data)

    @property
    def size(self):
        return len(self.data)

    @property
    def T(self):
        return self.transpose()

    @property
    def has_sorted_indices(self):
        return all(self.indices[k] < self.indices[k + 1] for m in range(len(self.indptr) - 1)
                   for k in range(self.indptr[m], self.indptr[m + 1] - 1))

    has_canonical_format = has_sorted_indices

    def get_shape(self):
        return self.shape

    def getformat(self):
        return self.format

    def getnnz(self, axis=None):
        if axis is None:
            return len(self.data)
        n = [0] * self.shape[1 - (axis % 2)]
        for r, c, _ in self._entries():
            n[c if axis % 2 == 0 else r] += 1
        return np.array(n)

    def count_nonzero(self, axis=None):
        return sum(0 if _is0(v) else 1 for v in self.sum_dup_dict().values())

    def sum_dup_dict(self):
        d = {}
        for r, c, v in self._entries():
            d[(r, c)] = d[(r, c)] + v if (r, c) in d else v
        return d

    # ---- conversion

    def toarray(self, order=None, out=None):
        a = npshim.zeros(self.shape)
        for r, c, v in self._entries():
            a[r, c] = a[r, c] + v
        return a

    def todense(self):
        return self.toarray()

    def tocsr(self, copy=False):
        return self._conv(csr_matrix)

    def tocsc(self, copy=False):
        return self._conv(csc_matrix)

    def tocoo(self, copy=False):
        return self._conv(coo_matrix)

    def tolil(self, copy=False):
        return self._conv(lil_matrix)

    def todok(self, copy=False):
        return self._conv(lil_matrix)

    def _conv(self, cls):
        if type(self) is cls:
            return self
        return cls(self)

    def asformat(self, fmt, copy=False):
        return {None: lambda: self, 'csr': self.tocsr, 'csc': self.tocsc, 'coo': self.tocoo, 'lil': self.tolil}[fmt]()

    def copy(self):
        r = self._new(self.shape, self._entries(), type(self))
        return r

    __copy__ = copy

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, **_k):
        return self.copy()

    def transpose(self, axes=None, copy=False):
        ent = [(c, r, v) for r, c, v in self._entries()]
        cls = {'csr': csc_matrix, 'csc': csr_matrix}.get(self.format, type(self))
        return self._new((self.shape[1], self.shape[0]), ent, cls)

    def sum_duplicates(self):
        self._init_entries(self.shape, [(r, c, v) for (r, c), v in sorted(self.sum_dup_dict().items())], self._dt)

    def sort_indices(self):
        self._init_entries(self.shape, sorted(self._entries(), key=lambda e: e[:2]), self._dt)

    def sorted_indices(self):
        r = self.copy()
        r.sort_indices()
        return r

    def eliminate_zeros(self):
        self._init_entries(self.shape, [e for e in self._entries() if not _is0(e[2])], self._dt)

    def diagonal(self, k=0):
        a = self.toarray()
        return wrap(np.diagonal(a, k))

    def nonzero(self):
        e = [(r, c) for (r, c), v in sorted(self.sum_dup_dict().items()) if not _is0(v)]
        return _int_arr([x[0] for x in e]), _int_arr([x[1] for x in e])

    def sum(self, axis=None, **_k):
        a = self.toarray()
        s = np.ndarray.sum(a, axis=axis)
        if axis is None:
            return s
        s = wrap(np.asarray(s, dtype=object))
        return s.reshape((1, -1)) if axis % 2 == 0 else s.reshape((-1, 1))

    def max(self, axis=None):
        r = self.toarray().max(axis=axis)
        return r if axis is None else coo_matrix(r.reshape((1, -1) if axis == 0 else (-1, 1)))

    def min(self, axis=None):
        r = np.ndarray.min(self.toarray(), axis=axis)
        return r if axis is None else coo_matrix(r.reshape((1, -1) if axis == 0 else (-1, 1)))

    def mean(self):
        return self.sum() / (self.shape[0] * self.shape[1])

    # ---- arithmetic

    def _map(self, f):
        return self._new(self.shape, [(r, c, f(v)) for r, c, v in self._entries()], type(self))

    def __neg__(self):
        return self._map(lambda v: -v)

    def __abs__(self):
        return self._map(abs)

    def __truediv__(self, o):
        if _isnum(o):
            return self._map(lambda v: v / o)
        return wrap(self.toarray() / _obj(o))

    def __mul__(self, o):
        if _isnum(o):
            return self._map(lambda v: v * o)
        return self._matmul(o)

    def __rmul__(self, o):
        if _isnum(o):
            return self._map(lambda v: o * v)
        return self._rmatmul(o)

    def __matmul__(self, o):
        if _isnum(o):
            raise ValueError("Scalar operands are not allowed, use '*' instead")
        return self._matmul(o)

    def __rmatmul__(self, o):
        return self._rmatmul(o)

    def dot(self, o):
        if _isnum(o):
            return self * o
        return self._matmul(o)

    def _matmul(self, o):
        if isinstance(o, SparseBase):
            if self.shape[1] != o.shape[0]:
                raise ValueError('dimension mismatch')
            by_row = {}
            for r, c, v in o._entries():
                by_row.setdefault(r, []).append((c, v))
            d = {}
            for r, c, v in self._entries():
                for c2, v2 in by_row.get(c, ()):
                    t = v * v2
                    d[(r, c2)] = d[(r, c2)] + t if (r, c2) in d else t
            ent = [(r, c, v) for (r, c), v in d.items()]
            return self._new((self.shape[0], o.shape[1]), ent, type(self) if self.format in ('csr', 'csc') else csr_matrix)
        if isinstance(o, (list, tuple)):
            o = npshim.array(o, dtype=float)
        if not isinstance(o, np.ndarray):
            return NotImplemented
        a = _obj(o)
        if a.ndim == 1:
            if a.shape[0] != self.shape[1]:
                raise ValueError('dimension mismatch')
            out = npshim.zeros(self.shape[0])
            for r, c, v in self._entries():
                out[r] = _s(out[r] + v * a[c])
            return out
        if a.ndim == 2:
            if a.shape[0] != self.shape[1]:
                raise ValueError('dimension mismatch')
            out = npshim.zeros((self.shape[0], a.shape[1]))
            for r, c, v in self._entries():
                for k in range(a.shape[1]):
                    out[r, k] = _s(out[r, k] + v * a[c, k])
            return out
        raise ValueError('could not interpret dimensions')

    def _rmatmul(self, o):
        if isinstance(o, (list, tuple)):
            o = npshim.array(o, dtype=float)
        if not isinstance(o, np.ndarray):
            return NotImplemented
        return (self.T._matmul(_obj(o).T)).T

    def multiply(self, o):
        if _isnum(o):
            return self * o
        b = o.toarray() if isinstance(o, SparseBase) else _obj(o)
        b = np.broadcast_to(b, self.shape)
        return self._new(self.shape, [(r, c, v * b[r, c]) for r, c, v in self._entries()], type(self))

    def _addsub(self, o, sgn):
        if isinstance(o, SparseBase):
            if self.shape != o.shape:
                raise ValueError('inconsistent shapes')
            d = dict(self.sum_dup_dict())
            for k, v in o.sum_dup_dict().items():
                v = v if sgn > 0 else -v
                d[k] = d[k] + v if k in d else v
            ent = [(r, c, v) for (r, c), v in sorted(d.items()) if not _is0(v)]
            return self._new(self.shape, ent, type(self) if self.format in ('csr', 'csc') else csr_matrix)
        if _isnum(o):
            if _is0(o):
                return self.copy()
            raise NotImplementedError('adding a nonzero scalar to a sparse matrix is not supported')
        return wrap(self.toarray() + _obj(o) if sgn > 0 else self.toarray() - _obj(o))

    def __add__(self, o):
        return self._addsub(o, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._addsub(o, -1)

    def __rsub__(self, o):
        return (-self).__add__(o)

    def __pow__(self, n):
        r = identity(self.shape[0], format='csr')
        for _ in range(n):
            r = r * self
        return r

    def power(self, n):
        return self._map(lambda v: v ** n)

    def _compare(self, o, f, dflt):
        if isinstance(o, SparseBase):
            if self.shape != o.shape:
                return not dflt if f == 'ne' else False
            a, b = self.sum_dup_dict(), o.sum_dup_dict()
        elif _isnum(o):
            a = {(i, j): v for i, r in enumerate(self.toarray()) for j, v in enumerate(r)}
            b = {k: o for k in a}
        else:
            return getattr(self.toarray(), '__%s__' % f)(_obj(o))
        ent = []
        ks = set(a) | set(b)
        if f != 'ne':
            ks = {(i, j) for i in range(self.shape[0]) for j in range(self.shape[1])}
        for k in sorted(ks):
            x, y = a.get(k, 0.0), b.get(k, 0.0)
            t = {'ne': lambda: x != y, 'eq': lambda: x == y, 'le': lambda: x <= y, 'lt': lambda: x < y,
                 'ge': lambda: x >= y, 'gt': lambda: x > y}[f]()
            if bool(t):
                ent.append((k[0], k[1], 1.0))
        return self._new(self.shape, ent, csr_matrix)

    def __ne__(self, o):
        return self._compare(o, 'ne', False)

    def __eq__(self, o):
        return self._compare(o, 'eq', True)

    def __le__(self, o):
        return self._compare(o, 'le', True)

    def __lt__(self, o):
        return self._compare(o, 'lt', False)

    def __ge__(self, o):
        return self._compare(o, 'ge', True)

    def __gt__(self, o):
        return self._compare(o, 'gt', False)

    __hash__ = object.__hash__

    def __bool__(self):
        if self.shape == (1, 1):
            return self.nnz != 0
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all().')

    def __len__(self):
        raise TypeError('sparse array length is ambiguous; use getnnz() or array.shape[0]')

    def __iter__(self):
        for r in range(self.shape[0]):
            yield self[r, :]

    # ---- indexing

    def _idx(self, k, n):
        'index expression -> (list of ints, is_scalar)'
        if isinstance(k, slice):
            return list(range(*k.indices(n))), False
        if isinstance(k, (int, np.integer)):
            k = int(k)
            if k < -n or k >= n:
                raise IndexError('index (%d) out of range' % k)
            return [k % n], True
        if isinstance(k, np.ndarray) and k.dtype == bool:
            return [i for i, b in enumerate(k) if b], False
        if isinstance(k, (list, tuple, np.ndarray, range)):
            out = []
            for x in k:
                x = int(x)
                if x < -n or x >= n:
                    raise IndexError('index out of range')
                out.append(x % n)
            return out, False
        raise IndexError('unsupported index %r' % (k,))

    def __getitem__(self, key):
        if isinstance(key, tuple):
            rk, ck = key
        else:
            rk, ck = key, slice(None)
        if rk is Ellipsis:
            rk = slice(None)
        if ck is Ellipsis:
            ck = slice(None)
        rows, rs = self._idx(rk, self.shape[0])
        cols, cs = self._idx(ck, self.shape[1])
        if rs and cs:
            t = 0.0
            for r, c, v in self._entries():
                if r == rows[0] and c == cols[0]:
                    t = t + v
            return t
        if isinstance(rk, (list, np.ndarray)) and isinstance(ck, (list, np.ndarray)):
            d = self.sum_dup_dict()
            return wrap(np.array([[d.get((r, c), 0.0) for r, c in zip(rows, cols)]], dtype=object))
        rpos, cpos = {}, {}
        for i, r in enumerate(rows):
            rpos.setdefault(r, []).append(i)
        for i, c in enumerate(cols):
            cpos.setdefault(c, []).append(i)
        ent = []
        for r, c, v in self._entries():
            for i in rpos.get(r, ()):
                for j in cpos.get(c, ()):
                    ent.append((i, j, v))
        return self._new((len(rows), len(cols)), ent)

    def __setitem__(self, key, val):
        rk, ck = key if isinstance(key, tuple) else (key, slice(None))
        rows, _ = self._idx(rk, self.shape[0])
        cols, _ = self._idx(ck, self.shape[1])
        if isinstance(val, SparseBase):
            val = val.toarray()
        v = np.broadcast_to(_obj(val), (len(rows), len(cols)))
        d = self.sum_dup_dict()
        for i, r in enumerate(rows):
            for j, c in enumerate(cols):
                if _is0(v[i, j]) and self.format == 'lil':
                    d.pop((r, c), None)
                else:
                    d[(r, c)] = v[i, j]
        self._init_entries(self.shape, [(r, c, x) for (r, c), x in sorted(d.items())], self._dt)

    def getrow(self, i):
        return self[i, :]

    def getcol(self, i):
        return self[:, i]

    def reshape(self, *shape, **_k):
        if len(shape) == 1:
            shape = shape[0]
        return self._new(shape, _dense_entries(self.toarray().reshape(shape)))

    def setdiag(self, vals, k=0):
        n = min(self.shape)
        for i in range(n):
            self[i, i + k] = vals if _isnum(vals) else vals[i]

    def __repr__(self):
        return '<shim %s %s nnz=%d>' % (self.format, self.shape, len(self.data))

    __str__ = __repr__


def _dense_entries(a):
    return [(i, j, a[i, j]) for i in range(a.shape[0]) for j in range(a.shape[1]) if not _is0(a[i, j])]


def _s(x):
    return sym.simp(x) if isinstance(x, Sym) else x


def _vals(lst):
    out = np.empty(len(lst), dtype=object)
    for i, x in enumerate(lst):
        out[i] = npshim._norm_el(x)
    return out.view(SymArray)


class csr_matrix(SparseBase):
    format = 'csr'


class csc_matrix(SparseBase):
    format = 'csc'


class coo_matrix(SparseBase):
    format = 'coo'


class lil_matrix(SparseBase):
    format = 'lil'


def identity(n, dtype='d', format=None):
    return csr_matrix(_sps.identity(n)).asformat(format if format in ('csr', 'csc', 'coo', 'lil') else 'csr')


def eye(m, n=None, k=0, dtype=float, format=None):
    return csr_matrix(_sps.eye(m, n, k)).asformat(format if format in ('csr', 'csc', 'coo', 'lil') else 'csr')


def _blocks(x):
    return x if isinstance(x, SparseBase) else csr_matrix(x)


def bmat(blocks, format=None, dtype=None):
    R, C = len(blocks), len(blocks[0])
    h, w = [None] * R, [None] * C
    bl = [[None if b is None else _blocks(b) for b in row] for row in blocks]
    for i in range(R):
        for j in range(C):
            b = bl[i][j]
            if b is None:
                continue
            if h[i] is None:
                h[i] = b.shape[0]
            elif h[i] != b.shape[0]:
                raise ValueError('blocks[%d,:] has incompatible row dimensions' % i)
            if w[j] is None:
                w[j] = b.shape[1]
            elif w[j] != b.shape[1]:
                raise ValueError('blocks[:,%d] has incompatible column dimensions' % j)
    ent = []
    ro = 0
    for i in range(R):
        co = 0
        for j in range(C):
            if bl[i][j] is not None:
                ent += [(r + ro, c + co, v) for r, c, v in bl[i][j]._entries()]
            co += w[j] or 0
        ro += h[i] or 0
    r = coo_matrix((sum(x or 0 for x in h), sum(x or 0 for x in w)))
    r._init_entries(r.shape, ent, FLOAT)
    return r.asformat(format) if format else r


def hstack(blocks, format=None, dtype=None):
    return bmat([list(blocks)], format=format)


def vstack(blocks, format=None, dtype=None):
    return bmat([[b] for b in blocks], format=format)


def block_diag(mats, format=None, dtype=None):
    mats = [_blocks(m) for m in mats]
    n = len(mats)
    ent, ro, co = [], 0, 0
    for m in mats:
        ent += [(r + ro, c + co, v) for r, c, v in m._entries()]
        ro += m.shape[0]
        co += m.shape[1]
    r = coo_matrix((ro, co))
    r._init_entries((ro, co), ent, FLOAT)
    return r.asformat(format) if format else r


def _filter(a, keep, format):
    a = _blocks(a)
    r = coo_matrix(a.shape)
    r._init_entries(a.shape, [(i, j, v) for i, j, v in a._entries() if keep(i, j)], FLOAT)
    return r.asformat(format) if format else r


def tril(a, k=0, format=None):
    return _filter(a, lambda i, j: j <= i + k, format)


def triu(a, k=0, format=None):
    return _filter(a, lambda i, j: j >= i + k, format)


def kron(a, b, format=None):
    a, b = _blocks(a), _blocks(b)
    r = coo_matrix((a.shape[0] * b.shape[0], a.shape[1] * b.shape[1]))
    r._init_entries(r.shape, [(i * b.shape[0] + k, j * b.shape[1] + m, _s(v * w)) for i, j, v in a._entries()
                              for k, m, w in b._entries()], FLOAT)
    return r.asformat(format) if format else r


def find(a):
    e = [(i, j, v) for i, j, v in _blocks(a)._entries() if bool(v != 0)]
    return (np.array([x[0] for x in e], dtype=int), np.array([x[1] for x in e], dtype=int),
            symarray(np.array([x[2] for x in e], dtype=object)))


def diags(diagonals, offsets=0, shape=None, format=None, dtype=None):
    if npshim._contains_sym(diagonals):
        if isinstance(offsets, int):
            diagonals, offsets = [diagonals if np.ndim(diagonals[0]) == 0 else diagonals[0]], [offsets]
        n = max(len(d) + abs(o) for d, o in zip(diagonals, offsets))
        shape = shape or (n, n)
        r = coo_matrix(shape)
        r._init_entries(shape, [(q + max(-o, 0), q + max(o, 0), _s(v)) for d, o in zip(diagonals, offsets)
                                for q, v in enumerate(d)], FLOAT)
        return r.asformat(format or 'csr')
    return csr_matrix(_sps.diags(diagonals, offsets, shape)).asformat(format or 'csr')


def issparse(x):
    return isinstance(x, SparseBase)


# ---------------------------------------------------------------------------------------------------- expm

class ExpmModel:
    '''e^M for: concrete M (real scipy), symbolically nilpotent M (exact finite series), and otherwise a contract: fresh
    matrices E, P standing for e^{Ah} and the average of e^{As} over [0,h], with e^{A k h} = E^k.'''

    def __init__(self):
        self.units = {}      # base key -> (unit scale, E, P)
        self.used = set()

    def expm_dense(self, m):
        n = m.shape[0]
        if n == 0:
            return m
        ent = [m[i, j] for i in range(n) for j in range(n)]
        if not any(isinstance(v, Sym) and not v.is_const() for v in ent):
            # nilpotent concrete matrices exactly too
            r = self._nilpotent(m)
            if r is not None:
                self.used.add('nilpotent')
                return r
            self.used.add('scipy')
            a = np.array([[float(m[i, j]) for j in range(n)] for i in range(n)])
            return symarray(_spl.expm(_sps.csc_matrix(a)).toarray())
        r = self._nilpotent(m)
        if r is not None:
            self.used.add('nilpotent')
            return r
        self.used.add('contract')
        return self._contract(m)

    def _nilpotent(self, m):
        n = m.shape[0]
        # cheap structural test on zero pattern first (concrete or symbolic)
        acc = npshim.identity(n)
        p = npshim.identity(n)
        f = Fraction(1)
        mm = symarray(m)
        pat = [[not (not isinstance(m[i, j], Sym) and m[i, j] == 0) and not (isinstance(m[i, j], Sym) and not m[i, j].p)
                for j in range(n)] for i in range(n)]
        q = [[i == j for j in range(n)] for i in range(n)]
        for _ in range(n):
            q = [[any(q[i][k] and pat[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
        if any(any(r) for r in q):
            # not structurally nilpotent: an exact test for concrete matrices
            if any(isinstance(m[i, j], Sym) and not m[i, j].is_const() for i in range(n) for j in range(n)):
                return None
            fr = [[mk(m[i, j]).p.get((), Fraction(0)) for j in range(n)] for i in range(n)]
            z = [r[:] for r in fr]
            for _ in range(n - 1):
                z = [[sum(z[i][k] * fr[k][j] for k in range(n)) for j in range(n)] for i in range(n)]
            if any(any(r) for r in z):
                return None
        for k in range(1, n + 1):
            p = npshim.dot(p, mm)
            f = f / k
            for i in range(n):
                for j in range(n):
                    v = p[i, j]
                    if isinstance(v, Sym) or v != 0:
                        acc[i, j] = _s(acc[i, j] + mk(v) * f)
        return acc

    def _contract(self, m):
        n = m.shape[0]
        z = 0
        for i in range(n - 1, -1, -1):
            if all((isinstance(v, Sym) and not v.p) or (not isinstance(v, Sym) and v == 0) for v in m[i]):
                z += 1
            else:
                break
        k = n - z
        if k == 0:
            return npshim.identity(n)
        base = [[mk(m[i, j]) for j in range(k)] for i in range(k)]
        s = None
        for row in base:
            for v in row:
                if v.p and s is None:
                    s = v.p[min(v.p)]
        key = tuple(tuple((v * (1 / s)).key() for v in row) for row in base)
        if key not in self.units:
            eng = sym.ENG
            E = npshim.zeros((k, k))
            P = npshim.zeros((k, k))
            for i in range(k):
                for j in range(k):
                    E[i, j] = eng.fresh('E')
                    P[i, j] = eng.fresh('P')
                    for v in (E[i, j], P[i, j]):
                        eng.assume(sym.cand(sym.cond_le(v - 8), sym.cond_le(-v - 8)))
            self.units[key] = (s, E, P)
        unit, E, P = self.units[key]
        ratio = s / unit
        if ratio.denominator != 1 or ratio < 0:
            raise Unsupported('matrix exponential at a non-multiple of the recorded step')
        kk = int(ratio)
        Ek = npshim.identity(k)
        Pk = npshim.zeros((k, k))
        for _ in range(kk):
            Pk = wrap(Pk + npshim.dot(Ek, P))
            Ek = npshim.dot(Ek, E)
        out = npshim.identity(n)
        out[:k, :k] = Ek
        if z:
            Q = symarray(m[:k, k:])
            if kk:
                Pk = wrap(Pk * Fraction(1, kk))
            out[:k, k:] = npshim.dot(Pk, Q)
        return out


class _SpLinalg(types.ModuleType):
    def __init__(self, model):
        types.ModuleType.__init__(self, 'scipy.sparse.linalg')
        self.model = model

    def expm(self, a):
        if isinstance(a, SparseBase):
            r = self.model.expm_dense(a.toarray())
            out = csc_matrix(a.shape)
            out._init_entries(a.shape, [(i, j, r[i, j]) for i in range(a.shape[0]) for j in range(a.shape[1])
                                        if isinstance(r[i, j], Sym) or r[i, j] != 0], FLOAT)
            return out
        return self.model.expm_dense(symarray(_obj(a)))

    def expm_multiply(self, a, b, start=None, stop=None, num=None, endpoint=None, traceA=None):
        if start is not None or stop is not None:
            raise Unsupported('expm_multiply with a time grid')
        m = a.toarray() if isinstance(a, SparseBase) else symarray(_obj(a))
        return npshim.dot(self.model.expm_dense(m), b.toarray() if isinstance(b, SparseBase) else b)

    def norm(self, a, ord=None, axis=None):
        if axis is not None:
            raise Unsupported('sparse norm with axis')
        if ord is None:
            ord = 'fro'
        return npshim.norm(a.toarray(), ord)

    def inv(self, a):
        return csc_matrix(npshim._inv(a.toarray()))

    def __getattr__(self, name):
        raise Unsupported('scipy.sparse.linalg.' + name)


class _Integrate(types.ModuleType):
    'odeint for right-hand sides that are affine in the state (checked by probing)'

    def __init__(self, model):
        types.ModuleType.__init__(self, 'scipy.integrate')
        self.model = model

    def odeint(self, f, y0, t, args=(), **_k):
        y0 = symarray(_obj(y0)).reshape(-1)
        n = y0.shape[0]
        ts = [sym.simp(x) for x in _obj(t).reshape(-1)]
        z = npshim.zeros(n)
        b = symarray(_obj(f(z.copy(), 0.0, *args))).reshape(-1)
        m = npshim.zeros((n + 1, n + 1))
        for j in range(n):
            e = npshim.zeros(n)
            e[j] = 1.0
            c = symarray(_obj(f(e, 0.0, *args))).reshape(-1)
            for i in range(n):
                m[i, j] = _s(c[i] - b[i])
        for i in range(n):
            m[i, n] = b[i]
        out = npshim.zeros((len(ts), n))
        aug = npshim.zeros(n + 1)
        aug[:n] = y0
        aug[n] = 1.0
        for k, tk in enumerate(ts):
            E = self.model.expm_dense(symarray(wrap(m * (tk - ts[0]))))
            out[k, :] = npshim.dot(E, aug)[:n]
        return out

    def __getattr__(self, name):
        raise Unsupported('scipy.integrate.' + name)


class ScipyShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'scipy')
        self.model = ExpmModel()
        self.sparse = types.ModuleType('scipy.sparse')
        for k in ('csr_matrix csc_matrix coo_matrix lil_matrix identity eye bmat hstack vstack block_diag diags tril triu kron find '
                  'issparse').split():
            setattr(self.sparse, k, globals()[k])
        self.sparse.dok_matrix = lil_matrix
        self.sparse.csr_array = csr_matrix
        self.sparse.csc_array = csc_matrix
        self.sparse.coo_array = coo_matrix
        self.sparse.eye_array = eye
        self.sparse.isspmatrix = issparse
        self.sparse.spmatrix = SparseBase
        self.sparse.isspmatrix_csr = lambda x: isinstance(x, csr_matrix)
        self.sparse.isspmatrix_csc = lambda x: isinstance(x, csc_matrix)
        self.sparse.linalg = _SpLinalg(self.model)
        self.linalg = types.ModuleType('scipy.linalg')
        self.linalg.expm = self.sparse.linalg.expm
        self.linalg.norm = npshim.norm
        self.linalg.inv = npshim._inv
        self.integrate = _Integrate(self.model)

    def __getattr__(self, name):
        if name == 'spatial':
            from . import geom
            self.spatial = geom.Spatial()
            return self.spatial
        raise Unsupported('scipy.' + name)
