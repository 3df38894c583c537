'''
numpy stand-in for the symbolic world: float arrays are object arrays (class SymArray, reporting dtype float) whose
elements are floats or Sym; everything else is delegated to the real numpy and re-wrapped.
'''

import types
import math as _math
from fractions import Fraction

import numpy as np

from . import sym
from .sym import Sym, Cond, mk, cond_le, cond_eq, cand, Unsupported


class _FloatDtype:
    'what .dtype of a symbolic float array reports'

    kind = 'f'
    name = 'float64'
    itemsize = 8
    char = 'd'
    type = np.float64

    def __eq__(self, other):
        if other is self or other is float or other is np.float64 or isinstance(other, _FloatDtype):
            return True
        if isinstance(other, type) and issubclass(other, FloatShim):
            return True
        try:
            return np.dtype(other) == np.dtype(float)
        except TypeError:
            return False

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(np.dtype(float))

    def __repr__(self):
        return "dtype('float64')"

    __str__ = __repr__


FLOAT = _FloatDtype()


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, float)

    def __eq__(cls, o):
        return o is cls or o is float

    def __hash__(cls):
        return hash(float)


class FloatShim(metaclass=_FloatMeta):
    'the builtin "float" seen by the code under test'

    dtype = np.dtype('float64')

    def __new__(cls, x=0.0):
        if isinstance(x, Sym):
            return sym.simp(x)
        if isinstance(x, np.ndarray) and x.dtype == FLOAT:
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return sym.simp(x.reshape(-1)[0])
        if type(x).__name__ == 'SymNumber':
            return x.value()
        return float(x)

    fromhex = float.fromhex


def _is_float_dtype(dt):
    if dt is None:
        return False
    if dt is FLOAT or dt is float or dt is FloatShim:
        return True
    try:
        return np.dtype(dt).kind == 'f'
    except TypeError:
        return False


def _real_dtype(dt):
    if dt is FLOAT or dt is FloatShim:
        return np.dtype(float)
    return dt


class SymArray(np.ndarray):
    'object array of floats / Sym'

    __array_priority__ = 500

    @property
    def dtype(self):
        d = np.ndarray.dtype.__get__(self)
        if d == object:
            return FLOAT
        return d

    def astype(self, dt, *a, **k):
        if np.ndarray.dtype.__get__(self) == object:
            if _is_float_dtype(dt):
                return self.copy()
            dtr = _real_dtype(dt)
            if dtr is object or np.dtype(dtr) == object:
                return self.copy()
            return np.array([_to_kind(x, dtr) for x in self.reshape(-1).view(np.ndarray)],
                            dtype=dtr).reshape(self.shape)
        return np.ndarray.astype(self.view(np.ndarray), _real_dtype(dt), *a, **k)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar and arr.ndim == 0:
            return arr[()]
        return wrap(arr)

    def __deepcopy__(self, memo):
        return self.copy()

    def mean(self, *a, **k):
        s = np.ndarray.sum(self, *a, **k)
        n = self.size if not a and k.get('axis') is None else self.shape[a[0] if a else k['axis']]
        return s / n

    def __float__(self):
        if self.size == 1:
            return float(self.reshape(-1).view(np.ndarray)[0])
        raise TypeError('only length-1 arrays can be converted')

    def item(self, *a):
        return self.view(np.ndarray).item(*a)

    def max(self, axis=None, **k):
        return np.ndarray.max(self, axis=axis)

    def round(self, decimals=0, out=None):
        return around(self, decimals)

    def __repr__(self):
        return 'SymArray(%s)' % (self.view(np.ndarray).tolist(),)

    def __str__(self):
        return str(self.view(np.ndarray).tolist())

    def __format__(self, spec):
        return str(self)


def _to_kind(x, dt):
    k = np.dtype(dt).kind
    if k == 'b':
        return bool(x)
    if k in 'iu':
        return int(x)
    raise Unsupported('astype %s' % dt)


def wrap(a):
    'numpy result -> symbolic-world value'
    if isinstance(a, np.ndarray):
        d = np.ndarray.dtype.__get__(a)
        if d == object or d.kind == 'f':
            return symarray(a)
        if isinstance(a, SymArray):
            return a.view(np.ndarray)
        return a
    if isinstance(a, tuple) and type(a) is tuple:
        return tuple(wrap(x) for x in a)
    if isinstance(a, list):
        return [wrap(x) for x in a]
    return a


def _norm_el(x):
    if isinstance(x, Sym):
        return sym.simp(x)
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, (int, np.integer, float, np.floating)):
        return float(x)
    if isinstance(x, Fraction):
        return sym.simp(mk(x))
    if isinstance(x, Cond):
        return float(bool(x))
    if isinstance(x, np.ndarray) and x.size == 1:
        return _norm_el(x.reshape(-1)[0])
    if type(x).__name__ == 'SymNumber':
        return x.value()
    if x is None or isinstance(x, (str, bytes)):
        return float(x)      # raises like numpy
    if isinstance(x, complex):
        raise TypeError('complex')
    return float(x)


def symarray(a, copy=False):
    'any array-like of numbers -> SymArray'
    d = np.ndarray.dtype.__get__(a) if isinstance(a, np.ndarray) else None
    if d is not None and d == object:
        if isinstance(a, SymArray) and not copy:
            return a
        out = np.empty(a.shape, dtype=object)
        flat = out.reshape(-1)
        for i, x in enumerate(a.reshape(-1).view(np.ndarray) if isinstance(a, SymArray) else a.reshape(-1)):
            flat[i] = _norm_el(x)
        return out.view(SymArray)
    if d is not None:
        out = a.astype(object)
        flat = out.reshape(-1)
        for i in range(flat.shape[0]):
            flat[i] = _norm_el(flat[i])
        return out.view(SymArray)
    o = _obj_array(a)
    return symarray(o)


def _unwrap_nested(a):
    if isinstance(a, np.ndarray):
        return a.view(np.ndarray) if isinstance(a, SymArray) else a
    if hasattr(a, '_is_shim_sparse'):
        raise Unsupported('np.array(sparse matrix)')
    if isinstance(a, (list, tuple)):
        return [_unwrap_nested(x) for x in a]
    if isinstance(a, (map, filter, types.GeneratorType, range, zip)):
        return [_unwrap_nested(x) for x in list(a)]
    return a


def _obj_array(a):
    return np.array(_unwrap_nested(a), dtype=object)


def _contains_sym(a):
    if isinstance(a, Sym):
        return True
    if isinstance(a, SymArray):
        return True
    if isinstance(a, np.ndarray):
        return np.ndarray.dtype.__get__(a) == object
    if isinstance(a, (list, tuple)):
        return any(_contains_sym(x) for x in a)
    return type(a).__name__ == 'SymNumber'


# ---------------------------------------------------------------------------------------------------- functions

def array(a, dtype=None, copy=True, ndmin=0, **_kw):
    if _is_float_dtype(dtype):
        r = symarray(a, copy=True) if not isinstance(a, np.ndarray) else symarray(np.array(a, dtype=object), copy=True)
    elif dtype is not None:
        r = np.array(_unwrap_nested(a) if not isinstance(a, np.ndarray) else a, dtype=_real_dtype(dtype))
    elif _contains_sym(a):
        r = symarray(a, copy=True)
    else:
        r = np.array(_unwrap_nested(a))
        if r.dtype.kind == 'f':
            r = symarray(r)
    if ndmin and r.ndim < ndmin:
        r = r.reshape((1,) * (ndmin - r.ndim) + r.shape)
    return r


def asarray(a, dtype=None, **_kw):
    if isinstance(a, SymArray) and (dtype is None or _is_float_dtype(dtype)):
        return a
    if isinstance(a, np.ndarray) and not isinstance(a, SymArray) and dtype is None and a.dtype.kind != 'f':
        return a
    return array(a, dtype=dtype)


def _filled(shape, v, dtype):
    if dtype is None or _is_float_dtype(dtype):
        out = np.empty(shape, dtype=object)
        out.reshape(-1)[:] = [float(v) if not isinstance(v, Sym) else v] * out.size
        return out.view(SymArray)
    return np.full(shape, v, dtype=_real_dtype(dtype))


def zeros(shape, dtype=None, **_k):
    return _filled(shape, 0.0, dtype)


def ones(shape, dtype=None, **_k):
    return _filled(shape, 1.0, dtype)


def empty(shape, dtype=None, **_k):
    return _filled(shape, 0.0, dtype)


def full(shape, v, dtype=None, **_k):
    return _filled(shape, v, dtype)


def zeros_like(a, dtype=None, **_k):
    return zeros(np.shape(a), dtype if dtype is not None else getattr(a, 'dtype', None))


def ones_like(a, dtype=None, **_k):
    return ones(np.shape(a), dtype if dtype is not None else getattr(a, 'dtype', None))


empty_like = zeros_like


def full_like(a, v, dtype=None, **_k):
    return full(np.shape(a), v, dtype if dtype is not None else getattr(a, 'dtype', None))


def identity(n, dtype=None, **_k):
    return symarray(np.identity(n)) if dtype is None or _is_float_dtype(dtype) else np.identity(n, dtype=dtype)


def eye(n, m=None, k=0, dtype=None, **_k):
    return symarray(np.eye(n, m, k)) if dtype is None or _is_float_dtype(dtype) else np.eye(n, m, k, dtype=dtype)


def _obj(a):
    if hasattr(a, '_is_shim_sparse'):
        return a.toarray()
    if isinstance(a, np.ndarray):
        if np.ndarray.dtype.__get__(a) == object:
            return a
        return a.astype(object)
    return _obj_array(a)


def dot(a, b, out=None):
    if hasattr(a, '_is_shim_sparse') or hasattr(b, '_is_shim_sparse'):
        # numpy treats sparse matrices as scalars here; real code must not rely on it
        raise Unsupported('np.dot with sparse argument')
    r = np.dot(_obj(a), _obj(b))
    r = wrap(r) if isinstance(r, np.ndarray) else _scalar(r)
    return r


def _scalar(r):
    if isinstance(r, Sym):
        return sym.simp(r)
    if isinstance(r, (int, Fraction)):
        return float(r)
    return r


def matmul(a, b):
    return wrap(_obj(a) @ _obj(b))


def inner(a, b):
    return dot(a, b)


def outer(a, b):
    return wrap(np.outer(_obj(a), _obj(b)))


def isclose(a, b, rtol=1e-5, atol=1e-8, **_k):
    a, b = np.broadcast_arrays(_obj(a), _obj(b))
    out = np.empty(a.shape, dtype=bool)
    fo, fa, fb = out.reshape(-1), a.reshape(-1), b.reshape(-1)
    for i in range(fo.shape[0]):
        x, y = fa[i], fb[i]
        if isinstance(x, Sym) or isinstance(y, Sym):
            d = mk(x) - mk(y)
            if isinstance(y, Sym) and not y.is_const():
                tol = atol
                # |x-y| <= atol + rtol*|y|
                yy = abs(y)
                t = yy * rtol + tol
            else:
                t = mk(abs(float(y)) * rtol + atol)
            fo[i] = bool(cand(cond_le(d - t), cond_le(-d - t)))
        else:
            fo[i] = bool(np.isclose(float(x), float(y), rtol=rtol, atol=atol))
    return out if out.shape else bool(out)


def allclose(a, b, rtol=1e-5, atol=1e-8, **_k):
    a, b = np.broadcast_arrays(_obj(a), _obj(b))
    conds = []
    for x, y in zip(a.reshape(-1), b.reshape(-1)):
        if isinstance(x, Sym) or isinstance(y, Sym):
            d = mk(x) - mk(y)
            if isinstance(y, Sym) and not y.is_const():
                t = abs(y) * rtol + atol
            else:
                t = mk(abs(float(y)) * rtol + atol)
            conds.append(cand(cond_le(d - t), cond_le(-d - t)))
        else:
            conds.append(bool(np.isclose(float(x), float(y), rtol=rtol, atol=atol)))
    return bool(cand(conds))


def array_equal(a, b, **_k):
    if np.shape(a) != np.shape(b):
        return False
    return bool(cand([mk(x) == mk(y) for x, y in zip(_obj(a).reshape(-1), _obj(b).reshape(-1))]))


def array_equiv(a, b):
    try:
        x, y = np.broadcast_arrays(_obj(a), _obj(b))
    except ValueError:
        return False
    return array_equal(x, y)


def sqrt(a):
    if isinstance(a, Sym):
        return sym.simp(a.sqrt())
    if isinstance(a, SymArray):
        return wrap(np.array([sqrt(x) for x in a.reshape(-1)], dtype=object).reshape(a.shape))
    return wrap(np.sqrt(a))


def _elementwise(fn_real, fn_sym):
    def f(a, *args, **k):
        if isinstance(a, Sym):
            return fn_sym(a)
        if isinstance(a, (SymArray, list, tuple)) or (isinstance(a, np.ndarray) and
                                                      np.ndarray.dtype.__get__(a) == object):
            o = _obj(a)
            vals = [fn_sym(x) if isinstance(x, Sym) else fn_real(x) for x in o.reshape(-1)]
            if all(isinstance(v, (bool, np.bool_)) for v in vals):
                return np.array(vals, dtype=bool).reshape(o.shape)
            r = np.empty(len(vals), dtype=object)
            for i, v in enumerate(vals):
                r[i] = v
            return wrap(r.reshape(o.shape))
        return wrap(fn_real(a, *args, **k))
    return f


isnan = _elementwise(np.isnan, lambda x: False)
isinf = _elementwise(np.isinf, lambda x: False)
isfinite = _elementwise(np.isfinite, lambda x: True)
absolute = _elementwise(np.absolute, abs)
sign = _elementwise(np.sign, lambda x: 1.0 if x > 0 else (-1.0 if x < 0 else 0.0))
square = _elementwise(np.square, lambda x: x * x)
negative = _elementwise(np.negative, lambda x: -x)


def _const_only(fn, name):
    def g(x):
        if x.is_const():
            return fn(float(x.const()))
        raise Unsupported('%s of a symbolic value' % name)
    return _elementwise(fn, g)


exp = _const_only(np.exp, 'exp')
log = _const_only(np.log, 'log')
sin = _const_only(np.sin, 'sin')
cos = _const_only(np.cos, 'cos')


def maximum(a, b):
    x, y = np.broadcast_arrays(_obj(a), _obj(b))
    r = np.empty(x.size, dtype=object)
    for i, (p, q) in enumerate(zip(x.reshape(-1), y.reshape(-1))):
        r[i] = p if p >= q else q
    r = r.reshape(x.shape)
    return wrap(r) if r.shape else r[()]


def minimum(a, b):
    x, y = np.broadcast_arrays(_obj(a), _obj(b))
    r = np.empty(x.size, dtype=object)
    for i, (p, q) in enumerate(zip(x.reshape(-1), y.reshape(-1))):
        r[i] = p if p <= q else q
    r = r.reshape(x.shape)
    return wrap(r) if r.shape else r[()]


def count_nonzero(a, axis=None):
    o = _obj(a)
    nz = np.array([bool(x != 0) for x in o.reshape(-1)], dtype=bool).reshape(o.shape)
    return np.count_nonzero(nz, axis=axis)


def nonzero(a):
    o = _obj(a)
    nz = np.array([bool(x != 0) for x in o.reshape(-1)], dtype=bool).reshape(o.shape)
    return np.nonzero(nz)


def where(c, *args):
    if isinstance(c, np.ndarray) and np.ndarray.dtype.__get__(c) == object:
        c = np.array([bool(x) for x in c.reshape(-1)], dtype=bool).reshape(c.shape)
    if not args:
        return np.where(c)
    return wrap(np.where(c, _obj(args[0]), _obj(args[1])))


# ---------------------------------------------------------------------------------------------------- linalg

def norm(x, ord=None, axis=None, keepdims=False):
    if axis is not None:
        o = _obj(x)
        if o.ndim == 2:
            rows = o if axis in (1, -1) else o.T
            return wrap(np.array([norm(r, ord) for r in rows], dtype=object))
        raise Unsupported('norm with axis')
    o = _obj(x)
    if not any(isinstance(v, Sym) and not v.is_const() for v in o.reshape(-1)):
        return float(np.linalg.norm(np.array([[float(v)] for v in o.reshape(-1)],
                                             dtype=float).reshape(o.shape), ord))
    if o.ndim == 1:
        if ord in (None, 2):
            t = Sym({})
            for v in o:
                t = t + mk(v) * v
            return t.sqrt()
        if ord == 1:
            return sum((abs(v) for v in o), 0.0)
        if ord in (np.inf,):
            r = 0.0
            for v in o:
                a = abs(v)
                if a > r:
                    r = a
            return r
    elif o.ndim == 2:
        if ord in (None, 'fro'):
            return norm(o.reshape(-1))
        if ord == np.inf or ord == 1:
            m = o if ord == np.inf else o.T
            best = 0.0
            for r in m:
                s = sum((abs(v) for v in r), 0.0)
                if s > best:
                    best = s
            return best
    raise Unsupported('norm ord %r' % (ord,))


def _concrete_fn(fn):
    def g(*a, **k):
        def conv(x):
            if isinstance(x, np.ndarray) and np.ndarray.dtype.__get__(x) == object:
                return np.array([float(v) for v in x.reshape(-1)], dtype=float).reshape(x.shape)
            if isinstance(x, (list, tuple)) and _contains_sym(x):
                return conv(_obj_array(x))
            return x
        return wrap(fn(*[conv(x) for x in a], **k))
    return g


def _inv(a):
    o = _obj(a)
    if not any(isinstance(v, Sym) and not v.is_const() for v in o.reshape(-1)):
        return _concrete_fn(np.linalg.inv)(a)
    n = o.shape[0]
    if n == 1:
        return wrap(np.array([[1 / mk(o[0, 0])]], dtype=object))
    if n == 2:
        d = mk(o[0, 0]) * o[1, 1] - mk(o[0, 1]) * o[1, 0]
        return wrap(np.array([[mk(o[1, 1]) / d, -mk(o[0, 1]) / d], [-mk(o[1, 0]) / d, mk(o[0, 0]) / d]], dtype=object))
    raise Unsupported('symbolic inverse')


def matrix_power(a, n):
    o = symarray(_obj(a))
    r = identity(o.shape[0])
    for _ in range(n):
        r = dot(r, o)
    return r


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        if name == 'svd':
            from . import geom
            return geom.svd
        f = getattr(np.linalg, name)
        if isinstance(f, type):
            return f
        return _concrete_fn(f) if callable(f) else f


linalg = _Linalg('numpy.linalg')
linalg.norm = norm
linalg.inv = _inv
linalg.matrix_power = matrix_power


class _Random(types.ModuleType):
    'np.random: arbitrary values in [0, 1) when sym_random is set, a seeded generator otherwise'

    def __init__(self):
        types.ModuleType.__init__(self, 'numpy.random')
        self.rs = np.random.RandomState(0)
        self.sym_random = False
        self.draws = []

    def default_rng(self, s=None):
        return self

    def seed(self, s=None):
        self.rs = np.random.RandomState(s)

    def rand(self, *shape):
        if self.sym_random:
            n = int(np.prod(shape)) if shape else 1
            out = np.empty(n, dtype=object)
            for i in range(n):
                v = sym.ENG.fresh('rand')
                sym.ENG.assume(cand(cond_le(-v), sym.cond_lt(v - 1)))
                out[i] = v
                self.draws.append(v)
            if not shape:
                return out[0]
            return out.reshape(shape).view(SymArray)
        r = self.rs.rand(*shape)
        return wrap(r) if isinstance(r, np.ndarray) else r

    def random(self, size=None):
        return self.rand(*(size if isinstance(size, tuple) else ((size,) if size is not None else ())))

    random_sample = ranf = sample = random

    def uniform(self, low=0.0, high=1.0, size=None):
        if size is None and (isinstance(low, (list, tuple, np.ndarray)) or isinstance(high, (list, tuple, np.ndarray))):
            low, high = asarray(low), asarray(high)
            size = np.broadcast(np.asarray(low), np.asarray(high)).shape
        r = self.random(size)
        return r * (high - low) + low

    def __getattr__(self, name):
        f = getattr(self.__dict__['rs'], name)
        if callable(f):
            return lambda *a, **k: wrap(f(*a, **k))
        return f


# ---------------------------------------------------------------------------------------------------- module

_OVERRIDE = {k: v for k, v in list(globals().items()) if k in (
    'array asarray zeros ones empty full zeros_like ones_like empty_like full_like identity eye dot matmul inner outer '
    'isclose allclose array_equal array_equiv sqrt isnan isinf isfinite absolute sign square negative exp log sin cos '
    'maximum minimum count_nonzero nonzero where linalg').split()}
_OVERRIDE['abs'] = absolute
_OVERRIDE['fabs'] = absolute
_OVERRIDE['asanyarray'] = asarray
_OVERRIDE['ascontiguousarray'] = asarray
_OVERRIDE['float64'] = np.float64
_OVERRIDE['float_'] = np.float64
_OVERRIDE['flatnonzero'] = lambda a: nonzero(np.ravel(_obj(a)))[0]


def _plain(x):
    'plain object arrays (views) for the functions of numpy that look at the dtype'
    if isinstance(x, SymArray):
        return x.view(np.ndarray)
    if isinstance(x, (list, tuple)) and any(isinstance(y, (SymArray, list, tuple)) for y in x):
        return type(x)(_plain(y) for y in x) if type(x) in (list, tuple) else x
    return x


def around(a, decimals=0, out=None):
    def one(x):
        if isinstance(x, Sym):
            if x.is_const():
                return float(np.round(float(x.const()), decimals))
            if decimals >= 9:
                return x            # rounding that is finer than the margins
            raise Unsupported('round to %r digits of a symbolic value' % decimals)
        return float(np.round(float(x), decimals))
    if not isinstance(a, np.ndarray):
        return one(a) if not isinstance(a, (list, tuple)) else around(array(a), decimals)
    o = _obj(a)
    return wrap(np.array([one(x) for x in o.reshape(-1)], dtype=object).reshape(o.shape))


def nan_to_num(a, *_a, **_k):
    return a.copy() if isinstance(a, np.ndarray) else a


def solve(a, b):
    o = _obj(a)
    if any(isinstance(v, Sym) and not v.is_const() for v in _obj(b).reshape(-1)) or \
            any(isinstance(v, Sym) and not v.is_const() for v in o.reshape(-1)):
        return dot(_inv(a), b)
    return _concrete_fn(np.linalg.solve)(a, b)


linalg.solve = solve
_OVERRIDE['round'] = _OVERRIDE['around'] = _OVERRIDE['round_'] = around
_OVERRIDE['nan_to_num'] = nan_to_num
for _n in ('max', 'min', 'sum', 'mean'):
    _OVERRIDE['nan' + _n] = getattr(np, _n)


class _Concat:
    def __init__(self, cols):
        self.cols = cols

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        if any(isinstance(x, (slice, str)) for x in key):
            return wrap((np.c_ if self.cols else np.r_)[key])
        parts = [np.atleast_1d(_obj(x)) for x in key]
        return wrap(np.column_stack(parts) if self.cols else np.concatenate(parts))


_OVERRIDE['r_'] = _Concat(False)
_OVERRIDE['c_'] = _Concat(True)


class NumpyShim(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__dict__.update(_OVERRIDE)
        self.random = _Random()
        self._cache = {}

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        f = getattr(np, name)
        if isinstance(f, type) or isinstance(f, types.ModuleType):
            return f
        if callable(f):
            def g(*a, **k):
                a = [_plain(_obj_array(x) if isinstance(x, (list, tuple)) and _contains_sym(x) and not any(
                    isinstance(y, np.ndarray) for y in x) else x) for x in a]
                if 'out' in k:
                    k['out'] = _plain(k['out'])
                if 'dtype' in k:
                    if _is_float_dtype(k['dtype']):
                        del k['dtype']
                        if name == 'fromiter':
                            k['dtype'] = object
                        return symarray(f(*a, **k))
                return wrap(f(*a, **k))
            g.__name__ = name
            self.__dict__[name] = g
            return g
        return f


class MathShim(types.ModuleType):
    def __init__(self, max_int=64):
        types.ModuleType.__init__(self, 'math')
        self.max_int = max_int

    def __getattr__(self, name):
        f = getattr(_math, name)
        if callable(f):
            def g(*a):
                a2 = []
                for x in a:
                    if isinstance(x, Sym):
                        if x.is_const():
                            x = float(x.const())
                        else:
                            raise Unsupported('math.%s of a symbolic value' % name)
                    a2.append(x)
                return f(*a2)
            return g
        return f

    def isnan(self, x):
        return False if isinstance(x, Sym) else _math.isnan(x)

    def isinf(self, x):
        return False if isinstance(x, Sym) else _math.isinf(x)

    def isfinite(self, x):
        return True if isinstance(x, Sym) else _math.isfinite(x)

    def fabs(self, x):
        return abs(x) if isinstance(x, Sym) else _math.fabs(x)

    def sqrt(self, x):
        return sym.simp(x.sqrt()) if isinstance(x, Sym) else _math.sqrt(x)

    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, Sym) or isinstance(b, Sym):
            d = abs(mk(a) - mk(b))
            x, y = abs(a), abs(b)
            m = x if x >= y else y
            return bool(d <= m * rel_tol) or bool(d <= abs_tol)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)

    def ceil(self, x):
        if isinstance(x, Sym) and not x.is_const():
            return sym_ceil(x, self.max_int)
        return _math.ceil(x if not isinstance(x, Sym) else x.const())

    def floor(self, x):
        if isinstance(x, Sym) and not x.is_const():
            return -sym_ceil(-x, self.max_int)
        return _math.floor(x if not isinstance(x, Sym) else x.const())


def sym_ceil(x, max_int):
    'ceiling of a symbolic value by case split'
    if x <= -max_int:
        raise Unsupported('integer conversion out of range')
    lo, hi = -max_int, max_int
    if not x <= hi:
        raise Unsupported('integer conversion out of range')
    if x > 0:
        lo = 0
    else:
        hi = 0
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if x <= mid:
            hi = mid
        else:
            lo = mid
    return hi


def sym_trunc(x, max_int=64):
    if x >= 0:
        return -sym_ceil(-x, max_int)
    return sym_ceil(x, max_int)


def sym_round(x, max_int=64):
    'round half to even'
    f = -sym_ceil(-x, max_int)     # floor
    d = x - f
    if d < 0.5:
        return f
    if d > 0.5:
        return f + 1
    return f if f % 2 == 0 else f + 1
