'''
Numbers of unknown value inside the real sympy: a Number whose value is a Sym.  Everything else of sympy is the real thing.
Zero (and for exact numbers, one and minus one, which are singletons there) are the singular cases of sympy's flattening,
so that every new number is compared with them, which forks the path.
'''

import math
from fractions import Fraction

import sympy
from sympy import S, Float, Rational, Number
from sympy.core.numbers import Integer

from . import sym
from .sym import Sym, mk


def sym_value(x):
    'value of a sympy number as a number of the symbolic world, or None'
    if isinstance(x, SymNumber):
        return x.num
    if isinstance(x, Rational):
        return mk(Fraction(int(x.p), int(x.q)))
    if isinstance(x, Float):
        return mk(float(x))
    if isinstance(x, float) and not math.isfinite(x):
        return None
    if isinstance(x, (int, float, Fraction, Sym)):
        return mk(x)
    return None


def is_exact(x):
    return not isinstance(x, (Float, float, Sym)) if not isinstance(x, SymNumber) else x.exact


def make(val, exact):
    val = mk(val)
    if sym.simp(val) is not val:
        val = mk(sym.simp(val))
    if bool(val == 0):
        return S.Zero if exact else Float(0.0)
    if exact and bool(val == 1):
        return S.One
    if exact and bool(val == -1):
        return S.NegativeOne
    return SymNumber(val, exact)


class SymNumber(Number):
    'a number with a symbolic value'

    __slots__ = ('num', 'exact')
    _op_priority = 100.0

    is_zero = False
    is_finite = True
    is_infinite = False
    is_real = True
    is_extended_real = True
    is_commutative = True
    is_number = True
    is_comparable = True

    def __new__(cls, val, exact=False):
        obj = sympy.Expr.__new__(cls)
        obj.num = mk(val)
        obj.exact = exact
        return obj

    def value(self):
        return self.num

    def _hashable_content(self):
        return (repr(sorted((tuple(map(str, m)), str(c)) for m, c in self.num.p.items())), self.exact)

    def __hash__(self):
        return hash(self._hashable_content())

    def __eq__(self, other):
        if isinstance(other, SymNumber):
            return self._hashable_content() == other._hashable_content() or bool(self.num == other.num)
        v = sym_value(other)
        if v is None:
            return False
        return bool(self.num == v)

    def __ne__(self, other):
        return not self == other

    def __bool__(self):
        return True

    # ---- arithmetic

    def _bin(self, other, fn, base, swap=False):
        v = sym_value(other)
        if v is None:
            return base(other)
        a, b = (v, self.num) if swap else (self.num, v)
        return make(fn(a, b), self.exact and is_exact(other))

    def __add__(self, other):
        return self._bin(other, lambda a, b: a + b, lambda o: sympy.Add(self, o))

    def __radd__(self, other):
        return self._bin(other, lambda a, b: a + b, lambda o: sympy.Add(o, self), True)

    def __sub__(self, other):
        return self._bin(other, lambda a, b: a - b, lambda o: sympy.Add(self, -o))

    def __rsub__(self, other):
        return self._bin(other, lambda a, b: a - b, lambda o: sympy.Add(o, -self), True)

    def __mul__(self, other):
        return self._bin(other, lambda a, b: a * b, lambda o: sympy.Mul(self, o))

    def __rmul__(self, other):
        return self._bin(other, lambda a, b: a * b, lambda o: sympy.Mul(o, self), True)

    def __truediv__(self, other):
        v = sym_value(other)
        if v is not None and bool(v == 0):
            return S.ComplexInfinity
        return self._bin(other, lambda a, b: a / b, lambda o: sympy.Mul(self, sympy.Pow(o, -1)))

    def __rtruediv__(self, other):
        return self._bin(other, lambda a, b: a / b, lambda o: sympy.Mul(o, sympy.Pow(self, -1)), True)

    def __neg__(self):
        return make(-self.num, self.exact)

    def __abs__(self):
        return make(abs(self.num), self.exact)

    def _eval_power(self, e):
        if isinstance(e, Integer):
            n = int(e)
            r = mk(1)
            for _ in range(abs(n)):
                r = mk(r * self.num)
            if n < 0:
                r = mk(mk(1) / r)
            return make(r, self.exact)
        raise sym.Unsupported('power %r of a symbolic number' % (e,))

    # ---- order and signs

    def _cmp(self, other, fn):
        v = sym_value(other)
        if v is None:
            raise sym.Unsupported('comparison of a symbolic number with %r' % (other,))
        return sympy.true if bool(fn(self.num, v)) else sympy.false

    def __lt__(self, other):
        return self._cmp(other, lambda a, b: a < b)

    def __le__(self, other):
        return self._cmp(other, lambda a, b: a <= b)

    def __gt__(self, other):
        return self._cmp(other, lambda a, b: a > b)

    def __ge__(self, other):
        return self._cmp(other, lambda a, b: a >= b)

    def _eval_is_positive(self):
        return bool(self.num > 0)

    def _eval_is_negative(self):
        return bool(self.num < 0)

    _eval_is_extended_positive = _eval_is_positive
    _eval_is_extended_negative = _eval_is_negative

    def as_coeff_Mul(self, rational=False):
        return (S.One, self) if rational else (self, S.One)

    def as_coeff_Add(self, rational=False):
        return (S.Zero, self) if rational else (self, S.Zero)

    def _eval_evalf(self, _prec):
        return SymNumber(self.num, False)

    def _sympystr(self, _printer):
        return '<number>'

    _sympyrepr = _sympystr

    def __float__(self):
        raise sym.Unsupported('float() of a symbolic sympy number')

    def __int__(self):
        raise sym.Unsupported('int() of a symbolic sympy number')


def wrap_str(cls, name):
    'expressions with symbolic numbers are printed without their terms (only error messages print them)'
    orig = getattr(cls, name)

    def show(self):
        if isinstance(self, sympy.Basic) and self.has(SymNumber):
            return '<expression with numbers of unknown value>'
        return orig(self)
    show.__name__ = name
    setattr(cls, name, show)


_DONE = []


def install():
    'let the float of sympy meet symbolic numbers (no effect where there are none)'
    if _DONE:
        return
    _DONE.append(1)
    from sympy.core import cache
    cache.clear_cache()

    def wrap(cls, name, reflected):
        orig = getattr(cls, name)

        def op(self, other):
            if type(other) is SymNumber:
                return getattr(other, reflected)(self)
            return orig(self, other)
        op.__name__ = name
        setattr(cls, name, op)

    from sympy.core._print_helpers import Printable
    for name in ('__str__', '__repr__'):
        wrap_str(Printable, name)

    for cls in (Float, Rational, Integer):
        for a, b in (('__add__', '__radd__'), ('__sub__', '__rsub__'), ('__mul__', '__rmul__'),
                     ('__truediv__', '__rtruediv__')):
            if a in vars(cls):
                wrap(cls, a, b)
