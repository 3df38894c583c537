'''polynomial normal forms modulo algebraic relations (Groebner bases), used where square roots are divided by'''

from fractions import Fraction

import sympy

from . import sym

_BASES = {}


def _poly(s, gens):
    e = sympy.Integer(0)
    for m, c in s.p.items():
        t = sympy.Rational(c.numerator, c.denominator)
        for v in m:
            t = t * gens[v]
        e += t
    return e


def reduce(s, relations):
    vs = sorted({v for r in relations for v in r.vars()} | s.vars(), reverse=True)
    if len(vs) > 9:
        return s
    gens = {v: sympy.Symbol('v%d' % v) for v in vs}
    order = [gens[v] for v in vs]
    k = (tuple(r.key() for r in relations), tuple(vs))
    b = _BASES.get(k)
    if b is None:
        b = sympy.groebner([_poly(r, gens) for r in relations], *order, order='grevlex', domain=sympy.QQ)
        _BASES[k] = b
    _, rem = b.reduce(sympy.expand(_poly(s, gens)))
    p = sympy.Poly(rem, *order)
    out = {}
    for exps, c in p.terms():
        if c == 0:
            continue
        m = []
        for v, e in zip(vs, exps):
            m += [v] * int(e)
        out[tuple(sorted(m))] = Fraction(int(c.p), int(c.q))
    return sym.Sym(out)
