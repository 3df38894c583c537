'''C18 Matrices built from expressions mean what the expressions say'''

import sympy

from symx import symnumber
from .common import *

BOUNDS = {'quick': 'dynamics, resets and conditions over two or three variables with two named constants and one literal '
                   'of any value in [-4, 4] each (floating point; zero is a separate case); every expression that is '
                   'a sum or difference of two terms out of %d and %d term shapes, every comparison of %d left-hand sides with '
                   '%d right-hand sides in both directions; with and without the affine variable; variable and constant '
                   'names that clash with names of sympy',
          'thorough': 'sums and differences of all pairs of the term shapes, and of three terms'}
OUTSIDE = 'longer expressions; rounding in the arithmetic of sympy; functions of constants (such as exp(k))'


def sympy_shim():
    'the real sympy: numbers of unknown value enter as SymNumber'
    from sympy.core import cache
    symnumber.install()
    cache.clear_cache()
    return sympy


# ------------------------------------------------------------------------------------------------------------ terms

X, Y = ('v', 'x'), ('v', 'y')
K, Q, L = ('k', 'k'), ('k', 'q'), ('l', 'lit')


def num(s):
    return ('n', s)


TERMS = [X, Y, K, L,
         ('*', K, X), ('*', X, K), ('*', L, X), ('*', Y, L), ('neg', X), ('neg', ('*', K, Y)),
         ('*', K, L), ('*', ('*', K, Q), X), ('/', X, num('4')), ('/', ('*', num('3'), Y), num('8')),
         ('*', K, ('+', X, Y)), ('*', ('-', X, ('*', L, Y)), K), ('neg', ('-', ('*', K, X), Y)),
         ('*', num('2'), X), ('*', num('0.5'), Y), ('*', num('0'), X), ('*', ('pow', K, 2), X), num('1.5'), num('0'),
         ('*', ('+', K, Q), X), ('*', num('2'), ('-', ('*', K, X), num('3'))), ('-', K, Q),
         ('*', ('*', K, X), Q), ('*', num('2'), ('*', K, ('-', X, Y)))]

SECOND = [TERMS[_i] for _i in (0, 1, 3, 4, 9, 10, 15, 16, 17, 20, 21, 27)]

LEFT = [X, ('+', X, ('*', K, Y)), ('-', K, X), ('*', K, ('+', X, Y)), L, ('-', ('*', L, X), ('-', Y, K)),
        ('neg', ('*', num('2'), Y)), num('0')]
RIGHT = [K, num('0'), ('+', X, L), ('-', ('*', K, X), Y), ('-', num('1.5'), ('*', num('2'), Y)), ('neg', X),
         ('*', Q, ('-', X, Y))]
for _k in BOUNDS:
    if '%d' in BOUNDS[_k]:
        BOUNDS[_k] = BOUNDS[_k] % (len(TERMS), len(SECOND), len(LEFT), len(RIGHT))

# terms that are not linear, or that nobody declared; None stands for an expression that is given as text
BAD = ['x*y', 'x**2', 'k*x*y', 'x*(x + k)', '1/x', 'k*z', 'z', 'x + k*sin(x)', 'sqrt(x)', 'x/y', 'x**k', 'pi*x',
       'x + I', 'k*x + y**3', 'exp(x) - y', 'abs(x)', '(x + y)**2', 'k + u*x']


def prec(t):
    return {'+': 1, '-': 1, 'neg': 1, '*': 2, '/': 2, 'pow': 3}.get(t[0], 4)


def text(t, lits, min_prec=0):
    'the expression as a user writes it'
    k = t[0]
    if k in 'vk':
        s = t[1]
    elif k == 'l':
        s = lits[t[1]]
    elif k == 'n':
        s = t[1]
    elif k == 'neg':
        s = '-' + text(t[1], lits, 2)
    elif k == 'pow':
        s = '%s**%d' % (text(t[1], lits, 4), t[2])
    else:
        p = prec(t)
        s = '%s %s %s' % (text(t[1], lits, p), k, text(t[2], lits, p + (k in '-/')))
        if k in '*/':
            s = s.replace(' ', '') if p == 2 and '(' not in s else s
    return '(%s)' % s if prec(t) < min_prec else s


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = mk(r.get(m, 0)) + mk(c) * s
    return r


def value(t, vals):
    'meaning of an expression: a map from monomials (sorted tuples of variable names) to coefficients'
    k = t[0]
    if k == 'v':
        return {(t[1],): mk(1)}
    if k in 'kl':
        return {(): mk(vals[t[1]])}
    if k == 'n':
        return {(): mk(F(t[1]))}
    if k == 'neg':
        return padd({}, value(t[1], vals), -1)
    a = value(t[1], vals)
    if k == 'pow':
        r = {(): mk(1)}
        for _ in range(t[2]):
            r = pmul(r, a)
        return r
    b = value(t[2], vals)
    if k == '+':
        return padd(a, b)
    if k == '-':
        return padd(a, b, -1)
    if k == '*':
        return pmul(a, b)
    assert k == '/' and list(b) == [()]
    return {m: mk(mk(c) / b[()]) for m, c in a.items()}


def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            z = tuple(sorted(m + n))
            r[z] = mk(r.get(z, 0)) + mk(c) * mk(d)
    return r


# ------------------------------------------------------------------------------------------------------------ harness

def scenarios(tier):
    out = []
    for i in range(len(TERMS)):
        for aff in (0, 1):
            out.append(sc('term %d affine %d' % (i, aff), 'f_terms', {'i': i, 'aff': aff, 'deep': tier != 'quick'}))
    for aff in (0, 1):
        out.append(sc('matrix affine %d' % aff, 'f_matrix', {'aff': aff}))
        out.append(sc('refused affine %d' % aff, 'f_bad', {'aff': aff}))
        for i in range(len(LEFT)):
            out.append(sc('condition %d affine %d' % (i, aff), 'f_cond', {'i': i, 'aff': aff}))
    out.append(sc('several conditions', 'f_conds', {}))
    for aff in (0, 1):
        out.append(sc('same text again affine %d' % aff, 'f_again', {'aff': aff}))
    out.append(sc('refused conditions', 'f_bad_cond', {}))
    out.append(sc('names', 'f_names', {}))
    out.append(sc('fractions', 'f_exact', {}))
    out.append(sc('small and large numbers', 'f_scale', {}))
    return out


def setup(w, names=('k', 'q', 'lit')):
    vals = {n: w.real(n, -4, 4) for n in names}
    return vals, literals(w, vals)


def literals(w, vals):
    'text of the literals'
    r = {}
    for n in vals:
        if not n.startswith('lit'):
            continue
        if w.is_sym:
            # a name that stands for a number in the text
            name = 'Literal_' + n
            setattr(sympy, name, symnumber.make(vals[n], False))
            if name not in sympy.__all__:
                sympy.__all__.append(name)
            r[n] = name
        else:
            v = float(vals[n])
            r[n] = repr(v) if v >= 0 else '(%r)' % v
    return r


def consts(vals):
    return {n: v for n, v in vals.items() if not n.startswith('lit')}


def expect_row(w, row, poly, names, aff, label):
    'the row has the coefficients of the expression'
    w.check(len(row) == len(names) + (1 if aff else 0), label + ': row length')
    for j, n in enumerate(names):
        w.check_num(row[j], poly.get((n,), 0), label + ': coefficient of a variable')
    if aff:
        w.check_num(row[-1], poly.get((), 0), label + ': constant term')


def const_case(w, c):
    'is the constant term zero, or clearly not zero'
    c = mk(c)
    if w.decide(cond_eq(c)):
        return True
    w.assume(cor(cond_le(c + w.margin), cond_le(w.margin - c)))
    return False


def attempt(fn, *a, **k):
    try:
        return fn(*a, **k)
    except (RuntimeError, AssertionError, ValueError):
        return None


def f_terms(w):
    aff = bool(w.cfg['aff'])
    t = TERMS[w.cfg['i']]
    pool = TERMS if w.cfg['deep'] else SECOND
    t = (w.choose(2, 'sign') and '-' or '+', t, pool[w.choose(len(pool), 'second term')])
    if w.cfg['deep']:
        j = w.choose(len(SECOND) + 1, 'third term')
        if j < len(SECOND):
            t = (w.choose(2, 'sign') and '-' or '+', SECOND[j], t)
    vals, lits = setup(w)
    poly = value(t, vals)
    s = w.mod('symbolic')
    der = text(t, lits)
    names = ['x', 'y']
    if aff or const_case(w, poly.get((), 0)):
        mat = attempt(s.make_dynamics_mat, names, [der, '0'], consts(vals), has_affine_variable=aff)
        w.check(mat is not None, 'a linear expression is refused')
        w.check(len(mat) == 2 + aff, 'dynamics: number of rows')
        expect_row(w, mat[0], poly, names, aff, 'dynamics')
        expect_row(w, mat[1], {}, names, aff, 'zero dynamics')
        if aff:
            expect_row(w, mat[2], {}, names, aff, 'dynamics of the affine variable')
    else:
        w.refuses(lambda: s.make_dynamics_mat(names, [der, '0'], consts(vals)),
                  'a constant term is accepted without an affine variable')


def f_matrix(w):
    'rows and columns are in the order of the derivatives and variables; resets keep the affine variable'
    aff = bool(w.cfg['aff'])
    vals, lits = setup(w)
    s = w.mod('symbolic')
    names = [['x', 'y', 'v'], ['y', 'v', 'x'], ['v', 'x', 'y']][w.choose(3, 'order')]
    ts = [('+', ('*', K, X), ('*', Q, ('v', 'v'))), ('-', ('*', L, Y), ('*', K, ('v', 'v'))), ('+', X, ('*', K, Y))]
    if aff:
        ts = [('+', ts[0], L), ('-', ts[1], K), ts[2]]
    make = [s.make_dynamics_mat, s.make_reset_mat][w.choose(2, 'kind')]
    nrows = 1 + w.choose(3, 'rows')
    ts = ts[:nrows]
    cd = consts(vals)
    orig = dict(cd)
    if w.choose(2, 'unused constant'):
        cd['unused'] = 7.0
    mat = attempt(make, names, [text(t, lits) for t in ts], cd, has_affine_variable=aff)
    w.check(mat is not None, 'a linear matrix is refused')
    w.check(len(mat) == nrows + aff, 'number of rows')
    for t, row in zip(ts, mat):
        expect_row(w, row, value(t, vals), names, aff, 'matrix')
    if aff:
        last = {(): mk(1)} if make is s.make_reset_mat else {}
        expect_row(w, mat[-1], last, names, aff, 'affine variable')
    w.check(all(n in cd and cd[n] is orig[n] for n in orig) and names == sorted(names, key=names.index),
            'the arguments are changed')


def f_bad(w):
    aff = bool(w.cfg['aff'])
    vals, _lits = setup(w, ('k', 'q'))
    # the coefficient does not vanish, and x**k stays a power
    w.assume(cor(cond_le(mk(vals['k']) + w.margin), cond_le(w.margin - mk(vals['k']))))
    b = BAD[w.choose(len(BAD), 'expression')]
    if b == 'x**k':
        vals['k'] = 0.5
    s = w.mod('symbolic')
    make = [s.make_dynamics_mat, s.make_reset_mat][w.choose(2, 'kind')]
    ders = [['y', b], [b, 'x']][w.choose(2, 'place')]
    w.refuses(lambda: make(['x', 'y'], ders, consts(vals), has_affine_variable=aff),
              'a non-linear or unknown term is accepted')


def f_cond(w):
    aff = bool(w.cfg['aff'])
    left, right = LEFT[w.cfg['i']], RIGHT[w.choose(len(RIGHT), 'right')]
    vals, lits = setup(w)
    op = w.choose(2, 'operator')
    cond = text(left, lits) + [' <= ', ' >= '][op] + text(right, lits)
    if w.choose(2, 'spaces'):
        cond = cond.replace(' ', '')
    poly = padd(value(left, vals), value(right, vals), -1)
    if op:
        poly = padd({}, poly, -1)
    s = w.mod('symbolic')
    r = attempt(s.make_condition, ['x', 'y'], [cond], consts(vals), has_affine_variable=aff)
    w.check(r is not None, 'a linear condition is refused')
    mat, rhs = r
    w.check(len(mat) == 1 and len(rhs) == 1, 'condition: one row')
    expect_cond(w, mat[0], rhs[0], poly, ['x', 'y'], aff)


def expect_cond(w, row, rhs, poly, names, aff):
    'row . x <= rhs says that the polynomial is at most zero'
    w.check(len(row) == len(names) + (1 if aff else 0), 'condition: row length')
    c = mk(rhs) * -1
    for j, n in enumerate(names):
        w.check_num(row[j], poly.get((n,), 0), 'condition: coefficient of a variable')
    if aff:
        # the affine variable is one
        c = c + mk(row[-1])
    w.check_num(c, poly.get((), 0), 'condition: constant term')


def f_conds(w):
    'one row per condition, in order'
    vals, lits = setup(w)
    aff = bool(w.choose(2, 'affine'))
    names = [['x', 'y', 'v'], ['v', 'y', 'x']][w.choose(2, 'order')]
    cs = [(('*', K, X), '<=', L), (('-', Y, ('v', 'v')), '>=', ('*', Q, X)), (K, '<=', X), (('v', 'v'), '<=', num('2'))]
    off = w.choose(4, 'rotation')
    cs = cs[off:] + cs[:off]
    cs = cs[:w.choose(5, 'number')]
    r = attempt(w.mod('symbolic').make_condition, names, ['%s %s %s' % (text(a, lits), o, text(b, lits))
                                                         for a, o, b in cs], consts(vals), has_affine_variable=aff)
    w.check(r is not None, 'linear conditions are refused')
    mat, rhs = r
    w.check(len(mat) == len(cs) and len(rhs) == len(cs), 'one row for every condition')
    for (a, o, b), row, d in zip(cs, mat, rhs):
        poly = padd(value(a, vals), value(b, vals), -1)
        expect_cond(w, row, d, padd({}, poly, -1) if o == '>=' else poly, names, aff)


def f_again(w):
    'the same text means something else with other constants, variables or in another matrix'
    aff = bool(w.cfg['aff'])
    s = w.mod('symbolic')
    vals, _ = setup(w, ('k', 'q'))
    other = {n: w.real(n + '2', -4, 4) for n in vals}
    both = [dict(vals), other if w.choose(2, 'constants') else dict(vals)]
    names = [['x', 'y'], [['x', 'y'], ['y', 'x']][w.choose(2, 'order')]]
    kinds = [w.choose(3, 'first'), w.choose(3, 'second')]
    e = ('+', ('*', K, X), ('*', Q, Y))
    if aff or 2 in kinds and kinds == [2, 2]:
        e = ('-', e, K)
    lo = w.choose(2, 'comparison')
    for vs, ns, kind in zip(both, names, kinds):
        poly = value(e, vs)
        if kind == 2:
            r = attempt(s.make_condition, ns, [text(e, {}) + [' <= ', ' >= '][lo] + 'q'], vs, has_affine_variable=aff)
            w.check(r is not None, 'a linear condition is refused')
            poly = padd(poly, value(Q, vs), -1)
            expect_cond(w, r[0][0], r[1][0], padd({}, poly, -1) if lo else poly, ns, aff)
        else:
            mat = attempt([s.make_dynamics_mat, s.make_reset_mat][kind], ns, [text(e, {}), '0'], vs, has_affine_variable=aff)
            w.check(mat is not None, 'a linear expression is refused')
            expect_row(w, mat[0], poly, ns, aff, 'matrix')


BAD_CONDS = ['x', 'x < k', 'x == k', 'x <= y <= k', 'x >= 1 <= k', 'x*y <= k', 'k <= x**2', 'z <= k', 'x >= k + z',
             'x + sin(y) >= k', '1/x <= k', 'x > k', 'k*x*y >= 1', 'x = k']


def f_bad_cond(w):
    vals, _ = setup(w, ('k', 'q'))
    w.assume(cor(cond_le(mk(vals['k']) + w.margin), cond_le(w.margin - mk(vals['k']))))
    b = BAD_CONDS[w.choose(len(BAD_CONDS), 'condition')]
    aff = bool(w.choose(2, 'affine'))
    conds = [[b], ['x <= k', b]][w.choose(2, 'place')]
    w.refuses(lambda: w.mod('symbolic').make_condition(['x', 'y'], conds, consts(vals), has_affine_variable=aff),
              'an ill-formed condition is accepted', (AssertionError, RuntimeError, ValueError, TypeError, IndexError,
                                                      KeyError, SyntaxError))


VAR_NAMES = ['x1', 'x_2', 'E', 'I', 'pi', 'S', 'N', 'O', 'Q', 'beta', 'gamma', 'zeta', 'C', 'test', 'Xx', 'x10', 'i', 'oo']


def f_names(w):
    'names of variables and constants mean what the caller declares, whatever sympy calls by that name'
    nm = VAR_NAMES[w.choose(len(VAR_NAMES), 'name')]
    as_const = w.choose(2, 'constant')
    k, q = w.real('k', -4, 4), w.real('q', -4, 4)
    s = w.mod('symbolic')
    if as_const:
        names, cd = ['x', 'y'], {nm: k, 'q': q}
        ders = ['%s*x + q*y' % nm, 'x - %s*y + %s' % (nm, nm)]
        polys = [{('x',): k, ('y',): q}, {('x',): 1, ('y',): mk(k) * -1, (): k}]
    else:
        names, cd = [nm, 'y'], {'k': k, 'q': q}
        ders = ['k*%s + q*y' % nm, 'y - k*%s + q' % nm]
        polys = [{(nm,): k, ('y',): q}, {('y',): 1, (nm,): mk(k) * -1, (): q}]
    mat = attempt(s.make_dynamics_mat, names, ders, cd, has_affine_variable=True)
    w.check(mat is not None, 'declared names are refused')
    for row, p in zip(mat, polys):
        expect_row(w, row, p, names, True, 'names')
    r = attempt(s.make_condition, names, ['%s <= 3' % ders[1], '%s >= 3' % ders[0]], cd)
    w.check(r is not None, 'declared names are refused in a condition')
    expect_cond(w, r[0][0], r[1][0], padd(polys[1], {(): mk(3)}, -1), names, False)
    expect_cond(w, r[0][1], r[1][1], padd({(): mk(3)}, polys[0], -1), names, False)


def f_scale(w):
    'numbers of very different size and with many digits'
    k, q = w.real('k', F(1, 2), 2), w.real('q', F(1, 2), 2)
    s = w.mod('symbolic')
    cd = {'k': k, 'q': q}
    a, b, c = [('3e-9', '2e-10', '7e-10'), ('0.33331', '1.00004', '-2.71828'), ('1e8', '2.5e7', '1e9'),
               ('1.23456789', '0.012345', '1e-5')][w.choose(4, 'size')]
    x, y, z = F(a), F(b), F(c)
    w.num_tol = min(abs(x), abs(y), abs(z)) * F(1, 10 ** (9 if w.is_sym else 5))      # rounding of the numbers in the text
    ders = ['%s*k*x + %s*y + q*(%s)' % (a, b, c), '%s*x - q*y*%s - (%s)' % (b, a, c)]
    polys = [{('x',): mk(k) * x, ('y',): y, (): mk(q) * z}, {('x',): y, ('y',): mk(q) * -x, (): -z}]
    for make in (s.make_dynamics_mat, s.make_reset_mat):
        mat = attempt(make, ['x', 'y'], ders, cd, has_affine_variable=True)
        w.check(mat is not None, 'a linear expression is refused')
        for row, p in zip(mat, polys):
            expect_row(w, row, p, ['x', 'y'], True, 'scales')
        w.refuses(lambda: make(['x', 'y'], ders, cd), 'a constant term is accepted without an affine variable')
    r = attempt(s.make_condition, ['x', 'y'], [ders[0] + ' <= ' + ders[1], ders[0] + ' >= 0'], cd)
    w.check(r is not None, 'a linear condition is refused')
    expect_cond(w, r[0][0], r[1][0], padd(polys[0], polys[1], -1), ['x', 'y'], False)
    expect_cond(w, r[0][1], r[1][1], padd({}, polys[0], -1), ['x', 'y'], False)


def f_exact(w):
    'constants that are exact numbers (integers, fractions)'
    k, q = w.real('k', -4, 4), w.real('q', -4, 4)
    vals = {'k': k, 'q': q}
    t = TERMS[w.choose(len(TERMS), 'term')]
    t = ('+', t, ('*', Q, X)) if w.choose(2, 'more') else t
    vals['lit'] = 2
    if w.is_sym:
        cd = {'k': symnumber.make(k, True), 'q': symnumber.make(q, True)}
    else:
        cd = {n: sympy.Rational(*float(vals[n]).as_integer_ratio()) for n in 'kq'}
    mat = attempt(w.mod('symbolic').make_dynamics_mat, ['x', 'y'], [text(t, {'lit': '2'})], cd,
                  has_affine_variable=True)
    w.check(mat is not None, 'a linear expression with exact constants is refused')
    expect_row(w, mat[0], value(t, vals), ['x', 'y'], True, 'exact constants')
