'''C03 A constructed initial set denotes exactly the set that was specified'''

from .common import *

BOUNDS = {'quick': 'dimension 1..3, all box bounds / right-hand sides / zonotope centers in [-8, 8] and symbolic matrix '
                   'entries in [-2, 2] where stated; up to 4 constraint rows, 2 generators; with and without inputs'}
OUTSIDE = 'larger dimensions; floating point rounding in the constructors'


def scenarios(tier):
    out = []
    for n in (1, 2, 3):
        for inp in (0, 1):
            out.append(sc('box n%d in%d' % (n, inp), 'f_box', {'n': n, 'inp': inp}))
    out.append(sc('box refused', 'f_box_bad', {}))
    for k in range(3):
        for inp in (0, 1):
            out.append(sc('constraints %d in%d' % (k, inp), 'f_cons', {'k': k, 'inp': inp}))
    out.append(sc('constraints symbolic matrix', 'f_cons_sym', {}))
    out.append(sc('constraints with hidden columns', 'f_cons_hidden', {}))
    for k in range(3):
        out.append(sc('constraints with row types %d' % k, 'f_cons_types', {'k': k}))
    out.append(sc('constraints empty', 'f_cons_empty', {}))
    for g in (0, 1, 2):
        for inp in (0, 1):
            out.append(sc('zonotope g%d in%d' % (g, inp), 'f_zono', {'g': g, 'inp': inp}))
    out.append(sc('zonotope symbolic generator', 'f_zono_sym', {}))
    for k in range(3):
        out.append(sc('zonotope related generators %d' % k, 'f_zono_rel', {'k': k}))
    for inp in (0, 1):
        out.append(sc('input constraints in%d' % inp, 'f_input', {'inp': inp}))
    out.append(sc('input constraints empty', 'f_input_empty', {}))
    for k in (1, 2):
        out.append(sc('unsorted csr matrices %d' % k, 'f_raw', {'k': k}))
    out.append(sc('many input rows', 'f_input_many', {}))
    for n in (1, 2):
        out.append(sc('many generators %d' % n, 'f_zono_many', {'n': n}))
    return out


def mode_of(w, n, inp):
    A = [[0] * n for _ in range(n)]
    d = {'A': A}
    if inp:
        d.update(B=[[1] for _ in range(n)], U=[[1], [-1]], u=[1, 1])
    _, ms, _ = make_ha(w, [d])
    return ms[0]


def f_box(w):
    n = w.cfg['n']
    b = sym_box(w, n, -8, 8)
    m = mode_of(w, n, w.cfg['inp'])
    orig = list(b)
    lpi = w.mod('lputil').from_box(b, m)
    w.check(lpi.dims == n, 'number of dimensions')
    w.check_equal(w.poly(lpi), box(orig), 'from_box set')
    w.check(w.poly(lpi).nonempty(), 'from_box non-empty')


def f_box_bad(w):
    b = [(w.real('a', -8, 8), w.real('b', -8, 8)), (0, 1)]
    w.assume(cond_lt(mk(b[0][1]) - mk(b[0][0]) + w.margin))
    m = mode_of(w, 2, 0)
    w.refuses(lambda: w.mod('lputil').from_box(b, m), 'empty box accepted')


MATS = [[[1, 0], [-1, 0], [0, 1], [0, -1]],
        [[1, 1], [-1, 2], [0, -1]],
        [[1, 0, -1], [-1, -2, 0], [0, 1, 1], [0, 0, -1]]]


def f_cons(w):
    mat = MATS[w.cfg['k']]
    rhs = [w.real('r%d' % i, -8, 8) for i in range(len(mat))]
    n = len(mat[0])
    spec = from_ineq(mat, rhs)
    m = mode_of(w, n, w.cfg['inp'])
    if w.decide(spec.nonempty()):
        lpi = w.mod('lputil').from_constraints(mat, rhs, m)
        w.check_equal(w.poly(lpi), spec, 'from_constraints set')
    else:
        relaxed = from_ineq(mat, [mk(r) + w.margin for r in rhs])
        w.assume(relaxed.empty())
        w.refuses(lambda: w.mod('lputil').from_constraints(mat, rhs, m), 'empty constraints accepted')


def f_cons_sym(w):
    a = [[w.real('a', -2, 2), 1.0], [w.real('c', -2, 2), -1.0], [1.0, 0.0], [-1.0, 0.0]]
    rhs = [w.real('r%d' % i, 0, 8) for i in range(4)]
    m = mode_of(w, 2, 0)
    spec = from_ineq(a, rhs)
    mat = w.np.array(a, dtype=float)
    lpi = w.mod('lputil').from_constraints(w.csr_matrix(mat), w.np.array(rhs, dtype=float), m)
    w.check_equal(w.poly(lpi), spec, 'from_constraints set with symbolic matrix')


def f_cons_hidden(w):
    # { x | exists y: x - y <= r0, -x + y <= r1, y <= r2, -y <= r3 }
    mat = [[1, -1], [-1, 1], [0, 1], [0, -1]]
    rhs = [w.real('r%d' % i, -8, 8) for i in range(4)]
    cols = new_cols(2)
    full = Poly(le_rows(cols, mat, rhs), cols)
    w.assume(full.nonempty())
    m = mode_of(w, 1, 0)
    lpi = w.mod('lputil').from_constraints(mat, rhs, m, dims=1)
    w.check(lpi.dims == 1, 'number of dimensions')
    w.check_equal(w.poly(lpi), Poly(full.rows, cols[:1]), 'set over the left-most columns')


def f_cons_types(w):
    g = w.glpk
    types = [[g.GLP_LO, g.GLP_UP, g.GLP_LO], [g.GLP_FX, g.GLP_UP, g.GLP_LO], [g.GLP_LO, g.GLP_LO, g.GLP_FX]][w.cfg['k']]
    mat = [[1, 0], [1, 1], [0, 1]] if w.cfg['k'] < 2 else [[1, 0], [-1, 0], [-1, 1]]
    rhs = [w.real('r%d' % i, -4, 4) for i in range(3)]
    cols = new_cols(2)
    rows = []
    for t, a, b in zip(types, mat, rhs):
        d = dict(zip(cols, a))
        if t == g.GLP_FX:
            rows.append(row(d, b, True))
        elif t == g.GLP_UP:
            rows.append(row(d, b))
        else:
            rows.append(row({c: -v for c, v in d.items()}, -mk(b)))
    spec = Poly(rows, cols)
    m = mode_of(w, 2, 0)
    w.assume(spec.nonempty())
    lpi = w.mod('lputil').from_constraints(mat, rhs, m, types=types, names=['a', 'b'])
    w.check_equal(w.poly(lpi), spec, 'from_constraints set with row types')


def f_cons_empty(w):
    'equality and lower-bound rows that contradict each other are refused too'
    g = w.glpk
    a = w.real('a', -4, 4)
    b = w.real('b', -4, 4)
    w.assume(cond_lt(mk(b) - mk(a) + w.margin))
    m = mode_of(w, 1, 0)
    w.refuses(lambda: w.mod('lputil').from_constraints([[1], [1]], [a, b], m, types=[g.GLP_LO, g.GLP_UP], names=['x']),
              'empty typed constraints accepted')


GENS = [[], [[1, 1]], [[1, F(1, 2)], [0, -2]]]


def f_zono(w):
    gens = GENS[w.cfg['g']]
    c = [w.real('c0', -8, 8), w.real('c1', -8, 8)]
    m = mode_of(w, 2, w.cfg['inp'])
    lpi = w.mod('lputil').from_zonotope(c, [[float(x) for x in g] for g in gens], m)
    w.check_equal(w.poly(lpi), zono(c, gens), 'from_zonotope set')


def zono(c, gens):
    al = new_cols(len(gens), 'al')
    cols = new_cols(len(c), 'z')
    rows = box_rows(al, [(-1, 1)] * len(gens))
    for i in range(len(c)):
        co = {cols[i]: 1}
        for a, g in zip(al, gens):
            co[a] = -mk(g[i])
        rows.append(row(co, c[i], True))
    return Poly(rows, cols)


def f_zono_sym(w):
    c = [w.real('c0', -8, 8), w.real('c1', -8, 8)]
    g = [w.real('g0', -2, 2), w.real('g1', -2, 2)]
    m = mode_of(w, 2, 0)
    lpi = w.mod('lputil').from_zonotope(c, [g], m)
    w.check_equal(w.poly(lpi), zono(c, [g]), 'from_zonotope set with symbolic generator')


def f_zono_rel(w):
    'a further generator with a symbolic entry: it may equal, oppose or be a multiple of another one, or vanish'
    c = [w.real('c0', -8, 8), w.real('c1', -8, 8)]
    a = w.real('a', -2, 2)
    gens = [[[1.0, 1.0], [0.0, 1.0], [1.0, a]], [[1.0, a], [a, 1.0]], [[a, 0.0], [2.0, 0.0], [a, 0.0]]][w.cfg['k']]
    orig = [list(g) for g in gens]
    m = mode_of(w, 2, 0)
    lpi = w.mod('lputil').from_zonotope(c, gens, m)
    w.check_equal(w.poly(lpi), zono(c, orig), 'from_zonotope set with related generators')


def f_input(w):
    B = [[1, 0], [2, -1]]
    U = [[1, 0], [-1, 0], [1, 1], [0, -1]]
    u = [w.real('u%d' % i, -4, 4) for i in range(4)]
    base = from_ineq(U, u)
    w.assume(base.nonempty())
    m = mode_of(w, 2, w.cfg['inp'])
    lpi = w.mod('lputil').from_input_constraints([[float(x) for x in r] for r in B], [[float(x) for x in r] for r in U],
                                                 u, m)
    w.check_equal(w.poly(lpi), image(base, B), 'from_input_constraints set')


def f_input_empty(w):
    u = [w.real('a', -4, 4), w.real('b', -4, 4)]
    w.assume(cond_lt(mk(u[0]) + mk(u[1]) + w.margin))
    m = mode_of(w, 1, 0)
    w.refuses(lambda: w.mod('lputil').from_input_constraints([[1.0]], [[1.0], [-1.0]], u, m), 'empty input set accepted')


def f_raw(w):
    'matrices given as csr with unsorted columns (and explicit zeros)'
    z = w.cfg['k'] == 2
    u = [w.real('u%d' % i, -4, 4) for i in range(4)]
    B, U = [[1, 3], [2, -1]], [[1, 2], [-1, 0], [1, 1], [0, -1]]
    base = from_ineq(U, u)
    w.assume(base.nonempty())
    m = mode_of(w, 2, 0)
    orig = list(u)
    a = w.mod('lputil').from_input_constraints(raw_csr(w, B, z), raw_csr(w, U, z), u, m)
    w.check_equal(w.poly(a), image(base, B), 'from_input_constraints set of unsorted matrices')
    b = w.mod('lputil').from_constraints(raw_csr(w, U, z), orig, m)
    w.check_equal(w.poly(b), from_ineq(U, orig), 'from_constraints set of an unsorted matrix')


def f_input_many(w):
    'a cone of inputs cut by a box: several right-hand sides are zero'
    U = [[1, 0], [-1, 0], [0, 1], [0, -1], [1, -3], [-3, 1], [1, 1]]
    a = w.real('a', 0, 4)
    u = [a, 0, a, 0, 0, 0, 3]
    B = [[1, 0], [1, -1], [0, 2]]
    m = mode_of(w, 3, 0)
    lpi = w.mod('lputil').from_input_constraints([[float(x) for x in r] for r in B], [[float(x) for x in r] for r in U],
                                                 [x if x is a else float(x) for x in u], m)
    w.check_equal(w.poly(lpi), image(from_ineq(U, u), B), 'from_input_constraints set with many rows')


def f_zono_many(w):
    n = w.cfg['n']
    if n == 1:
        gens = [[1.0], [-2.0], [0.5], [1.0], [3.0], [0.25]]
        c = [w.real('c0', -8, 8)]
        lpi = w.mod('lputil').from_zonotope(c, gens, mode_of(w, 1, 0))
        w.check_equal(w.poly(lpi), box([(mk(c[0]) - F(31, 4), mk(c[0]) + F(31, 4))]), 'from_zonotope set, six generators')
        return
    # only the last ones reach into the second dimension
    gens = [[float(i + 1), 0.0] for i in range(9)] + [[0.0, 1.5], [0.0, -2.0]]
    c = [w.real('c0', -8, 8), w.real('c1', -8, 8)]
    lpi = w.mod('lputil').from_zonotope(c, gens, mode_of(w, 2, 0))
    w.check_equal(w.poly(lpi), box([(mk(c[0]) - 45, mk(c[0]) + 45), (mk(c[1]) - F(7, 2), mk(c[1]) + F(7, 2))]),
                  'from_zonotope set, eleven generators')
