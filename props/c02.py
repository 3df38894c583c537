'''C02 An optimisation answer is correct or is refused, never silently wrong'''

from .common import *

BOUNDS = {'quick': 'programs with 2 current variables plus two history columns, 9 rows, symbolic right-hand sides in [-4, 4]; '
                   'up to 3 consecutive optimisations with directions from a list of 5 or one symbolic direction; on each of '
                   'the first 3 solver calls an arbitrary choice of success, 4 failure codes (with 3 residual statuses), '
                   'undefined / feasible-only status, and (when a retry is promised) spurious infeasibility',
          'thorough': 'the same with 4 consecutive optimisations and faults on the first 4 calls'}
OUTSIDE = 'numerical failure inside GLPK that it does not report (wrong points with status optimal)'

DIRS = [[1, 0], [0, -1], [1, 1], [-2, 1], [0, 0]]


def scenarios(tier):
    out = []
    nd = 3 if tier == 'quick' else 4
    for i in range(len(DIRS)):
        out.append(sc('directions %d' % i, 'f_seq', {'first': i, 'n': nd}))
    out.append(sc('symbolic direction', 'f_symdir'))
    for i in range(4):
        out.append(sc('directions over all columns %d' % i, 'f_wide', {'k': i}))
    out.append(sc('infeasible', 'f_inf'))
    out.append(sc('unbounded', 'f_unb'))
    out.append(sc('clone direction', 'f_clone'))
    nf = 3 if tier == 'quick' else 4
    for fail in (0, 1):
        out.append(sc('solver faults fail_on_unsat=%d' % fail, 'f_faults', {'fail': fail, 'n': nf, 'two': 0}))
        out.append(sc('solver faults on an empty set fail_on_unsat=%d' % fail, 'f_faults_empty', {'fail': fail, 'n': nf}))
    out.append(sc('solver faults then another direction', 'f_faults', {'fail': 1, 'n': 2, 'two': 1}))
    out.append(sc('solver faults in is_feasible', 'f_faults_feas', {'n': nf}))
    for empty in (0, 1):
        for fail in (0, 1):
            out.append(sc('every failure code, repeated empty=%d fail_on_unsat=%d' % (empty, fail), 'f_codes',
                          {'fail': fail, 'empty': empty}))
    out.append(sc('columns', 'f_columns'))
    return out


def program(w, empty=False, sym_rhs=True):
    'two history columns, current variables x, y (columns 2, 3)'
    lpi = w.mod('lpinstance').LpInstance()
    lpi.add_cols(['g', 'h', 'x', 'y'])
    m = [[0, 1, 1, 0], [0, 0, -1, 0], [0, -1, 0, 1], [0, 0, 0, -1], [1, 0, 1, 1], [-1, -1, 0, 0], [1, 1, 0, 0], [1, 0, 0, 0],
         [-1, 0, 0, 0]]
    if sym_rhs:
        a, b = w.real('a', -4, 4), w.real('b', -4, 4)
        w.assume(cond_le(1 - a))
        w.assume(cond_le(-b))
    else:
        a, b = 3, 2
    rhs = [a, 1, b, 2, 3, 1, 1, 1, 1]
    if empty:
        m.append([0, 0, -1, 0])
        rhs.append(-mk(a) - 3)
    lpi.add_rows_less_equal([r if not isinstance(r, F) else float(r) for r in rhs])
    lpi.set_constraints_csr(w.csr_matrix(w.np.array(m, dtype=float)))
    lpi.set_reach_vars(2, (0, 0), 2, None)
    return lpi


def check_answer(w, lpi, d, res, what):
    'res: all columns'
    rows = w.rows(lpi)
    w.check(len(res) == lpi.get_num_cols(), what + ': number of values')
    w.check(cand([W.lpx.row_cond(r, {i: mk(res[i]) for i in range(len(res))}, w.margin) for r in rows]),
            what + ': point outside the set')
    p = Poly(rows, [2, 3])
    v = mk(d[0]) * res[2] + mk(d[1]) * res[3]
    w.check_lower(p, d, v, what + ': not optimal')


def call(w, lpi, d, variant):
    if variant == 0:
        return lpi.minimize(direction_vec=list(d))
    if variant == 1:
        lpi.set_minimize_direction(w.csr_matrix(w.np.array([d], dtype=float)), is_csr=True)
        return lpi.minimize()
    lpi.set_minimize_direction(w.csr_matrix(w.np.array([[0, 0] + list(d)], dtype=float)), is_csr=True, offset=0)
    return lpi.minimize()


def f_seq(w):
    lpi = program(w)
    d = DIRS[w.cfg['first']]
    for i in range(w.cfg['n']):
        if i:
            d = DIRS[w.choose(len(DIRS))]
        # the last answer depends only on its own direction; the style of the calls before it must not matter
        res = call(w, lpi, d, w.choose(3))
    check_answer(w, lpi, d, res, 'optimum')


def f_wide(w):
    'directions over any of 7 columns, one after the other; every answer belongs to its own direction only'
    lpi = program(w, sym_rhs=False)
    lpi.add_cols(['u', 'v', 't'])
    lpi.add_rows_less_equal([4.0, 4.0, 1.0, 2.0, 4.0, 4.0, 1.0, 3.0, 2.0, w.real('c', 0, 4)])
    m = [[0, 0, 0, 0, 1, 0, 0], [0, 0, 0, 0, -1, 0, 0], [0, 0, 1, 0, -1, 0, 0], [0, 0, -2, 0, 1, 0, 0], [0, 0, 0, 0, 0, 1, 0],
         [0, 0, 0, 0, 0, -1, 0], [0, 0, 0, -1, 0, 1, 0], [0, 0, 0, 1, 0, -1, 0], [0, 0, 0, 0, 1, 1, -1], [0, 0, 1, 0, 0, 0, 1]]
    lpi.set_constraints_csr(w.csr_matrix(w.np.array(m, dtype=float)), offset=(9, 0))
    wide = [[3, -1, 2, 1, 5, -2, 3], [0, 0, 0, 0, 7, 4, 1], [0, 0, -1, 0, 0, 0, 6], [0, 9, 0, 0, 0, -8, 0]]

    def ask(i):
        if i == 4:
            return [0, 0, 1, -1, 0, 0, 0], lpi.minimize(direction_vec=[1, -1])
        if i == 5:
            lpi.set_minimize_direction(w.csr_matrix(w.np.array([[-1, 0]], dtype=float)), is_csr=True)
            return [0, 0, -1, 0, 0, 0, 0], lpi.minimize()
        if i == 6:
            # a part of the columns, from an offset
            lpi.set_minimize_direction(w.csr_matrix(w.np.array([[2, 0, 1]], dtype=float)), is_csr=True, offset=3)
            return [0, 0, 0, 2, 0, 1, 0], lpi.minimize()
        lpi.set_minimize_direction(w.csr_matrix(w.np.array([wide[i]], dtype=float)), is_csr=True, offset=0)
        return wide[i], lpi.minimize()
    for i in (w.cfg['k'], w.choose(7)):
        try:
            d, res = ask(i)
        except RuntimeError:
            d = None            # refused: the direction is unbounded
    w.check(d is not None or i < 4, 'a bounded direction was refused')
    if d is None:
        return
    rows = w.rows(lpi)
    w.check(cand([W.lpx.row_cond(r, {j: mk(res[j]) for j in range(len(res))}, w.margin) for r in rows]),
            'point outside the set')
    v = 0
    for a, x in zip(d, res):
        v = v + mk(a) * x
    cols = [j for j in range(7) if d[j]]
    w.check_lower(Poly(rows, cols), [d[j] for j in cols], v, 'not optimal')


def f_symdir(w):
    lpi = program(w, sym_rhs=False)
    lpi.minimize(direction_vec=[1, 5])
    d = [w.real('d0', -3, 3), w.real('d1', -3, 3)]
    res = lpi.minimize(direction_vec=w.np.array(d, dtype=float))
    check_answer(w, lpi, d, res, 'optimum')


def f_inf(w):
    lpi = program(w, empty=True)
    e = w.mod('lpinstance').UnsatError
    w.check(lpi.minimize(direction_vec=[1, 0], fail_on_unsat=False) is None, 'empty set not reported')
    w.check(not lpi.is_feasible(), 'empty set reported feasible')
    w.refuses(lambda: lpi.minimize(direction_vec=[0, 1]), 'empty set accepted', excs=(e,))


def f_unb(w):
    lpi = w.mod('lpinstance').LpInstance()
    lpi.add_cols(['x', 'y'])
    a = w.real('a', -4, 4)
    lpi.add_rows_less_equal([a, 1.0])
    lpi.set_constraints_csr(w.csr_matrix(w.np.array([[-1, 0], [0, -1]], dtype=float)))
    lpi.set_reach_vars(1, (0, 0), 0, None)
    w.refuses(lambda: lpi.minimize(direction_vec=[-1]), 'unbounded direction answered')
    res = lpi.minimize(direction_vec=[1], columns=[0])
    w.check_num(res[0], -mk(a), 'minimum after an unbounded direction', tol=w.margin)


def f_clone(w):
    lpi = program(w)
    d = DIRS[w.choose(len(DIRS))]
    lpi.minimize(direction_vec=d)
    c = lpi.clone()
    other = c if w.choose(2) else lpi
    k = w.choose(3)
    if k == 1:
        other.add_cols(['z'])
        other.add_rows_less_equal([1.0, 1.0])
        other.set_constraints_csr(w.csr_matrix(w.np.array([[0, 0, 0, 0, 1], [0, 0, 0, 0, -1]], dtype=float)), offset=(9, 0))
    d2 = DIRS[w.choose(len(DIRS))]
    full = list(d2)
    if k == 2:
        other.set_minimize_direction(w.csr_matrix(w.np.array([[d2[1]]], dtype=float)), is_csr=True, offset=3)
        full[0] = 0
        res = other.minimize()
    else:
        res = other.minimize(direction_vec=d2)
    check_answer(w, other, full, res, 'optimum of a copy')


RETS = ['GLP_ESING', 'GLP_EFAIL', 'GLP_ETMLIM', 'GLP_EBADB']
STATS = ['GLP_UNDEF', 'GLP_FEAS', 'GLP_INFEAS']


def schedule(w, n, spurious):
    'pick a fault for each of the first n solver calls lazily'
    g = w.glpk
    picked = {}

    def hook(k, lp):
        if k >= n:
            return None
        if k not in picked:
            c = w.choose(len(RETS) + 3 + (1 if spurious else 0))
            if c == 0:
                picked[k] = None
            elif c <= len(RETS):
                st = getattr(g, STATS[w.choose(3)])
                picked[k] = ('ret', getattr(g, RETS[c - 1]), st)
            elif c == len(RETS) + 1:
                picked[k] = ('status', g.GLP_UNDEF)
            elif c == len(RETS) + 2:
                picked[k] = ('status', g.GLP_FEAS)
            else:
                picked[k] = ('status', g.GLP_NOFEAS)
        return picked[k]
    w.set_fault(hook)


def f_faults(w):
    lpi = program(w)
    if w.cfg['two']:
        lpi.minimize(direction_vec=[1, 1])
    e = w.mod('lpinstance').UnsatError
    schedule(w, w.cfg['n'], w.cfg['fail'])
    d = [-2, 1]
    try:
        res = lpi.minimize(direction_vec=d, fail_on_unsat=bool(w.cfg['fail']))
    except (RuntimeError, e):
        res = 'error'
    w.set_fault(None)
    w.check(res is not None, 'emptiness reported because the solver failed')
    if res is not None and not isinstance(res, str):
        check_answer(w, lpi, d, res, 'answer under faults')
    if w.cfg['two']:
        d = [0, -1]
        res = lpi.minimize(direction_vec=d)
        check_answer(w, lpi, d, res, 'answer after faults')


ALLRETS = ['GLP_EBADB', 'GLP_ESING', 'GLP_ECOND', 'GLP_EBOUND', 'GLP_EFAIL', 'GLP_EOBJLL', 'GLP_EOBJUL', 'GLP_EITLIM',
           'GLP_ETMLIM', 'GLP_ENODFS', 'GLP_EROOT', 'GLP_ESTOP', 'GLP_EMIPGAP', 'GLP_ENOFEAS', 'GLP_ENOCVG', 'GLP_EINSTAB',
           'GLP_EDATA', 'GLP_ERANGE']


def f_codes(w):
    'the same return code or status on the first 1..4 solver calls; only a proof of infeasibility may mean empty'
    g = w.glpk
    lpi = program(w, empty=bool(w.cfg['empty']))
    e = w.mod('lpinstance').UnsatError
    i = w.choose(len(ALLRETS) + len(STATS))
    times = 1 + w.choose(4)
    if i < len(ALLRETS):
        f = ('ret', getattr(g, ALLRETS[i]), getattr(g, (STATS + ['GLP_NOFEAS', 'GLP_OPT'])[w.choose(5)] if times == 4 else STATS[0]))
    else:
        f = ('status', getattr(g, STATS[i - len(ALLRETS)]))
    w.set_fault(lambda k, lp: f if k < times else None)
    d = [-2, 1]
    try:
        res = lpi.minimize(direction_vec=d, fail_on_unsat=bool(w.cfg['fail']))
    except (RuntimeError, e):
        res = 'error'
    w.set_fault(None)
    if w.cfg['empty']:
        w.check(res is None or isinstance(res, str), 'a point of the empty set was returned')
    else:
        w.check(res is not None, 'emptiness reported because the solver failed')
        if res is not None and not isinstance(res, str):
            check_answer(w, lpi, d, res, 'answer under faults')


def f_faults_empty(w):
    lpi = program(w, empty=True)
    e = w.mod('lpinstance').UnsatError
    schedule(w, w.cfg['n'], False)
    try:
        res = lpi.minimize(direction_vec=[-2, 1], fail_on_unsat=bool(w.cfg['fail']))
    except (RuntimeError, e):
        res = None
    w.check(res is None, 'a point of the empty set was returned')


def f_faults_feas(w):
    empty = bool(w.choose(2))
    lpi = program(w, empty=empty)
    schedule(w, w.cfg['n'], False)
    try:
        res = lpi.is_feasible()
    except RuntimeError:
        return
    w.check(res == (not empty), 'feasibility verdict under solver faults')


def f_columns(w):
    lpi = program(w)
    cols = [[2], [0, 2], [3, 2, 1, 0], []][w.choose(4)]
    d = DIRS[w.choose(4)]
    res = lpi.minimize(direction_vec=d, columns=cols)
    w.check(len(res) == len(cols), 'number of values')
    p = Poly(w.rows(lpi), list(range(4)))
    if len(cols) == 4:
        check_answer(w, lpi, d, list(res)[::-1], 'requested columns')
    elif cols:
        q = Poly(p.rows, cols)
        w.check_point(q, list(res), 'requested columns')
    w.refuses(lambda: lpi.minimize(columns=[4]), 'missing column accepted')
