'''C22 Ill-formed models are refused when they are built'''

from .common import *

BOUNDS = {'quick': 'modes of one or two dimensions; every combination of matching and mismatching shapes with sizes 0 to 3 of '
                   'dynamics, invariants, inputs, guards, resets and their uncertainty; nine patterns of constraints with '
                   'right-hand sides (and one coefficient) of any value in [-8, 8], both feasible and infeasible by at least '
                   '1/64; given as lists, arrays, column arrays or sparse matrices; arrays that the caller goes on to use',
          'thorough': 'the same, with longer time'}
OUTSIDE = ('infeasibility by less than 1/64 (the tolerance of the LP solver); changing the matrices of a mode in place after '
           'they were given; calling a setter of a mode twice; a target whose dynamics come after its reset need not be '
           'accepted if its dimension differs')

BIG = 32
A2 = [[0, 1], [-1, 0]]
PATTERNS = {
    'interval': [[1, 0], [-1, 0]],
    'triangle': [[1, 1], [-1, 0], [0, -1]],
    'coefficient': [[None, 0], [-1, 0]],
    'zero row': [[0, 0], [1, -1]],
    'half': [[1, 2]],
    'only a zero row': [[0, 0]],
    'one row': [[None, 0]],
    'none': [],
    'slab': [[1, 1], [-1, -1], [1, 0]],
}
KINDS = ['list', 'array', 'column', 'sparse']


def scenarios(tier):
    out = []
    for p in PATTERNS:
        for kind in range(4):
            for what in ('inv', 'guard', 'inputs', 'reset'):
                if what == 'reset' and kind == 2:
                    continue
                out.append(sc('%s %s %s' % (what, p, KINDS[kind]), 'f_feasible', {'p': p, 'kind': kind, 'what': what}))
    for n in (1, 2):
        out.append(sc('shape of dynamics %d' % n, 'f_dyn', {'n': n}))
        out.append(sc('shape of invariants %d' % n, 'f_inv_shape', {'n': n}))
        out.append(sc('shape of guards %d' % n, 'f_guard_shape', {'n': n}))
        out.append(sc('shape of inputs %d' % n, 'f_input_shape', {'n': n}))
        for m in (0, 1, 2):
            out.append(sc('shape of resets %d %d' % (n, m), 'f_reset_shape', {'n': n, 'm': m}))
            for r in (1, 2, 3):
                out.append(sc('uncertain resets %d %d columns %d' % (n, m, r), 'f_mink', {'n': n, 'm': m, 'cols': r}))
    out.append(sc('missing parts', 'f_missing'))
    out.append(sc('target dynamics come later', 'f_later'))
    out.append(sc('analysis runs the final check', 'f_core'))
    for d in (0, 1, 2):
        out.append(sc('constant inputs %d' % d, 'f_constant', {'d': d}))
    out.append(sc('arrays of the caller', 'f_alias'))
    out.append(sc('two transitions with one array', 'f_shared'))
    out.append(sc('whole numbers', 'f_ints'))
    return out


REFUSALS = (AssertionError, RuntimeError, ValueError, TypeError, IndexError, KeyError)


def accepted(fn, *a, **k):
    try:
        fn(*a, **k)
    except REFUSALS:
        return False
    return True


def zeros(n, m=None):
    return [[0.0] * (n if m is None else m) for _ in range(n)]


def give(w, mat, rhs, kind, ncols=None):
    'the same description in the containers that users have'
    if kind == 0:
        return (mat if mat else w.csr_matrix((0, ncols))), list(rhs)
    if kind == 3:
        return w.csr_matrix(mat if mat else (0, ncols), dtype=float), w.np.array(rhs, dtype=float)
    m = w.np.array(mat, dtype=float) if mat else w.csr_matrix((0, ncols))
    r = w.np.array(rhs, dtype=float)
    if kind == 2:
        r.shape = (len(rhs), 1)
    return m, r


def ones(r, c):
    return [[1.0 if (i + j) % 2 == 0 else -1.0 for j in range(c)] for i in range(r)]


def feasible(w, mat, rhs):
    'is the description satisfiable (clearly not, if it is not)'
    if not mat:
        return True
    if w.decide(from_ineq(mat, rhs).nonempty()):
        return True
    w.assume(from_ineq(mat, [mk(r) + w.margin for r in rhs]).empty())
    return False


def same_set(w, mat, rhs, spec_mat, spec_rhs, n, what):
    b = [(-BIG, BIG)] * n
    p = constrain(box(b), mat, rhs) if len(rhs) else box(b)
    q = constrain(box(b), spec_mat, spec_rhs) if len(spec_rhs) else box(b)
    w.check_equal(p, q, what, margin=F(1, 1 << 20))


def dense(csr):
    return [list(r) for r in csr.toarray()] if csr.shape[0] else []


def stored_inv(mode):
    rows, rhs = [], []
    for lc in mode.inv_list:
        rows += dense(lc.csr)
        rhs.append(lc.rhs)
    return rows, rhs


def stored_u(mode):
    return dense(mode.u_constraints_csc), [x for x in mode.u_constraints_rhs]


def stored_guard(t):
    return dense(t.guard_csr), [x for x in t.guard_rhs]


def stored_mink(t):
    return dense(t.reset_minkowski_constraints_csr), [x for x in t.reset_minkowski_constraints_rhs]


def f_feasible(w):
    pat = PATTERNS[w.cfg['p']]
    mat = [[w.real('c', -2, 2) if x is None else float(x) for x in r] for r in pat]
    rhs = [w.real('r%d' % i, -8, 8) for i in range(len(mat))]
    spec_rhs = list(rhs)
    ok = feasible(w, mat, rhs)
    gm, gr = give(w, mat, rhs, w.cfg['kind'], 2)
    what = w.cfg['what']
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    m1, m2 = ha.new_mode('one'), ha.new_mode('two')
    m1.set_dynamics(A2)
    m2.set_dynamics(A2)
    t = ha.new_transition(m1, m2)
    if what == 'inv':
        r = accepted(m1.set_invariant, gm, gr)
    elif what == 'guard':
        r = accepted(t.set_guard, gm, gr)
    elif what == 'inputs':
        r = accepted(m1.set_inputs, [[1.0, 2.0], [1.0, -1.0]], gm, gr)
    else:
        r = accepted(t.set_reset, [[1.0, 0.0], [2.0, 1.0]], [[1.0, 2.0], [0.0, 3.0]], gm, gr)
    if not ok:
        w.check(not r, 'unsatisfiable constraints are accepted')
        return
    w.check(r, 'satisfiable constraints are refused')
    st = {'inv': lambda: stored_inv(m1), 'guard': lambda: stored_guard(t), 'inputs': lambda: stored_u(m1),
          'reset': lambda: stored_mink(t)}[what]()
    same_set(w, st[0], st[1], mat, spec_rhs, 2, 'stored constraints')
    if what == 'inputs':
        w.check_mat(m1.b_csr, [[1, 2], [1, -1]], 'stored input matrix')
    if what == 'reset':
        w.check_mat(t.reset_csr, [[1, 0], [2, 1]], 'stored reset matrix')
        w.check_mat(t.reset_minkowski_csr, [[1, 2], [0, 3]], 'stored uncertainty matrix')
    if what in ('inv', 'guard'):
        pt = [w.real('x', -16, 16), w.real('y', -16, 16)]
        arr = w.np.array(pt, dtype=float)
        inside = m1.point_in_invariant(arr) if what == 'inv' else t.is_guard_true_for_point(arr)
        vals = matvec(mat, pt)
        eps = F(1, 1 << 20)
        if inside:
            w.check(cand([cond_le(mk(v) - mk(r) - eps) for v, r in zip(vals, spec_rhs)]), 'a point outside is accepted')
        else:
            w.check(cor([cond_le(mk(r) - mk(v) - eps) for v, r in zip(vals, spec_rhs)]), 'a point inside is refused')


def f_dyn(w):
    n = w.cfg['n']
    r, c = 1 + w.choose(3, 'rows'), 1 + w.choose(3, 'cols')
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    m = ha.new_mode('one')
    w.check(m.is_error(), 'a mode without dynamics is an error mode')
    a = [[w.real('a%d%d' % (i, j), -4, 4) if (i, j) in ((0, 0), (n - 1, 1)) else float(i - j) for j in range(c)]
         for i in range(r)]
    kind = w.choose(3, 'container')
    ga = [a, w.np.array(a, dtype=float), w.csr_matrix(a, dtype=float)][kind]
    if r != c:
        w.check(not accepted(m.set_dynamics, ga), 'dynamics that are not square are accepted')
        return
    w.check(accepted(m.set_dynamics, ga), 'square dynamics are refused')
    w.check_mat(m.a_csr, a, 'stored dynamics')
    w.check(not m.is_error(), 'a mode with dynamics is not an error mode')
    w.check(not accepted(ha.new_mode, 'one'), 'two modes of one name')


def pick(w, label, lo=0, hi=3):
    return lo + w.choose(hi - lo + 1, label)


def f_inv_shape(w):
    n = w.cfg['n']
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    m = ha.new_mode('one')
    m.set_dynamics(zeros(n))
    r, c, k = pick(w, 'rows', 1), pick(w, 'cols', 1), pick(w, 'limits')
    rhs = [w.real('r%d' % i, 0, 8) for i in range(k)]
    mat, gr = give(w, ones(r, c), rhs, w.choose(4, 'container'), c)
    res = accepted(m.set_invariant, mat, gr)
    w.check(res == (c == n and k == r), 'an invariant of the wrong shape is accepted' if res else 'an invariant is refused')


def f_guard_shape(w):
    n = w.cfg['n']
    _, ms, _ = make_ha(w, [{'A': zeros(n)}, {'A': zeros(2)}])
    t = ms[0].ha.new_transition(ms[0], ms[1])
    r, c, k = pick(w, 'rows', 1), pick(w, 'cols', 1), pick(w, 'limits')
    rhs = [w.real('r%d' % i, 0, 8) for i in range(k)]
    mat, gr = give(w, ones(r, c), rhs, w.choose(4, 'container'), c)
    res = accepted(t.set_guard, mat, gr)
    w.check(res == (c == n and k == r), 'a guard of the wrong shape is accepted' if res else 'a guard is refused')
    if not res:
        w.check(accepted(t.set_guard_true), 'the guard that is always true is refused')
        w.check(tuple(t.guard_csr.shape) == (0, n) and len(t.guard_rhs) == 0, 'the guard that is always true')


def f_input_shape(w):
    n = w.cfg['n']
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    m = ha.new_mode('one')
    m.set_dynamics(zeros(n))
    br, bc = pick(w, 'B rows', 1), pick(w, 'B cols', 1)
    r, c, k = pick(w, 'U rows', 1), pick(w, 'U cols', 1), pick(w, 'limits')
    u = [w.real('r%d' % i, 0, 8) for i in range(k)]
    mat, gr = give(w, [[2.0 * x for x in q] for q in ones(r, c)], u, w.choose(2, 'container') * 3, c)
    res = accepted(m.set_inputs, ones(br, bc), mat, gr)
    w.check(res == (br == n and c == bc and k == r), 'inputs of the wrong shape are accepted' if res else 'inputs are refused')
    if res:
        w.check_mat(m.b_csr, ones(br, bc), 'stored input matrix')


def two_modes(w, n, m):
    'm is 0 for an error mode'
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    a, b = ha.new_mode('one'), ha.new_mode('two')
    a.set_dynamics(zeros(n))
    if m:
        b.set_dynamics(zeros(m))
    t = ha.new_transition(a, b)
    t.set_guard_true()
    return ha, a, b, t


def f_reset_shape(w):
    n, m = w.cfg['n'], w.cfg['m']
    ha, _a, _b, t = two_modes(w, n, m)
    target = m or n
    how = w.choose(3, 'how')
    if how == 0:
        # no reset is given at all
        w.check(accepted(ha.check_transitions) == (target == n), 'transition without a reset between modes of these sizes')
        return
    if how == 1:
        res = accepted(t.set_reset)
        w.check(res == (target == n), 'identity reset between modes of these sizes')
        if res:
            w.check(accepted(ha.check_transitions), 'the final check refuses an identity reset')
            if t.reset_csr is not None:
                w.check_mat(t.reset_csr, [[float(i == j) for j in range(n)] for i in range(n)], 'stored identity reset')
        return
    r, c = pick(w, 'rows', 1), pick(w, 'cols', 1)
    mat = [[w.real('m%d' % i, -2, 2) if j == 0 else 1.0 for j in range(c)] for i in range(r)]
    kind = w.choose(3, 'container')
    res = accepted(t.set_reset, [mat, w.np.array(mat, dtype=float), w.csr_matrix(mat, dtype=float)][kind])
    if not m and c == n and r != n:
        return          # the size of an error mode is not fixed
    w.check(res == (r == target and c == n), 'a reset of the wrong shape is accepted' if res else 'a reset is refused')
    if res:
        w.check(accepted(ha.check_transitions), 'the final check refuses a reset')
        w.check_mat(t.reset_csr, mat, 'stored reset')
        pt = [w.real('x%d' % i, -4, 4) for i in range(n)]
        new, mode = t.apply_reset_for_point(w.np.array(pt, dtype=float))
        w.check(mode is t.to_mode and len(new) == r, 'reset of a point')
        for v, s in zip(new, matvec(mat, pt)):
            w.check_num(v, s, 'reset of a point')


def f_mink(w):
    'x* = R x + M y, C y <= d: all combinations of parts and shapes'
    n, m, mc = w.cfg['n'], w.cfg['m'], w.cfg['cols']
    ha, _a, _b, t = two_modes(w, n, m)
    target = m or n
    R = ones(target, n) if (n != target or w.choose(2, 'R')) else None
    mr = w.choose(4, 'M rows')            # 0: not given
    M = ones(mr, mc) if mr else None
    cr, cc = w.choose(3, 'C rows'), 1
    C = None
    if cr:
        cc = pick(w, 'C cols', 1)
        C = [[2.0 if j == i else 0.0 for j in range(cc)] for i in range(cr)]
    k = w.choose(4, 'limits')             # 3: not given
    d = None if k == 3 else [w.real('d%d' % i, -8, 8) for i in range(k)]
    if not mr and w.cfg['cols'] != 1:
        return                            # the same case as with one column
    if C is None and M is None and d is None:
        good = True
    elif C is None or d is None:
        good = False
    else:
        good = k == cr and (target == cc if M is None else (mr == target and mc == cc))
        if good:
            good = feasible(w, C, d)
    res = accepted(t.set_reset, R, M, C, d)
    if res and not good:
        # it may still be refused by the final check
        res = accepted(ha.check_transitions)
    w.check(res == good, 'an ill-formed reset is accepted' if res else 'a reset is refused')
    if not good:
        return
    w.check(accepted(ha.check_transitions), 'the final check refuses a reset')
    if C is not None:
        st = stored_mink(t)
        same_set(w, st[0], st[1], C, d, cc, 'stored uncertainty')
        want = M if M is not None else [[float(i == j) for j in range(cc)] for i in range(cc)]
        w.check_mat(t.reset_minkowski_csr, want, 'stored uncertainty matrix')


def f_missing(w):
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    a, b, err = ha.new_mode('a'), ha.new_mode('b'), ha.new_mode('err')
    r = [w.real('r0', 0, 4), w.real('r1', 0, 4)]
    case = w.choose(9, 'case')
    one = [[1.0, 0.0], [-1.0, 0.0]]
    if case == 0:
        w.check(not accepted(a.set_invariant, one, r), 'an invariant without dynamics is accepted')
        return
    if case == 1:
        w.check(not accepted(a.set_inputs, one, one, r), 'inputs without dynamics are accepted')
        return
    b.set_dynamics(A2)
    t = ha.new_transition(a, b)
    if case == 2:
        w.check(not accepted(t.set_guard, one, r), 'a guard out of an error mode is accepted')
        return
    if case == 3:
        w.check(not accepted(t.set_guard_true), 'a guard out of an error mode is accepted')
        return
    if case == 4:
        w.check(not accepted(t.set_reset, A2), 'a reset out of an error mode is accepted')
        return
    if case == 5:
        w.check(not accepted(ha.check_transitions), 'a transition out of an error mode is accepted')
        return
    a.set_dynamics(A2)
    if case == 6:
        w.check(not accepted(ha.check_transitions), 'a transition without a guard is accepted')
        return
    t.set_guard(one, r)
    e = ha.new_transition(b, err)
    if case == 7:
        w.check(not accepted(ha.check_transitions), 'a transition without a guard is accepted')
        return
    e.set_guard_true()
    w.check(accepted(ha.check_transitions), 'a well-formed automaton is refused')


def f_later(w):
    'the dynamics of the target come after the transition was described'
    n, m, r = pick(w, 'n', 1, 2), pick(w, 'm', 1, 2), pick(w, 'rows', 1, 2)
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    a, b = ha.new_mode('a'), ha.new_mode('b')
    a.set_dynamics(zeros(n))
    t = ha.new_transition(a, b)
    t.set_guard([[1.0] + [0.0] * (n - 1)], [w.real('g', -4, 4)])
    kind = w.choose(3, 'reset')
    ok = True
    mat = [[w.real('m', -2, 2)] + [1.0] * (n - 1) for _ in range(1)] + [[1.0] * n for _ in range(r - 1)]
    if kind == 0:
        good, r = m == n, n
    elif kind == 1:
        ok, good, r = accepted(t.set_reset), m == n, n
    else:
        ok = accepted(t.set_reset, mat)
        good = r == m
    if ok:
        b.set_dynamics(zeros(m))
        ok = accepted(ha.check_transitions)
    if not good:
        w.check(not ok, 'a reset that does not fit the target is accepted')
    elif r == n:
        w.check(ok, 'a reset that fits the target is refused')


def f_core(w):
    'nothing is analysed before the automaton was checked'
    case = w.choose(3, 'case')
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    a, b = ha.new_mode('a'), ha.new_mode('b')
    a.set_dynamics([[0.0]])
    t = ha.new_transition(a, b)
    if case == 0:
        b.set_dynamics(zeros(2))
        t.set_guard([[-1.0]], [w.real('g', -4, 4)])
    elif case == 1:
        t2 = ha.new_transition(b, a)
        t.set_guard_true()
        t2.guard_csr = None
    lo = w.real('lo', 0, 1)
    init = [w.mod('stateset').StateSet(w.mod('lputil').from_box([(lo, 2)], a), a)]
    hs = w.mod('settings').HylaaSettings(1.0, 2)
    hs.stdout = 0
    hs.plot.plot_mode = w.mod('settings').PlotSettings.PLOT_NONE
    core = w.mod('core').Core(ha, hs)
    w.refuses(lambda: core.run(init), 'an ill-formed automaton is analysed', REFUSALS)


def f_constant(w):
    'inputs that are fixed are refused unless they are allowed; all others are accepted'
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    m = ha.new_mode('one')
    m.set_dynamics(A2)
    B = [[[1.0], [0.0]], [[1.0], [2.0]], [[1.0, 0.0], [0.0, 1.0]]][w.cfg['d']]
    k = len(B[0])
    U, u = [], []
    for i in range(k):
        e = [float(i == j) for j in range(k)]
        U += [e, [-x for x in e]]
        u += [w.real('hi%d' % i, -4, 4), w.real('lo%d' % i, -4, 4)]
    if w.choose(2, 'order'):
        U, u = U[::-1], u[::-1]
    lim = [(mk(u[j]) + mk(u[j + 1])) for j in range(0, 2 * k, 2)]
    fixed = False
    for wd in lim:
        if w.decide(cond_eq(wd)):
            fixed = True
        else:
            w.assume(cond_le(w.margin - wd))
    fixed = fixed and w.cfg['d'] != 1
    allow = bool(w.choose(2, 'allow'))
    r = accepted(m.set_inputs, B, U, u, allow_constants=allow)
    w.check(r == (allow or not fixed), 'a constant input is accepted' if r else 'inputs that vary are refused')
    if r:
        st = stored_u(m)
        same_set(w, st[0], st[1], U, u, k, 'stored inputs')


def f_alias(w):
    'the caller goes on to use its arrays: the stored description stays what it was'
    _, ms, _ = make_ha(w, [{'A': A2}, {'A': A2}])
    t = ms[0].ha.new_transition(ms[0], ms[1])
    mat = [[1.0, 0.0], [-1.0, 1.0]]
    rhs = [w.real('r0', 0, 8), w.real('r1', 0, 8)]
    arr = w.np.array(rhs, dtype=float)
    if w.choose(2, 'column'):
        arr.shape = (2, 1)
    shape = tuple(arr.shape)
    case = w.choose(4, 'case')
    if case == 3 and len(shape) == 2:
        return
    [lambda: t.set_guard(mat, arr), lambda: ms[0].set_invariant(mat, arr), lambda: ms[0].set_inputs(eye(2), mat, arr),
     lambda: t.set_reset(None, eye(2), mat, arr)][case]()
    w.check(tuple(arr.shape) == shape, 'the array of the caller gets another shape')
    if len(shape) == 2:
        arr[0, 0] = w.real('new', -8, 8)
    else:
        arr[0] = w.real('new', -8, 8)
    st = [lambda: stored_guard(t), lambda: stored_inv(ms[0]), lambda: stored_u(ms[0]), lambda: stored_mink(t)][case]()
    same_set(w, st[0], st[1], mat, rhs, 2, 'description after the caller changed its array')


def f_shared(w):
    'two time-triggered transitions are described with one array'
    k = w.real('k', 1, 8)
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    a = ha.new_mode('a')
    a.set_dynamics([[0.0, 1.0], [0.0, 0.0]])
    a.set_invariant([[1.0, 0.0]], [k])
    outs = [ha.new_mode('b%d' % i) for i in range(2)]
    ts = []
    arr = w.np.array([mk(k) * -1], dtype=float) if w.is_sym else w.np.array([-k], dtype=float)
    for o in outs:
        o.set_dynamics(zeros(2))
        t = ha.new_transition(a, o)
        t.set_guard([[-1.0, 0.0]], arr)
        ts.append(t)
    ha.detect_tt_transitions(1.0, 4, print_func=lambda s: None)
    eps = F(1, 4000)
    for t in ts:
        w.check(t.time_triggered, 'the transition is time-triggered')
        m, r = stored_guard(t)
        w.check(len(r) == 1, 'rows of the guard')
        w.check(cand(cond_le(mk(r[0]) + mk(k) - eps - eps / 100), cond_le(-mk(r[0]) - mk(k))),
                'the guard is relaxed more than once')
    w.check_num(arr[0], mk(k) * -1, 'the array of the caller is changed')


def f_ints(w):
    'arrays of whole numbers mean the same as arrays of floats'
    n = w.choose(5, 'limit') - 1
    ha = w.mod('hybrid_automaton').HybridAutomaton()
    a, b = ha.new_mode('a'), ha.new_mode('b')
    a.set_dynamics(w.np.array([[0, 1], [0, 0]]))
    b.set_dynamics(w.csr_matrix([[0, 1], [0, 0]]))
    a.set_invariant(w.np.array([[1, 0]]), w.np.array([n]))
    t = ha.new_transition(a, b)
    t.set_guard(w.csr_matrix([[-1, 0]]), w.np.array([-n]))
    ha.detect_tt_transitions(1.0, 4, print_func=lambda s: None)
    m, r = stored_guard(t)
    q = w.real('q', -4, 4)
    # the relaxed guard is a little wider than the guard, and not narrower
    w.check(t.time_triggered and cond_le(mk(r[0]) + n - F(1, 2000)), 'guard of whole numbers')
    w.check(cond_lt(-(mk(r[0]) + n)), 'a time-triggered guard of whole numbers is not relaxed')
    pt = w.np.array([q, 0.0], dtype=float)
    if a.point_in_invariant(pt):
        w.check(cond_le(mk(q) - n), 'invariant of whole numbers')
    else:
        w.check(cond_le(n - mk(q)), 'invariant of whole numbers')
