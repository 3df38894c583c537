'''C05 Continuous successors of a set are exact at every step'''

from .common import *

BOUNDS = {'quick': 'dimension 1..3, 0..3 inputs, up to 3 steps (8 in few dimensions or without inputs) in every split into advances (single, double, triple); symbolic '
                   'initial box / polytope and input bounds in [-4, 4], nilpotent dynamics (concrete or with symbolic entries '
                   'in [-2, 2]), step sizes 1/2 and 1; one symbolic half-space added through the bookkeeping afterwards',
          'thorough': 'up to 4 steps'}
OUTSIDE = 'dynamics that are not nilpotent (their matrices are covered by C04), more than 4 steps'

MODES = {
    'int': dict(A=[[0, 1], [0, 0]], B=[[0], [1]]),
    'two': dict(A=[[0, 1], [0, 0]], B=[[1, 0], [1, 2]]),
    'skew': dict(A=[[1, -1], [1, -1]], B=[[1], [0]]),
    'chain': dict(A=[[0, 1, 0], [0, 0, 1], [0, 0, 0]], B=[[0], [0], [1]]),
    'zero': dict(A=[[0]], B=[[1]]),
    'many': dict(A=[[0]], B=[[1, -2, 3]]),
    'symA': dict(A='sym', B=[[1], [1]]),
    'symB': dict(A=[[0, 1], [0, 0]], B='sym'),
}


def splits(n):
    if n == 0:
        return [[]]
    return [[k] + r for k in range(1, n + 1) for r in splits(n - k)]


def scenarios(tier):
    out = []
    top = 3 if tier == 'quick' else 4
    for name in ('int', 'two', 'skew', 'chain', 'zero', 'symA', 'symB'):
        for inp in (0, 1):
            if inp == 0 and name in ('two', 'zero', 'symB'):
                continue
            t = top if name in ('int', 'skew', 'zero') else top - 1
            if name == 'symA':
                t = 2
            for s in splits(t):
                out.append(sc('%s inputs %d advance %s' % (name, inp, s), 'f_step', {'mode': name, 'inp': inp, 'split': s}))
    for s in ([1], [2], [1, 1]):
        out.append(sc('many inputs 1 advance %s' % s, 'f_step', {'mode': 'many', 'inp': 1, 'split': s}))
    for name, inp in (('zero', 1), ('int', 0), ('chain', 0)):
        for s in ([5], [7], [2, 6]):
            out.append(sc('%s inputs %d advance %s' % (name, inp, s), 'f_step', {'mode': name, 'inp': inp, 'split': s}))
    for s in ([2], [1, 1]):
        for inp in (0, 1):
            out.append(sc('polytope start inputs %d advance %s' % (inp, s), 'f_step',
                          {'mode': 'int', 'inp': inp, 'split': s, 'start': 'poly'}))
            out.append(sc('zonotope start inputs %d advance %s' % (inp, s), 'f_step',
                          {'mode': 'int', 'inp': inp, 'split': s, 'start': 'zono'}))
    out.append(sc('repeated requests', 'f_repeat'))
    out.append(sc('two sets of one mode', 'f_two'))
    return out


def build(w, name, inp, h, with_sym=True):
    d = MODES[name]
    A, B = d['A'], d['B']
    if A == 'sym':
        a = w.real('a', -2, 2)
        A = [[0, a], [0, 0]]
    if B == 'sym':
        B = [[w.real('b', -2, 2)], [1]]
    md = {'A': A}
    q = len(B[0])
    U = u = None
    if inp:
        ul = [w.real('ul%d' % i, -4, 4) for i in range(q)]
        uu = [w.real('uu%d' % i, -4, 4) for i in range(q)]
        U, u = [], []
        for i in range(q):
            w.assume(cond_le(mk(ul[i]) - uu[i]))
            U.append([int(i == j) for j in range(q)])
            u.append(uu[i])
            U.append([-int(i == j) for j in range(q)])
            u.append(-mk(ul[i]) if w.is_sym else -ul[i])
        if q == 2:
            U.append([1, 1])
            u.append(w.real('us', 0, 8))
            w.assume(cond_le(mk(ul[0]) + ul[1] - u[-1]))
        md.update(B=B, U=U, u=u)
    ha, ms, _ = make_ha(w, [md])
    m = ms[0]
    m.init_time_elapse(h)
    E = W_exp(A, h)
    V = W_in(A, B, h) if inp else None
    return ha, m, E, V, (U, u)


def W_exp(A, h):
    'exact exponential of a nilpotent (possibly symbolic) matrix'
    n = len(A)
    acc = [[mk(int(i == j)) for j in range(n)] for i in range(n)]
    p = acc
    f = F(1)
    for k in range(1, n):
        p = matmul(p, A)
        f = f * F(h) / k
        acc = [[acc[i][j] + p[i][j] * f for j in range(n)] for i in range(n)]
    return acc


def W_in(A, B, h):
    n = len(A)
    acc = [[mk(0)] * n for _ in range(n)]
    p = [[mk(int(i == j)) for j in range(n)] for i in range(n)]
    f = F(h)
    for k in range(n):
        acc = [[acc[i][j] + p[i][j] * f for j in range(n)] for i in range(n)]
        p = matmul(p, A)
        f = f * F(h) / (k + 2)
    return matmul(acc, B)


def start(w, kind, n, m):
    lu = w.mod('lputil')
    if kind == 'poly':
        mat = [[1, 1], [-1, 2], [0, -1]]
        rhs = [w.real('r%d' % i, -4, 4) for i in range(3)]
        p = from_ineq(mat, rhs)
        w.assume(p.nonempty())
        return lu.from_constraints(mat, rhs, m), p
    if kind == 'zono':
        c = [w.real('c%d' % i, -4, 4) for i in range(2)]
        g = [[1, 2], [0, 1]]
        return lu.from_zonotope(c, g, m), image(box([(-1, 1), (-1, 1)]), [[1, 0], [2, 1]], shift=c)
    b = sym_box(w, n)
    return lu.from_box(b, m), box(b)


def run(w, s, p, E, V, ub, split):
    'advance, return oracle sets'
    k = 0
    for st in split:
        if st == 1:
            s.step()
        else:
            s.step(k + st)
        k += st
        for _ in range(st):
            p = spec_step(p, E, V, ub)
    return p


def f_step(w):
    c = w.cfg
    h = 1.0 if c['mode'] in ('skew', 'two') else 0.5
    _, m, E, V, ub = build(w, c['mode'], c['inp'], h)
    n = len(E)
    lpi, p = start(w, c.get('start'), n, m)
    s = w.mod('stateset').StateSet(lpi, m, cur_steps_since_start=[3, 5])
    p = run(w, s, p, E, V, ub, c['split'])
    k = sum(c['split'])
    w.check(s.cur_step_in_mode == k, 'step counter')
    w.check(list(s.cur_steps_since_start) == [3 + k, 5 + k], 'step interval')
    w.check_equal(w.poly(s.lpi), p, 'states after the steps')
    Ek = eye(n)
    for _ in range(k):
        Ek = matmul(Ek, E)
    w.check_mat(s.basis_matrix, Ek, 'recorded state matrix')
    w.check_mat(w.mod('lputil').get_basis_matrix(s.lpi), Ek, 'state matrix in the program')
    # a constraint added through the bookkeeping cuts the current states
    b = w.real('cut', -8, 8)
    vec = w.np.array([1] + [-1] * (n - 1), dtype=float)
    q = constrain(p, [[1] + [-1] * (n - 1)], [b])
    w.mod('lputil').add_init_constraint(s.lpi, vec, b, basis_matrix=s.basis_matrix,
                                        input_effects_list=s.input_effects_list)
    w.check_equal(w.poly(s.lpi), q, 'states after a constraint on them')


def f_repeat(w):
    _, m, E, V, ub = build(w, 'int', 1, 0.5)
    lpi, p = start(w, None, 2, m)
    s = w.mod('stateset').StateSet(lpi, m)
    s.step(1)
    s.step(1)
    w.check(s.cur_step_in_mode == 1 and list(s.cur_steps_since_start) == [1, 1], 'step counter')
    p = spec_step(p, E, V, ub)
    w.check_equal(w.poly(s.lpi), p, 'states after asking for the same step twice')
    w.refuses(lambda: s.step(0), 'going back accepted')


def f_two(w):
    _, m, E, V, ub = build(w, 'int', 1, 0.5)
    lu = w.mod('lputil')
    b = sym_box(w, 2)
    S = w.mod('stateset').StateSet
    s1 = S(lu.from_box(b, m), m)
    s2 = S(lu.from_box([(0, 1), (0, 1)], m), m)
    n1 = n2 = 0
    p1, p2 = box(b), box([(0, 1), (0, 1)])
    for _ in range(4):
        if w.choose(2) and n1 < 2:
            s1.step()
            n1 += 1
            p1 = spec_step(p1, E, V, ub)
        elif n2 < 2:
            s2.step()
            n2 += 1
            p2 = spec_step(p2, E, V, ub)
    w.check_equal(w.poly(s1.lpi), p1, 'first set')
    w.check_equal(w.poly(s2.lpi), p2, 'second set')
