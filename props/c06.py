'''C06 Guard intersection is exact and leaves the current set unchanged'''

from .common import *
from .c05 import build, start, run

BOUNDS = {'quick': 'guards of 0..6 rows (also repeated ones) over 1..3 variables with symbolic right-hand sides (and, in one family, symbolic '
                   'coefficients in [-2, 2]); sets: symbolic boxes / polytopes / zonotopes, also after up to 2 continuous steps '
                   'with inputs, and after a transition (current variables not in the first columns)',
          'thorough': 'also 3 steps and 4 guard rows'}
OUTSIDE = 'more rows or dimensions; guards missing the set by less than 1/64'

GUARDS = {
    'none': [],
    'one': [[1, 0]],
    'diag': [[1, -2]],
    'eq': [[0, 1], [0, -1]],
    'corner': [[1, 1], [-1, 0], [1, -1]],
    'box': [[1, 0], [-1, 0], [0, 1], [0, -1]],
    'twice': [[1, 0], [1, 0], [-1, 0]],
    'zero row': [[0, 0], [1, 0]],
}


def scenarios(tier):
    out = []
    for g in GUARDS:
        for st, steps, inp in ((None, 0, 0), ('poly', 0, 0), (None, 2, 0), (None, 1, 1), (None, 2, 1), ('zono', 1, 0)):
            if tier == 'quick' and g == 'box' and (st, steps, inp) not in (('poly', 0, 0), (None, 1, 0)):
                continue
            if g == 'corner' and steps == 2 and inp == 1 and tier == 'quick':
                continue
            out.append(sc('guard %s start %s steps %d inputs %d' % (g, st, steps, inp), 'f_guard',
                          {'g': g, 'start': st, 'steps': steps, 'inp': inp}))
        if tier != 'quick':
            out.append(sc('guard %s start box steps 3 inputs 1' % g, 'f_guard', {'g': g, 'steps': 3, 'inp': 1, 'start': None}))
    for g in ('one', 'eq', 'corner', 'diag'):
        for inp in (0, 1):
            out.append(sc('guard %s after a transition inputs %d' % (g, inp), 'f_after', {'g': g, 'inp': inp}))
    for dim in (1, 2, 3):
        for k in range(1, 7):
            out.append(sc('%d guard rows in dimension %d' % (k, dim), 'f_rows', {'dim': dim, 'k': k}))
    out.append(sc('symbolic guard row', 'f_symrow'))
    out.append(sc('repeated guards', 'f_repeat'))
    out.append(sc('point semantics', 'f_point'))
    return out


def check_guard(w, tr, lpi, p, mat, rhs):
    res = tr.get_guard_intersection(lpi)
    mg = w.margin
    if res is None:
        q = constrain(p, mat, [mk(r) - mg for r in rhs]) if mat else p
        w.check(q.empty(), 'guard reported unreachable but it is reachable')
    else:
        q = constrain(p, mat, rhs) if mat else p
        relaxed = constrain(p, mat, [mk(r) + mg for r in rhs]) if mat else p
        w.check(relaxed.nonempty(), 'guard reported reachable but it is not')
        w.check_equal(w.poly(res), q, 'guarded states')
        w.check(res is not lpi, 'the returned program is the source program')
    w.check_equal(w.poly(lpi), p, 'source set')
    return res


def f_guard(w):
    c = w.cfg
    hm = w.mod('hybrid_automaton')
    ha, m, E, V, ub = build(w, 'int', c['inp'], 0.5)
    lpi, p = start(w, c['start'], 2, m)
    s = w.mod('stateset').StateSet(lpi, m)
    p = run(w, s, p, E, V, ub, [1] * c['steps'])
    mat = GUARDS[c['g']]
    rhs = [w.real('g%d' % i, -4, 4) for i in range(len(mat))]
    if c['g'] == 'eq':
        w.assume(cond_le(-mk(rhs[0]) - rhs[1]))
    dst = ha.new_mode('err')
    tr = ha.new_transition(m, dst)
    if mat:
        g = from_ineq(mat, rhs)
        if not w.decide(g.nonempty()):
            relaxed = from_ineq(mat, [mk(r) + w.margin for r in rhs])
            w.assume(relaxed.empty())
            w.refuses(lambda: tr.set_guard(mat, rhs), 'infeasible guard accepted')
            return
        tr.set_guard(mat, rhs)
    else:
        tr.set_guard_true()
    if w.choose(2):
        s.lpi.minimize(direction_vec=[1, 3])
    check_guard(w, tr, s.lpi, p, mat, rhs)
    _ = hm


def f_after(w):
    c = w.cfg
    B = dict(B=[[0], [1]], U=[[1], [-1]], u=[w.real('uu', 0, 2), 1]) if c['inp'] else {}
    R = [[0, 1], [1, 1]]
    mat = GUARDS[c['g']]
    rhs = [w.real('g%d' % i, -4, 4) for i in range(len(mat))]
    if c['g'] == 'eq':
        w.assume(cond_le(-mk(rhs[0]) - rhs[1]))
    if c['g'] == 'corner':
        w.assume(from_ineq(mat, rhs).nonempty())
    md = dict(A=[[0, 1], [0, 0]], **B)
    ha, ms, ts = make_ha(w, [md, dict(md), {'A': None}], [dict(src=0, dst=1, R=R), dict(src=1, dst=2, G=mat, g=rhs)])
    for m in ms:
        m.init_time_elapse(0.5)
    lu = w.mod('lputil')
    b = sym_box(w, 2)
    lpi = lu.from_box(b, ms[0])
    lu.add_reset_variables(lpi, 1, 0, reset_csr=ts[0].reset_csr, successor_has_inputs=bool(c['inp']))
    p = image(box(b), R)
    S = w.mod('stateset').StateSet
    s = S(lpi, ms[1])
    s.step()
    E = mat_exp(md['A'], 0.5)
    if c['inp']:
        p = spec_step(p, E, input_mat(md['A'], md['B'], 0.5), (md['U'], md['u']))
    else:
        p = spec_step(p, E)
    check_guard(w, ts[1], s.lpi, p, mat, rhs)


def f_symrow(w):
    row_ = [w.real('c0', -2, 2), w.real('c1', -2, 2)]
    r = w.real('r', -4, 4)
    w.assume(cor(cond_le(F(1, 4) - row_[0]), cond_le(mk(row_[0]) + F(1, 4))))
    ha, ms, ts = make_ha(w, [{'A': [[0, 1], [0, 0]]}, {'A': None}], [dict(src=0, dst=1, G=[row_], g=[r])])
    b = [(-1, 2), (0, w.real('bu', 0, 3))]
    lpi = w.mod('lputil').from_box(b, ms[0])
    check_guard(w, ts[0], lpi, box(b), [row_], [r])


def f_rows(w):
    'every row alone can hold, all together only when the simplex is large enough'
    n, k = w.cfg['dim'], w.cfg['k']
    ident = [[int(i == j) for j in range(n)] for i in range(n)]
    rows, rhs = [], []
    for i in range(n):
        rows.append([-v for v in ident[i]])
        rhs.append(F(-1, 2))
    for i in range(n):
        rows.append(ident[i])
        rhs.append(F(3, 4))
    rows += [[1] * n, [i + 1 for i in range(n)], [-1] * n, [2 - i for i in range(n)]]
    rhs += [2, 5, F(-5, 4) if n > 1 else F(-1, 2), 3]
    rows, rhs = rows[:k], rhs[:k]
    s = w.real('size', 0, 4)
    gm = [[float(v) for v in r] for r in rows]
    ha, ms, ts = make_ha(w, [{'A': [[0] * n for _ in range(n)]}, {'A': None}], [dict(src=0, dst=1, G=gm, g=[float(r) for r in rhs])])
    sm = [[-v for v in r] for r in ident] + [[1] * n]
    sr = [0] * n + [s]
    lpi = w.mod('lputil').from_constraints(sm, sr, ms[0])
    check_guard(w, ts[0], lpi, from_ineq(sm, sr), rows, rhs)


def f_repeat(w):
    'several guards tried on one set, in any order'
    ha, m, E, V, ub = build(w, 'int', 1, 0.5)
    lpi, p = start(w, None, 2, m)
    s = w.mod('stateset').StateSet(lpi, m)
    p = run(w, s, p, E, V, ub, [1])
    dst = ha.new_mode('err')
    ts = []
    for i, mat in enumerate(([[1, 0]], [[0, -1]])):
        rhs = [w.real('q%d' % i, -4, 4)]
        t = ha.new_transition(m, dst)
        t.set_guard(mat, rhs)
        ts.append((t, mat, rhs))
    for _ in range(3):
        t, mat, rhs = ts[w.choose(2)]
        check_guard(w, t, s.lpi, p, mat, rhs)


def f_point(w):
    mat = [[1, -2], [0, 1]]
    rhs = [w.real('r0', -4, 4), w.real('r1', -4, 4)]
    ha, ms, ts = make_ha(w, [{'A': [[0, 1], [0, 0]]}, {'A': None}], [dict(src=0, dst=1, G=mat, g=rhs)])
    pt = [w.real('p0', -4, 4), w.real('p1', -4, 4)]
    spec = cand([cond_le(v - r) for v, r in zip(matvec(mat, pt), rhs)])
    got = ts[0].is_guard_true_for_point(w.np.array(pt, dtype=float))
    w.check(bool(got) == w.decide(spec), 'guard at a point')
