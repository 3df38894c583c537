'''C10 Convex-hull aggregation is exactly the convex hull'''

from .common import *

BOUNDS = {'quick': '1 to 4 merged sets (boxes, triangles, points, segments, zonotopes, sets given with >= and = rows) with symbolic '
                   'limits in dimension 1..3; sets reached over a transition (identity, swapping, projecting, lifting, singular, '
                   'with extra terms) after a different number of steps, with and without inputs before and after; one step '
                   'and one guard afterwards',
          'thorough': 'also 5 sets and more symbolic limits'}
OUTSIDE = 'unbounded sets, larger dimensions'

A1, A2, A3 = [[0]], [[0, 1], [0, 0]], [[0, 1, 0], [0, 0, 1], [0, 0, 0]]
MATS = {1: A1, 2: A2, 3: A3}
RES = {'none': None, 'swap': [[0, 1], [1, 0]], 'proj': [[1, -2]], 'lift': [[1, 0], [0, 1], [1, 1]], 'sing': [[1, 0], [2, 0]]}


def scenarios(tier):
    out = []
    for d in (1, 2, 3):
        for k in ((1, 2, 3) if d < 3 else (1, 2)):
            out.append(sc('boxes dimension %d, %d symbolic limits' % (d, k), 'f_box', {'d': d, 'k': k}))
    for n in (3, 4) if tier == 'quick' else (3, 4, 5):
        for d in (1, 2):
            out.append(sc('%d boxes dimension %d' % (n, d), 'f_many', {'n': n, 'd': d}))
    for a, b in (('tri', 'point'), ('point', 'point2'), ('seg', 'tri'), ('tri', 'ge'), ('ge', 'seg'), ('zono', 'point'),
                 ('seg', 'seg2'), ('box', 'tri')):
        out.append(sc('shapes %s %s' % (a, b), 'f_shapes', {'s': [a, b]}))
    out.append(sc('shapes point seg ge', 'f_shapes', {'s': ['point', 'seg', 'ge']}))
    out.append(sc('single set', 'f_shapes', {'s': ['tri']}))
    for r in RES:
        for inp in ((0, 0), (0, 1), (1, 0), (1, 1)):
            for s in ('g', 'u0', 'u1') if tier == 'quick' else ('g', 'b', 'u0', 'u1', 'gb'):
                if s == 'u0' and not inp[0] or s == 'u1' and not inp[1]:
                    continue
                if tier == 'quick' and (r not in ('none', 'proj') and (s == 'u0' or inp == (1, 1)) or r == 'sing' and inp[0] or
                                        (r, inp) in (('lift', (1, 0)), ('swap', (0, 1)))):
                    continue
                out.append(sc('after a transition, reset %s, inputs %d%d, symbolic %s' % ((r,) + inp + (s,)), 'f_agg',
                              {'r': r, 'i0': inp[0], 'i1': inp[1], 'n': 2, 's': s}))
    out.append(sc('after a transition with extra terms', 'f_agg', {'r': 'proj', 'i0': 0, 'i1': 0, 'n': 2, 'm': 1, 's': 'm'}))
    out.append(sc('three sets after a transition', 'f_agg', {'r': 'none', 'i0': 0, 'i1': 0, 'n': 3, 's': 'b', 'd': 1}))
    out.append(sc('hull of hulls', 'f_nested'))
    return out


def hull(ps):
    p = ps[0]
    for q in ps[1:]:
        p = hull2(p, q)
    return p


def f_box(w):
    n, k = w.cfg['d'], w.cfg['k']
    ha, ms, _ = make_ha(w, [{'A': MATS[n]}])
    lu = w.mod('lputil')
    b0 = [(w.real('l', -2, 0), w.real('u', 0, 2) if k > 1 else 1)] + [(0, 1)] * (n - 1)
    b1 = [(1, w.real('r', 1, 3) if k > 2 else 3)] + [(-1, 0)] * (n - 1)
    ps = [box(b0), box(b1)]
    lp = [lu.from_box(b, ms[0]) for b in (b0, b1)]
    res = lu.aggregate_chull(lp, ms[0])
    w.check_equal(w.poly(res), hull(ps), 'hull')
    for i, (a, p) in enumerate(zip(lp, ps)):
        w.check_equal(w.poly(a), p, 'merged set %d afterwards' % i)


def f_many(w):
    n, d = w.cfg['n'], w.cfg['d']
    ha, ms, _ = make_ha(w, [{'A': MATS[d]}])
    lu = w.mod('lputil')
    bs = [[(w.real('l', -2, 0), 1)], [(2, w.real('u', 2, 4))], [(5, 6)], [(-5, -4)], [(8, 8)]][:n]
    if d == 2:
        ys = [(0, 1), (-1, w.real('v', 0, 3)), (2, 2), (0, 0), (1, 2)]
        bs = [b + [y] for b, y in zip(bs, ys)]
    ps = [box(b) for b in bs]
    res = lu.aggregate_chull([lu.from_box(b, ms[0]) for b in bs], ms[0])
    w.check_equal(w.poly(res), hull(ps), 'hull')


def shape(w, k, mode):
    lu, g = w.mod('lputil'), w.glpk
    if k == 'tri':
        r = [0, 1, w.real('tri', 2, 4)]
        m = [[-1, 0], [0, -1], [1, 1]]
        return lu.from_constraints(m, r, mode), from_ineq(m, r)
    if k in ('point', 'point2'):
        p = [w.real(k, -2, 2), 3 if k == 'point' else 1]
        return lu.from_box([(x, x) for x in p], mode), box([(x, x) for x in p])
    if k in ('seg', 'seg2'):
        lo = w.real(k, -1, 0)
        m = [[1, -1], [1, 0], [1, 0]] if k == 'seg' else [[1, 2], [1, 0], [1, 0]]
        b = 1 if k == 'seg' else -2
        lpi = lu.from_constraints(m, [b, 2, lo], mode, types=[g.GLP_FX, g.GLP_UP, g.GLP_LO], names=['p', 'q'])
        return lpi, from_ineq([m[0], [-x for x in m[0]], m[1], [-1, 0]], [b, -b, 2, -mk(lo)])
    if k == 'ge':
        lo = w.real('ge', -3, -1)
        m = [[1, 0], [0, 1], [1, 1]]
        lpi = lu.from_constraints(m, [lo, -1, 3], mode, types=[g.GLP_LO, g.GLP_LO, g.GLP_UP], names=['p', 'q'])
        return lpi, from_ineq([[-1, 0], [0, -1], [1, 1]], [-mk(lo), 1, 3])
    if k == 'zono':
        s = w.real('z', 0, 1)
        lpi = lu.from_zonotope([1, s], [[1, 1], [1, -1]], mode)
        return lpi, image(box([(-1, 1), (-1, 1)]), [[1, 1], [1, -1]], [1, s])
    b = [(w.real('bl', -3, -2), -2), (-1, 1)]
    return lu.from_box(b, mode), box(b)


def f_shapes(w):
    ha, ms, _ = make_ha(w, [{'A': A2}])
    lu = w.mod('lputil')
    sh = [shape(w, k, ms[0]) for k in w.cfg['s']]
    for a, p in sh:
        w.check_equal(w.poly(a), p, 'merged set before')
    res = lu.aggregate_chull([a for a, _ in sh], ms[0])
    w.check(all(res is not a for a, _ in sh), 'a separate program is returned')
    w.check_equal(w.poly(res), hull([p for _, p in sh]), 'hull')
    lu.add_curtime_constraints(res, w.csr_matrix([[1.0, 0.0]]), w.np.array([0.5]))
    w.check_equal(w.poly(res), constrain(hull([p for _, p in sh]), [[1, 0]], [F(1, 2)]), 'hull with a constraint')
    for a, p in sh:
        w.check_equal(w.poly(a), p, 'merged set afterwards')


def f_nested(w):
    ha, ms, _ = make_ha(w, [{'A': A2}])
    lu = w.mod('lputil')
    bs = [[(w.real('l', -2, 0), 1), (0, 1)], [(2, 3), (1, 2)], [(w.real('x', -1, 1),) * 2, (5, 5)]]
    lp = [lu.from_box(b, ms[0]) for b in bs]
    ps = [box(b) for b in bs]
    h = lu.aggregate_chull(lp[:2], ms[0])
    lu.set_basis_matrix(h, w.np.array([[0.0, 1.0], [1.0, 0.0]]))
    hp = image(hull(ps[:2]), [[0, 1], [1, 0]])
    res = lu.aggregate_chull([lp[2], h], ms[0])
    w.check_equal(w.poly(res), hull([ps[2], hp]), 'hull')


def f_agg(w):
    c = w.cfg
    R = RES[c['r']]
    n0 = c.get('d', 2)
    n1 = n0 if R is None else len(R)
    def sym(k, lo, hi, v):
        return w.real(k, lo, hi) if k in c['s'] else v
    m0, m1 = {'A': MATS[n0]}, {'A': MATS[n1]}
    if c['i0']:
        m0.update(B=[[0], [1]], U=[[1], [-1]], u=[sym('u0', 0, 2, 1), 1])
    if c['i1']:
        m1.update(B=[[0]] * (n1 - 1) + [[1]], U=[[1], [-1]], u=[sym('u1', 0, 2, F(1, 2)), 1])
    t = dict(src=0, dst=1, R=R, G=[[1, 2][:n0], [-1, 0][:n0]], g=[sym('g', 0, 4, 2), 3])
    if c.get('m'):
        t.update(M=[[1]] * n1, C=[[1], [-1]], d=[sym('m', 0, 2, 1), 1])
    ha, ms, ts = make_ha(w, [m0, m1], [t])
    for m in ms:
        m.init_time_elapse(0.5)
    ast, agg = w.mod('aggstrat'), w.mod('aggregate')
    core = make_core(w, ha, 0.5, 20, agg=ast.Unaggregated())
    S, lu = w.mod('stateset').StateSet, w.mod('lputil')
    E = mat_exp(MATS[n0], 0.5)
    V = input_mat(A2, m0['B'], 0.5) if c['i0'] else None
    starts = [[3, 3], [1, 4], [2, 2]]
    states, ops, ps = [], [], []
    for i in range(c['n']):
        b = [(sym('b', -2, 0, -1), 2), (0, F(1, 2))] if i == 0 else [(-i, i), (F(-1, 2), F(1, 4))]
        b = b[:n0]
        s = S(lu.from_box(b, ms[0]), ms[0], cur_steps_since_start=starts[i])
        core.aggdag.add_init_state(s)
        core.aggdag.pop_waiting_list()
        p = box(b)
        for _ in range(i):
            s.step()
            p = spec_step(p, E, V, (m0.get('U'), m0.get('u')))
        p = constrain(p, t['G'], t['g'])
        w.assume(p.nonempty())
        tl = ts[0].get_guard_intersection(s.lpi)
        if tl is None:
            return
        op = core.aggdag.make_op_transition(ts[0], tl, s, core.aggdag.cur_node)
        ops.append(op)
        states.append(op.poststate)
        ps.append(image(p, R if R is not None else eye(n0), extra=(t['M'], t['C'], t['d']) if c.get('m') else None))
    res = agg.aggregate_chull(states, ops, lambda *a: None)
    w.check(res.mode is ms[1] and not res.is_concrete and res.cur_step_in_mode == 0, 'mode and exactness flag')
    w.check(list(res.cur_steps_since_start) == [min(s.cur_steps_since_start[0] for s in states),
                                                max(s.cur_steps_since_start[1] for s in states)], 'step interval')
    w.check(list(res.aggdag_op_list) == ops, 'merged operations')
    P = w.poly(res.lpi)
    h = hull(ps)
    w.check_equal(P, h, 'hull')
    res.step()
    V1 = input_mat(m1['A'], m1['B'], 0.5) if c['i1'] else None
    w.check_equal(w.poly(res.lpi), spec_step(h, mat_exp(m1['A'], 0.5), V1, (m1.get('U'), m1.get('u'))), 'hull after a step')
    for i, (s, p) in enumerate(zip(states, ps)):
        w.check_equal(w.poly(s.lpi), p, 'merged set %d afterwards' % i)
