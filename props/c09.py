'''C09 Template aggregation covers every merged set and is tight in each direction'''

from .common import *

BOUNDS = {'quick': '2 or 3 merged sets in dimension 1..3, reached over a transition (identity, permuting, rank-deficient, '
                   'dimension-changing or with extra terms) after different numbers of steps, symbolic boxes and guards; box, '
                   'dynamics-derived and guard directions; successor with and without inputs; one continuous step afterwards',
          'thorough': 'also 4 merged sets'}
OUTSIDE = 'larger dimensions, more sets; directions that need the random completion (covered by C21)'

A1, A2, A3 = [[0]], [[0, 1], [0, 0]], [[0, 1, 0], [0, 0, 1], [0, 0, 0]]
RES = {
    'none': None,
    'swap': [[0, 1], [1, 0]],
    'shear': [[1, 1], [0, 1]],
    'proj': [[1, -2]],
    'lift': [[1, 0], [0, 1], [1, 1]],
    'sing': [[1, 0], [2, 0]],
    'drop': [[1, 0], [3, 0]],
}


def scenarios(tier):
    out = []
    for kind in ('box', 'arnoldi'):
        for guard in (0, 1):
            for r in RES:
                if r == 'drop':
                    continue
                for inp in (0, 1):
                    if inp and r not in ('none', 'swap', 'proj'):
                        continue
                    if kind == 'arnoldi' and (r == 'sing' or inp and guard and tier == 'quick'):
                        continue
                    out.append(sc('%s guard %d reset %s inputs %d' % (kind, guard, r, inp), 'f_agg',
                                  {'kind': kind, 'guard': guard, 'r': r, 'inp': inp, 'n': 2}))
    for n in ((3,) if tier == 'quick' else (3, 4)):
        for kind in ('box', 'arnoldi'):
            out.append(sc('%s of %d sets' % (kind, n), 'f_agg', {'kind': kind, 'guard': 0, 'r': 'none', 'inp': 0, 'n': n,
                                                                'few': 1}))
            out.append(sc('%s of %d sets with reset and guard' % (kind, n), 'f_agg',
                          {'kind': kind, 'guard': 1, 'r': 'shear', 'inp': 0, 'n': n, 'few': 1}))
    for n in ((6,) if tier == 'quick' else (5, 6, 7)):
        for kind in ('box', 'arnoldi'):
            out.append(sc('%s of %d sets' % (kind, n), 'f_agg', {'kind': kind, 'guard': 0, 'r': 'none', 'inp': 0, 'n': n,
                                                                'one': 1}))
    for r in ('none', 'swap', 'shear'):
        out.append(sc('flat guard rows reset %s' % r, 'f_agg', {'kind': 'box', 'guard': 1, 'r': r, 'inp': 0, 'n': 2, 'few': 1,
                                                               'gs': 64}))
    for kind in ('box', 'arnoldi'):
        out.append(sc('%s guard row without effect after the reset' % kind, 'f_agg', {
            'kind': kind, 'guard': 1, 'r': 'drop' if kind == 'box' else 'none', 'inp': 0, 'n': 2, 'few': 1,
            'G': [[1, 2], [0, 1] if kind == 'box' else [0, 0]]}))
    for v in ((7, 24), (24, -7), (32, 255), (128, 4095)):
        out.append(sc('direction %d %d' % v, 'f_agg', {'kind': 'arnoldi', 'guard': 0, 'r': 'none', 'inp': 0, 'n': 2, 'v': v}))
    out.append(sc('small directions', 'f_small'))
    out.append(sc('extra reset terms', 'f_agg', {'kind': 'box', 'guard': 1, 'r': 'shear', 'inp': 0, 'n': 2, 'm': 1, 'few': 1}))
    out.append(sc('initial sets', 'f_init', {'dim': 2}))
    out.append(sc('initial sets dimension 3', 'f_init', {'dim': 3}))
    out.append(sc('symbolic directions', 'f_symdir'))
    out.append(sc('box center', 'f_center'))
    return out


def check_tight(w, R, ps, d, label):
    'sup of d over R is at most the largest sup over the sets'
    val = {c: w.eng.fresh('wit') for r in R.rows for c in r.co}
    for c in R.vis:
        val.setdefault(c, w.eng.fresh('wit'))
    from symx import lpx
    t = mk(0)
    for c, k in zip(R.vis, d):
        t = t + mk(k) * val[c]
    reach = []
    for p in ps:
        q = Poly(p.rows + [row({c: -mk(k) for c, k in zip(p.vis, d)}, -(t - w.margin))], p.vis)
        reach.append(q.nonempty())
    w.check(cor(cnot(lpx.rows_cond(R.rows, val)), *reach), label, wit=[val[c] for c in R.vis])


def const(a):
    a = mk(a)
    return F(a.const())


def krylov(A, x):
    'orthogonal (not normalised) directions from the derivatives at a point'
    n = len(x)
    out, v = [], [sum(F(A[i][j]) * x[j] for j in range(n)) for i in range(n)]
    while len(out) < n:
        for o in out:
            k = sum(a * b for a, b in zip(o, v)) / sum(a * a for a in o)
            v = [a - k * b for a, b in zip(v, o)]
        if not any(v):   # two dimensions: the only direction left
            assert len(out) == 1 and n == 2
            v = [-out[0][1], out[0][0]]
        out.append(v)
        v = [sum(F(A[i][j]) * v[j] for j in range(n)) for i in range(n)]
    return out


def f_agg(w):
    c = w.cfg
    R = RES[c['r']]
    A0 = A2 if c['kind'] == 'box' else [[3, F(-9, 4)], [4, -3]]
    n1 = 2 if R is None else len(R)
    if c.get('v'):
        # nilpotent dynamics whose image is the line along v, so the directions are v and its normal
        v = c['v']
        A0 = [[F(a * b, 1024) for b in (v[1], -v[0])] for a in v]
    m1 = {'A': {1: A1, 2: A2, 3: A3}[n1]}
    if c['inp']:
        m1.update(B=[[0]] * (n1 - 1) + [[1]], U=[[1], [-1]], u=[w.real('uu', 0, 2), 1])
    t = dict(src=0, dst=1, R=R, G=[[1, 2], [-1, 0]], g=[F(5, 2) if c['kind'] == 'arnoldi' and (not c['guard'] or c['r'] not in ('none', 'swap')) else w.real('g', 0, 4), 3])
    if c.get('one') or c.get('v'):
        t['g'] = [1 << 15, 1 << 15]
    if c.get('gs'):
        t['G'], t['g'] = [[F(1, 64), F(2, 64)], [F(-1, 64), 0]], [mk(t['g'][0]) / 64, F(3, 64)]
    if c.get('G'):
        t['G'] = c['G']
    if c.get('m'):
        t.update(M=[[1], [1]], C=[[1], [-1]], d=[w.real('mm', 0, 2), 1])
    ha, ms, ts = make_ha(w, [{'A': [[float(x) for x in r] for r in A0]}, m1], [t])
    for m in ms:
        m.init_time_elapse(0.5)
    ast, agg = w.mod('aggstrat'), w.mod('aggregate')
    core = make_core(w, ha, 0.5, 20, agg=ast.Unaggregated())
    S = w.mod('stateset').StateSet
    lu = w.mod('lputil')
    E = mat_exp(A0, 0.5)
    states, ops, ps = [], [], []
    starts = [[3, 3], [1, 4], [2, 2], [0, 1], [2, 3], [5, 6], [4, 4]]
    big = 4096 if c.get('gs') or c.get('v') else 1
    for i in range(c['n']):
        if c.get('one'):             # one set sticks out, which one and where depends on the values
            b = [(i, i + 1), (i % 2, 2)]
            if i == c['n'] // 2:
                b = [(i, w.real('b%du' % i, i, 9)), (w.real('b%dl' % i, -3, 1), 1)]
        elif c.get('v'):
            b = [(w.real('b0l', -2, 0), 2), (0, 1)] if i == 0 else [(-i, w.real('b%du' % i, 0, 2)), (-1, 0)]
        elif c['kind'] == 'arnoldi':   # the directions are irrational, keep the sets simple
            b = [(w.real('b0l', -2, 0), 2), (0, F(1, 2))] if i == 0 else [(-i, w.real('b%du' % i, 0, 2)), (F(-1, 2), F(1, 4))]
        elif i == 0 or not c.get('few'):
            b = [(w.real('b%dl' % i, -2, 0), w.real('b%du' % i, 0, 2)), (0, F(1, 2))]
        else:
            b = [(-i, w.real('b%du' % i, 0, 2)), (F(-1, 2), F(1, 4))]
        b = [[mk(x) * big for x in r] for r in b] if big > 1 else b
        s = S(lu.from_box(b, ms[0]), ms[0], cur_steps_since_start=starts[i])
        core.aggdag.add_init_state(s)
        core.aggdag.pop_waiting_list()
        p = box(b)
        for _ in range(0 if c.get('one') else i):
            s.step()
            p = spec_step(p, E)
        p = constrain(p, t['G'], t['g'])
        tl = ts[0].get_guard_intersection(s.lpi)
        w.assume(p.nonempty())
        if tl is None:
            return
        op = core.aggdag.make_op_transition(ts[0], tl, s, core.aggdag.cur_node)
        op.premode_center = [1.0, 2.0]
        ops.append(op)
        states.append(op.poststate)
        ps.append(image(p, R if R is not None else eye(2),
                        extra=(t['M'], t['C'], t['d']) if c.get('m') else None))
    is_box = c['kind'] == 'box'
    res = agg.aggregate_box_arnoldi(states, ops, is_box, not is_box, bool(c['guard']), lambda *a: None)
    P = w.poly(res.lpi)
    w.check(res.mode is ms[1] and not res.is_concrete and res.cur_step_in_mode == 0, 'mode and exactness flag')
    w.check(list(res.cur_steps_since_start) == [min(s.cur_steps_since_start[0] for s in states),
                                                max(s.cur_steps_since_start[1] for s in states)], 'step interval')
    w.check(list(res.aggdag_op_list) == ops, 'merged operations')
    for i, p in enumerate(ps):
        w.check_subset(p, P, 'states of set %d missing' % i)
    dirs = [list(r) for r in eye(n1)]
    if c['guard']:
        for g in t['G']:
            d = matvec(R if R is not None else eye(2), g)
            if any(d):
                dirs.append(d)
    if not is_box:
        k = krylov(A0, [1, 2])
        if R is not None:
            k = [matvec(R, v) for v in k]
            o = []
            for v in k:   # re-orthogonalised, dependent ones dropped
                v = [const(a) for a in v]
                for q in o:
                    f = sum(a * b for a, b in zip(q, v)) / sum(a * a for a in q)
                    v = [a - f * b for a, b in zip(v, q)]
                if any(v):
                    o.append(v)
            k = o
        dirs += k
    for d in dirs:
        check_tight(w, P, ps, d, 'too large in direction %s' % [str(x) for x in d])
        check_tight(w, P, ps, [-x for x in d], 'too large in direction %s' % [str(-x) for x in d])
    for i, (s, p) in enumerate(zip(states, ps)):
        w.check_equal(w.poly(s.lpi), p, 'merged set %d afterwards' % i)
    res.step()
    V = input_mat(m1['A'], m1['B'], 0.5) if c['inp'] else None
    w.check_equal(w.poly(res.lpi), spec_step(P, mat_exp(m1['A'], 0.5), V, (m1.get('U'), m1.get('u'))),
                  'aggregated set after a step')


def f_init(w):
    n = w.cfg['dim']
    A = {2: A2, 3: A3}[n]
    ha, ms, _ = make_ha(w, [{'A': A}])
    lu, agg = w.mod('lputil'), w.mod('aggregate')
    S = w.mod('stateset').StateSet
    tri = [[-1] + [0] * (n - 1), [0, -1] + [0] * (n - 2), [1] * n] + ([[0, 0, -1]] if n == 3 else [])
    r = [w.real('t0', -2, 2), 0, w.real('t2', 2, 4)] + ([1] if n == 3 else [])
    b = [(w.real('bl', -2, 0), w.real('bu', 0, 2))] + [(0, 1)] * (n - 1)
    p0, p1 = from_ineq(tri, r), box(b)
    s0, s1 = S(lu.from_constraints(tri, r, ms[0]), ms[0]), S(lu.from_box(b, ms[0]), ms[0])
    res = agg.aggregate_box_arnoldi([s0, s1], [None, None], False, True, True, lambda *a: None)
    P = w.poly(res.lpi)
    for i, p in enumerate((p0, p1)):
        w.check_subset(p, P, 'states of set %d missing' % i)
    for d in eye(n):
        check_tight(w, P, [p0, p1], d, 'too large in direction %s' % d)
        check_tight(w, P, [p0, p1], [-x for x in d], 'too large in direction -%s' % d)
    w.check(list(res.cur_steps_since_start) == [0, 0] and not res.is_concrete, 'step interval')


def f_symdir(w):
    'the template primitive itself, for any directions'
    ha, ms, _ = make_ha(w, [{'A': A2}])
    lu = w.mod('lputil')
    ds = [[w.real('d0', -2, 2), 1], [1, w.real('d1', -2, 2)], [0, 0]]
    w.assume(cnot(cond_eq(mk(ds[0][0]) * ds[1][1] - 1)))
    bs = [[(0, 1), (0, 1)], [(2, w.real('bu', 2, 3)), (-1, 0)]]
    ps = [box(b) for b in bs]
    lpis = [lu.from_box(b, ms[0]) for b in bs]
    res = lu.aggregate(lpis, w.np.array(ds, dtype=float), ms[0])
    P = w.poly(res)
    for i, p in enumerate(ps):
        w.check_subset(p, P, 'states of set %d missing' % i)
    for d in ds[:2]:
        check_tight(w, P, ps, d, 'too large in a direction')
        check_tight(w, P, ps, [-mk(x) for x in d], 'too large in an opposite direction')


def f_small(w):
    'directions with small entries still count'
    ha, ms, _ = make_ha(w, [{'A': A2}])
    lu = w.mod('lputil')
    e, f = w.real('e', F(1, 2048), F(1, 4)), w.real('f', F(1, 2048), F(1, 4))
    ds = [[1, e], [f, -mk(e)], [0, 1]]
    bs = [[(0, 4096), (0, 4096)], [(8192, 8200), (-4096, 0)]]
    ps = [box(b) for b in bs]
    res = lu.aggregate([lu.from_box(b, ms[0]) for b in bs], w.np.array(ds, dtype=float), ms[0])
    P = w.poly(res)
    for i, p in enumerate(ps):
        w.check_subset(p, P, 'states of set %d missing' % i)
    for d in ds:
        check_tight(w, P, ps, d, 'too large in a direction')
        check_tight(w, P, ps, [-mk(x) for x in d], 'too large in an opposite direction')


def f_center(w):
    ha, ms, _ = make_ha(w, [{'A': A2}, {'A': A2}])
    lu = w.mod('lputil')
    s, lo = w.real('s', 0, 4), w.real('lo', -4, 0)
    lpi = lu.from_constraints([[-1, 0], [0, -1], [1, 1]], [-mk(lo) if w.is_sym else -lo, 0, s], ms[0])
    m0 = (mk(lo) + s) / 2
    c = lu.get_box_center(lpi)
    w.check(len(c) == 2, 'dimension')
    w.check_num(c[0], m0, 'center')
    w.check_num(c[1], (mk(s) - lo) / 2, 'center')
    lu.add_reset_variables(lpi, 1, 0, reset_csr=w.csr_matrix([[0, 1], [1, 0], [1, -1]]))
    c = lu.get_box_center(lpi)
    w.check(len(c) == 3, 'dimension after a reset')
    w.check_num(c[0], (mk(s) - lo) / 2, 'center after a reset')
    w.check_num(c[1], m0, 'center after a reset')
    # x - y over the triangle: from lo - (s - lo) to s
    w.check_num(c[2], mk(lo), 'center after a reset')
