'''C11 Conservative time models cover all times between two steps'''

from fractions import Fraction
import math

from .common import *
from .c08 import Spec

BOUNDS = {'quick': 'dimension 1..3 (two families with 8), nilpotent, rotating, growing and decaying dynamics, boxes and triangles with one symbolic '
                   'limit, points, sets reached over a transition; inputs with symbolic bounds and one free switching instant per '
                   'step; every instant of the first three steps for nilpotent dynamics (8 instants per step otherwise); '
                   'invariants and guards for 3 rounds after the model was applied',
          'thorough': 'one more step and round'}
OUTSIDE = ('instants between the sampled ones for non-nilpotent dynamics, inputs that switch more than once per step, larger '
           'dimensions')

A1, A2, A3 = [[0]], [[0, 1], [0, 0]], [[0, 1, 0], [0, 0, 1], [0, 0, 0]]
NIL = {
    'one': dict(A=A1, B=[[1]]),
    'two': dict(A=A2, B=[[0], [1]]),
    'wide': dict(A=[[0, 3], [0, 0]], B=[[0], [1]]),
    'strong': dict(A=A2, B=[[0], [8]]),
    'both': dict(A=A2, B=[[1, 0], [0, 2]]),
    'three': dict(A=A3, B=[[0], [0], [1]]),
    'fan': dict(A=[[0, 1, 1], [0, 0, 0], [0, 0, 0]], B=[[0, 0], [1, 0], [0, 1]]),
    'pairs': dict(A=[[0, 0, 1, 0], [0, 0, 0, 1], [0] * 4, [0] * 4], B=[[0, 0], [0, 0], [1, 0], [0, 1]]),
    'fork': dict(A=[[0, 0, 0], [-2, 0, 0], [1, 1, 0]], B=[[1], [0], [0]]),
}
N = 8
NIL['comb'] = dict(A=[[0, 1] + [0] * (N - 2), [0, 0] + [1] * (N - 2)] + [[0] * N for _ in range(N - 2)])     # long rows, short columns
NIL['rake'] = dict(A=[[0] * N] + [[1] + [0] * (N - 1)] + [[0, 1] + [0] * (N - 2) for _ in range(N - 2)])      # short rows, long columns
GEN = {
    'rotation': [[0, -2], [2, 0]],
    'decay': [[-1, 0], [1, -2]],
    'growth': [[1]],
    'saddle': [[1, 1], [0, -1]],
}


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for d in NIL:
        if d in ('fan', 'pairs', 'comb', 'rake', 'strong'):
            continue
        n = len(NIL[d]['A'])
        for inp in (0, 1):
            if inp and d in ('both', 'fork') and q:
                continue
            out.append(sc('hull model %s inputs %d' % (d, inp), 'f_chull', {'d': d, 'inp': inp, 's': 'box', 'k': 2,
                                                                            'sym': '' if inp and n > 2 else 'ux' if inp and not q else 'x'}))
    out.append(sc('hull model triangle', 'f_chull', {'d': 'two', 'inp': 0, 's': 'tri', 'k': 3}))
    out.append(sc('hull model point', 'f_chull', {'d': 'two', 'inp': 1, 's': 'point', 'k': 2}))
    for inp in (0, 1):
        out.append(sc('hull model after a transition inputs %d' % inp, 'f_chull', {'d': 'two', 'inp': inp, 's': 'trans', 'k': 2}))
    for d in ('fan', 'pairs'):
        for big in (1, 128):
            out.append(sc('support model %s inputs up to %s' % (d, big), 'f_lgg',
                          {'d': d, 'inp': 1, 's': 'origin', 'h': 0.25, 'k': 1, 'sym': 'u', 'big': big}, query_ms=4000 if q else 20000))
    for d in ('three', 'fork'):
        out.append(sc('support model %s far down' % d, 'f_lgg', {'d': d, 'inp': 0, 's': 'deep', 'h': 0.5, 'k': 2, 'sym': 'x'}))
    for d in ('rotation', 'saddle', 'decay'):
        out.append(sc('support model %s far down' % d, 'f_gen', {'d': d, 's': 'deep', 'h': 0.25, 'sym': ''}))
    for d in NIL:
        if d in ('fan', 'pairs', 'comb', 'rake', 'strong'):
            continue
        n = len(NIL[d]['A'])
        for inp in (0, 1):
            for s in ('box', 'point', 'trans'):
                if s == 'trans' and len(NIL[d]['A']) != 2:
                    continue
                out.append(sc('support model %s inputs %d start %s' % (d, inp, s), 'f_lgg',
                              {'d': d, 'inp': inp, 's': s, 'h': 0.5 if d != 'three' else 0.25, 'k': 2 if q else 3,
                               'sym': ('' if s == 'trans' else 'x') if not inp else ('u' if n < 3 else '')},
                              query_ms=4000 if q else 20000))
    for d, start in (('strong', 'origin'), ('strong', 'point'), ('both', 'origin')):
        out.append(sc('support model %s start %s' % (d, start), 'f_lgg', {'d': d, 'inp': 1, 's': start, 'h': 0.25, 'k': 2, 'sym': 'u'}))
    for d in ('two', 'strong'):
        out.append(sc('support model %s, short steps' % d, 'f_lgg', {'d': d, 'inp': 1, 's': 'origin', 'h': 1 / 128, 'k': 5 if q else 6,
                                                                    'sym': '', 'big': 16}))
    for d in ('comb', 'rake'):
        out.append(sc('support model %s, eight dimensions' % d, 'f_lgg', {'d': d, 'inp': 0, 's': 'ones', 'h': 0.25, 'k': 1 if q else 2, 'sym': 'x',
                                                                         'view': [0, 1] if d == 'comb' else [1, 2]}))
    for d in GEN:
        for s in ('box', 'point', 'trans'):
            if s == 'trans' and d not in ('rotation', 'saddle'):
                continue
            for h in ((0.25, 1.0) if s != 'trans' or not q else (0.25,)):
                out.append(sc('support model %s start %s step %s' % (d, s, h), 'f_gen', {'d': d, 's': s, 'h': h,
                                                                                          'sym': '' if s != 'point' and q else 'x'}))
    for model in ('chull', 'lgg'):
        for inp in (0, 1):
            for two in (0, 1):
                for r in (None, 0.5, -0.25, 1.0):
                    if inp and two and (r is not None or model == 'lgg'):
                        continue
                    out.append(sc('%s then pruning inputs %d rows %d limit %s' % (model, inp, two + 1, r), 'f_prune',
                                  {'m': model, 'inp': inp, 'n': (2 if inp else 3) + (0 if q or two else 1), 'r': r, 'two': two}))
        for u in (0, 1):
            out.append(sc('%s in a full analysis, urgent %d' % (model, u), 'f_core', {'m': model, 'urgent': u}))
    return out


def begin(w, d, inp, start, h=0.5, inv=None, inv_rhs=None, sym='x', big=1):
    'state set in a mode with the dynamics d, its exact set, mode data; sym: what is symbolic (x start, u inputs)'
    def symx(name, lo, hi, v):
        return w.real(name, lo, hi) if 'x' in sym else v
    A = d['A']
    n = len(A)
    md = {'A': [[float(x) for x in r] for r in A], 'inv': inv, 'inv_rhs': inv_rhs}
    if inp:
        k = len(d['B'][0])
        U = [[int(i == j) for j in range(k)] for i in range(k)] + [[-int(i == j) for j in range(k)] for i in range(k)]
        md.update(B=d['B'], U=U, u=[w.real('uu', F(big, 2), 2 * big) if 'u' in sym else F(3, 2)] + [big] * (2 * k - 1))
    if inv is None:
        del md['inv'], md['inv_rhs']
    modes = [md]
    R = [[0, 3], [2, 0]]
    trans = []
    if start == 'trans':
        modes.append({'A': A2})
        trans.append(dict(src=1, dst=0, R=R))
    ha, ms, ts = make_ha(w, modes, trans)
    for m in ms:
        m.init_time_elapse(h)
    lu, S = w.mod('lputil'), w.mod('stateset').StateSet
    if start == 'tri':
        m = [[-1, 0], [0, -1], [1, 1]]
        r = [0, 0, symx('t', 0, 4, 3)]
        return S(lu.from_constraints(m, r, ms[0]), ms[0]), from_ineq(m, r), md, ms, ha
    if start == 'point':
        v = ([0] * (n - 1) + [symx('p', -2, 2, 1)])
        b = [(x, x) for x in v]
    elif start == 'trans':
        b = [(symx('b', -2, 0, -1), F(1, 4)), (F(1, 2), F(1, 2))]
        s = S(lu.from_box(b, ms[1]), ms[1], cur_steps_since_start=[2, 3])
        tl = ts[0].get_guard_intersection(s.lpi)
        core = make_core(w, ha, h, 10)
        s = core.aggdag.make_op_transition(ts[0], tl, s, None).poststate
        return s, image(box(b), R), md, ms, ha
    elif start == 'origin':
        b = [(0, 0)] * n
    elif start == 'ones':
        b = [(1, 1) if any(r[i] for r in A) and not any(A[i]) else (0, 0) for i in range(n)]
        j = max(i for i in range(n) if b[i] == (1, 1))
        b[j] = (symx('b', F(7, 8), 1, 1),) * 2
    elif start == 'deep':
        b = [(symx('b', F(-1, 4), 0, 0), F(1, 4))] + [(0, F(1, 4))] * (n - 2) + [(-32, F(1, 8))]
    else:
        b = [(symx('b', -2, 1, F(1, 2)), 1)] + [(-1, F(1, 2))] * (n - 1)
    return S(lu.from_box(b, ms[0]), ms[0]), box(b), md, ms, ha


def f_chull(w):
    c = w.cfg
    d = NIL[c['d']]
    st = w.mod('settings').HylaaSettings
    s, p, md, ms, ha = begin(w, d, c['inp'], c['s'], sym=c.get('sym', 'x'))
    E = mat_exp(d['A'], 0.5)
    V = input_mat(d['A'], d['B'], 0.5) if c['inp'] else None
    ub = (md.get('U'), md.get('u'))
    s.apply_approx_model(st.APPROX_CHULL)
    h = hull2(p, spec_step(p, E, V, ub))
    w.check_equal(w.poly(s.lpi), h, 'hull of the set and its successor')
    for k in range(c['k']):
        s.step()
        h = spec_step(h, E, V, ub)
        w.check_equal(w.poly(s.lpi), h, 'hull after %d steps' % (k + 1))


def poly_exp(A, t):
    'e^{A t} for nilpotent A and symbolic t'
    n = len(A)
    acc = [[mk(int(i == j)) for j in range(n)] for i in range(n)]
    p = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    f, tk = F(1), mk(1)
    for q in range(1, n):
        p = [[sum(p[i][m] * F(A[m][j]) for m in range(n)) for j in range(n)] for i in range(n)]
        f, tk = f / q, tk * t
        for i in range(n):
            for j in range(n):
                if p[i][j]:
                    acc[i][j] = acc[i][j] + tk * (p[i][j] * f)
    return acc


def poly_int(A, B, t):
    'integral of e^{A s} B over [0, t]'
    n, m = len(A), len(B[0])
    acc = [[mk(0)] * m for _ in range(n)]
    p = [[F(x) for x in r] for r in B]
    f, tk = F(1), mk(t)
    for q in range(1, n + 1):
        for i in range(n):
            for j in range(m):
                if p[i][j]:
                    acc[i][j] = acc[i][j] + tk * (p[i][j] * f)
        p = [[sum(F(A[i][k]) * p[k][j] for k in range(n)) for j in range(m)] for i in range(n)]
        f, tk = f / (q + 1), tk * t
    return acc


EPS = F(1, 1 << 20)


def member(w, p):
    'an arbitrary point of p and the condition it satisfies'
    from symx import lpx
    cols = {}
    for r in p.rows:
        for c in r.co:
            cols.setdefault(c, w.eng.fresh('pt'))
    for c in p.vis:
        cols.setdefault(c, w.eng.fresh('pt'))
    return [cols[c] for c in p.vis], lpx.rows_cond(p.rows, cols)


def check_in(w, prem, P, x, label, wit):
    from symx import lpx
    val = dict(zip(P.vis, x))
    for r in P.proj():
        w.check(cor(cnot(prem), lpx.rows_cond([r], val, EPS)), label, wit=wit)


def f_lgg(w):
    c = w.cfg
    d = NIL[c['d']]
    A = d['A']
    n = len(A)
    h = F(c['h'])
    st = w.mod('settings').HylaaSettings
    s, p, md, ms, ha = begin(w, d, c['inp'], c['s'], c['h'], sym=c['sym'], big=c.get('big', 1))
    s.apply_approx_model(st.APPROX_LGG)
    pt, prem = member(w, p)
    k = len(d['B'][0]) if c['inp'] else 0
    U = Poly(*(lambda q: (q.rows, q.vis))(from_ineq(md['U'], md['u']))) if k else None
    for step in range(c['k']):
        if step:
            s.step()
        P = w.poly(s.lpi)
        if c.get('view'):
            P = Poly(P.rows, [P.vis[i] for i in c['view']])
        t = w.eng.fresh('t')
        conds = [cond_le(-t), cond_le(t - h)]
        x = matvec(poly_exp(A, t), pt)
        x = [x[i] for i in c['view']] if c.get('view') else x
        wit = list(pt) + [t]
        if k:
            u1, c1 = member(w, U)
            conds.append(c1)
            x = [a + b for a, b in zip(x, matvec(poly_int(A, d['B'], t), u1))]
            wit += u1
        check_in(w, cand(prem, *conds), P, x, 'state missing during step %d' % (step + 1), wit)
        if k and step == 0:
            # switching once
            r = h / 4
            for sw in (h / 4, h / 2):
                u2, c2 = member(w, U)
                y = matvec(mat_exp(A, sw), pt)
                y = [a + b for a, b in zip(y, matvec(input_mat(A, d['B'], sw), u1))]
                y = matvec(mat_exp(A, r), y)
                y = [a + b for a, b in zip(y, matvec(input_mat(A, d['B'], r), u2))]
                check_in(w, cand(prem, c1, c2), P, y, 'state missing with a switched input', wit + u2)
        # exact state at the end of the step, with inputs held for a step at a time
        x = matvec(mat_exp(A, h), pt)
        if k:
            u, cu = member(w, U)
            prem = cand(prem, cu)
            x = [a + b for a, b in zip(x, matvec(input_mat(A, d['B'], h), u))]
        pt = x


def expm_f(A, t):
    'e^{At} as rationals close to the true values'
    n = len(A)
    acc = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    p = [r[:] for r in acc]
    for q in range(1, 40):
        p = [[sum(p[i][m] * F(A[m][j]) for m in range(n)) * t / q for j in range(n)] for i in range(n)]
        for i in range(n):
            for j in range(n):
                acc[i][j] += p[i][j]
    return [[F(round(x * (1 << 40)), 1 << 40) for x in r] for r in acc]


def f_gen(w):
    c = w.cfg
    A = GEN[c['d']]
    n = len(A)
    h = F(c['h'])
    st = w.mod('settings').HylaaSettings
    s, p, md, ms, ha = begin(w, {'A': A}, 0, c['s'], c['h'], sym=c['sym'])
    s.apply_approx_model(st.APPROX_LGG)
    for step in range(3):
        if step:
            s.step()
        P = w.poly(s.lpi)
        for i in range(9) if c['s'] != 'trans' else (1, 2, 5, 8):
            t = h * step + h * i / 8
            w.check_subset(image(p, expm_f(A, t)), P, 'state missing at %s' % t, margin=EPS)


def f_prune(w):
    'pruning and guards on the enlarged set'
    c = w.cfg
    d = NIL['two']
    st = w.mod('settings').HylaaSettings
    mat = [[1, 0]] + ([[1, 1]] if c.get('two') else [])
    rhs = [w.real('r', F(9, 8), 4) if c['r'] is None else F(c['r'])] + ([w.real('r2', F(17, 8), 4) if c['r'] is None else F(5, 4)] if c.get('two') else [])
    A = d['A']
    md = {'A': A, 'inv': mat, 'inv_rhs': rhs}
    if c['inp']:
        md.update(B=d['B'], U=[[1], [-1]], u=[F(3, 2), 1])
    ha, ms, ts = make_ha(w, [md, {'A': A1}], [dict(src=0, dst=1, G=[[-1, -1]], g=[-2], R=[[1, 0]])])
    core = make_core(w, ha, 0.5, 10)
    core.settings.approx_model = st.APPROX_CHULL if c['m'] == 'chull' else st.APPROX_LGG
    for m in ms:
        m.init_time_elapse(0.5)
    b = [(-1, 1), (F(-1, 2), 1)]
    S, lu = w.mod('stateset').StateSet, w.mod('lputil')
    s = S(lu.from_box(b, ms[0]), ms[0])
    core.aggdag.add_init_state(s)
    core.result = w.mod('result').HylaaResult()
    # the same without any pruning, to have the enlarged set
    core.do_step_pop()
    s = core.aggdag.get_cur_state()
    if s is None:
        w.check(constrain(box(b), mat, [mk(r) - w.margin for r in rhs]).empty(), 'dropped at the start')
        return
    q = Spec(w, box(b), mat, rhs)
    if c['r'] is not None:
        q.cut()
    E = mat_exp(A, 0.5)
    V = input_mat(A, d['B'], 0.5) if c['inp'] else None
    ub = (md.get('U'), md.get('u'))
    if c['m'] == 'chull':
        q.each(lambda a: hull2(a, spec_step(a, E, V, ub)))
        q.check(s.lpi, 'enlarged set')
        extra = (V, ub)
    else:
        # the enlarged set is what the model made of it: containment of every instant is checked by the other scenarios
        p = w.poly(s.lpi)
        q.sets = [p, p]
        extra = (None, None)
        if c['inp']:
            a = s.lgg_beta
            V = [[0, 1, 0], [F(1, 2), 0, 1]]
            extra = (V, ([[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]], list(ub[1]) + [a] * 4))
    for k in range(c['n']):
        if not q.prune(core, s, 'round %d' % k):
            return
        s.step()
        q.each(lambda a: spec_step(a, E, *extra))
        tl = ts[0].get_guard_intersection(s.lpi)
        g = [constrain(a, [[-1, -1]], [F(-2) + m]) for a, m in zip(q.sets, (w.margin, -w.margin))]
        if tl is None:
            w.check(g[1].empty(), 'guard missed in round %d' % k)
        else:
            p = w.poly(tl)
            w.check_subset(p, g[0], 'guard in round %d (extra states)' % k)
            w.check_subset(g[1], p, 'guard in round %d (missing states)' % k)
    q.check(s.lpi, 'states after the last step')


def f_core(w):
    'an error reached between two steps is reported by the whole analysis'
    c = w.cfg
    st = w.mod('settings').HylaaSettings
    # x grows by 1 per step and crosses the strip [lo, lo + 1/4] during a step
    lo = w.real('lo', 0, F(7, 2)) if c['urgent'] else w.real('lo', F(9, 8), F(7, 2))
    up = mk(lo) + F(1, 4) if w.is_sym else lo + 0.25
    dn = -mk(lo) if w.is_sym else -lo
    ha, ms, ts = make_ha(w, [{'A': A2}, {'name': 'error'}], [dict(src=0, dst=1, G=[[1, 0], [-1, 0]], g=[up, dn])])
    core = make_core(w, ha, 0.5, 3)
    core.settings.approx_model = st.APPROX_CHULL if c['m'] == 'chull' else st.APPROX_LGG
    core.settings.process_urgent_guards = bool(c['urgent'])
    core.settings.make_counterexample = False
    S, lu = w.mod('stateset').StateSet, w.mod('lputil')
    s = S(lu.from_box([(0, F(1, 8)), (2, 2)], ms[0]), ms[0])
    res = core.run([s])
    w.check(bool(res.has_concrete_error or res.has_aggregated_error), 'error between two steps missed')
