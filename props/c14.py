'''C14 A reported counterexample is a real execution of the model'''

from .common import *
from . import c12

BOUNDS = {'quick': 'automata with up to 4 modes and 4 transitions (also time-triggered ones) in 1 to 3 dimensions with nilpotent dynamics, symbolic initial '
                   'boxes and guard, invariant, input or reset limits, up to 5 steps in all; the counterexample point is an '
                   'arbitrary point of the final linear program (every point the solver could return)',
          'thorough': '2 more steps'}
OUTSIDE = 'more steps; dynamics that are not nilpotent; the integration error of odeint (modelled as exact)'


def scenarios(tier):
    x = 1 if tier == 'quick' else 3
    out = []

    def add(name, n, fn='f_ce', **k):
        k['n'] = n + x
        out.append(sc(name, fn, k))
    for m, n in (('drift', 2), ('chain', 3), ('ways', 3), ('loop', 3), ('dims', 3), ('mink', 2), ('inv', 3), ('box', 3),
                 ('inp', 2), ('inpinv', 2), ('stillinp', 3), ('inp2', 2), ('inits', 2), ('twoerr', 2), ('clocks', 3)):
        add('execution: ' + m, n, model=m)
    add('execution: loop with urgent guards', 2, model='loopu', urgent=1)
    add('execution: urgent', 2, model='chain', urgent=1)
    add('execution: time-triggered shortcut on', 3, model='clocks', tt=1)
    for k in (0, 1):
        add('execution: time-triggered error, rows %d' % (2 - k), 2, model='ttend', tt=1, bare=k)
    add('execution: no guard strengthening', 3, model='chain', nostrength=1)
    add('execution: two inputs', 2, model='inp3')
    add('execution: two inputs and invariant', 2, model='inp3', inv=1)
    add('execution: inputs in both modes', 2, model='inpboth')
    add('execution: inputs in both modes, second with invariant', 2, model='inpboth', inv=1)
    add('execution: twelve dimensions', 1, model='many')
    add('execution: twelve modes, transitions and inputs', 1, model='wide')
    add('execution: ten steps with inputs', 9, model='long')
    add('execution: ten steps with inputs and invariant', 9, model='long', inv=1)
    add('execution: six modes in a row', 6, model='row')
    add('execution: unsorted matrices', 2, model='dims', raw=1)
    add('execution: extra terms twice', 2, model='mink2')
    add('execution: same target twice', 3, model='par')
    add('execution: all errors, do not stop', 2, model='ways', nostop=1)
    add('initial set from a zonotope', 2, model='drift', init='zono')
    add('initial set from constraints', 2, model='drift', init='cons')
    add('initial set from inputs', 2, model='drift', init='inputs')
    add('aggregation and deaggregation', 3, model='agg')
    add('aggregation and deaggregation, two chains', 3, model='agg2')
    for m, n in (('drift', 2), ('chain', 2), ('ways', 2), ('loop', 2), ('inv', 2), ('dims', 2)):
        add('replay: ' + m, n, 'f_ce', model=m, replay=1)
    add('replay: urgent', 2, model='chain', urgent=1, replay=1)
    add('replay refuses a wrong execution', 2, 'f_replay_bad', model='chain')
    add('conservative time models do not crash', 2, 'f_approx', model='drift')
    add('switched off', 2, 'f_off', model='drift')
    return out


D = [[0, 1], [0, 0]]


def model(w, name):
    r = w.real
    if name == 'inp3':
        m = {'A': D, 'B': [[1, 0], [0, 1]], 'U': [[1, 0], [-1, 0], [0, 1], [0, -1]], 'u': [r('u', 0, 1), 1, 1, r('v', -1, 1)]}
        if w.cfg.get('inv'):
            m.update(inv=[[0, 1]], inv_rhs=[r('i', 0, 2)])
        return [m, {}], [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 4))])], [(0, [[-1, 0], [0, 1]])]
    if name == 'inpboth':
        m = {'A': D, 'B': [[0], [1]], 'U': [[1], [-1]], 'u': [r('u', 0, 1), 1]}
        k = {'A': [[0, 0], [0, 0]], 'B': [[1], [1]], 'U': [[1], [-1]], 'u': [1, 1]}
        if w.cfg.get('inv'):
            k.update(inv=[[0, 1]], inv_rhs=[r('i', 0, 2)])
        return ([m, k, {}], [dict(src=0, dst=1, G=[[0, -1]], g=[-mk(r('g', -1, 2))]),
                             dict(src=1, dst=2, G=[[-1, 0]], g=[-mk(r('k', -1, 3))])], [(0, [[-1, 0], [0, 1]])])
    if name == 'ttend':
        # the error transition is time-triggered
        K = r('K', F(1, 4), 2)
        w.assume(cor(cond_le(mk(K) - 1), cond_le(F(33, 32) - mk(K))))
        c3 = [[0, 0, 1], [0, 0, 1], [0, 0, 0]]
        m = {'A': c3, 'inv': [[1, 0, 0]], 'inv_rhs': [K]}
        err = dict(src=0, dst=1, G=[[-1, 0, 0]] + ([] if w.cfg.get('bare') else [[0, -1, 0]]), g=[-mk(K)] + ([] if w.cfg.get('bare') else [-mk(r('g', 0, 3))]))
        return [m, {}], [err], [(0, [[0, 0], [r('x', -1, 1), 1], [1, 1]])]
    if name == 'many':
        n = 12
        A = [[1 if j == i + 1 and i in (0, 9, 10) else 0 for j in range(n)] for i in range(n)]
        return ([{'A': A}, {'A': A}, {}], [dict(src=0, dst=1, G=[[-1] + [0] * 11], g=[-mk(r('g', 0, 3))]),
                                         dict(src=1, dst=2, G=[[0] * 11 + [-1]], g=[-mk(r('k', 0, 3))])],
                [(0, [[0, 1], [1, 1]] + [[i, i] for i in range(2, 11)] + [[1, 2]])])
    if name == 'wide':
        # only the last of the transitions can be taken, its target is the last of the modes and has twelve inputs
        k = 12
        m = {'A': [[0]], 'B': [[1] * k], 'U': eye(k) + [[-x for x in q] for q in eye(k)],
             'u': [F(1 + i, 8) for i in range(k)] + [0] * (k - 1) + [r('u', 0, 1)]}
        ms = [{'A': [[0]], 'B': [[1]], 'U': [[1], [-1]], 'u': [1, 0]}] + [{'A': [[0]]} for _ in range(10)] + [m, {}]
        return (ms, [dict(src=0, dst=1 + i, G=[[-1]], g=[-50 - i]) for i in range(10)] +
                [dict(src=0, dst=11, G=[[-1]], g=[-50]), dict(src=0, dst=11, G=[[-1]], g=[-mk(r('g', 0, 2))]),
                 dict(src=11, dst=12, G=[[-1]], g=[-mk(r('k', 2, 12))])], [(0, [[0, F(1, 2)]])])
    if name == 'long':
        m = {'A': [[0]], 'B': [[1]], 'U': [[1], [-1]], 'u': [1, r('u', -1, 1)]}
        if w.cfg.get('inv'):
            m.update(inv=[[1]], inv_rhs=[9])
        return [m, {}], [dict(src=0, dst=1, G=[[-1]], g=[-mk(r('g', 7, 10))])], [(0, [[0, F(1, 4)]])]
    if name == 'row':
        return ([{'A': D} for _ in range(6)] + [{}],
                [dict(src=i, dst=i + 1, G=[[-1, 0], [1, 0]], g=[-(i + F(1, 2)), i + F(3, 2)]) for i in range(5)] +
                [dict(src=5, dst=6, G=[[-1, 0]], g=[-mk(r('g', 5, 9))])], [(0, [[r('x', 0, F(1, 4)), F(1, 4)], [1, 1]])])
    if name == 'mink2':
        return ([{'A': D}, {'A': D}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 2))], R=[[1, 0], [0, 0]], M=[[1, 0], [1, 1]],
                      C=[[1, 0], [-1, 0], [0, 1], [0, -1]], d=[1, 1, r('d', 0, 1), 0]),
                 dict(src=1, dst=2, G=[[-1, 0]], g=[-mk(r('k', -1, 3))], R=[[1, 0], [0, 1]], M=[[1], [0]], C=[[1], [-1]], d=[1, 0])],
                [(0, [[-1, 1], [1, 1]])])
    if name == 'par':
        # two transitions between the same modes with different resets
        return ([{'A': D}, {'A': [[0, -1], [0, 0]]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', 0, 4))]), dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('f', 0, 4))],
                                                                           R=[[2, 0], [0, 1]]),
                 dict(src=1, dst=2, G=[[1, 0]], g=[r('k', -3, 3)])],
                [(0, [[-1, 1], [1, 1]])])
    if name == 'agg':
        return ([{'A': D}, {'A': [[0, 1], [0, 0]]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', 0, 3))], R=[[0, 0], [0, 1]]),
                 dict(src=1, dst=2, G=[[-1, -1]], g=[-mk(r('k', 1, 4))])],
                [(0, [[-1, 1], [1, 1]])])
    if name == 'agg2':
        return ([{'A': D}, {'A': [[0, 1], [0, 0]]}, {'A': [[0, 0], [0, 0]]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', 0, 2))]), dict(src=1, dst=2, G=[[-1, 0]], g=[-2], R=[[1, 1], [0, 1]]),
                 dict(src=2, dst=3, G=[[-1, 0]], g=[-mk(r('k', 3, 6))])],
                [(0, [[-1, 1], [1, 1]])])
    return c12.model(w, name)


def init_set(w, kind, mode, w0):
    'the same box built in another way'
    lu = w.mod('lputil')
    (a, b), (c, d) = w0
    if kind == 'zono':
        mx, rx = (mk(a) + b) * F(1, 2), (mk(b) - a) * F(1, 2)
        if not w.is_sym:
            mx, rx = float(mx.const()), float(rx.const())
        return lu.from_zonotope([mx, (c + d) / 2], [[rx, 0], [0, (d - c) / 2]], mode)
    if kind == 'cons':
        return lu.from_constraints([[1, 0], [-1, 0], [0, 1], [0, -1]], [b, -a, d, -c], mode)
    return lu.from_input_constraints([[1, 0], [0, 1]], [[1, 0], [-1, 0], [0, 1], [0, -1]], [b, -a, d, -c], mode)


def run(w, n, **kw):
    c = w.cfg
    h = F(1, 2) if c['model'] in ('inp2',) else 1
    modes, trans, inits = model(w, c['model'])
    for m in modes:
        if m.get('inv') is not None:
            w.assume(from_ineq(m['inv'], m['inv_rhs']).nonempty())
        if m.get('B') is not None:
            w.assume(from_ineq(m['U'], m['u']).nonempty())
    for t in trans:
        if t.get('C') is not None:
            w.assume(from_ineq(t['C'], t['d']).nonempty())
    ha, ms, ts = make_ha(w, modes, trans)
    st = dict(optimize_tt_transitions=bool(c.get('tt')), process_urgent_guards=bool(c.get('urgent')))
    if c.get('nostrength'):
        st['do_guard_strengthening'] = False
    if c.get('nostop'):
        st['stop_on_concrete_error'] = False
    agg = None
    if c['model'].startswith('agg'):
        ag = w.mod('aggstrat')
        agg = ag.Aggregated(ag.Aggregated.POP_LOWEST_MINTIME, ag.Aggregated.AGG_BOX)
        agg.deaggregate = True
        st['stop_on_aggregated_error'] = False
    st.update(kw)
    core = make_core(w, ha, float(h), n, agg, **st)
    S = w.mod('stateset').StateSet
    lu = w.mod('lputil')
    if c.get('init'):
        (i, b), = inits
        sets = [S(init_set(w, c['init'], ms[i], b), ms[i])]
    else:
        sets = [S(lu.from_box(b, ms[i]), ms[i]) for i, b in inits]
    try:
        res = core.run(sets)
    except RuntimeError as e:
        if 'No feasible initial' not in str(e):
            raise
        return None
    return core, res, ha, ms, ts, modes, trans, inits, h


def le(a, b, eps):
    return cond_le(mk(a) - mk(b) - eps)


def near(xs, ys, eps):
    cs = []
    for x, y in zip(xs, ys):
        cs += [le(x, y, eps), le(y, x, eps)]
    return cand(cs)


def sat(mat, rhs, x, eps):
    return cand([le(v, b, eps) for v, b in zip(matvec(mat, x), rhs)])


def scal(v):
    return list(v) if hasattr(v, '__len__') else [v]


def check_ce(w, ce, ms, ts, modes, trans, inits, h, n):
    eps = w.margin / 4
    w.check(len(ce) > 0, 'error reported without a counterexample')
    total = 0
    prev = None
    for k, seg in enumerate(ce):
        w.check(any(seg.mode is m for m in ms), 'segment in an unknown mode')
        i = [j for j, m in enumerate(ms) if m is seg.mode][0]
        m = modes[i]
        w.check(m.get('A') is not None, 'segment inside an error mode')
        d = len(m['A'])
        x, end = scal(seg.start), scal(seg.end)
        w.check(len(x) == d, 'start point has %d entries in a mode with %d dimensions' % (len(x), d))
        w.check(len(end) == d, 'end point has %d entries in a mode with %d dimensions' % (len(end), d))
        if prev is None:
            w.check(cor(*[sat(*box_mat(b), x, eps) for j, b in inits if j == i]) if any(j == i for j, b in inits) else False,
                    'counterexample does not start in an initial set')
        else:
            w.check(near(x, prev, eps), 'segment does not start at the reset of the end of the previous one')
        steps = seg.steps
        w.check(steps >= (0 if w.cfg.get('urgent') else 1) and steps == int(steps), 'number of steps in a segment')
        total += steps
        inp = [scal(u) for u in seg.inputs]
        V = None
        if m.get('B') is not None:
            V = input_mat(m['A'], m['B'], h)
            w.check(len(inp) == steps, 'one input vector per step')
            w.check(all(len(u) == len(m['B'][0]) for u in inp), 'inputs have the width of the input matrix')
            w.check(cand([sat(m['U'], m['u'], u, eps) for u in inp]), 'input outside of its constraints')
        else:
            w.check(not inp, 'inputs in a mode without inputs')
        E = mat_exp(m['A'], h)
        cs = []
        for s in range(steps):
            if m.get('inv') is not None:
                cs.append(sat(m['inv'], m['inv_rhs'], x, eps * (s + 1)))
            x = matvec(E, x)
            if V is not None:
                x = [a + b for a, b in zip(x, matvec(V, inp[s]))]
        if cs:
            w.check(cand(cs), 'invariant violated before a step')
        w.check(near(x, end, eps * (steps + 1)), 'segment does not follow the dynamics')
        w.check(seg.outgoing_transition is not None and any(seg.outgoing_transition is t for t in ts), 'outgoing transition')
        j = [q for q, t in enumerate(ts) if t is seg.outgoing_transition][0]
        t = trans[j]
        w.check(t['src'] == i, 'outgoing transition belongs to another mode')
        if t.get('G') is not None:
            w.check(sat(t['G'], t['g'], end, eps), 'guard of the outgoing transition does not hold')
        if k + 1 < len(ce):
            w.check(ms[t['dst']] is ce[k + 1].mode, 'next segment is in another mode than the transition')
            prev = matvec(t['R'], end) if t.get('R') is not None else end
            y = scal(seg.reset_minkowski_vars)
            if t.get('M') is not None:
                w.check(len(y) == len(t['M'][0]), 'number of extra reset variables')
                w.check(sat(t['C'], t['d'], y, eps), 'extra reset variables outside of their constraints')
                prev = [a + b for a, b in zip(prev, matvec(t['M'], y))]
            else:
                w.check(not y, 'extra reset variables without extra reset terms')
            tm = modes[t['dst']]
            if tm.get('inv') is not None and ce[k + 1].steps == 0:
                w.check(sat(tm['inv'], tm['inv_rhs'], scal(ce[k + 1].start), eps), 'invariant violated on arrival')
        else:
            w.check(modes[t['dst']].get('A') is None, 'counterexample does not end in an error mode')
    w.check(total <= n, 'counterexample longer than the step bound')


def box_mat(b):
    n = len(b)
    mat, rhs = [], []
    for i, (lo, hi) in enumerate(b):
        mat += [[1 if j == i else 0 for j in range(n)], [-1 if j == i else 0 for j in range(n)]]
        rhs += [hi, -mk(lo)]
    return mat, rhs


def f_ce(w):
    out = run(w, w.cfg['n'])
    if out is None:
        return
    core, res, ha, ms, ts, modes, trans, inits, h = out
    if not res.has_concrete_error:
        w.check(not res.counterexample, 'counterexample without a concrete error')
        return
    check_ce(w, res.counterexample, ms, ts, modes, trans, inits, h, w.cfg['n'])
    if w.cfg.get('replay'):
        pts, times = w.mod('result').replay_counterexample(res.counterexample, ha, core.settings)
        w.check(len(pts) == len(times), 'replay returns one time per point')
        w.check(len(times) > 0 and float_of(times[-1]) == sum(s.steps for s in res.counterexample) * float(h), 'replay ends at the end time')


def float_of(x):
    return round(float(mk(x).const()) if hasattr(mk(x), 'const') else float(x), 6)


def f_replay_bad(w):
    'a segment end moved away from the dynamics, or a start outside the invariant or the guard, is refused'
    out = run(w, w.cfg['n'])
    if out is None:
        return
    core, res, ha, ms, ts, modes, trans, inits, h = out
    if not res.has_concrete_error:
        return
    ce = res.counterexample
    off = w.real('off', -2, 2)
    w.assume(cor(cond_le(mk(off) + F(1, 8)), cond_le(F(1, 8) - mk(off))))
    seg = ce[w.choose(len(ce), 'segment')]
    k = w.choose(2, 'coordinate')
    if w.choose(2, 'which') == 0:
        seg.end[k] = seg.end[k] + off
    else:
        if k == 1 and seg is ce[0]:
            pass
        seg.start[k] = seg.start[k] + off
        if seg is ce[0] and len(ce) > 0:
            # moving the very first point changes the end as well
            pass
    w.refuses(lambda: w.mod('result').replay_counterexample(ce, ha, core.settings), 'replay accepts a wrong execution')


def f_approx(w):
    st = w.mod('settings').HylaaSettings
    am = [st.APPROX_CHULL, st.APPROX_LGG][w.choose(2, 'model')] if w.cfg.get('lgg') else st.APPROX_CHULL
    run(w, w.cfg['n'], approx_model=am)


def f_off(w):
    out = run(w, w.cfg['n'], make_counterexample=False)
    if out is None:
        return
    w.check(not out[1].counterexample, 'counterexample although switched off')
