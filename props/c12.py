'''C12 Without aggregation the safety verdict is exact'''

from .common import *
from .semantics import Sem, Verdict

BOUNDS = {'quick': 'automata with up to 4 modes and 4 transitions in 1 to 3 dimensions with nilpotent dynamics, symbolic initial '
                   'boxes and symbolic guard or invariant limits, 4 or 5 steps in all',
          'thorough': '2 more steps'}
OUTSIDE = ('more steps; dynamics that are not nilpotent; verdicts that depend on conditions met within the margin; '
           'time-triggered shortcuts are decided by C15')


def scenarios(tier):
    x = 2 if tier == 'quick' else 4
    out = []

    def add(name, n, **k):
        k['n'] = n + x
        out.append(sc(name, 'f_run', k))
    for z in ('', ' zero dynamics skipping off'):
        add('drift guard' + z, 3, model='drift', noskip=bool(z))
        add('stationary' + z, 3, model='still', noskip=bool(z))
    add('drift from an initial set outside', 2, model='drift', inv=1)
    add('chain of modes', 3, model='chain')
    add('chain, no strengthening', 3, model='chain', nostrength=1)
    add('two ways', 3, model='ways')
    add('loop', 3, model='loop')
    add('loop with urgent guards', 2, model='loopu', urgent=1)
    add('urgent', 2, model='chain', urgent=1)
    add('reset to another dimension', 3, model='dims')
    add('extra reset terms', 2, model='mink')
    add('invariant leaves early', 3, model='inv')
    add('two invariants and guards', 3, model='box')
    add('inputs', 2, model='inp')
    add('inputs and invariant', 2, model='inpinv')
    add('stationary with inputs', 3, model='stillinp')
    add('inputs after a reset', 2, model='inp2')
    add('two initial sets', 2, model='inits')
    add('two initial sets, the first one may be outside', 2, model='initsrev')
    add('two initial sets, the first one may be empty', 2, model='initscut')
    add('three initial sets in two modes', 2, model='inits3')
    add('unsorted matrices', 2, model='dims', raw=1)
    add('explicit zeros in matrices', 2, model='inp2', raw=2)
    add('error in two modes', 2, model='twoerr')
    add('guard at step zero', 2, model='zero')
    add('all errors, do not stop', 2, model='ways', nostop=1)
    add('step bound over two modes', 3, model='clocks')
    for m, n in (('ways', 2), ('twoerr', 2), ('loopu', 2), ('chain', 2), ('zero', 2), ('mink', 1), ('inp', 1), ('inits', 1), ('box', 2)):
        add('urgent, do not stop: ' + m, n, model=m, nostop=1, urgent=1)
    add('urgent, no strengthening', 2, model='chain', urgent=1, nostrength=1)
    add('urgent from an initial set outside', 2, model='drift', inv=1, urgent=1)
    add('urgent, stationary, zero dynamics skipping off', 2, model='still', noskip=True, urgent=1)
    add('urgent, stationary', 2, model='still', urgent=1)
    for m, n in (('chain', 3), ('twoerr', 2), ('loop', 2), ('inits', 2), ('inpinv', 1), ('dims', 2)):
        add('do not stop: ' + m, n, model=m, nostop=1)
    return out


D = [[0, 1], [0, 0]]       # x' = y


def model(w, name):
    'modes, transitions, initial sets'
    r = w.real
    if name == 'drift':
        a = r('x', -3, 0)
        modes = [{'A': D}, {}]
        if w.cfg.get('inv'):
            modes[0].update(inv=[[1, 0], [-1, 0]], inv_rhs=[r('i', -2, 4), 1])
        return modes, [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -2, 4))])], [(0, [[a, mk(a) + r('wd', 0, 2)], [1, 2]])]
    if name == 'still':
        return ([{'A': [[0, 0], [0, 0]], 'inv': [[1, 0]], 'inv_rhs': [r('i', -2, 2)]}, {'A': D}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -2, 2))]), dict(src=1, dst=2, G=[[-1, 0]], g=[-mk(r('k', -2, 4))])],
                [(0, [[-1, r('b', -1, 2)], [1, 1]])])
    if name == 'chain':
        return ([{'A': D}, {'A': [[0, -1], [0, 0]], 'inv': [[1, 0]], 'inv_rhs': [r('i', 0, 3)]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -2, 3))]), dict(src=1, dst=2, G=[[1, 0]], g=[r('k', -2, 2)])],
                [(0, [[r('x', -1, 1), 1], [1, 1]])])
    if name == 'ways':
        return ([{'A': D}, {'A': [[0, 0], [0, 0]]}, {'A': D}, {}],
                [dict(src=0, dst=1, G=[[1, 0]], g=[r('g', -1, 2)]), dict(src=0, dst=2, G=[[-1, 0]], g=[-mk(r('f', -1, 2))],
                                                                        R=[[0, 1], [1, 0]]),
                 dict(src=1, dst=3, G=[[-1, 0]], g=[-mk(r('k', -1, 2))]), dict(src=2, dst=3, G=[[-1, 0]], g=[-3])],
                [(0, [[-1, 1], [1, 1]])])
    if name == 'loop':
        return ([{'A': D}, {}],
                [dict(src=0, dst=0, G=[[-1, 0]], g=[-mk(r('g', 0, 2))], R=[[1, -1], [0, 2]]),
                 dict(src=0, dst=1, G=[[0, -1]], g=[-mk(r('k', 0, 5))])],
                [(0, [[r('x', -1, 1), 1], [1, 1]])])
    if name == 'loopu':
        return ([{'A': D}, {'A': [[0, -1], [0, 0]]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -2, 2))], R=[[1, 1], [0, 1]]),
                 dict(src=1, dst=2, G=[[-1, 0]], g=[-mk(r('k', 0, 3))])],
                [(0, [[r('x', -1, 1), 1], [1, 1]])])
    if name == 'dims':
        return ([{'A': D}, {'A': [[0]]}, {'A': [[0, 1, 0], [0, 0, 1], [0, 0, 0]]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 2))], R=[[1, 1]]),
                 dict(src=1, dst=2, G=[[1]], g=[r('k', -1, 4)], R=[[0], [1], [1]]),
                 dict(src=2, dst=3, G=[[-1, 0, 0]], g=[-mk(r('l', -1, 4))])],
                [(0, [[-1, r('b', -1, 1)], [1, 1]])])
    if name == 'mink':
        return ([{'A': D}, {'A': D, 'inv': [[-1, 0]], 'inv_rhs': [0]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 2))], R=[[1, 0], [0, 0]], M=[[1], [1]], C=[[1], [-1]],
                      d=[r('d', -1, 1), 1]),
                 dict(src=1, dst=2, G=[[-1, 0]], g=[-mk(r('k', -1, 4))])],
                [(0, [[-1, 1], [1, 1]])])
    if name == 'inv':
        return ([{'A': D, 'inv': [[1, 0], [0, 1]], 'inv_rhs': [r('i', -1, 3), 2]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0], [0, 1]], g=[-mk(r('g', 0, 4)), r('h', 0, 3)])],
                [(0, [[-1, r('b', -1, 1)], [1, 3]])])
    if name == 'box':
        return ([{'A': [[0, 1, 0], [0, 0, 1], [0, 0, 0]], 'inv': [[1, 0, 0], [0, 1, 0]], 'inv_rhs': [r('i', 0, 3), 1]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0, 0], [0, -1, 0]], g=[-mk(r('g', 0, 3)), -mk(r('h', -2, 3))])],
                [(0, [[0, 1], [-1, 0], [1, 1]])])
    if name in ('inp', 'inpinv'):
        m = {'A': D, 'B': [[0], [1]], 'U': [[1], [-1]], 'u': [r('u', -1, 1), 1]}
        if name == 'inpinv':
            m.update(inv=[[0, 1]], inv_rhs=[r('i', -1, 2)])
        return [m, {}], [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 4))])], [(0, [[-1, 0], [0, r('b', 0, 1)]])]
    if name == 'stillinp':
        m = {'A': [[0]], 'B': [[1]], 'U': [[1], [-1]], 'u': [r('u', -1, 1), 1]}
        return [m, {}], [dict(src=0, dst=1, G=[[-1]], g=[-mk(r('g', -1, 4))])], [(0, [[-1, 0]])]
    if name == 'inp2':
        m = {'A': D, 'B': [[1], [0]], 'U': [[1], [-1]], 'u': [1, 1], 'inv': [[1, 0]], 'inv_rhs': [r('i', 0, 3)]}
        return ([{'A': D}, m, {}], [dict(src=0, dst=1, R=[[0, 1], [1, 0]]),
                                    dict(src=1, dst=2, G=[[-1, 0]], g=[-mk(r('g', -1, 4))])], [(0, [[-1, 0], [0, r('b', 0, 1)]])])
    if name == 'inits':
        return ([{'A': D}, {'A': D, 'inv': [[1, 0]], 'inv_rhs': [r('i', -2, 2)]}, {}],
                [dict(src=0, dst=2, G=[[-1, 0]], g=[-mk(r('g', -2, 4))]), dict(src=1, dst=2, G=[[-1, -1]], g=[-mk(r('k', -2, 4))])],
                [(0, [[-1, 0], [1, 1]]), (1, [[r('x', -2, 0), 0], [1, 1]])])
    if name == 'initsrev':
        modes, trans, inits = model(w, 'inits')
        return modes, trans, inits[::-1]
    if name == 'initscut':
        modes, trans, inits = model(w, 'inits')
        return modes, trans, [(0, inits[0][1], [1, -1], r('c', -4, 1)), inits[1]]
    if name == 'inits3':
        modes, trans, inits = model(w, 'inits')
        return modes, trans, [(1, [[-1, 0], [1, 1]]), inits[1], (0, [[-2, -1], [2, 2]])]
    if name == 'twoerr':
        return ([{'A': D}, {}, {'A': [[0, -1], [0, 0]]}, {}],
                [dict(src=0, dst=2, G=[[-1, 0]], g=[-mk(r('f', -2, 4))]), dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -2, 4))]),
                 dict(src=2, dst=3, G=[[1, 0]], g=[r('k', -3, 0)])],
                [(0, [[-1, 0], [1, 1]])])
    if name == 'zero':
        # the guard holds only before the first step
        return ([{'A': D}, {}], [dict(src=0, dst=1, G=[[1, 0]], g=[r('g', -2, 4)])], [(0, [[r('x', -1, 1), 1], [1, 1]])])
    if name == 'clocks':
        c3 = [[0, 0, 1], [0, 0, 0], [0, 0, 0]]
        return ([{'A': c3, 'inv': [[1, 0, 0]], 'inv_rhs': [r('i', 0, 3)]}, {'A': [[0, 0, 0], [0, 0, 1], [0, 0, 0]]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0, 0]], g=[-mk(r('g', 0, 3))]), dict(src=1, dst=2, G=[[0, -1, 0]], g=[-mk(r('k', 0, 4))])],
                [(0, [[0, 0], [0, 0], [1, 1]])])
    raise KeyError(name)


def run_core(w, ha, ms, h, n, inits, agg=None, **kw):
    core = make_core(w, ha, h, n, agg, **kw)
    S = w.mod('stateset').StateSet
    lu = w.mod('lputil')
    sets = []
    for i, b, *cut in inits:
        lpi = lu.from_box(b, ms[i])
        if cut:
            # a further condition on the initial states; it may leave none
            lu.add_init_constraint(lpi, w.np.array([float(x) for x in cut[0]], dtype=float), cut[1])
        sets.append(S(lpi, ms[i]))
    res = core.run(sets)
    return core, res


def init_set(init):
    i, b, *cut = init
    return i, (constrain(box(b), [cut[0]], [cut[1]]) if cut else box(b))


def f_run(w):
    c = w.cfg
    h = F(1, 2) if c['model'] in ('inp2',) else 1
    modes, trans, inits = model(w, c['model'])
    for m in modes:
        if m.get('inv') is not None:
            w.assume(from_ineq(m['inv'], m['inv_rhs']).nonempty())
        if m.get('B') is not None:
            w.assume(from_ineq(m['U'], m['u']).nonempty())
    v = Verdict(w, modes, trans, h, c['n'], [init_set(i) for i in inits], urgent=bool(c.get('urgent')))
    ha, ms, _ = make_ha(w, modes, trans)
    kw = dict(optimize_tt_transitions=False, make_counterexample=False, process_urgent_guards=bool(c.get('urgent')))
    if c.get('noskip'):
        kw['skip_zero_dynamics_modes'] = False
    if c.get('nostrength'):
        kw['do_guard_strengthening'] = False
    if c.get('nostop'):
        kw['stop_on_concrete_error'] = False
    if any(m.get('inv') is not None for m in modes):
        try:
            core, res = run_core(w, ha, ms, float(h), c['n'], inits, **kw)
        except RuntimeError as e:
            if 'No feasible initial' not in str(e):
                raise
            w.check(cand(*[v.tight.inv(*init_set(i)).empty() for i in inits]) if len(inits) > 1 else
                    v.tight.inv(*init_set(inits[0])).empty(), 'initial states refused although some satisfy the invariant')
            return
    else:
        core, res = run_core(w, ha, ms, float(h), c['n'], inits, **kw)
    w.check(not res.has_aggregated_error, 'aggregated error without aggregation')
    v.check(bool(res.has_concrete_error))
