'''C13 Aggregated analysis never misses an error and never invents a concrete one'''

from .common import *
from .c12 import run_core
from .semantics import Verdict, check_some, check_none

BOUNDS = {'quick': 'automata with 3 to 5 modes and 2 to 5 transitions in 2 or 3 dimensions, 3 to 5 steps, box, dynamics-derived and '
                   'convex-hull aggregation with and without guard directions, all pop orders and de-aggregation preferences, '
                   'same path required or not, symbolic error limits (slabs), guard limits or invariant limits',
          'thorough': '1 more step and more combinations'}
OUTSIDE = 'more steps and modes; verdicts that depend on conditions met within the margin'

D = [[0, 1], [0, 0]]
Z = [[0, 0], [0, 0]]


def scenarios(tier):
    q = tier == 'quick'
    out = []

    def add(name, model, n, agg='box', **k):
        k.update(model=model, n=n + (0 if q else 1), agg=agg)
        out.append(sc('%s %s%s' % (name, agg, ' deaggregation' if k.get('de') else ''), 'f_run', k))
    for de in (0, 1):
        for agg in ('box', 'chull', 'arnoldi'):
            add('slab', 'slab', 4, agg, de=de)
            add('chain', 'chain', 4, agg, de=de)
        add('invariant', 'inv', 4, 'box', de=de)
        add('invariant', 'inv', 4, 'chull', de=de)
        add('guard limit', 'guard', 3, 'box', de=de)
        add('branching', 'branch', 4, 'box', de=de)
        add('time bound', 'late', 4, 'box', de=de)
        add('no guard directions', 'chain', 4, 'box', de=de, noguard=1)
        add('largest max time first', 'chain', 4, 'box', de=de, pop=2)
        add('lowest min time first', 'branch', 4, 'box', de=de, pop=0)
        add('any path', 'paths', 4, 'box', de=de, anypath=1)
        add('same path', 'paths', 4, 'box', de=de)
        add('reset', 'reset', 4, 'box', de=de)
        add('loop', 'loop', 4, 'chull', de=de)
        add('urgent', 'slab', 3, 'box', de=de, urgent=1)
        add('inputs', 'inp', 3, 'box', de=de)
        add('stop at aggregated errors', 'slab', 4, 'box', de=de, stopagg=1)
        add('do not stop at concrete errors', 'slab', 4, 'box', de=de, nostop=1)
    for pref in (0, 1):
        add('preference %d' % pref, 'chain', 4, 'box', de=1, pref=pref)
        add('any path preference %d' % pref, 'paths', 4, 'box', de=1, anypath=1, pref=pref)
        add('preference %d branching' % pref, 'branch', 4, 'box', de=1, pref=pref)
    return out


def model(w, name):
    r = w.real
    e = r('e', -2, 6)
    slab = dict(G=[[1, 0], [-1, 0]], g=[mk(e) + F(1, 4), -mk(e)])
    if name == 'slab':
        return ([{'A': D}, {'A': D}, {}], [dict(src=0, dst=1, G=[[1, 0]], g=[3]), dict(src=1, dst=2, **slab)],
                [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'chain':
        return ([{'A': D}, {'A': [[0, -1], [0, 0]]}, {'A': D}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-1]), dict(src=1, dst=2, G=[[1, 0]], g=[F(3, 2)]), dict(src=2, dst=3, **slab)],
                [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'inv':
        return ([{'A': D, 'inv': [[1, 0]], 'inv_rhs': [3]}, {'A': D, 'inv': [[1, 0]], 'inv_rhs': [r('i', 0, 4)]}, {}],
                [dict(src=0, dst=1, R=[[F(1, 2), 0], [0, 1]]), dict(src=1, dst=2, **slab)], [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'guard':
        return ([{'A': D}, {'A': Z}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 3))]), dict(src=1, dst=2, **slab)], [(0, [[0, F(1, 2)], [1, 1]])])
    if name == 'branch':
        return ([{'A': D}, {'A': Z}, {'A': D}, {'A': [[0, -1], [0, 0]]}, {}],
                [dict(src=0, dst=1), dict(src=1, dst=2, G=[[1, 0]], g=[2]), dict(src=1, dst=3, G=[[-1, 0]], g=[-2]),
                 dict(src=2, dst=4, **slab), dict(src=3, dst=4, G=[[0, 1], [1, 0]], g=[0, e])], [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'late':
        return ([{'A': D}, {'A': D}, {}],
                [dict(src=0, dst=1, R=[[0, 0], [0, 1]]), dict(src=1, dst=2, **slab)], [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'paths':
        return ([{'A': D}, {'A': Z}, {'A': Z}, {'A': D}, {}],
                [dict(src=0, dst=1, G=[[1, 0]], g=[2]), dict(src=0, dst=2, G=[[-1, 0]], g=[-1], R=[[1, 1], [0, 1]]),
                 dict(src=1, dst=3), dict(src=2, dst=3), dict(src=3, dst=4, **slab)], [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'reset':
        return ([{'A': D}, {'A': [[0, 1, 0], [0, 0, 0], [0, 0, 0]]}, {}],
                [dict(src=0, dst=1, R=[[1, 0], [0, -1], [1, 1]]),
                 dict(src=1, dst=2, G=[[1, 0, 0], [-1, 0, 0], [0, 0, -1]], g=[mk(e) + F(1, 4), -mk(e), -2])],
                [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'loop':
        return ([{'A': D}, {}], [dict(src=0, dst=0, G=[[-1, 0]], g=[-2], R=[[1, -2], [0, 1]]), dict(src=0, dst=1, **slab)],
                [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'inp':
        return ([{'A': D}, {'A': Z, 'B': [[1], [0]], 'U': [[1], [-1]], 'u': [F(1, 4), 0]}, {}],
                [dict(src=0, dst=1), dict(src=1, dst=2, **slab)], [(0, [[0, F(1, 4)], [1, 1]])])
    raise KeyError(name)


def strategy(w, c):
    a = w.mod('aggstrat')
    A = a.Aggregated
    s = A({'box': A.AGG_BOX, 'chull': A.AGG_CONVEX_HULL, 'arnoldi': A.AGG_ARNOLDI_BOX}[c['agg']], deaggregate=bool(c.get('de')))
    s.pop_type = c.get('pop', s.pop_type)
    s.deagg_preference = c.get('pref', s.deagg_preference)
    s.add_guard = not c.get('noguard')
    s.require_same_path = not c.get('anypath')
    return s


def f_run(w):
    c = w.cfg
    modes, trans, inits = model(w, c['model'])
    for m in modes:
        if m.get('inv') is not None:
            w.assume(from_ineq(m['inv'], m['inv_rhs']).nonempty())
    v = Verdict(w, modes, trans, 1, c['n'], [(i, box(b)) for i, b in inits], urgent=bool(c.get('urgent')))
    ha, ms, _ = make_ha(w, modes, trans)
    kw = dict(optimize_tt_transitions=False, make_counterexample=False, process_urgent_guards=bool(c.get('urgent')))
    if c.get('nostop'):
        kw['stop_on_concrete_error'] = False
    if c.get('stopagg'):
        kw['stop_on_aggregated_error'] = True
    core, res = run_core(w, ha, ms, 1.0, c['n'], inits, strategy(w, c), **kw)
    agg, con = bool(res.has_aggregated_error), bool(res.has_concrete_error)
    if con:
        check_some(w, [p for p, _ in v.loose.errors], 'concrete error reported but no trajectory reaches an error mode')
    elif not agg:
        check_none(w, [p for p, _ in v.tight.errors], 'error missed')
    elif c.get('de') and not c.get('stopagg'):
        check_none(w, [p for p, _ in v.tight.errors], 'concrete error missed although de-aggregation ran to completion')
