'''C15 Time-triggered shortcut drops no behaviour'''

from .common import *
from .c12 import run_core
from .semantics import Sem, check_some, check_none

BOUNDS = {'quick': 'automata with 2 to 4 modes over a position, a clock and a constant, trigger time symbolic relative to the step '
                   'grid and the step bound (up to 4 steps), symbolic initial positions and error limits; clocks that are exact or '
                   'uncertain, rise, fall, stand still or have uncertain rates; urgent guards on and off',
          'thorough': '1 or 2 more steps'}
OUTSIDE = ('more steps or modes; trigger times inside the relaxation that the shortcut applies to guards (step/steps/1000); '
           'conditions met within the margin count as reachable')

A3 = [[0, 0, 1], [0, 0, 1], [0, 0, 0]]       # x' = a, c' = a
UP = ([[0, 1, 0]], [[0, -1, 0]], 1)          # invariant c <= K, guard c >= K
DOWN = ([[0, -1, 0]], [[0, 1, 0]], -1)


def scenarios(tier):
    x = 0 if tier == 'quick' else 1
    out = []

    def add(name, model, n, **k):
        k.update(model=model, n=n + x)
        out.append(sc(name, 'f_run', k))
    for u in (0, 1):
        t = ' urgent' if u else ''
        add('trigger then error' + t, 'after', 3, urgent=u)
        add('trigger to the error mode' + t, 'direct', 4, urgent=u)
        add('side transition first' + t, 'side', 3, urgent=u)
        add('side transition last' + t, 'side', 3, urgent=u, swap=1)
        add('falling clock' + t, 'down', 3, urgent=u)
        add('clock moves away from the guard' + t, 'away', 3, urgent=u)
        add('clocks that cancel' + t, 'cancel', 3, urgent=u)
    add('two initial sets, later trigger first', 'bound', 3)
    add('two initial sets, time bound', 'bound2', 3)
    add('uncertain clock', 'wide', 3)
    add('uncertain rate', 'rate', 3)
    for u in (0, 1):
        t = ' urgent' if u else ''
        add('uncertain clock, nothing after the trigger' + t, 'wide2', 3, urgent=u)
        add('uncertain rate, nothing after the trigger' + t, 'rate2', 3, urgent=u)
    add('side transition, unsorted matrices', 'gmixed', 3, raw=1)
    add('guard with two triggers', 'gtwo', 3)
    add('rate two', 'two', 3)
    add('zero rate', 'zero', 3)
    add('two clocks', 'clocks', 3)
    add('invariant on the position too', 'mixed', 3)
    add('guard on the position too', 'gmixed', 3)
    add('periodic', 'loop', 4)
    add('periodic with a second trigger', 'loop2', 4)
    add('shortcut off', 'side', 3, off=1)
    for u in (0, 1):
        t = ' urgent' if u else ''
        add('clock driven by an input' + t, 'uclock', 2, urgent=u)
        add('constant driven by an input' + t, 'uconst', 2, urgent=u)
        add('position driven by an input' + t, 'upos', 2, urgent=u)
        add('clock made to fall by an input' + t, 'upoint', 3, urgent=u)
    return out


class Trig(Sem):
    '''the trajectories that leave a triggered mode no later than the first step at which the trigger guard is tried and holds'''

    def __init__(self, *a, trig=None, slack=0, **k):
        super().__init__(*a, **k)
        self.trig = trig or {}
        self.slack = slack

    def visit(self, i, p, k, path, depth):
        self.count += 1
        assert self.count < self.max_sets, 'oracle too large'
        p = self.inv(i, p)

        def before(q):
            # the trigger guard did not hold when it was tried
            if i not in self.trig:
                return q
            row, rhs = self.trig[i]
            return constrain(q, [[-x for x in row]], [-mk(rhs) - self.slack])
        if self.urgent and len(path) < 4:
            self.succ(i, p, k, path, 0)
            p = before(p)
        n = 0
        while k < self.N:
            p = self.inv(i, p)
            p = self.step(i, p)
            k += 1
            n += 1
            self.succ(i, p, k, path, n)
            p = before(p)


def model(w, name):
    'modes, transitions, initial sets, {mode: (row, rhs) of the trigger guard} for modes that really are time-triggered'
    r = w.real
    K = r('K', 0, 4)
    inv, g, s = UP
    A = A3
    err = mk(r('e', -1, 6))
    x0 = [r('x', -1, 1), 1]
    start = [x0, [0, 0], [1, 1]]
    M1 = {'A': [[0, 0, 1], [0, 0, 0], [0, 0, 0]]}
    tt = dict(src=0, dst=1, G=g, g=[-mk(K)])
    m0 = {'A': A, 'inv': inv, 'inv_rhs': [K]}
    toerr = dict(src=1, dst=2, G=[[-1, 0, 0]], g=[-err])
    trig = {0: (g[0], -mk(K))}
    if name == 'after':
        return [m0, M1, {}], [tt, toerr], [(0, start)], trig
    if name == 'direct':
        return [m0, {}], [dict(tt)], [(0, start)], trig
    if name == 'side':
        side = dict(src=0, dst=2, G=[[-1, 0, 0]], g=[-err])
        ts = [side, tt] if w.cfg.get('swap') else [tt, side]
        return [m0, M1, {}], ts, [(0, start)], trig
    if name == 'down':
        A = [[0, 0, 1], [0, 0, -1], [0, 0, 0]]
        inv, g, s = DOWN
        m0 = {'A': A, 'inv': inv, 'inv_rhs': [-mk(K)]}
        side = dict(src=0, dst=2, G=[[-1, 0, 0]], g=[-err])
        return ([m0, M1, {}], [dict(src=0, dst=1, G=g, g=[mk(K)]), toerr, side], [(0, [x0, [3, 3], [1, 1]])],
                {0: (g[0], mk(K))})
    if name == 'away':
        # the clock starts at or below K and falls: the guard can hold at first, but nothing forces the transition
        A = [[0, 0, 1], [0, 0, -1], [0, 0, 0]]
        m0 = {'A': A, 'inv': inv, 'inv_rhs': [K]}
        side = dict(src=0, dst=2, G=[[-1, 0, 0]], g=[-err])
        return [m0, M1, {}], [tt, side], [(0, [x0, [2, 2], [1, 1]])], {}
    if name == 'cancel':
        A = [[0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 0], [0, 0, 0, 0]]
        m0 = {'A': A, 'inv': [[1, 1, 0, 0]], 'inv_rhs': [K]}
        side = dict(src=0, dst=1, G=[[-1, 0, 0, 0]], g=[-err])
        t0 = dict(src=0, dst=2, G=[[-1, -1, 0, 0]], g=[-mk(K)])
        return ([m0, {}, {'A': [[0] * 4] * 4}], [t0, side],
                [(0, [[0, 0], [2, 2], [1, 1], [-1, -1]])], {})
    if name in ('bound', 'bound2'):
        M2 = {'A': [[0, 0, 1], [0, 0, 0], [0, 0, 0]]}
        b = [r('y', -2, 0), 0]
        ts = [tt, toerr, dict(src=3, dst=2, G=[[-1, 0, 0]], g=[-err])]
        ini = [(0, start), (3, [b, [0, 0], [1, 1]])]
        if name == 'bound2':
            m4 = {'A': A, 'inv': inv, 'inv_rhs': [r('L', 0, 4)]}
            ts.append(dict(src=4, dst=3, G=g, g=[-mk(m4['inv_rhs'][0])]))
            ini = [(0, start), (4, [b, [0, 0], [1, 1]]), (3, [[-2, -1], [0, 0], [1, 1]])]
            trig[4] = (g[0], -mk(m4['inv_rhs'][0]))
            return [m0, M1, {}, M2, m4], ts, ini, trig
        return [m0, M1, {}, M2], ts, ini, trig
    side = dict(src=0, dst=2, G=[[-1, 0, 0]], g=[-err])
    if name == 'wide':
        return [m0, M1, {}], [tt, toerr, side], [(0, [x0, [0, r('c', F(1, 8), 1)], [1, 1]])], {}
    if name == 'rate':
        return [m0, M1, {}], [tt, toerr, side], [(0, [x0, [0, 0], [1, r('c', F(9, 8), 2)]])], {}
    if name in ('wide2', 'rate2'):
        # a clock that starts exactly at the trigger may be taken to leave at once
        w.assume(cond_le(F(1, 8) - mk(K)))
    if name == 'wide2':
        return [m0, {'A': [[0] * 3] * 3}, {}], [tt, side], [(0, [x0, [0, r('c', F(1, 16), 2)], [1, 1]])], {}
    if name == 'rate2':
        return [m0, {'A': [[0] * 3] * 3}, {}], [tt, side], [(0, [x0, [0, 0], [1, r('c', F(17, 16), 2)]])], {}
    if name == 'gtwo':
        # the guard has two triggers, only one of which is a limit of the invariant
        A = [[0, 0, 0, 1], [0, 0, 0, 1], [0, 0, 0, 1], [0, 0, 0, 0]]
        m0 = {'A': A, 'inv': [[0, 1, 0, 0]], 'inv_rhs': [K]}
        ts = [dict(src=0, dst=1, G=[[0, 0, -1, 0], [0, -1, 0, 0]], g=[-mk(r('L', 0, 4)), -mk(K)]),
              dict(src=0, dst=2, G=[[-1, 0, 0, 0]], g=[-err])]
        return [m0, {'A': [[0] * 4] * 4}, {}], ts, [(0, [x0, [0, 0], [-1, -1], [1, 1]])], {0: ([0, -1, 0, 0], -mk(K))}
    if name == 'two':
        m0 = dict(m0, A=[[0, 0, 1], [0, 0, 2], [0, 0, 0]])
        return [m0, M1, {}], [tt, toerr, side], [(0, start)], trig
    if name == 'zero':
        # the constant that drives the clock is zero, another one drives the position
        A = [[0, 0, 0, 1], [0, 0, 1, 0], [0, 0, 0, 0], [0, 0, 0, 0]]
        m0 = {'A': A, 'inv': [[0, 1, 0, 0]], 'inv_rhs': [K]}
        ts = [dict(src=0, dst=1, G=[[0, -1, 0, 0]], g=[-mk(K)]), dict(src=0, dst=2, G=[[-1, 0, 0, 0]], g=[-err])]
        return [m0, {'A': [[0] * 4] * 4}, {}], ts, [(0, [x0, [1, 1], [0, 0], [1, 1]])], {}
    if name == 'clocks':
        A = [[0, 0, 0, 1], [0, 0, 0, 1], [0, 0, 0, 1], [0, 0, 0, 0]]
        L = r('L', 0, 4)
        m0 = {'A': A, 'inv': [[0, 1, 0, 0], [0, 0, 1, 0]], 'inv_rhs': [K, L]}
        ts = [dict(src=0, dst=1, G=[[0, -1, 0, 0]], g=[-mk(K)]), dict(src=0, dst=2, G=[[-1, 0, 0, 0]], g=[-err])]
        return [m0, {'A': [[0] * 4] * 4}, {}], ts, [(0, [x0, [0, 0], [-1, -1], [1, 1]])], {0: ([0, -1, 0, 0], -mk(K))}
    if name == 'mixed':
        A = [[0, 0, 1], [0, 0, 1], [0, 0, 0]]
        A[0] = [0, 1, 0]          # x' = c: not a clock
        m0 = {'A': A, 'inv': [[0, 1, 0], [1, 0, 0]], 'inv_rhs': [K, 5]}
        return [m0, M1, {}], [tt, toerr, side], [(0, start)], trig
    if name == 'upoint':
        # the input is one value, which makes the clock fall although its constant is one
        v = r('v', -3, F(-9, 8))
        m0 = dict(m0, B=[[0], [1], [0]], U=[[1], [-1]], u=[v, -mk(v)])
        return ([m0, {'A': [[0] * 3] * 3}, {}], [tt, side], [(0, [x0, [3, 3], [1, 1]])], {})
    if name in ('uclock', 'uconst', 'upos'):
        B = [[0], [0], [0]]
        B[('upos', 'uclock', 'uconst').index(name)] = [1]
        um = r('um', F(1, 4), 2)
        m0 = dict(m0, B=B, U=[[1], [-1]], u=[um, um])
        return ([m0, {'A': [[0] * 3] * 3}, {}], [tt, side], [(0, start)], trig if name == 'upos' else {})
    if name == 'gmixed':
        t2 = dict(src=0, dst=1, G=[[0, -1, 0], [-1, 0, 0]], g=[-mk(K), -mk(r('g', -1, 3))])
        return [m0, M1, {}], [t2, toerr, side], [(0, start)], trig
    if name == 'loop':
        t2 = dict(tt, dst=0, R=[[1, 0, 0], [0, 0, 0], [0, 0, 1]])
        return [m0, {}], [t2, dict(src=0, dst=1, G=[[-1, 0, 0]], g=[-err])], [(0, start)], trig
    if name == 'loop2':
        t2 = dict(tt, R=[[1, 0, 0], [0, 0, 0], [0, 0, 1]])
        m1 = {'A': [[0, 0, -1], [0, 0, 1], [0, 0, 0]], 'inv': [[0, 1, 0]], 'inv_rhs': [1]}
        back = dict(src=1, dst=0, G=[[0, -1, 0]], g=[-1], R=[[1, 0, 0], [0, 0, 0], [0, 0, 1]])
        trig = {0: trig[0], 1: ([0, -1, 0], -1)}
        return [m0, m1, {}], [t2, back, dict(src=0, dst=2, G=[[-1, 0, 0]], g=[-err])], [(0, start)], trig
    raise KeyError(name)


def f_run(w):
    c = w.cfg
    h, n = 1, c['n']
    modes, trans, inits, trig = model(w, c['model'])
    for m in modes:
        if m.get('inv') is not None:
            w.assume(from_ineq(m['inv'], m['inv_rhs']).nonempty())
    if c.get('off'):
        trig = {}
    u = bool(c.get('urgent'))
    eps = F(h) / n / 1000
    # the rules for time-triggered transitions relax guards by eps and recognise them up to 2 eps
    ini = [(i, box(b)) for i, b in inits]
    must = Trig(modes, trans, h, n, urgent=u, trig=trig, slack=4 * eps).run(ini)
    may = Sem(modes, trans, h, n, w.margin, urgent=u).run(ini)
    ha, ms, ts = make_ha(w, modes, trans)
    kw = dict(optimize_tt_transitions=not c.get('off'), make_counterexample=False, process_urgent_guards=u)
    try:
        core, res = run_core(w, ha, ms, float(h), n, inits, **kw)
    except RuntimeError as e:
        if 'No feasible initial' not in str(e):
            raise
        check_none(w, [may.inv(i, p) for i, p in ini] and [must.inv(i, p) for i, p in ini], 'initial states refused')
        return
    if res.has_concrete_error:
        check_some(w, [p for p, _ in may.errors], 'error reported but no trajectory reaches an error mode')
    else:
        check_none(w, [p for p, _ in must.errors], 'error missed')
