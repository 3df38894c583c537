'''C19 Every simulated run is a discrete-time trajectory within the reachable set'''

from .common import *
from . import plots

BOUNDS = {'quick': 'automata with up to 4 modes and 3 transitions in 2 dimensions with nilpotent dynamics, 1 to 3 runs per batch whose '
                   'start points are arbitrary points of the box, symbolic box corners, guard and invariant limits, up to 4 steps',
          'thorough': '1 more step'}
OUTSIDE = ('more runs, steps or modes; the distribution of the random start points; the drawing library (stand-in); guards or '
           'invariants that are violated or held by less than the margin')

D = [[0, 1], [0, 0]]


def scenarios(tier):
    x = 0 if tier == 'quick' else 1
    out = []

    def add(name, model, n, sims=1, **k):
        k.update(model=model, n=n + x, sims=sims)
        out.append(sc(name, 'f_sim', k))
    add('one mode', 'free', 4, 2)
    add('symbolic box', 'free', 3, 1, symbox=1)
    add('range of runs', 'free', 2, [1, 3])
    add('range of runs from a guard', 'one', 2, [1, 3])
    add('transition', 'one', 4)
    add('two runs', 'one', 3, 2)
    add('three runs', 'zero', 2, 3)
    add('guard holds at the start', 'zero', 3)
    add('guard holds at the start, two runs', 'zero', 3, 2)
    add('guard holds at the start, urgent', 'zero', 3, 2, urgent=1)
    add('chain', 'chain', 4)
    add('chain, urgent', 'chain', 3, urgent=1)
    add('chain, two runs', 'chain', 3, 2)
    add('chain, no strengthening', 'chain', 3, nostrength=1)
    add('invariant', 'inv', 4)
    add('invariant, two runs', 'inv', 3, 2)
    add('guard outside of the invariant', 'ginv', 4)
    add('two guards', 'two', 3, 2)
    add('loop', 'loop', 4)
    add('loop, two runs', 'loop', 3, 2)
    add('other dimension', 'dims', 3)
    add('modes to avoid', 'two', 3, 2, avoid=['m1'])
    add('all modes to avoid', 'two', 2, 2, avoid=['m0', 'm1', 'm2'])
    add('without aggregation', 'chain', 3, 2, unagg=1)
    add('shortcut for time-triggered transitions on', 'clock', 4, tt=1)
    add('step size one half', 'chain', 3, h='1/2')
    return out


def model(w, name):
    r = w.real
    if name == 'free':
        return [{'A': D}], []
    if name == 'one':
        return [{'A': D}, {'A': [[0, 0], [-1, 0]]}], [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -2, 4))], R=[[1, 1], [0, -1]])]
    if name == 'zero':
        return ([{'A': D}, {'A': [[0, -1], [0, 0]]}, {}],
                [dict(src=0, dst=1, G=[[1, 0]], g=[r('g', -2, 4)], R=[[1, 0], [1, 1]]), dict(src=1, dst=2, G=[[1, 0]], g=[-4])])
    if name == 'chain':
        return ([{'A': D}, {'A': [[0, -1], [0, 0]], 'inv': [[0, 1]], 'inv_rhs': [r('i', 0, 3)]}, {'A': D}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 3))]), dict(src=1, dst=2, G=[[1, 0]], g=[r('k', -2, 2)], R=[[0, 1], [1, 0]]),
                 dict(src=2, dst=3, G=[[0, 1]], g=[-1])])
    if name == 'inv':
        return [{'A': D, 'inv': [[1, 0], [-1, -1]], 'inv_rhs': [r('i', -1, 4), r('j', -1, 2)]}], []
    if name == 'ginv':
        i = r('i', -1, 3)
        return ([{'A': D, 'inv': [[1, 0]], 'inv_rhs': [i]}, {'A': D}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 4))])])
    if name == 'two':
        return ([{'A': D}, {'A': [[0, 0], [0, 0]]}, {'A': D}],
                [dict(src=0, dst=1, G=[[-1, 0], [0, 1]], g=[-mk(r('g', -1, 3)), F(5, 4)], R=[[0, 0], [0, 1]]),
                 dict(src=0, dst=2, G=[[-1, 0]], g=[-mk(r('f', -1, 3))], R=[[-1, 0], [0, 2]])])
    if name == 'loop':
        return [{'A': D}], [dict(src=0, dst=0, G=[[-1, 0]], g=[-mk(r('g', -1, 3))], R=[[0, 1], [1, 0]])]
    if name == 'dims':
        return ([{'A': D}, {'A': [[0, 1, 0], [0, 0, 1], [0, 0, 0]]}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(r('g', -1, 3))], R=[[1, 0], [0, 1], [1, 1]])])
    if name == 'clock':
        k = r('k', 0, 4)
        return ([{'A': D, 'inv': [[1, 0]], 'inv_rhs': [k]}, {'A': [[0, -1], [0, 0]]}], [dict(src=0, dst=1, G=[[-1, 0]], g=[-mk(k)])])
    raise KeyError(name)


def sat(mat, rhs, x, eps):
    return cand([cond_le(mk(v) - mk(b) - eps) for v, b in zip(matvec(mat, x), rhs)])


def near(xs, ys, eps):
    cs = []
    for x, y in zip(xs, ys):
        cs += [cond_le(mk(x) - mk(y) - eps), cond_le(mk(y) - mk(x) - eps)]
    return cand(cs)


def f_sim(w):
    c = w.cfg
    h = F(c.get('h', 1))
    n = c['n']
    modes, trans = model(w, c['model'])
    for m in modes:
        if m.get('inv') is not None:
            w.assume(from_ineq(m['inv'], m['inv_rhs']).nonempty())
    ha, ms, ts = make_ha(w, modes, trans)
    plots.prepare(w)
    draws = w.sym_random()
    bx = [[-1, 1], [1, F(3, 2)]]
    if c.get('symbox'):
        bx = [[w.real('a', -2, 0), w.real('b', 0, 2)], [w.real('c', 0, 1), w.real('d', 1, 2)]]
    if c['model'] == 'clock':
        bx = [[0, 0], [1, 1]]
    agg = w.mod('aggstrat').Unaggregated() if c.get('unagg') else w.mod('aggstrat').Aggregated()
    if c.get('avoid'):
        agg.sim_avoid_modes = c['avoid']
    core = make_core(w, ha, float(h), n, agg, optimize_tt_transitions=bool(c.get('tt')), process_urgent_guards=bool(c.get('urgent')),
                     do_guard_strengthening=not c.get('nostrength'))
    dims = ((0, 1), (None, 0), (1, None))
    plots.settings(w, core.settings, dims)
    core.plotman.init_plot_vecs()
    core.plotman.plot_vec_list, core.plotman.num_subplots = core.plotman.plot_vec_list[-3:], 3
    batches = []
    pu = w.mod('plotutil').PlotManager
    orig, orig_commit = pu.plot_current_sim, pu.commit_cur_sims
    open_batch = []

    def record(self):
        if not open_batch:
            batches.append([])
            open_batch.append(1)
        batches[-1].append([None if o is None else (o[0], list(o[1]), o[2]) for o in core.sim_states])
        return orig(self)

    def commit(self):
        open_batch.clear()
        return orig_commit(self)
    pu.plot_current_sim, pu.commit_cur_sims = record, commit
    try:
        fb = [[float(a) if isinstance(a, (int, F)) else a for a in p] for p in bx]
        res = core.simulate(ms[0], fb, c['sims'])
    finally:
        pu.plot_current_sim, pu.commit_cur_sims = orig, orig_commit
    # the random numbers spread every coordinate over the whole side of the box
    pts = [o[1] for o in batches[0][0]] if batches else []
    if len(draws) <= 6:
        for pt in pts:
            for x, (a, b) in zip(pt, bx):
                z = mk(b) - mk(a)
                w.check(cor(*[near([x], [v], w.margin / 8) for r in draws for v in (mk(a) + z * r, mk(b) - z * r)]),
                        'start point does not use the whole box')
    check(w, batches, res, modes, trans, ms, bx, h, n, dims)


def check(w, batches, res, modes, trans, ms, bx, h, n, dims):
    c = w.cfg
    eps = w.margin / 8
    lo, hi = (0, c['sims']) if isinstance(c['sims'], int) else c['sims']
    idx = {id(m): i for i, m in enumerate(ms)}
    guards = []
    for t in trans:
        G, g = [list(r) for r in (t.get('G') or [])], list(t.get('g') or [])
        guards.append((G, g))
    E = [mat_exp(m['A'], h) if m.get('A') is not None else None for m in modes]
    w.check(len(batches) > 0 and len(batches[0][0]) == hi - lo, 'number of runs')
    pending = []
    for o in batches[0][0]:
        w.check(idx[id(o[0])] == 0 and o[2] == 0, 'run does not start in the initial mode at step zero')
        w.check(cand([cand(cond_le(mk(a) - mk(x) - eps), cond_le(mk(x) - mk(b) - eps)) for x, (a, b) in zip(o[1], bx)]),
                'run starts outside of the box')
        pending.append((0, o[1], 0))
    urgent = bool(c.get('urgent'))
    visited = 0
    for frames in batches:
        names = set()
        for k in range(len(frames[0])):
            seq = [f[k] for f in frames]
            first = seq[0]
            w.check(first is not None, 'empty run')
            i = idx[id(first[0])]
            names.add(i)
            # started from something that is pending, exactly once
            hit = [q for q in pending if q[0] == i and q[2] == first[2] and all(same(w, a, b) for a, b in zip(q[1], first[1]))]
            w.check(bool(hit), 'run continues from a state that is not pending')
            pending.remove(hit[0])
            visited += 1
            over = False
            for f in range(len(seq)):
                o = seq[f]
                nxt = seq[f + 1] if f + 1 < len(seq) else None
                if o is None:
                    w.check(nxt is None, 'run continues after its end')
                    continue
                w.check(o[0] is first[0], 'mode changes inside a segment')
                w.check(o[2] <= n, 'more steps than the bound')
                if over:
                    w.check(nxt is None, 'segment continues after its transition')
                    continue
                tried = f > 0 or urgent
                x = o[1]
                enabled = [sat(guards[q][0], guards[q][1], x, eps) for q, t in enumerate(trans) if t['src'] == i]
                firmly = [sat(*strong(trans[q], modes, guards[q], c), x, -eps) for q, t in enumerate(trans) if t['src'] == i]
                inv = modes[i].get('inv')
                if nxt is None:
                    if o[2] < n:
                        # ended: the invariant does not hold (any more)
                        w.check(cnot(sat(inv, modes[i]['inv_rhs'], x, -eps)) if inv is not None else False,
                                'run ends before the bound inside its invariant')
                        if tried and firmly:
                            w.check(cand([cnot(z) for z in firmly]), 'run ends although a guard holds')
                    continue
                if nxt[2] == o[2]:
                    w.check(tried, 'guard tried before the first step')
                    opts = []
                    for q, t in enumerate(trans):
                        if t['src'] != i:
                            continue
                        y = matvec(t['R'], x) if t.get('R') is not None else x
                        if len(y) == len(nxt[1]):
                            opts.append((q, cand(sat(guards[q][0], guards[q][1], x, eps), near(y, nxt[1], eps)), y))
                    w.check(cor(*[z for _, z, _ in opts]) if opts else False, 'jump without an enabled transition')
                    q, _, y = [z for z in opts if w.decide(z[1])][0]
                    if modes[trans[q]['dst']].get('A') is not None:
                        pending.append((trans[q]['dst'], y, o[2]))
                    over = True
                else:
                    w.check(nxt[2] == o[2] + 1, 'more than one step at once')
                    w.check(near(matvec(E[i], x), nxt[1], eps), 'step does not follow the dynamics')
                    if inv is not None:
                        w.check(sat(inv, modes[i]['inv_rhs'], x, eps), 'step from outside of the invariant')
                    if tried and firmly:
                        w.check(cand([cnot(z) for z in firmly]), 'run steps over an enabled transition')
        w.check(len(names) == 1, 'batch with several modes')
    w.check(not pending, 'state after a transition is never simulated')
    # what is drawn
    w.check(len(res.sim_lines) == len(dims), 'lines of every plot')
    for p, (a, b) in enumerate(dims):
        w.check(len(res.sim_lines[p]) == len(batches), 'number of drawn segments')
        for line, frames in zip(res.sim_lines[p], batches):
            w.check(len(line) == len(frames[0]), 'number of lines in a segment')
            for k, pts in enumerate(line):
                want = [(o[1], o[2]) for o in (f[k] for f in frames) if o is not None]
                w.check(len(want) == len(pts), 'number of points of a line')
                for (x, s), pt in zip(want, pts):
                    t = s * h
                    w.check(near(pt, [t if a is None else x[a], t if b is None else x[b]], eps), 'drawn point')


def strong(t, modes, g, c):
    'guard with the invariant of the target (guard strengthening)'
    G, r = [list(x) for x in g[0]], list(g[1])
    m = modes[t['dst']]
    if m.get('inv') is not None and t.get('R') is None and not c.get('nostrength'):
        G, r = G + [list(x) for x in m['inv']], r + list(m['inv_rhs'])
    return G, r


def same(w, a, b):
    d = mk(a) - mk(b)
    c = cand(cond_le(d - w.margin / 8), cond_le(-d - w.margin / 8))
    return w.decide(c) if not isinstance(c, bool) else c
