'''C24 Stored plot data mirrors the sets that were kept'''

from .common import *
from . import plots
from .c13 import strategy
from .semantics import Sem

BOUNDS = {'quick': 'histories of up to 5 plotted and 3 retracted sets of 2 states in up to 3 subplots with symbolic step numbers and '
                   'outlines; whole analyses of automata with 3 to 4 modes and up to 4 steps, with and without de-aggregation, one '
                   'symbolic limit, 1 to 3 subplots (two dimensions, directions, time), with and without drawing',
          'thorough': 'longer histories, 1 more step'}
OUTSIDE = ('longer histories, more steps and modes; the drawing library (stand-in which keeps the drawn outlines); outlines thinner '
           'than the margin; sets drawn interactively')

D = [[0, 1], [0, 0]]
Z = [[0, 0], [0, 0]]


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for subs in (1, 2, 3):
        for adds, rems in ((3, 1), (3, 2), (4, 2), (5, 3)):
            if (adds > 3 and subs > 1 or adds > 4) and q:
                continue
            out.append(sc('history %d added %d removed, %d subplots' % (adds, rems, subs), 'f_history',
                          {'subs': subs, 'adds': adds, 'rems': rems}))
    out.append(sc('history with equal names', 'f_history', {'subs': 2, 'adds': 3, 'rems': 2, 'same': 1}))
    both = [[0, 1], [None, 0]]

    def run(name, model, n, dims, **k):
        k = dict(dict(agg='box'), model=model, n=n + (0 if q else 1), dims=dims, **k)
        out.append(sc(name, 'f_run', k))
    run('no aggregation', 'one', 3, both, unagg=1)
    run('aggregation', 'one', 3, both)
    run('successors outside', 'out', 3, both, unagg=1)
    run('successors outside, urgent', 'out', 3, [[None, 0]], unagg=1, urgent=1)
    run('successors outside, urgent, aggregation', 'out', 3, [[None, 0]], urgent=1)
    run('de-aggregation', 'one', 3, both, de=1)
    run('de-aggregation, five parts', 'row', 7, [[None, 0]], de=1)
    run('de-aggregation, one subplot', 'one', 3, [[None, 0]], de=1)
    run('de-aggregation, one plane', 'one', 3, [[0, 1]], de=1)
    run('de-aggregation, three subplots', 'one', 3, [[None, 0], [1, None], [0, [1, 1]]], de=1)
    run('de-aggregation, chain', 'chain', 4, [[None, 0], [None, 1]], de=1)
    run('de-aggregation, chain, plane', 'chain', 3, both, de=1)
    run('de-aggregation, invariant', 'inv', 4, [[None, 0], [None, [1, -1]]], de=1)
    run('de-aggregation, branching', 'branch', 3, [[None, 0], [None, 1]], de=1)
    run('de-aggregation, points in the first subplot', 'one', 3, [[1, 1], [None, 0]], de=1)
    run('de-aggregation, points in the second subplot', 'one', 3, [[None, 0], [1, 1]], de=1)
    run('de-aggregation, points only', 'one', 3, [[1, 1]], de=1)
    run('de-aggregation, no markers', 'one', 3, [[1, 1], [None, 0]], de=1, nomark=1)
    return out


class Bag:
    def __init__(self, **k):
        self.__dict__.update(k)


def f_history(w):
    c = w.cfg
    subs = c['subs']
    pd = w.mod('result').PlotData(subs)
    names = ('m', 'm') if c.get('same') else ('a', 'b')
    states = [Bag(mode=Bag(name=n), cur_step_in_mode=None) for n in names]
    live = []         # (state index, step, outlines per subplot)
    serial = [0]

    def add():
        i = w.choose(2, 'state')
        k = w.real('step%d' % serial[0], 0, 8)
        for j, s, _ in live:
            if j == i:
                w.assume(cor(cond_le(mk(s) + 1 - mk(k)), cond_le(mk(k) + 1 - mk(s))))
        states[i].cur_step_in_mode = k
        outs = []
        for p in range(subs):
            serial[0] += 1
            v = [(serial[0], 0.0), (w.real('v%d' % serial[0], -4, 4), 1.0), (serial[0], 0.0)]
            pd.add_state(states[i], v, p)
            outs.append(v)
        live.append((i, k, outs))

    def remove():
        i = w.choose(2, 'removed state')
        mine = [e for e in live if e[0] == i]
        if not mine:
            return
        serial[0] += 1
        k = w.real('removed%d' % serial[0], 0, 8)
        w.assume(cor(*[cond_eq(mk(k) - mk(e[1])) for e in mine]))
        pd.remove_state(states[i], k)
        for e in mine:
            if w.decide(cand(cond_le(mk(k) - mk(e[1]) - F(1, 8)), cond_le(mk(e[1]) - mk(k) - F(1, 8)))):
                live.remove(e)
                break

    todo = [c['adds'] - 1, c['rems']]
    add()
    while any(todo):
        what = 0 if not todo[1] else 1 if not todo[0] else w.choose(2, 'what')
        todo[what] -= 1
        (add, remove)[what]()
        for p in range(subs):
            for n in set(names):
                have = [(o[0][0][0], o) for o in pd.mode_to_obj_list[p].get(n, [])]
                want = [(e[2][p][0][0], e) for e in live if names[e[0]] == n]
                w.check(sorted(x[0] for x in have) == sorted(x[0] for x in want),
                        'stored sets differ from those added and not removed')
                for tag, o in have:
                    for t2, e in want:
                        if tag == t2:
                            w.check(o[1] is states[e[0]], 'stored state')
                            w.check_num(o[2], e[1], 'stored step', F(1, 1 << 30))
                            w.check(list(o[0]) == e[2][p], 'stored outline')


def model(w, name):
    r = w.real
    if name == 'one':
        e = r('e', 0, 6)
        return ([{'A': D}, {'A': D}, {}], [dict(src=0, dst=1, G=[[1, 0]], g=[3]),
                                           dict(src=1, dst=2, G=[[1, 0], [-1, 0]], g=[mk(e) + F(1, 4), -mk(e)])],
                [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'row':
        e = r('e', 0, 12)
        return ([{'A': D}, {'A': D}, {}], [dict(src=0, dst=1, G=[[1, 0]], g=[6]),
                                           dict(src=1, dst=2, G=[[1, 0], [-1, 0]], g=[mk(e) + F(1, 4), -mk(e)])],
                [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'chain':
        return ([{'A': D}, {'A': [[0, -1], [0, 0]]}, {'A': D}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-1]), dict(src=1, dst=2, G=[[1, 0]], g=[F(3, 2)]),
                 dict(src=2, dst=3, G=[[-1, 0]], g=[-mk(r('e', 0, 4))])], [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'inv':
        return ([{'A': D, 'inv': [[1, 0]], 'inv_rhs': [3]}, {'A': D, 'inv': [[1, 0]], 'inv_rhs': [r('i', 1, 4)]}, {}],
                [dict(src=0, dst=1, R=[[F(1, 2), 0], [0, 1]]), dict(src=1, dst=2, G=[[-1, 0]], g=[-2])], [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'branch':
        e = r('e', 0, 4)
        return ([{'A': D}, {'A': Z}, {'A': D}, {}],
                [dict(src=0, dst=1), dict(src=1, dst=2, G=[[1, 0]], g=[2]), dict(src=1, dst=3, G=[[-1, 0], [1, 0]], g=[-mk(e), mk(e) + F(1, 4)])],
                [(0, [[0, F(1, 4)], [1, 1]])])
    if name == 'out':
        # the successor may be outside of the invariant of its mode
        return ([{'A': D}, {'A': [[0, -1], [0, 0]], 'inv': [[1, 0]], 'inv_rhs': [r('i', 0, 4)]}, {}],
                [dict(src=0, dst=1, G=[[-1, 0]], g=[-1], R=[[1, 0], [0, 1]]), dict(src=1, dst=2, G=[[-1, 0]], g=[-r('e', 2, 4)])],
                [(0, [[0, F(1, 4)], [1, 1]])])
    raise KeyError(name)


def analyse(w, modes, trans, inits, image):
    c = w.cfg
    ha, ms, _ = make_ha(w, modes, trans)
    s = None if c.get('unagg') else strategy(w, c)
    core = make_core(w, ha, 1.0, c['n'], s, optimize_tt_transitions=False, make_counterexample=False,
                     process_urgent_guards=bool(c.get('urgent')))
    st = core.settings
    if c.get('nostop'):
        st.stop_on_concrete_error = False
    dims = [[d if d is None or isinstance(d, int) else w.np.array([float(x) for x in d]) for d in p] for p in c['dims']]
    plots.settings(w, st, dims)
    if not image:
        st.plot.plot_mode = w.mod('settings').PlotSettings.PLOT_NONE
    st.plot.store_plot_result = True
    if c.get('nomark'):
        st.plot.use_markers_for_small = False
    core = w.mod('core').Core(ha, st)
    S = w.mod('stateset').StateSet
    lu = w.mod('lputil')
    res = core.run([S(lu.from_box(b, ms[i]), ms[i]) for i, b in inits])
    return core, res


def same(w, a, b):
    'two outlines with the same points in the same order'
    eps = 0 if w.is_sym else F(1, 1 << 20)
    if len(a) != len(b):
        return False
    return cand(*[cand(cond_le(mk(p) - mk(q) - eps), cond_le(mk(q) - mk(p) - eps)) for x, y in zip(a, b) for p, q in zip(x, y)])


def points(verts):
    return [[x if w_is_sym(x) else float(x) for x in v] for v in verts]


def w_is_sym(x):
    return hasattr(x, 'key')


def matched(w, a, b, label):
    'the two lists hold the same outlines'
    w.check(len(a) == len(b), label + ' (number)')
    rest = list(b)
    for x in a:
        for i, y in enumerate(rest):
            if w.decide(same(w, x, y)):
                del rest[i]
                break
        else:
            w.fail(label)
            return


def kept_sets(core):
    'state sets of the final graph of the analysis (None where the graph is not as expected)'
    try:
        todo = [n for n in core.aggdag.roots if all(op.child_node is n for op in n.parent_ops)]
        out, seen = [], []
        while todo:
            n = todo.pop()
            if any(n is x for x in seen):
                continue
            seen.append(n)
            out.append(n.stateset)
            todo += [op.child_node for op in n.op_list if getattr(op, 'child_node', None) is not None]
        return out
    except AttributeError:
        return None


def part_of(s, whole):
    'names of the parts extend the name of the merged set'
    a, b = ['' if x.aggstring == 'full' else x.aggstring for x in (s, whole)]
    return a.startswith(b)


def f_run(w):
    c = w.cfg
    plots.prepare(w)
    w.vertices()
    modes, trans, inits = model(w, c['model'])
    core, res = analyse(w, modes, trans, inits, True)
    pm = core.plotman
    names = ['m%d' % i for i in range(len(modes))]
    stored = [{n: [points(o[0]) for o in d.get(n, [])] for n in names} for d in res.plot_data.mode_to_obj_list]
    w.check(len(stored) == len(c['dims']), 'number of subplots')
    for p in range(len(c['dims'])):
        for n in names:
            col = pm.shapes[p].parent_to_polys.get(n)
            drawn = [points(x.vertices) for x in col.get_paths()] if col is not None else []
            drawn = [x for x in drawn if len(x) > 2 or len(x) == 2 and c.get('nomark') and any(bool(mk(v) != 0) for y in x for v in y)]
            marks = pm.shapes[p].parent_to_markers.get('mode_' + n)
            spots = [[list(x)] for x in zip(marks.get_xdata(), marks.get_ydata()) if w_is_sym(x[0]) or x[0] == x[0]] if marks is not None else []
            small = [x for x in stored[p][n] if len(x) <= 2 and not c.get('nomark')]
            matched(w, [x for x in stored[p][n] if x not in small], drawn, 'stored outlines differ from the drawn ones')
            matched(w, [x[:1] for x in small], spots, 'stored points differ from the drawn markers')
            for o in res.plot_data.mode_to_obj_list[p].get(n, []):
                w.check(o[1].mode.name == n, 'stored under another mode')
    kept = kept_sets(core)
    for d in res.plot_data.mode_to_obj_list if kept else []:
        for n in names:
            for o in d.get(n, []):
                if not any(o[1] is s for s in kept):
                    w.check(not [1 for x in d[n] if x[2] == o[2] and any(x[1] is s for s in kept) and part_of(x[1], o[1])],
                            'a set that was replaced by its parts is still stored next to them')
    # the same sets are stored without drawing
    _, res2 = analyse(w, modes, trans, inits, False)
    for p, d in enumerate(res2.plot_data.mode_to_obj_list):
        for n in names:
            matched(w, stored[p][n], [points(o[0]) for o in d.get(n, [])], 'stored outlines depend on drawing')
    if res.has_concrete_error:
        return
    # every reachable set appears
    sem = Sem(modes, trans, 1, c['n'], -w.margin, bool(c.get('urgent'))).run([(i, box(b)) for i, b in inits])
    from symx import lpx
    for p, dim in enumerate(c['dims']):
        if None not in dim:
            continue
        d = [x for x in dim if x is not None][0]
        d = [1 if i == d else 0 for i in range(2)] if isinstance(d, int) else d
        ti = dim.index(None)
        for i, k, q, _, depth in sem.seen:
            if depth == 0:
                continue
            cols = {}
            for r in q.rows:
                for x in r.co:
                    cols.setdefault(x, None)
            val = {x: w.eng.fresh('wit') for x in list(cols) + list(q.vis)}
            y = sum((val[x] * z for x, z in zip(q.vis, d)), mk(0))
            ok = []
            for v in stored[p][names[i]]:
                ts, ys = [mk(x[ti]) for x in v], [mk(x[1 - ti]) for x in v]
                ok.append(cand(cor(*[cond_le(t - k) for t in ts]), cor(*[cond_le(k - t) for t in ts]),
                               cor(*[cond_le(a - y - w.margin) for a in ys]), cor(*[cond_le(y - a - w.margin) for a in ys])))
            w.check(cor(cnot(lpx.rows_cond(q.rows, val)), *ok), 'reachable states are not in the stored plot', wit=[val[x] for x in q.vis])
