'''C16 Guard strengthening adds exactly the target invariant'''

from .common import *

BOUNDS = {'quick': 'automata with 3 modes and 3 to 5 transitions in 1 to 3 dimensions; guards with 0 to 3 rows and target invariants '
                   'with 0 to 3 rows over all small sparsity patterns, symbolic right-hand sides and one symbolic coefficient '
                   'each (so that conditions may coincide), states within +-16',
          'thorough': 'also two symbolic coefficients per pair of rows and more patterns'}
OUTSIDE = ('more rows and dimensions; transitions that are time-triggered are exempt (as in the code) and explicit identity '
           'matrices as resets may or may not be strengthened')

# patterns: rows of coefficients, None is symbolic
G = {
    'true': [],
    'zero row': [[0, 0, 0]],
    'x': [[1, 0, 0]],
    'sx': [[None, 0, 0]],
    'xy': [[1, 1, 0]],
    'xyz': [[1, 1, 1]],
    'y': [[0, 1, 0]],
    'sxy': [[None, 1, 0]],
    'two': [[1, 0, 0], [0, None, 1]],
    'three': [[1, 0, 0], [-1, 0, 0], [1, 2, None]],
    'neg': [[-1, 0, 0]],
}
BIG = 16


def scenarios(tier):
    out = []
    for g in G:
        for i in G:
            if i == 'zero row' and g not in ('zero row', 'true', 'x'):
                continue
            if tier == 'quick' and 'three' in (g, i) and (g, i) not in (('three', 'x'), ('xy', 'three'), ('true', 'three'),
                                                                        ('y', 'three'), ('three', 'y')):
                continue
            if tier == 'quick' and (g, i) == ('two', 'two'):
                continue
            out.append(sc('guard %s target invariant %s' % (g, i), 'f_pair', {'g': g, 'i': i}))
    for n in (1, 2):
        out.append(sc('dimension %d' % n, 'f_dim', {'n': n}))
    for raw in (0, 1):
        out.append(sc('many conditions%s' % (' (unsorted matrices)' if raw else ''), 'f_rows', {'raw': raw}))
    for g, i in (('xyz', 'two'), ('two', 'sxy')):
        for raw in (1, 2):
            out.append(sc('guard %s target invariant %s raw %d' % (g, i, raw), 'f_pair', {'g': g, 'i': i, 'raw': raw}))
    out.append(sc('several transitions', 'f_many'))
    out.append(sc('resets and self loops', 'f_other'))
    out.append(sc('setup strengthens once', 'f_setup'))
    out.append(sc('setup without strengthening', 'f_setup', {'off': 1}))
    return out


def rows_of(w, pat, pre, n=3):
    m = [[w.real('%s%d%d' % (pre, i, j), -2, 2) if x is None else x for j, x in enumerate(r[:n])] for i, r in enumerate(pat)]
    return m, [w.real('%sr%d' % (pre, i), -4, 4) for i in range(len(m))]


def dense(w, csr):
    return [list(r) for r in csr.toarray()]


def enabled(t, w, n):
    'the set of states where the transition is enabled, within a large box'
    m = dense(w, t.guard_csr)
    return m, [x for x in t.guard_rhs]


def check_guard(w, t, n, mat, rhs, what):
    m, r = enabled(t, w, n)
    w.check(tuple(t.guard_csr.shape) == (len(r), n), what + ' (shape)')
    b = [(-BIG, BIG)] * n
    p, q = box(b), box(b)
    eps = F(1, 1 << 20)
    w.check_equal(constrain(p, m, r) if m else p, constrain(q, mat, rhs) if mat else q, what, margin=eps)


def same(w, a, b, what):
    w.check(len(a[0]) == len(b[0]) and len(a[1]) == len(b[1]), what + ' (rows)')
    if a[0]:
        w.check_mat(a[0], b[0], what)
        w.check_mat([a[1]], [b[1]], what + ' (limits)')


def zeros(n):
    return [[0] * n for _ in range(n)]


def f_pair(w):
    n = 3
    gm, gr = rows_of(w, G[w.cfg['g']], 'g')
    im, ir = rows_of(w, G[w.cfg['i']], 'i')
    if w.cfg['g'] == w.cfg['i'] == 'three':
        w.assume(cond_eq(mk(gm[2][2]) - 1))
    if im:
        w.assume(from_ineq(im, ir, n).nonempty())
    if gm:
        w.assume(from_ineq(gm, gr, n).nonempty())
    ha, ms, ts = make_ha(w, [{'A': zeros(n)}, {'A': zeros(n), 'inv': im if im else None, 'inv_rhs': ir}],
                         [dict(src=0, dst=1, G=gm if gm else None, g=gr)])
    for rep in range(2):
        ha.do_guard_strengthening()
        if rep == 0:
            check_guard(w, ts[0], n, gm + im, gr + ir, 'enabled states')
            first = enabled(ts[0], w, n)
        else:
            same(w, enabled(ts[0], w, n), first, 'guard after strengthening again')
    w.check(len(ms[1].inv_list) == len(im), 'number of invariant conditions afterwards')
    for lc, m, r in zip(ms[1].inv_list, im, ir):
        w.check_mat(lc.csr, [m], 'invariant afterwards')
        w.check_num(lc.rhs, r, 'invariant limit afterwards')


def f_dim(w):
    n = w.cfg['n']
    gm, gr = rows_of(w, [[None, 1], [1, 0]], 'g', n)
    im, ir = rows_of(w, [[None, 0], [-1, 1]], 'i', n)
    gr[1], ir[1] = 2, 3
    w.assume(from_ineq(im, ir, n).nonempty())
    w.assume(from_ineq(gm, gr, n).nonempty())
    ha, ms, ts = make_ha(w, [{'A': zeros(n)}, {'A': zeros(n), 'inv': im, 'inv_rhs': ir}], [dict(src=0, dst=1, G=gm, g=gr)])
    ha.do_guard_strengthening()
    check_guard(w, ts[0], n, gm + im, gr + ir, 'enabled states')


def f_rows(w):
    'more conditions than dimensions on both sides, some in common, limits in no particular order'
    n = 5
    b = [w.real('b', -2, 2), w.real('c', -2, 2)]
    gm = [[0, 0, 0, 0, 1], [0, 0, 0, 0, -1], [0, 0, 1, 1, 0], [1, 2, 0, 0, 0], [-1, 0, 0, 3, 0], [0, 1, 0, 0, 0], [0, 0, -1, 0, 0]]
    gr = [3, 2, b[0], -1, 4, 0, 1]
    im = [[0, 0, 1, 1, 0], [1, 2, 0, 0, 0], [0, 0, 0, 0, 2], [0, 1, 0, 0, 1], [0, 0, -1, 0, 0], [1, 0, 0, 0, 0]]
    ir = [b[1], 5, 1, 0, 1, 3]
    w.assume(from_ineq(im, ir, n).nonempty())
    ha, ms, ts = make_ha(w, [{'A': zeros(n)}, {'A': zeros(n), 'inv': im, 'inv_rhs': ir}], [dict(src=0, dst=1, G=gm, g=gr)])
    ha.do_guard_strengthening()
    check_guard(w, ts[0], n, gm + im, gr + ir, 'enabled states')


def f_many(w):
    'every transition gets the invariant of its own target'
    n = 2
    ims = [rows_of(w, [[1, 0]], 'i0', n), ([[1, 0], [0, -1]], [1, 2]), ([[0, 1]], [3])]
    gm, gr = rows_of(w, [[1, 0]], 'g', n)
    ha, ms, ts = make_ha(w, [{'A': zeros(n), 'inv': m, 'inv_rhs': r} for m, r in ims] + [{'name': 'error'}],
                         [dict(src=0, dst=1, G=gm, g=gr), dict(src=0, dst=2, G=gm, g=gr), dict(src=1, dst=0),
                          dict(src=2, dst=0, G=[[1, 0], [0, 1]], g=[gr[0], 1]), dict(src=2, dst=3, G=gm, g=gr),
                          dict(src=0, dst=1, G=gm, g=gr)])
    # the same matrix and limits are shared by two transitions
    ts[5].set_guard(ts[0].guard_csr, ts[0].guard_rhs)
    ha.do_guard_strengthening()
    want = [(gm + ims[1][0], gr + ims[1][1]), (gm + ims[2][0], gr + ims[2][1]), ims[0],
            ([[1, 0], [0, 1]] + ims[0][0], [gr[0], 1] + ims[0][1]), (gm, gr), (gm + ims[1][0], gr + ims[1][1])]
    for i, (m, r) in enumerate(want):
        check_guard(w, ts[i], n, m, r, 'transition %d' % i)
    first = [enabled(t, w, n) for t in ts]
    ha.do_guard_strengthening()
    for i, t in enumerate(ts):
        same(w, enabled(t, w, n), first[i], 'transition %d again' % i)


def f_other(w):
    n = 2
    im, ir = rows_of(w, [[None, 1], [1, 0]], 'i', n)
    w.assume(from_ineq(im, ir, n).nonempty())
    gm, gr = rows_of(w, [[1, 0]], 'g', n)
    ha, ms, ts = make_ha(w, [{'A': zeros(n), 'inv': im, 'inv_rhs': ir}, {'A': zeros(n), 'inv': im, 'inv_rhs': ir},
                             {'A': zeros(1), 'inv': [[1]], 'inv_rhs': [gr[0]]}],
                         [dict(src=0, dst=0, G=gm, g=gr), dict(src=0, dst=1, G=gm, g=gr, R=[[0, 1], [1, 0]]),
                          dict(src=0, dst=2, G=gm, g=gr, R=[[1, 0]]),
                          dict(src=0, dst=1, G=gm, g=gr, R=[[0, 0], [0, 1]], M=[[1], [0]], C=[[1], [-1]], d=[1, 0])])
    before = [enabled(t, w, n) for t in ts]
    ha.do_guard_strengthening()
    for i, t in enumerate(ts):
        same(w, enabled(t, w, n), before[i], 'transition %d is not changed' % i)


def f_setup(w):
    n = 2
    im, ir = rows_of(w, [[1, 0], [None, 1]], 'i', n)
    gm, gr = rows_of(w, [[0, -1]], 'g', n)
    w.assume(from_ineq(im, ir, n).nonempty())
    ha, ms, ts = make_ha(w, [{'A': [[0, 1], [0, 0]]}, {'A': zeros(n), 'inv': im, 'inv_rhs': ir}], [dict(src=0, dst=1, G=gm, g=gr)])
    off = w.cfg.get('off')
    core = make_core(w, ha, 0.5, 2, do_guard_strengthening=not off)
    s = w.mod('stateset').StateSet(w.mod('lputil').from_box([(0, 1), (0, 1)], ms[0]), ms[0])
    core.setup([s])
    check_guard(w, ts[0], n, gm + ([] if off else im), gr + ([] if off else ir), 'enabled states')
