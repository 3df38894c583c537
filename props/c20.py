'''C20 Plotted outlines are made of extreme states of the set'''

from .common import *
from . import plots

BOUNDS = {'quick': 'sets of 1 to 3 dimensions (boxes, polytopes with up to 6 constraints, images under resets and steps, with inputs) with '
                   'one to six symbolic limits for plots over time, one symbolic limit for plots of two dimensions; step '
                   'intervals symbolic; optimal points of the solver arbitrary for plots over time, corners with four ways of breaking ties '
                  'for plots of two dimensions',
          'thorough': 'more shapes and directions'}
OUTSIDE = ('sets of more dimensions or with more constraints; outline accuracy below the margin (the code accepts 1/1000 of the '
           'smaller width); sets thinner than the margin but not flat; facet normals are scaled in the 1-norm by the hull '
           'stand-in')

D = [[0, 1], [0, 0]]
DIRS = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (1, -1), (-1, -1), (2, 1), (-1, 2), (-2, -1), (1, -2),
        (1, 3), (-3, 1), (-1, -3), (3, -1)]


def scenarios(tier):
    out = []

    def time(name, **k):
        out.append(sc(name, 'f_time', k))
    for side in ('y', 'x'):
        t = ' (time on the %s axis)' % ('x' if side == 'y' else 'y')
        time('box' + t, side=side, shape='box', dim=0)
        time('box, other dimension' + t, side=side, shape='box', dim=1)
        time('box, direction' + t, side=side, shape='box', dim=[1, -2])
        time('polytope' + t, side=side, shape='poly', dim=1)
        time('polytope, direction' + t, side=side, shape='poly', dim=[2, 1])
        time('three dimensions' + t, side=side, shape='box3', dim=2)
        time('one dimension' + t, side=side, shape='box1', dim=0)
        time('moved set' + t, side=side, shape='step', dim=0)
        time('moved set with inputs' + t, side=side, shape='inp', dim=0)
        time('after a reset' + t, side=side, shape='reset', dim=0)
        time('single number for the time' + t, side=side, shape='box', dim=0, scalar=1)
    time('direction used before', side='y', shape='poly', dim=0, before=1)
    for s in ('box', 'poly'):
        out.append(sc('state set over time: ' + s, 'f_stateset', {'shape': s}))
    out.append(sc('state set: directions per mode', 'f_stateset', {'shape': 'box', 'permode': 1}))
    for s in ('tri', 'wide', 'flat', 'point', 'diag', 'penta', 'step', 'box3', 'reset') + (('inp', 'cut') if tier == 'thorough' else ()):
        out.append(sc('two dimensions: ' + s, 'f_plane', {'shape': s}))
    out.append(sc('two dimensions, swapped: tri', 'f_plane', {'shape': 'tri', 'dims': [1, 0]}))
    out.append(sc('two dimensions, directions: tri', 'f_plane', {'shape': 'tri', 'dims': [[1, 1], [1, -1]]}))
    out.append(sc('two dimensions, dimension and direction: wide', 'f_plane', {'shape': 'wide', 'dims': [0, [1, 2]]}))
    out.append(sc('two of three dimensions', 'f_plane', {'shape': 'box3', 'dims': [2, 0]}))
    for s in ('small', 'smallwide', 'smallpenta'):
        out.append(sc('two dimensions: ' + s, 'f_plane', {'shape': s, 'fine': 64}))
        out.append(sc('star of 7 directions: ' + s, 'f_star', {'shape': s, 'fine': 64, 'k': 7, 'off': 0.2}))
        out.append(sc('over time: ' + s, 'f_time', {'shape': s, 'fine': 64, 'side': 'y', 'dim': [1, 1]}))
    for s in ('far', 'farneg'):
        out.append(sc('two dimensions: ' + s, 'f_plane', {'shape': s}))
        out.append(sc('star of 7 directions: ' + s, 'f_star', {'shape': s, 'k': 7, 'off': 0.2}))
    for s in ('octa', 'dodeca', 'tilted', 'round'):
        out.append(sc('two dimensions: ' + s, 'f_plane', {'shape': s}))
        out.append(sc('star of 12 directions: ' + s, 'f_star', {'shape': s, 'k': 12, 'off': 0.1}))
    out.append(sc('point to coordinates', 'f_point', {}))
    for s in ('tri', 'wide', 'penta', 'flat', 'point', 'step'):
        for k, off in ((2, 0.1), (3, 0.0), (4, 0.3), (7, 0.2)) + (((12, 0.0),) if s in ('tri', 'penta', 'wide') else ()):
            if tier == 'quick' and k == 3 and s not in ('tri', 'penta'):
                continue
            out.append(sc('star of %d directions: %s' % (k, s), 'f_star', {'shape': s, 'k': k, 'off': off}))
    out.append(sc('star of 9 directions, swapped and scaled: tri', 'f_star', {'shape': 'tri', 'k': 9, 'off': 0.2, 'dims': [1, 0], 'bb': [2, 1]}))
    for bb in ([4, 1], [1, 4]):
        for k in (3, 4, 5):
            out.append(sc('star of %d directions, scaled by %d and %d: penta' % (k, *bb), 'f_star', {'shape': 'penta', 'k': k, 'off': 0.4, 'bb': bb}))
    out.append(sc('star of 8 directions, one dimension: penta', 'f_star', {'shape': 'penta', 'k': 8, 'off': 0.2, 'dims': [None, 1]}))
    out.append(sc('star of 8 directions, oblique: tri', 'f_star', {'shape': 'tri', 'k': 8, 'off': 0.2, 'dims': [[1, 1], 0]}))
    return out


def make(w, shape):
    'an lpi (from a mode), its exact set of points'
    r = w.real
    if w.cfg.get('fine'):
        w.margin = w.margin / w.cfg['fine']      # small sets: the accuracy is demanded relative to their size
    lu = w.mod('lputil')

    def cons(A, b):
        ha, ms, _ = make_ha(w, [{'A': [[0] * len(A[0]) for _ in A[0]]}])
        w.assume(from_ineq(A, b).nonempty())
        return lu.from_constraints(A, b, ms[0]), from_ineq(A, b)
    sq = [[1, 0], [-1, 0], [0, 1], [0, -1]]
    if shape in ('box', 'box1', 'box3'):
        n = {'box': 2, 'box1': 1, 'box3': 3}[shape]
        ha, ms, _ = make_ha(w, [{'A': [[0] * n for _ in range(n)]}])
        b = sym_box(w, n) if w.cfg.get('fn') != 'plane' else [[0, r('p', 1, 2)], [0, 1], [-1, 1]]
        return lu.from_box(b, ms[0]), box(b)
    if shape == 'poly':
        A = sq + [[1, 1], [-1, 2]]
        return cons(A, [2, r('a', 0, 2), 2, r('b', 0, 2), r('c', -1, 4), r('d', -1, 4)])
    if shape in ('step', 'inp', 'reset'):
        p = r('p', 1, 2)
        m = {'A': D}
        if shape == 'inp':
            m.update(B=[[0], [1]], U=[[1], [-1]], u=[1, F(1, 2)])
        tr = [dict(src=0, dst=1, R=[[1, 1], [0, 1], [1, 0]], G=[[1, 0]], g=[p])]
        ha, ms, ts = make_ha(w, [m, {'A': [[0, 0, 0] for _ in range(3)]}], tr if shape == 'reset' else [])
        for x in ms:
            x.init_time_elapse(1.0)
        b = [[0, 1], [0, p]]
        st = w.mod('stateset').StateSet(lu.from_box([[0.0, 1.0], [0.0, p]], ms[0]), ms[0])
        pts = box(b)
        if shape == 'reset':
            t_lpi = ts[0].get_guard_intersection(st.lpi)
            lu.add_reset_variables(t_lpi, ms[1].mode_id, ts[0].transition_index, reset_csr=ts[0].reset_csr)
            return t_lpi, image(constrain(pts, [[1, 0]], [p]), tr[0]['R'])
        st.step()
        pts = spec_step(pts, mat_exp(D, 1), *((input_mat(D, m['B'], 1), (m['U'], m['u'])) if shape == 'inp' else ()))
        return st.lpi, pts
    if shape == 'tri':
        p = r('p', 1, 2)
        return cons([[-1, 0], [0, -1], [1, 2]], [0, 0, mk(p) * 2] if w.is_sym else [0, 0, 2 * p])
    if shape == 'wide':
        return cons(sq, [r('p', F(1, 2), 4), 0, 1, 0])
    if shape == 'flat':
        return cons(sq, [r('p', F(1, 2), 2), 0, 1, -1])
    if shape == 'diag':
        return cons([[1, -1], [-1, 1], [1, 0], [-1, 0]], [0, 0, r('p', F(1, 2), 2), 0])
    if shape == 'point':
        p = r('p', -1, 1)
        return cons(sq, [p, -mk(p) if w.is_sym else -p, 1, -1])
    if shape == 'penta':
        return cons(sq + [[1, 1]], [2, 0, 2, 0, r('p', F(5, 2), F(7, 2))])
    if shape in ('small', 'smallwide', 'smallpenta'):
        k = r('p', F(1, 100), F(1, 20))
        k = mk(k) if w.is_sym else k
        if shape == 'small':
            return cons([[-1, 0], [0, -1], [1, 2]], [0, 0, 2 * k])
        if shape == 'smallwide':
            return cons(sq, [k, 0, F(1, 40), 0])
        return cons(sq + [[1, 1]], [2 * k, 0, 2 * k, 0, 3 * k])
    if shape in ('far', 'farneg'):
        z = 20 if shape == 'far' else -20
        k = r('p', F(5, 2), F(7, 2))
        return cons(sq + [[1, 1]], [2 + z, -z, 2 + z, -z, (mk(k) if w.is_sym else k) + 2 * z])
    if shape in ('octa', 'dodeca', 'tilted', 'round'):
        k = r('p', -1, 1)       # shift of a fixed polygon
        A = sq + [[a, b] for a in (1, -1) for b in (1, -1)]
        b = [3, 3, 3, 3, 4, 5, 5, 5] if shape == 'octa' else [6, 6, 6, 6, 10, 10, 10, 10]
        if shape == 'dodeca':
            A += [[2, 1], [-2, 1], [1, -2], [-1, -2]]
            b += [15, 15, 15, 14]
        if shape == 'tilted':
            A = [[2, 1], [1, 2], [-1, 2], [-2, 1], [-2, -1], [-1, -2], [1, -2], [2, -1]]
            b = [10, F(19, 2), F(41, 4), 9, 10, F(39, 4), F(81, 8), F(37, 4)]
        if shape == 'round':
            A = [v for a, b in ((4, 1), (3, 2), (2, 3), (1, 4)) for v in ([a, b], [-b, a], [-a, -b], [b, -a])]
            b = [F(round(5 * 16 * (r[0] ** 2 + r[1] ** 2) ** .5) + i % 3, 16) for i, r in enumerate(A)]
        if w.is_sym:
            k = mk(k)
        b = [v + k * row[0] for v, row in zip(b, A)]
        return cons(A, b)
    if shape == 'cut':
        return cons(sq + [[1, 1], [-1, -1]], [2, 0, 2, 0, 3, -r('p', F(1, 2), 1)])
    raise KeyError(shape)


def direction(dim, n):
    return [1 if i == dim else 0 for i in range(n)] if isinstance(dim, int) else list(dim)


def api(w, dim):
    return dim if dim is None or isinstance(dim, int) else w.np.array([float(x) for x in dim])


def near(a, b, eps):
    d = mk(a) - mk(b)
    return cand(cond_le(d - eps), cond_le(-d - eps))


def near2(a, b, eps):
    return cand(near(a[0], b[0], eps), near(a[1], b[1], eps))


def snapshot(w, lpi):
    return w.poly(lpi)


def check_time(w, pts, verts, d, t0, t1, swap, label=''):
    'outline of the values of d over the time interval'
    eps = w.margin
    vs = [(v[1], v[0]) if swap else (v[0], v[1]) for v in verts]       # (time, value)
    w.check(near2(vs[0], vs[-1], F(0) if w.is_sym else F(1, 1 << 30)), label + 'outline is not closed')
    lo, hi = vs[0][1], vs[0][1]
    for v in vs[1:]:
        lo = v[1] if w.decide(mk(v[1]) < mk(lo)) else lo
        hi = v[1] if w.decide(mk(v[1]) > mk(hi)) else hi
    w.check_min(pts, d, lo, label + 'lower end of the outline')
    w.check_min(pts, [-x for x in d], -mk(hi), label + 'upper end of the outline')
    corners = [(t, y) for t in (t0, t1) for y in (lo, hi)]
    for c in corners:
        w.check(cor(*[near2(v, c, eps) for v in vs]), label + 'corner is missing')
    for v in vs:
        w.check(cor(*[near2(v, c, eps) for c in corners]), label + 'point is not a corner')
    for a, b in zip(vs, vs[1:]):
        w.check(cor(near(a[0], b[0], eps), near(a[1], b[1], eps)), label + 'outline crosses the set')


def f_time(w):
    c = w.cfg
    lpi, pts = make(w, c['shape'])
    lp = w.mod('lpplot')
    n = pts.dim
    if c.get('scalar'):
        t = w.real('t', 0, 4)
        t0 = t1 = t
        if w.is_sym:
            tt = (t, t)
        else:
            tt = t
    else:
        t0 = w.real('t0', 0, 4)
        t1 = w.real('t1', 0, 4)
        w.assume(cor(cond_eq(mk(t0) - mk(t1)), cond_le(mk(t0) + F(1, 4) - mk(t1))))
        tt = (t0, t1)
    before = snapshot(w, lpi)
    if c.get('before'):
        lpi.minimize([1.0, 1.0], columns=[])
    k = dict(xdim=None, ydim=api(w, c['dim'])) if c['side'] == 'y' else dict(xdim=api(w, c['dim']), ydim=None)
    verts = lp.get_verts(lpi, cur_time=tt, **k)
    check_time(w, pts, verts, direction(c['dim'], n), t0, t1, c['side'] == 'x')
    w.check_equal(snapshot(w, lpi), before, 'plotting changes the set')


class Bag:
    def __init__(self, **k):
        self.__dict__.update(k)


def f_stateset(w):
    'StateSet.verts: time interval from the step counters, renewed after every step'
    c = w.cfg
    lu = w.mod('lputil')
    S = w.mod('stateset').StateSet
    h = F(1, 2)
    ha, ms, _ = make_ha(w, [{'A': D}])
    ms[0].init_time_elapse(0.5)
    if c['shape'] == 'poly':
        A = [[1, 0], [-1, 0], [0, 1], [0, -1], [1, 1]]
        b = [1, r0(w, 'a', 0, 2), 1, 1, r0(w, 'c', 0, 2)]
        w.assume(from_ineq(A, b).nonempty())
        lpi, pts = lu.from_constraints(A, b, ms[0]), from_ineq(A, b)
    else:
        b = sym_box(w, 2)
        lpi, pts = lu.from_box(b, ms[0]), box(b)
    s0 = 2
    s1 = 2 + w.choose(3, 'width of the step interval')
    ss = S(lpi, ms[0], [s0, s1])
    xd, yd = [None, w.np.array([1.0, 1.0])], [0, None]
    if c.get('permode'):
        xd, yd = [None, {'m0': w.np.array([1.0, 1.0])}], [{'m0': 0}, None]
    pm = Bag(num_subplots=2, plot_vec_list=[None, None], settings=Bag(xdim_dir=xd, ydim_dir=yd),
             core=Bag(settings=Bag(step_size=0.5)))
    for k in range(3):
        t0, t1 = (s0 + k) * h, (s1 + k) * h
        for _ in range(2):       # second time from the stored vertices
            check_time(w, pts, ss.verts(pm, 0), [1, 0], t0, t1, False, 'first plot: ')
            check_time(w, pts, ss.verts(pm, subplot=1), [1, 1], t0, t1, True, 'second plot: ')
        ss.step()
        pts = spec_step(pts, mat_exp(D, h))
    w.check_equal(w.poly(ss.lpi), pts, 'set after plotting and stepping')


def r0(w, *a):
    return w.real(*a)


def f_plane(w):
    c = w.cfg
    c['fn'] = 'plane'
    lpi, pts = make(w, c['shape'])
    w.vertices()
    n = pts.dim
    dims = c.get('dims', [0, 1])
    before = snapshot(w, lpi)
    verts = w.mod('lpplot').get_verts(lpi, xdim=api(w, dims[0]), ydim=api(w, dims[1]))
    M = [direction(d, n) for d in dims]
    flat = image(pts, M)
    eps = w.margin
    verts = [list(v) for v in verts]
    w.check(near2(verts[0], verts[-1], F(0) if w.is_sym else F(1, 1 << 30)), 'outline is not closed')
    for v in verts:
        w.check_point(flat, v, 'outline point outside of the projection')
    vs = verts[:-1]
    xs = [w.eng.fresh('wit') for _ in flat.vis]
    prem = []
    from symx import lpx
    cols = {}
    for r in flat.rows:
        for q in r.co:
            cols.setdefault(q, None)
    val = {q: w.eng.fresh('wit') for q in cols}
    prem = lpx.rows_cond(flat.rows, val)
    xs = [val[q] for q in flat.vis]
    for d in DIRS:
        s = [mk(v[0]) * d[0] + mk(v[1]) * d[1] for v in vs]
        p = xs[0] * d[0] + xs[1] * d[1]
        w.check(cor(cnot(prem), *[cond_le(p - q - eps * (abs(d[0]) + abs(d[1]))) for q in s]),
                'projection reaches beyond the outline', wit=xs)
    if len(vs) > 2:
        m = len(vs)
        cr = []
        for i in range(m):
            a, b, e = vs[i], vs[(i + 1) % m], vs[(i + 2) % m]
            cr.append((mk(b[0]) - a[0]) * (mk(e[1]) - b[1]) - (mk(b[1]) - a[1]) * (mk(e[0]) - b[0]))
        w.check(cor(cand([cond_le(-x - eps) for x in cr]), cand([cond_le(x - eps) for x in cr])), 'outline is not convex')
    w.check_equal(snapshot(w, lpi), before, 'plotting changes the set')


def f_star(w):
    'points that minimise each direction of a star'
    c = w.cfg
    c['fn'] = 'plane'
    lpi, pts = make(w, c['shape'])
    w.vertices()
    n = pts.dim
    dims = c.get('dims', [0, 1])
    bb = c.get('bb', [1, 1])
    lp = w.mod('lpplot')
    vecs = lp.make_plot_vecs(c['k'], c['off'])
    import math
    w.check(len(vecs) == c['k'], 'number of directions')
    for i, v in enumerate(vecs):
        a = c['off'] + 2 * math.pi * i / c['k']
        w.check(cand(near(v[0], F(math.cos(a)), F(1, 10 ** 9)), near(v[1], F(math.sin(a)), F(1, 10 ** 9))),
                'directions are not evenly spaced')
    before = snapshot(w, lpi)
    got = [list(v) for v in lp.find_boundary_pts(lpi, api(w, dims[0]), api(w, dims[1]), vecs, bb)]
    M = [direction(d, n) if d is not None else [0] * n for d in dims]
    flat = image(pts, M)
    for v in got:
        w.check_point(flat, v, 'point outside of the projection')
    for v in vecs:
        d = [F(float(x)) / b for x, b in zip(v, bb)]
        best = None
        for g in got:
            q = mk(g[0]) * d[0] + mk(g[1]) * d[1]
            best = q if best is None or w.decide(q < best) else best
        w.check_lower(flat, d, best, 'a direction reaches beyond the points')
    if not w.is_sym and c['shape'] in ('octa', 'dodeca', 'tilted', 'round'):
        return          # the same corner, found from two sides, may differ in the last digits
    for i, g in enumerate(got[1:]):
        w.check(cnot(near2(g, got[i], F(0) if w.is_sym else F(1, 1 << 30))), 'point repeated')
    if len(got) > 1:
        w.check(cnot(near2(got[0], got[-1], F(0) if w.is_sym else F(1, 1 << 30))), 'point repeated')
    w.check_equal(snapshot(w, lpi), before, 'plotting changes the set')


def f_point(w):
    f = w.mod('lpplot').pt_to_plot_xy
    pt = w.np.array([w.real('x', -4, 4), w.real('y', -4, 4), w.real('z', -4, 4)])
    t = w.real('t', 0, 4)
    opts = [None, 0, 1, 2, [1, -1, 2], [0, 0, 0]]
    i, j = w.choose(6, 'x'), w.choose(6, 'y')

    def want(o):
        return t if o is None else sum((mk(a) * b for a, b in zip(direction(o, 3), pt)), mk(0))
    x, y = f(pt, api(w, opts[i]), api(w, opts[j]), t)
    w.check_num(x, want(opts[i]), 'x coordinate')
    w.check_num(y, want(opts[j]), 'y coordinate')
