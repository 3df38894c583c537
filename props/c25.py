'''C25 Checking a trace by simulation reports the real discrepancy'''

from .common import *
from . import plots

BOUNDS = {'quick': 'dynamics: symbolic 2x2 and 3x3 nilpotent matrices and the zero matrix, 0 to 2 inputs with a symbolic input matrix, '
                   'up to 4 steps (steps of 1/2 and of symbolic length), symbolic start, inputs, direction and expected value, every pattern of '
                   'repeated inputs over 3 steps, 1 to 12 samples requested',
          'thorough': 'one more step in every scenario, 40 samples'}
OUTSIDE = 'the integration error of odeint (modelled as exact for affine right-hand sides); dynamics that are not nilpotent; inputs that ' \
          'differ by less than the tolerance of numpy.allclose (they are deliberately treated as equal); the relative error when the ' \
          'simulated value is zero; the printed progress text; the ' \
          'appearance of the drawing'
ASSUMPTIONS = ['scipy.integrate.odeint solves the given differential equation exactly']


def scenarios(tier):
    x = 0 if tier == 'quick' else 1
    out = []

    def add(name, n, fn='f_check', **k):
        k['n'] = n + x
        k.setdefault('samples', 5)
        out.append(sc(name, fn, k))
    for kind in ('nil2', 'nil3', 'zero'):
        for inp in (0, 1, 2):
            add('%s, %d inputs' % (kind, inp), 2, kind=kind, inp=inp)
    for s in (1, 2, 3, 7, 12, 40)[:5 + x]:
        add('%d samples' % s, 3, kind='nil2', inp=1, samples=s)
    for pat in ('000', '001', '011', '010', '012', '0112', '0010'):
        add('input pattern ' + pat, len(pat) - x, kind='nil2', inp=1, pat=pat)
    add('two input columns, pattern 0110', 4 - x, kind='nil2', inp=2, pat='0110')
    add('fewer inputs than steps', 4, kind='nil2', inp=1, pat='01')
    add('no inputs at all', 2, kind='nil2', inp=1, pat='')
    add('no input list', 3, kind='nil2', inp=0, nolist=1)
    add('default number of samples, no inputs listed', 1, kind='zero', inp=0, nolist=1, samples=None)
    add('small inputs', 3, kind='nil2', inp=1, fac=256)
    add('small inputs, two columns', 3, kind='nil2', inp=2, fac=256)
    add('large inputs', 3, kind='zero', inp=1, fac=[1, 64])
    for T, k in ((0.3, 3), (0.6, 6), (0.7, 7)):
        add('decimal step, time %s' % T, k - x, kind='nil2', inp=1, h=0.1, T=T, pat='0001111'[:k])
    add('symbolic step', 2, kind='nil2', inp=1, symstep=1)
    add('symbolic step, quick', 2, kind='nil2', inp=0, symstep=1, quick=1)
    add('progress printed', 3, kind='nil2', inp=1, pat='001', stdout=1)
    add('sparse matrices', 2, kind='nil2', inp=1, sparse=1)
    for k in ('shape', 'start', 'inputs', 'steps'):
        add('refuses bad ' + k, 2, 'f_bad', kind='nil2', inp=1, bad=k)
    for twod in (0, 1):
        for inp in (0, 1, 2):
            add('drawing, %d inputs%s' % (inp, ', two dimensions' if twod else ''), 2, 'f_plot', kind='nil2', inp=inp, twod=twod)
    add('drawing, one step', 1 - x, 'f_plot', kind='nil2', inp=1, twod=0)
    return out


def dynamics(w):
    k, q = w.cfg['kind'], w.cfg['inp']
    r = w.real
    if k == 'zero':
        A = [[0, 0], [0, 0]]
    elif k == 'nil2':
        A = [[0, r('a', -2, 2)], [0, 0]]
    else:
        A = [[0, r('a', -2, 2), 1], [0, 0, 1], [0, 0, 0]]
    n = len(A)
    B = [[r('b%d%d' % (i, j), -2, 2) if i == n - 1 or (j == 0 and k != 'nil3') else 1 for j in range(q)] for i in range(n)] if q else None
    return A, B


def solution(A, B, x, u, t):
    'exact solution after time t with constant input, nilpotent A'
    n = len(A)
    t = mk(t)
    f = [mk(0)] * n
    if B is not None:
        f = matvec(B, u)
    # x(t) = sum A^k t^k/k! x + sum A^k t^(k+1)/(k+1)! f
    res = [mk(v) for v in x]
    xp, fp, c = [mk(v) for v in x], list(f), mk(1)
    for k in range(1, n + 1):
        c = c * t * F(1, k)
        res = [res[i] + c * fp[i] for i in range(n)]
        xp, fp = matvec(A, xp), matvec(A, fp)
        res = [res[i] + c * xp[i] for i in range(n)]
    return res


def setup(w):
    A, B = dynamics(w)
    n, cfg = len(A), w.cfg
    q = cfg['inp']
    N = cfg['n']
    h = mk(w.real('h', F(1, 4), 2)) if cfg.get('symstep') else F(cfg.get('h', 0.5)).limit_denominator(1000)
    fac = F(*cfg['fac']) if isinstance(cfg.get('fac'), list) else F(cfg.get('fac', 1))       # inputs divided by, matrix multiplied with
    pat = cfg.get('pat')
    if pat is None:
        pat = ''.join(str(i) for i in range(N))
    vals = {}
    for c in sorted(set(pat)):
        vals[c] = [w.real('u%s%d' % (c, j), F(1, 8), 2) if j == 0 else F(3, 2) for j in range(q)]
    ks = sorted(vals)
    if q:
        for i, c in enumerate(ks):
            for d in ks[:i]:
                # different inputs are clearly different
                e = mk(vals[c][0]) - mk(vals[d][0])
                w.assume(cond_le(F(1, 8) - e))
    if fac != 1:
        vals = {c: [num(w, mk(v) / fac) for v in vals[c]] for c in vals}
        B = [[num(w, mk(v) * fac) for v in r] for r in B]
    ins = [vals[c] for c in pat]
    x0 = [w.real('x%d' % i, -2, 2) for i in range(n)]
    return A, B, h, N, ins, x0


def num(w, v):
    return v if w.is_sym else float(v)


def call(w, A, B, h, N, ins, x0, d, e, **over):
    cfg, np = w.cfg, w.np
    a = np.array([[num(w, v) for v in r] for r in A], dtype=float)
    b = None if B is None else np.array([[num(w, v) for v in r] for r in B], dtype=float)
    if cfg.get('sparse'):
        a, b = w.csr_matrix(a), w.csc_matrix(b)
    st = np.array([num(w, v) for v in x0], dtype=float)
    ul = None if cfg.get('nolist') else [np.array([num(w, v) for v in u], dtype=float) for u in ins]
    k = dict(quick=bool(cfg.get('quick')), stdout=bool(cfg.get('stdout')))
    if cfg['samples'] is not None:
        k['approx_samples'] = cfg['samples']
    args = dict(a=a, b=b, step=num(w, h), max_time=cfg.get('T', num(w, h * N)), st=st, ul=ul)
    args.update(over)
    m = w.mod('check_trace')
    m.print = lambda *a, **k: None
    rv = m.check(args['a'], args['b'], args['step'], args['max_time'], args['st'], args['ul'],
                 np.array([num(w, v) for v in d], dtype=float), num(w, e), **k)
    return rv, args


def f_check(w):
    A, B, h, N, ins, x0 = setup(w)
    n = len(A)
    d = [w.real('d%d' % i, -2, 2) if i == 0 else 1 for i in range(n)]
    e = w.real('e', -4, 4)
    (states, times, data), args = call(w, A, B, h, N, ins, x0, d, e)
    if w.cfg.get('nolist'):
        ins = [[]] * N
    w.check(len(states) == len(times), 'one time per state')
    if len(states) != len(times):
        return
    w.check_num(times[0], 0, 'first time')
    w.check_mat([list(states[0])], [x0], 'first state')
    # exact states at the end of every step
    ends = [[mk(v) for v in x0]]
    for u in ins:
        ends.append(solution(A, B, ends[-1], u, h))
    w.check_num(times[-1], mk(h) * len(ins), 'last time')
    w.check_mat([list(states[-1])], [ends[-1]], 'last state')
    if not w.cfg.get('symstep'):
        hit = set()
        prev = None
        for t, s in zip(times, states):
            tc = F(mk(t).const()).limit_denominator(10 ** 6)
            w.check(prev is None or tc > prev, 'times increase')
            prev = tc
            k = min(int(tc / h), max(len(ins) - 1, 0))
            hit.add(tc / h)
            if ins:
                want = solution(A, B, ends[k], ins[k], tc - k * h)
            else:
                want = ends[0]
            w.check_mat([list(s)], [want], 'state at a reported time')
        w.check(all(F(k) in hit for k in range(len(ins) + 1)), 'every step end is reported')
        if ins and w.cfg['samples'] is not None and w.cfg['samples'] >= len(ins):
            w.check(2 * (len(states) - 1) >= w.cfg['samples'], 'roughly the requested number of samples')
    v = mk(0)
    for a, b in zip(d, ends[-1]):
        v = v + mk(a) * b
    diff = v - mk(e)
    ae, re = mk(data.abs_error), mk(data.rel_error)
    tol = 0 if w.is_sym else 1e-6

    def eq(x):
        return cand(cond_le(x - tol), cond_le(-x - tol))
    w.check(cand(cond_le(-ae), cor(eq(ae - diff), eq(ae + diff))), 'absolute error')
    # (no relative error is defined when the simulated value is zero)
    w.check(cand(cond_le(-re), cor(eq(re * v - ae), eq(re * v + ae), eq(v))), 'relative error')
    w.check_num(data.sim_time, mk(h) * N, 'simulated time')
    # nothing handed in was changed
    w.check_mat([list(args['st'])], [x0], 'start changed')
    if args['ul'] is not None:
        w.check(len(args['ul']) == len(ins), 'inputs changed')
        if ins and w.cfg['inp']:
            w.check_mat([list(u) for u in args['ul']], ins, 'inputs changed')


def f_bad(w):
    A, B, h, N, ins, x0 = setup(w)
    np, bad = w.np, w.cfg['bad']
    over = {}
    if bad == 'shape':
        over['a'] = np.array([[num(w, v) for v in r] for r in A[:1]], dtype=float)
    elif bad == 'start':
        over['st'] = np.array([num(w, v) for v in x0] + [0.0], dtype=float)
    elif bad == 'inputs':
        over['ul'] = [np.array([num(w, v) for v in u], dtype=float) for u in ins] + [np.array([1.0])]
    else:
        o = w.real('o', F(-1, 5), F(1, 5))
        w.assume(cor(cond_le(mk(o) + F(1, 64)), cond_le(F(1, 64) - mk(o))))
        over['max_time'] = num(w, h * N + mk(o))
    w.refuses(lambda: call(w, A, B, h, N, ins, x0, [1, 1], 0, **over), 'accepts a bad ' + bad)


class Axis(plots.Noop):
    def __init__(self):
        self.curves = []

    def plot(self, x, y, *a, **k):
        self.curves.append((list(x) if hasattr(x, '__len__') else [x], list(y) if hasattr(y, '__len__') else [y]))

    def get_ylim(self):
        return (0.0, 1.0)

    def legend(self, *a, **k):
        class L:
            def get_texts(self):
                return []

            def get_lines(self):
                return []
        return L()


class Plt(plots.Noop):
    def __init__(self):
        self.axes = []

    def subplots(self, n=1, *a, **k):
        self.axes = [Axis() for _ in range(n)]
        return plots.Noop(), (self.axes if n > 1 else self.axes[0])


def f_plot(w):
    'the drawing shows the trajectory and the printed verdict is right'
    A, B, h, N, ins, x0 = setup(w)
    np, m = w.np, w.mod('check_trace')
    n = len(A)
    pl = Plt()
    m.plt = pl
    # a trajectory with one state per step
    xs = [[mk(v) for v in x0]]
    for u in (ins if B is not None else [[]] * N):
        xs.append(solution(A, B, xs[-1], u, h))
    states = [np.array([num(w, v) for v in x], dtype=float) for x in xs]
    times = [float(h) * k for k in range(N + 1)]
    d = [w.real('d', -2, 2), 1]
    lim = w.real('lim', -4, 4)
    ul = None if B is None else [np.array([num(w, v) for v in u], dtype=float) for u in ins]
    vals = [sum((mk(a) * b for a, b in zip(d, x)), mk(0)) for x in xs]
    gap = vals[-1] - mk(lim)
    w.assume(cor(cond_le(gap + F(1, 64)), cond_le(F(1, 64) - gap)))
    out = []
    m.print = lambda *a, **k: out.append(' '.join(str(x) for x in a))      # collects what the module prints
    k = {'xdim': 0, 'ydim': 1} if w.cfg['twod'] else {}
    m.plot(states, times, ul, np.array([num(w, v) for v in d], dtype=float), num(w, lim), float(h) * N, float(h), **k)
    txt = '\n'.join(out)
    bad = w.decide(cond_le(gap))
    w.check(('NOT a violation' in txt) == (not bad), 'printed verdict')
    w.check(('is a violation' in txt) == bad, 'printed verdict')
    w.check(len(pl.axes) == (1 if B is None else 2), 'one picture for the states and one for the inputs')
    cx, cy = pl.axes[0].curves[0]
    if w.cfg['twod']:
        w.check_mat([cx, cy], [[x[0] for x in xs], [x[1] for x in xs]], 'drawn curve')
    else:
        w.check_mat([cx, cy], [times, vals], 'drawn curve')
    if ul is not None:
        w.check(len(ul) == len(ins), 'the input list is changed by drawing')
        w.check(len(pl.axes[1].curves) == w.cfg['inp'], 'one curve per input')
