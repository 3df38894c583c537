'''C04 Time-elapse matrices do not depend on the order in which steps are requested'''

from .common import *

BOUNDS = {'quick': 'every sequence of 4 requests over steps 0..4 (0..3 for a full 2x2 matrix, 3 requests with the conservative model); dynamics: arbitrary symbolic 2x2 '
                   'matrix (exponential by contract), symbolic nilpotent 2x2 and 3x3 (exact series); 0..3 input columns with '
                   'symbolic entries in [1/8, 2] (one of them in [-2, 2]); the conservative input model switched on before or between requests; some fixed sequences of steps up to 100',
          'thorough': 'sequences of 5 requests over steps 0..5'}
OUTSIDE = 'rounding in matrix products; the accuracy of scipy.linalg.expm / expm_multiply themselves (contract: e^{A(j+k)h} = ' \
          'e^{Ajh} e^{Akh}, input effect = integral of the exponential times B)'
ASSUMPTIONS = ['scipy matrix exponential routines satisfy the semigroup contract']


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for kind in ('full', 'nil2', 'nil3'):
        for inp in (0, 1, 2):
            if (kind == 'nil3' and inp == 2) or (q and kind == 'full' and inp == 2):
                continue
            top = (3 if kind == 'full' else 4) if q else (4 if kind == 'full' else 5)
            for first in range(top + 1):
                out.append(sc('%s inputs %d first %d' % (kind, inp, first), 'f_seq',
                              {'kind': kind, 'inp': inp, 'top': top, 'n': 4 if q else 5, 'first': first, 'lgg': None}))
    for kind in ('full', 'nil2'):
        for lgg in (0, 1, 2):
            for inp in (1, 2):
                top = 3 if q else 4
                out.append(sc('%s conservative model before request %d inputs %d' % (kind, lgg, inp), 'f_seq',
                              {'kind': kind, 'inp': inp, 'top': top, 'n': (3 if kind == 'full' else 4) + (0 if q else 1), 'lgg': lgg}))
    for kind in ('nil2', 'nil3', 'zero'):
        for inp in (0, 1, 3):
            if kind == 'nil3' and inp == 3:
                continue
            for i, l in enumerate(([9, 10, 3], [33, 1, 2, 34], [64, 65, 5], [100, 7, 8], [12], [17, 17, 18])):
                if not q or (i + inp) % 2 or kind == 'nil2':
                    out.append(sc('%s inputs %d steps %s' % (kind, inp, l), 'f_seq', {'kind': kind, 'inp': inp, 'list': l, 'lgg': None}))
        out.append(sc('%s conservative model, late steps' % kind, 'f_seq', {'kind': kind, 'inp': 1, 'list': [9, 10, 1, 30, 31], 'lgg': 0}))
    out.append(sc('zero dynamics', 'f_seq', {'kind': 'zero', 'inp': 1, 'top': 3, 'n': 3, 'lgg': None}))
    return out


def dynamics(w):
    k = w.cfg['kind']
    if k == 'full':
        A = [[w.real('a%d%d' % (i, j), -2, 2) for j in range(2)] for i in range(2)]
    elif k == 'zero':
        A = [[0, 0], [0, 0]]
    elif k == 'nil2':
        A = [[0, w.real('a', -2, 2)], [0, 0]]
    else:
        A = [[0, w.real('a', -2, 2), w.real('b', -2, 2)], [0, 0, w.real('c', 1, 2)], [0, 0, 0]]
    n = len(A)
    B = [[w.real('b%d%d' % (i, j), -2, 2) for j in range(w.cfg['inp'])] for i in range(n)] if w.cfg['inp'] else None
    if B is not None:
        # keep the sparsity pattern of B fixed except for its first entry
        for i in range(n):
            for j in range(len(B[0])):
                if (i, j) != (0, 0):
                    w.assume(cond_le(F(1, 8) - B[i][j]))
    return A, B


def oracle_exp(w, A, h, k):
    n = len(A)
    m = w.csc_matrix(w.np.array([[mk(A[i][j]) * F(h) * k if w.is_sym else float(A[i][j]) * h * k for j in range(n)]
                                 for i in range(n)], dtype=float))
    return to_l(w.sp.sparse.linalg.expm(m))


def oracle_in(w, A, B, h):
    n, q = len(A), len(B[0])
    cols = []
    for c in range(q):
        aug = [list(A[i]) + [B[i][c]] for i in range(n)] + [[0] * (n + 1)]
        e = oracle_exp(w, aug, h, 1)
        cols.append([e[i][n] for i in range(n)])
    return [[cols[c][i] for c in range(q)] for i in range(n)]


def to_l(a):
    if hasattr(a, 'toarray'):
        a = a.toarray()
    return [[mk(v) for v in r] for r in a]


def f_seq(w):
    h = 0.5
    A, B = dynamics(w)
    n = len(A)
    if w.cfg['kind'] in ('full',):
        # generic matrices: keep the scale used by the exponential contract non-zero
        w.assume(cor(cond_lt(mk(A[0][0]) * -1 + F(1, 64)), cond_lt(mk(A[0][0]) + F(1, 64))))
    md = {'A': A}
    if B is not None:
        md.update(B=B, U=[[1] * len(B[0]), [-1] * len(B[0])], u=[1, 1])
        if len(B[0]) > 1:
            md.update(U=eye(len(B[0])) + [[-x for x in r] for r in eye(len(B[0]))], u=[1] * 2 * len(B[0]))
    _, ms, _ = make_ha(w, [md])
    m = ms[0]
    m.init_time_elapse(h)
    if B is not None:
        one = oracle_in(w, A, B, h)
    lgg = w.cfg['lgg']
    seen = []
    if lgg is not None:
        m.time_elapse.get_basis_matrix(1)
    on = False
    fixed = w.cfg.get('list')
    for i in range(w.cfg['n'] if fixed is None else len(fixed)):
        if lgg == i:
            m.time_elapse.use_lgg_approx()
            on = True
        if fixed is not None:
            k = fixed[i]
        elif i == 0 and 'first' in w.cfg:
            k = w.cfg['first']
        else:
            k = w.choose(w.cfg['top'] + 1)
        e, p = m.time_elapse.get_basis_matrix(k)
        seen.append((k, on, e, p))
    for k, on, e, p in seen:
        w.check_mat(e, to_l(oracle_exp(w, A, h, k)) if k else eye(n), 'state matrix of a step')
        if B is None or k == 0:
            w.check(p is None, 'no input effect expected')
            continue
        prev = to_l(oracle_exp(w, A, h, k - 1)) if k > 1 else eye(n)
        if on:
            hb = [[mk(v) * F(h) for v in r] for r in B]
            spec = [x + [mk(y) for y in z] for x, z in zip(matmul(prev, hb), prev)]
        else:
            spec = matmul(prev, one)
        w.check_mat(p, spec, 'input matrix of a step')
