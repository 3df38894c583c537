'''C21 Generated direction matrices are orthonormal and spanning'''

from .common import *

BOUNDS = {'quick': 'dimension 1..3 (4 and 5 without symbolic values): dynamics matrices full rank, nilpotent, singular, zero and with a symbolic entry; symbolic '
                   'points; projected matrices with fewer, as many and more rows than dimensions, dependent and zero rows, '
                   'symbolic entries; random completion vectors are arbitrary (up to 2 draws)',
          'thorough': 'two symbolic coordinates / entries in dimension 3'}
OUTSIDE = 'more than 2 random draws in one call, larger dimensions, several symbolic entries at once in dimension 3; rounding'

MATS = {
    'zero': [[0, 0], [0, 0]],
    'nilpotent': [[0, 1], [0, 0]],
    'skew': [[1, -1], [1, -1]],
    'rotation': [[0, 1], [-1, 0]],
    'full': [[1, 2], [0, -1]],
    'identity': [[1, 0], [0, 1]],
    'rank one': [[1, 2], [2, 4]],
    'scalar': [[2]],
    'scalar zero': [[0]],
    'chain': [[0, 1, 0], [0, 0, 1], [0, 0, 0]],
    'plane': [[0, 1, 0], [-1, 0, 0], [0, 0, 0]],
    'zero 3': [[0] * 3] * 3,
    'rank one 3': [[1, 1, 1], [0, 0, 0], [0, 0, 0]],
    'chain 4': [[0, 1, 0, 0], [0, 0, 1, 0], [0, 0, 0, 1], [0, 0, 0, 0]],
    'full 4': [[0, 0, 0, 1], [1, 0, 0, 0], [0, 1, 0, 1], [0, 0, 1, 0]],
    'blocks': [[1, 1, 0, 0], [-1, 1, 0, 0], [0, 0, 2, 0], [0, 0, 0, 0]],
    'chain 5': [[1, 1, 0, 0, 0], [0, 0, 1, 0, 0], [0, 0, 0, 1, 0], [0, 0, 0, 0, 1], [0, 0, 0, 0, 0]],
    'full 5': [[0, 0, 0, 0, 1], [1, 0, 0, 0, 0], [0, 1, 0, 0, 1], [0, 0, 1, 0, 0], [0, 0, 0, 1, 1]],
    'full 3': [[1, 0, 1], [0, 2, 0], [1, 1, 0]],
}
# None marks a symbolic entry
ROWS = {
    'square': [[None, 1], [1, None]],
    'dependent': [[1, 2], [2, 4], [0, None]],
    'more rows': [[1, None], [0, 1], [3, 1]],
    'zero row first': [[0, 0], [None, 1]],
    'all zero': [[0, 0], [0, 0]],
    'one row': [[None, 1]],
    'single dependent': [[1, 0], [2, 0]],
    'scalar rows': [[None], [1]],
    'no scalar': [[0], [0]],
    'wide': [[1, 0, None]],
    'wide two': [[3, 4, 0], [0, None, 0]],
    'lift': [[-6, -3, -9], [3, -6, -3]],
    'lift axes': [[1, 0, 1], [0, 1, 1]],
    'lift tail': [[0, 0, 2], [0, None, 2]],
    'three': [[1, 1, 0], [1, None, 0], [0, 1, 1]],
    'three plain': [[1, 1, 0], [1, 3, 0], [0, 1, 1]],
    'three dependent': [[1, 1, 0], [2, 2, 0], [1, 1, 0]],
    'four': [[1, 0, 0, 0], [1, 1, 0, 0], [1, 1, 1, 0], [1, 1, 1, 1]],
    'four dense': [[1, 1, 1, 1], [1, -1, 1, 0], [2, 1, 0, 1], [0, 1, 3, -1]],
    'five': [[1, 0, 0, 0, 0], [1, 1, 0, 0, 0], [1, 1, 1, 0, 0], [1, 1, 1, 1, 0], [1, 1, 1, 1, 1]],
    'five mixed': [[1, 0, 0, 0, 1], [1, 1, 0, 0, 0], [2, 1, 0, 0, 1], [0, 1, 1, 0, 0], [0, 0, 1, 1, 0], [1, 0, 0, 0, 2]],
    'none': [],
}


def scenarios(tier):
    out = []
    q = 2000 if tier == 'quick' else 10000
    for k in MATS:
        n = len(MATS[k])
        for s in range(n + 1) if tier != 'quick' else ((0, 1) if k in ('full', 'full 3') else ((1,) if n == 3 or n == 1 else (0,) if n >= 4 else (1, 2))):
            if k == 'full 3' and s and tier == 'quick' or n > 3 and s:
                continue
            out.append(sc('dynamics %s, %d symbolic coordinates' % (k, s), 'f_dyn', {'m': k, 's': s}, query_ms=q))
    out.append(sc('symbolic dynamics', 'f_symdyn', {'which': 0}, query_ms=q))
    out.append(sc('symbolic rotation', 'f_symdyn', {'which': 1}, query_ms=q))
    for k in ROWS:
        if k == 'three' and tier == 'quick':
            continue
        for flip in (0, 1):
            out.append(sc('rows %s%s' % (k, ' reversed' if flip else ''), 'f_rows', {'m': k, 'flip': flip}, query_ms=q))
    return out


def limit_random(w, n=2):
    w.sym_random()
    rnd = w.np.random
    orig, count = rnd.rand, [0]

    def rand(*shape):
        count[0] += 1
        w.assume(count[0] <= n)
        return orig(*shape)
    rnd.rand = rand


def check_dirs(w, m, n):
    w.check(tuple(m.shape) == (n, n), 'number of directions')
    rows = [[m[i, j] for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i + 1):
            t = mk(0)
            for a, b in zip(rows[i], rows[j]):
                t = t + mk(a) * b
            w.check_num(t, int(i == j), 'unit length' if i == j else 'orthogonality', tol=w.margin)


def f_dyn(w):
    A = MATS[w.cfg['m']]
    n, s = len(A), w.cfg['s']
    limit_random(w)
    pt = [w.real('p%d' % i, -4, 4) if i < s else [1, 2, -1, 3, 2][i] for i in range(n)]
    a = w.csr_matrix([[float(x) for x in r] for r in A])
    arr = w.np.array(pt, dtype=float) if w.choose(2) else pt
    m = w.mod('lputil').make_direction_matrix(arr, a)
    check_dirs(w, m, n)
    w.check_mat([list(arr)], [pt], 'the point afterwards')
    w.check_mat(a, A, 'the dynamics afterwards')


def f_symdyn(w):
    limit_random(w)
    if w.cfg['which']:
        a = w.real('a', -2, 2)
        A = [[0, a], [-mk(a) if w.is_sym else -a, 0]]
    else:
        A = [[w.real('a', -2, 2), 1], [0, 1]]
    m = w.mod('lputil').make_direction_matrix([1.0, 2.0], w.csr_matrix(A, dtype=float))
    check_dirs(w, m, 2)


def f_rows(w):
    M = ROWS[w.cfg['m']]
    n = len(M[0]) if M else 2
    limit_random(w)
    rows = [[w.real('e%d%d' % (i, j), -2, 2) if x is None else x for j, x in enumerate(r)] for i, r in enumerate(M)]
    if w.cfg['flip']:
        rows = rows[::-1]
    arr = w.np.array(rows, dtype=float) if M else w.np.zeros((0, n), dtype=float)
    m = w.mod('lputil').reorthogonalize_matrix(arr, n)
    check_dirs(w, m, n)
    if M:
        w.check_mat(arr, rows, 'the argument afterwards')
        first = next((r for r in rows if w.decide(cor(*[cor(cond_lt(F(1, 100) - mk(x)), cond_lt(mk(x) + F(1, 100))) for x in r]))),
                     None)
        if first is not None and first is rows[0]:
            # the first direction is the first row, scaled
            for i in range(n):
                for j in range(i):
                    w.check_num(mk(m[0, i]) * first[j] - mk(m[0, j]) * first[i], 0, 'first direction', tol=w.margin)
