'''C01 The linear-program store keeps exactly what was put into it'''

from .common import *

BOUNDS = {'quick': 'histories of 3 operations (after an initial block of 2 columns and 2 rows) over 9 operation kinds with '
                   'every offset that fits, symbolic matrix entries and right-hand sides in [-8, 8], clone at any point; blocks of two sparse lines over stored entries (7 patterns '
                   'each, also empty or unordered)',
          'thorough': 'the same with histories of 4 operations'}
OUTSIDE = 'longer histories, larger programs, coefficient ranges beyond 8'

KINDS = ['cols', 'le', 'types', 'eq0', 'csr', 'csc', 'rhs', 'clone', 'swig']


def scenarios(tier):
    n = 3 if tier == 'quick' else 4
    out = []
    for i, k in enumerate(KINDS):
        if n == 3:
            out.append(sc('history %s' % k, 'f_hist', {'first': [i], 'n': n}))
        else:
            for j, k2 in enumerate(KINDS):
                out.append(sc('history %s %s' % (k, k2), 'f_hist', {'first': [i, j], 'n': n}))
    for kind in ('csr', 'csc', 'swig'):
        out.append(sc('sparse block over old entries ' + kind, 'f_sparse', {'kind': kind}))
    out.append(sc('out of bounds refused', 'f_oob'))
    out.append(sc('typed rows', 'f_types'))
    out.append(sc('duplicate reads', 'f_windows'))
    return out


class Model:
    def __init__(self):
        self.m = []         # dense rows
        self.types = []
        self.rhs = []
        self.ncols = 0

    def copy(self):
        r = Model()
        r.m = [list(x) for x in self.m]
        r.types = list(self.types)
        r.rhs = list(self.rhs)
        r.ncols = self.ncols
        return r

    def add_cols(self, k):
        self.ncols += k
        for r in self.m:
            r.extend([0] * k)

    def add_row(self, t, b):
        self.m.append([0] * self.ncols)
        self.types.append(t)
        self.rhs.append(b)


def csr_block(w, blk):
    'explicit construction (no zero dropping)'
    data, inds, ptr = [], [], [0]
    for r in blk:
        for j, v in enumerate(r):
            data.append(v)
            inds.append(j)
        ptr.append(len(data))
    return w.csr_matrix((data, inds, ptr), shape=(len(blk), len(blk[0])), dtype=float)


def csc_block(w, blk):
    data, inds, ptr = [], [], [0]
    for j in range(len(blk[0])):
        for i in reversed(range(len(blk))):
            data.append(blk[i][j])
            inds.append(i)
        ptr.append(len(data))
    return w.csc_matrix((data, inds, ptr), shape=(len(blk), len(blk[0])), dtype=float)


def vals(w, tag, n):
    return [w.real('%s_%d' % (tag, i), -8, 8) for i in range(n)]


def apply(w, kind, tag, lpi, mo):
    g = w.glpk
    if kind == 'cols':
        k = 1 + w.choose(2)
        lpi.add_cols(['%s%d' % (tag, i) for i in range(k)])
        mo.add_cols(k)
    elif kind == 'le':
        v = vals(w, tag, 2)
        if w.choose(2):
            lpi.add_rows_less_equal(list(v))
        else:
            lpi.add_rows_less_equal(w.np.array(v, dtype=float))
        for x in v:
            mo.add_row(g.GLP_UP, x)
    elif kind == 'types':
        v = vals(w, tag, 2)
        ts = [g.GLP_UP, g.GLP_LO, g.GLP_FX]
        t = [ts[w.choose(3)], ts[w.choose(3)]]
        lpi.add_rows_with_types(t, list(v))
        for x, y in zip(t, v):
            mo.add_row(x, y)
    elif kind == 'eq0':
        lpi.add_rows_equal_zero(1)
        mo.add_row(g.GLP_FX, 0)
    elif kind in ('csr', 'csc'):
        R, C = len(mo.m), mo.ncols
        h = 2 if kind == 'csr' and w.choose(2) else 1
        wd = 2 if kind == 'csc' and w.choose(2) else min(2, C)
        if kind == 'csc':
            h = R - w.choose(2)
        r0 = w.choose(R - h + 1)
        c0 = w.choose(C - wd + 1)
        v = vals(w, tag, h * wd)
        blk = [v[i * wd:(i + 1) * wd] for i in range(h)]
        off = (r0, c0) if (r0, c0) != (0, 0) else None
        if kind == 'csr':
            lpi.set_constraints_csr(csr_block(w, blk), offset=off)
            for i in range(h):
                mo.m[r0 + i] = [0] * C
        else:
            lpi.set_constraints_csc(csc_block(w, blk), offset=off)
            for i in range(R):
                for j in range(wd):
                    mo.m[i][c0 + j] = 0
        for i in range(h):
            for j in range(wd):
                mo.m[r0 + i][c0 + j] = blk[i][j]
    elif kind == 'rhs':
        i = w.choose(len(mo.m))
        x = w.real(tag + '_r', -8, 8)
        lpi.set_constraint_rhs(i, x)
        mo.rhs[i] = x
    elif kind == 'swig':
        S = w.mod('lpinstance').SwigArray
        i = w.choose(len(mo.m))
        v = vals(w, tag, mo.ncols)
        lpi.set_constraints_swigvec_rows([S.as_double_array(list(v))],
                                         [S.as_int_array([j + 1 for j in range(mo.ncols)])], [mo.ncols], i)
        mo.m[i] = list(v)


def compare(w, lpi, mo, what):
    R, C = len(mo.m), mo.ncols
    w.check(lpi.get_num_rows() == R and lpi.get_num_cols() == C, what + ': size')
    w.check_mat(lpi.get_full_constraints(), mo.m, what + ': matrix')
    w.check(list(lpi.get_types()) == mo.types, what + ': row types')
    w.check_mat([list(lpi.get_rhs())], [mo.rhs], what + ': right-hand sides')
    for i in range(R):
        w.check_mat(lpi.get_row(i), [mo.m[i]], what + ': single row')
    idx = list(range(R))[::-1]
    w.check_mat([list(lpi.get_rhs(idx))], [[mo.rhs[i] for i in idx]], what + ': selected right-hand sides')
    w.check_mat([list(lpi.get_rhs([R - 1]))], [[mo.rhs[R - 1]]], what + ': selected right-hand sides')
    w.check(len(lpi.get_rhs([])) == 0, what + ': no selected right-hand sides')
    if C > 1 and R > 1:
        w.check_mat(lpi.get_dense_constraints(1, 1, C - 1, R - 1), [r[1:] for r in mo.m[1:]], what + ': window')
        w.check_mat(lpi.get_dense_constraints(0, 0, C - 1, R - 1), [r[:-1] for r in mo.m[:-1]], what + ': window')


def base(w):
    lpi = w.mod('lpinstance').LpInstance()
    mo = Model()
    lpi.add_cols(['a', 'b'])
    mo.add_cols(2)
    v = vals(w, 'b', 6)
    lpi.add_rows_less_equal(v[:2])
    mo.add_row(w.glpk.GLP_UP, v[0])
    mo.add_row(w.glpk.GLP_UP, v[1])
    lpi.set_constraints_csr(csr_block(w, [v[2:4], v[4:6]]))
    mo.m = [v[2:4], v[4:6]]
    return lpi, mo


def f_hist(w):
    lpi, mo = base(w)
    lpi.set_reach_vars(0, (0, 0), 0, None)
    first = w.cfg['first']
    clones = []
    for s in range(w.cfg['n']):
        k = KINDS[first[s]] if s < len(first) else KINDS[w.choose(len(KINDS))]
        if k == 'clone':
            c = lpi.clone()
            if w.choose(2):
                # continue on the clone; the original must stay as it was
                clones.append((lpi, mo.copy()))
                lpi = c
            else:
                clones.append((c, mo.copy()))
        else:
            apply(w, k, 's%d' % s, lpi, mo)
    compare(w, lpi, mo, 'program')
    for c, m in clones:
        compare(w, c, m, 'other copy')


PATTERNS = [[], [0], [1], [2], [0, 2], [2, 0], [1, 2, 0]]


def f_sparse(w):
    'blocks with empty lines, missing entries and entries in any order replace everything that was stored in their lines'
    kind = w.cfg['kind']
    lpi, mo = base(w)
    lpi.set_reach_vars(0, (0, 0), 0, None)
    lpi.add_cols(['c'])
    mo.add_cols(1)
    v = vals(w, 'd', 2)
    lpi.add_rows_with_types([w.glpk.GLP_FX], v[:1])
    mo.add_row(w.glpk.GLP_FX, v[0])
    lpi.set_constraints_csr(csr_block(w, [[v[1], 7, v[0]]]), offset=(2, 0))
    mo.m[2] = [v[1], 7, v[0]]
    first = w.choose(2)
    pats = [PATTERNS[w.choose(len(PATTERNS))] for _ in range(2)]
    data, inds, ptr = [], [], [0]
    for k, pat in enumerate(pats):
        for j in pat:
            x = w.real('p%d%d' % (k, j), -8, 8)
            data.append(x)
            inds.append(j)
        ptr.append(len(data))
    if kind == 'csr':
        lpi.set_constraints_csr(w.csr_matrix((data, inds, ptr), shape=(2, 3), dtype=float), offset=(first, 0))
    elif kind == 'csc':
        lpi.set_constraints_csc(w.csc_matrix((data, inds, ptr), shape=(3, 2), dtype=float), offset=(0, first))
    else:
        S = w.mod('lpinstance').SwigArray
        lpi.set_constraints_swigvec_rows([S.as_double_array(data[ptr[k]:ptr[k + 1]]) for k in range(2)],
                                         [S.as_int_array([j + 1 for j in inds[ptr[k]:ptr[k + 1]]]) for k in range(2)],
                                         [len(p) for p in pats], first)
    for k, pat in enumerate(pats):
        for j in range(3):
            x = data[ptr[k] + pat.index(j)] if j in pat else 0
            if kind == 'csc':
                mo.m[j][first + k] = x
            else:
                mo.m[first + k][j] = x
    compare(w, lpi, mo, 'program')
    compare(w, lpi.clone(), mo, 'copy')


def f_oob(w):
    lpi, mo = base(w)
    lpi.set_reach_vars(0, (0, 0), 0, None)
    r0 = w.choose(5) - 1
    c0 = w.choose(5) - 1
    h, wd = 1 + w.choose(2), 1 + w.choose(2)
    v = vals(w, 'o', h * wd)
    if r0 < 0 or c0 < 0:
        # a place before the first row or column, with a block that has nothing to write there
        v = [v, [0] * (h * wd)][w.choose(2)]
    blk = [v[i * wd:(i + 1) * wd] for i in range(h)]
    fits = r0 + h <= 2 and c0 + wd <= 2 and min(r0, c0) >= 0
    for kind in ('csr', 'csc'):
        if fits:
            continue
        if kind == 'csr':
            w.refuses(lambda: lpi.set_constraints_csr(csr_block(w, blk), offset=(r0, c0)), 'row block accepted')
        else:
            w.refuses(lambda: lpi.set_constraints_csc(csc_block(w, blk), offset=(r0, c0)), 'column block accepted')
    for bad in (-1, 2, 3):
        w.refuses(lambda: lpi.set_constraint_rhs(bad, v[0]), 'rhs of a missing row accepted')
    compare(w, lpi, mo, 'after refused blocks')


def f_types(w):
    lpi, mo = base(w)
    apply(w, 'types', 't', lpi, mo)
    apply(w, 'rhs', 'u', lpi, mo)
    compare(w, lpi, mo, 'typed rows')
    # the denoted set is what the types say
    cols = [0, 1]
    rows = []
    g = w.glpk
    for r, t, b in zip(mo.m, mo.types, mo.rhs):
        d = dict(zip(cols, r))
        if t == g.GLP_FX:
            rows.append(row(d, b, True))
        elif t == g.GLP_UP:
            rows.append(row(d, b))
        else:
            rows.append(row({c: -mk(x) for c, x in d.items()}, -mk(b)))
    got = w.rows(lpi)
    w.check(len(got) == len(rows), 'number of constraints')
    for a, b in zip(got, rows):
        w.check(a.eq == b.eq and set(a.co) == set(b.co) or bool(not w.is_sym), 'constraint kind')
        w.check_mat([[a.co.get(c, 0) for c in cols] + [a.rhs]], [[b.co.get(c, 0) for c in cols] + [b.rhs]], 'constraint')


def f_windows(w):
    lpi, mo = base(w)
    apply(w, 'cols', 'c', lpi, mo)
    apply(w, 'csr', 'd', lpi, mo)
    apply(w, 'eq0', 'e', lpi, mo)
    R, C = len(mo.m), mo.ncols
    x, y = w.choose(C), w.choose(R)
    wd, h = 1 + w.choose(C - x), 1 + w.choose(R - y)
    w.check_mat(lpi.get_dense_constraints(x, y, wd, h), [r[x:x + wd] for r in mo.m[y:y + h]], 'dense window')
    compare(w, lpi, mo, 'after reads')
