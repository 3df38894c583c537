'''
The two worlds a scenario runs in.

SymWorld executes the hylaa sources with symbolic inputs; checks are discharged by z3 for all values on the path.
RealWorld executes the same scenario on the real hylaa, numpy, scipy and GLPK with concrete inputs; the oracles are the same
formulas with constants.  A violation is reported only when RealWorld confirms it.
'''

import importlib
import os
import sys
from fractions import Fraction

from . import sym, lpx
from .sym import Sym, mk, Cond, cond_le, cond_lt, cond_eq, cand, cor, cnot, PathEnd, Unsupported

import z3

GRID = 1 << 32


def quant(x):
    'rational close to a float on a fine dyadic grid (removes rounding noise); Sym is returned unchanged'
    if isinstance(x, Sym):
        return x
    if isinstance(x, Fraction):
        x = float(x)
    return mk(Fraction(round(Fraction(float(x)) * GRID), GRID))


class Refused(Exception):
    pass


class Failure(Exception):
    'a check failed in RealWorld'


class Poly:
    'a set of points over the columns vis, the projection of rows over all columns'

    __slots__ = ('rows', 'vis', '_proj')

    def __init__(self, rows, vis):
        self.rows = rows
        self.vis = list(vis)
        self._proj = None

    @property
    def dim(self):
        return len(self.vis)

    def proj(self):
        if self._proj is None:
            self._proj = lpx.project(self.rows, self.vis)
        return self._proj

    def contains(self, pt, margin=0):
        'condition: pt in the set (relaxed by margin)'
        p = self.proj()
        val = dict(zip(self.vis, [mk(x) for x in pt]))
        return lpx.rows_cond(p, val, margin)

    def nonempty(self):
        return lpx.feasible_cond(self.rows)

    def empty(self):
        return cnot(self.nonempty())


_CTR = [0]


def fresh_col(base='h'):
    _CTR[0] += 1
    return '%s#%d' % (base, _CTR[0])


def reset_cols():
    _CTR[0] = 0


def row(co, rhs, eq=False):
    return lpx.make_row({k: mk(v) for k, v in co.items()}, mk(rhs), eq)


def le_rows(cols, mat, rhs):
    'mat . cols <= rhs'
    return [row(dict(zip(cols, r)), b) for r, b in zip(mat, rhs)]


def box_rows(cols, box):
    out = []
    for c, (lo, hi) in zip(cols, box):
        out.append(row({c: 1}, hi))
        out.append(row({c: -1}, -mk(lo)))
    return out


def new_cols(n, base='v'):
    return [fresh_col(base) for _ in range(n)]


def box(b):
    cols = new_cols(len(b), 'x')
    return Poly(box_rows(cols, b), cols)


def from_ineq(mat, rhs, n=None):
    n = n if n is not None else len(mat[0])
    cols = new_cols(n, 'x')
    return Poly(le_rows(cols, mat, rhs), cols)


def constrain(p, mat, rhs):
    'p and mat x <= rhs'
    return Poly(p.rows + le_rows(p.vis, mat, rhs), p.vis)


def image(p, mat, shift=None, extra=None):
    '{ mat x + shift + M y : x in p, C y <= d }, extra = (M, C, d)'
    m = len(mat)
    cols = new_cols(m, 'y')
    rows = list(p.rows)
    ys = []
    if extra is not None:
        M, C, d = extra
        k = len(M[0]) if M else 0
        ys = new_cols(k, 'u')
        rows += le_rows(ys, C, d)
    for i in range(m):
        co = {}
        for j, c in enumerate(p.vis):
            co[c] = mk(mat[i][j])
        for j, c in enumerate(ys):
            co[c] = mk(extra[0][i][j])
        co[cols[i]] = mk(-1)
        rows.append(row(co, -mk(shift[i]) if shift is not None else 0, True))
    return Poly(rows, cols)


def matmul(a, b):
    return [[sum((mk(a[i][k]) * b[k][j] for k in range(len(b))), mk(0)) for j in range(len(b[0]))]
            for i in range(len(a))]


def matvec(a, x):
    return [sum((mk(a[i][k]) * x[k] for k in range(len(x))), mk(0)) for i in range(len(a))]


def eye(n):
    return [[1 if i == j else 0 for j in range(n)] for i in range(n)]


def hull2(p, q):
    'closed convex hull of two non-empty polytopes'
    n = p.dim
    vis = new_cols(n, 'h')
    lam = fresh_col('lam')
    rows = []

    def scaled(pp, flip):
        m = {}
        out = []
        for r in pp.rows:
            co = {}
            for c, v in r.co.items():
                if c not in m:
                    m[c] = fresh_col('s')
                co[m[c]] = v
            # coeffs . z <= rhs * lam   (lam or 1 - lam)
            if flip:
                co[lam] = lpx.csimp(r.rhs)
                out.append(lpx.make_row(co, r.rhs, r.eq))
            else:
                co[lam] = lpx.csimp(-r.rhs)
                out.append(lpx.make_row(co, 0, r.eq))
        return out, [m.setdefault(c, fresh_col('s')) for c in pp.vis]
    r1, v1 = scaled(p, False)
    r2, v2 = scaled(q, True)
    rows = r1 + r2 + [row({lam: 1}, 1), row({lam: -1}, 0)]
    for i in range(n):
        rows.append(row({vis[i]: 1, v1[i]: -1, v2[i]: -1}, 0, True))
    return Poly(rows, vis)


class World:
    'common to both worlds'

    is_sym = True
    margin = Fraction(1, 64)

    # ---- sets of LPs

    def rows(self, lpi):
        raise NotImplementedError

    def poly(self, lpi):
        'the set of current-time states of an LpInstance'
        return Poly(self.rows(lpi), [lpi.cur_vars_offset + i for i in range(lpi.dims)])

    def vertices(self, on=True):
        'optimal points are taken from the corners of the optimal face (as a simplex solver returns)'
        if self.is_sym:
            self.glpk.vertices = on

    # ---- checks

    def check_subset(self, a, b, label, margin=None):
        'every point of a lies in b (up to the margin)'
        if margin is None:
            margin = self.margin
        assert a.dim == b.dim, (a.dim, b.dim)
        cols = {}
        for r in a.rows:
            for c in r.co:
                cols.setdefault(c, None)
        for c in a.vis:
            cols.setdefault(c, None)
        val = {c: self.eng.fresh('wit') for c in cols}
        prem = lpx.rows_cond(a.rows, val)
        bv = dict(zip(b.vis, [val[c] for c in a.vis]))
        self.last_witness = [val[c] for c in a.vis]
        for r in b.proj():
            if r.eq:
                d = -r.rhs
                for c, v in r.co.items():
                    d = d + bv[c] * v
                s = self._row_scale(r)
                self.check(cor(cnot(prem), cond_le(d - margin * s)), label, wit=self.last_witness)
                self.check(cor(cnot(prem), cond_le(-d - margin * s)), label, wit=self.last_witness)
            else:
                s = self._row_scale(r)
                self.check(cor(cnot(prem), lpx.row_cond(r, bv, margin * s)), label, wit=self.last_witness)

    @staticmethod
    def _row_scale(r):
        t = [abs(v) for v in r.co.values() if isinstance(v, Fraction)]
        return max(t) if t else 1

    def check_lower(self, p, d, v, label, margin=None):
        'd . x >= v (up to the margin) for every x in p'
        margin = self.margin if margin is None else margin
        cols = {}
        for r in p.rows:
            for c in r.co:
                cols.setdefault(c, None)
        for c in p.vis:
            cols.setdefault(c, None)
        val = {c: self.eng.fresh('wit') for c in cols}
        prem = lpx.rows_cond(p.rows, val)
        t = mk(v) - margin
        for c, k in zip(p.vis, d):
            t = t - mk(k) * val[c]
        self.check(cor(cnot(prem), cond_le(t)), label, wit=[val[c] for c in p.vis])

    def check_min(self, p, d, v, label, margin=None):
        'v is the minimum of d . x over p'
        self.check_lower(p, d, v, label + ' (not a lower bound)', margin)
        margin = self.margin if margin is None else margin
        q = Poly(p.rows + [row(dict(zip(p.vis, d)), mk(v) + margin)], p.vis)
        self.check(q.nonempty(), label + ' (not attained)')

    def check_point(self, p, pt, label, margin=None):
        self.check(p.contains(pt, self.margin if margin is None else margin), label, wit=[mk(x) for x in pt])

    def check_equal(self, a, b, label, margin=None):
        self.check_subset(a, b, label + ' (extra states)', margin)
        self.check_subset(b, a, label + ' (missing states)', margin)

    def check_num(self, x, y, label, tol=None):
        'two numbers are equal (up to tol)'
        tol = self.num_tol if tol is None else tol
        d = self.eng.reduce(mk(x) - mk(y))
        if tol == 0:
            self.check(cond_eq(d), label)
        else:
            self.check(cand(cond_le(d - tol), cond_le(-d - tol)), label)

    def check_mat(self, a, b, label, tol=None):
        la, lb = to_lists(a), to_lists(b)
        self.check(len(la) == len(lb) and all(len(x) == len(y) for x, y in zip(la, lb)), label + ' (shape)')
        tol = self.num_tol if tol is None else tol
        cs = []
        for x, y in zip(la, lb):
            for p, q in zip(x, y):
                d = mk(p) - mk(q)
                cs.append(cond_eq(d) if tol == 0 else cand(cond_le(d - tol), cond_le(-d - tol)))
        self.check(cand(cs), label)

    def fail(self, label):
        self.check(False, label)

    def refuses(self, fn, label, excs=(AssertionError, RuntimeError, ValueError, TypeError, IndexError, KeyError,
                                       sym.GlpkAbort)):
        'fn must raise'
        try:
            fn()
        except excs:
            return
        self.check(False, label)


def to_lists(a):
    if hasattr(a, 'toarray'):
        a = a.toarray()
    r = [list(x) if hasattr(x, '__len__') else [x] for x in a]
    return r


class SymWorld(World):
    is_sym = True
    num_tol = 0

    def __init__(self, eng, cfg, sympy_shim=None):
        from . import loader
        self.eng = eng
        self.cfg = cfg
        self.L = loader.SymModules(sympy_shim)
        self.np = self.L.np
        self.glpk = self.L.glpk
        self.sp = self.L.sp
        self.csr_matrix = self.L.sp.sparse.csr_matrix
        self.csc_matrix = self.L.sp.sparse.csc_matrix
        self.params = []
        self.choices = []
        self.candidates = []
        self.undecided = []
        self.nchecks = 0
        self.last_witness = None
        self.labels_seen = set()

    def mod(self, name):
        return self.L.load(name)

    def real(self, name, lo=None, hi=None, dy=None):
        v = self.eng.var('p_' + name)
        if any(n == name for n, _ in self.params):
            raise RuntimeError('parameter %s is used twice' % name)
        self.params.append((name, v))
        if lo is not None:
            self.eng.assume(cond_le(mk(lo) - v))
        if hi is not None:
            self.eng.assume(cond_le(v - mk(hi)))
        return v

    def choose(self, n, label='choice'):
        v = self.eng.choose(n, label)
        self.choices.append(v)
        return v

    def assume(self, c):
        self.eng.assume(c)
        if isinstance(c, Cond):
            self.eng.require_feasible()

    def decide(self, c):
        'case split on an oracle condition'
        return bool(c)

    def rows(self, lpi):
        from . import glpkshim
        return glpkshim.rows_of(lpi.lp)

    def set_fault(self, hook):
        self.glpk.fault_hook = hook

    def sym_random(self, on=True):
        'arbitrary random numbers in [0, 1); returns the list of the numbers drawn'
        self.np.random.sym_random = on
        return self.np.random.draws

    def check(self, c, label, wit=None):
        'c must hold for all values on this path'
        self.nchecks += 1
        self.eng.stats['checks'] += 1
        if label in self.skip_labels:
            return
        if c is True:
            self.eng.stats['trivial'] = self.eng.stats.get('trivial', 0) + 1
            return
        if isinstance(c, Cond):
            neg = [cnot(c)]
        elif c:
            return
        else:
            neg = []
        r, m = self.eng.model_for(neg)
        if r == z3.unsat:
            self.eng.stats['discharged'] += 1
            if not neg:
                raise PathEnd()
            return
        if r == z3.unknown:
            self.undecided.append(label)
            return
        self.candidates.append({'label': label, 'neg': neg, 'models': self.models(neg, m), 'choices': list(self.choices),
                                'wit': self._wit(m, wit), 'rand': self._rand(m)})
        raise CandidateFound()

    skip_labels = frozenset()

    def _wit(self, m, wit):
        if not wit:
            return None
        try:
            return [float(self.eng.value(m, w)) for w in wit]
        except Exception:       # pylint: disable=broad-except
            return None

    def _rand(self, m):
        out = []
        i = 0
        while 'rand!%d' % i in self.eng.name_to_id and i < self.eng.fresh_count.get('rand', 0):
            out.append(float(self.eng.value(m, self.eng.var('rand!%d' % i))))
            i += 1
        return out

    def models(self, neg, m):
        'parameter assignments (lists of exact fractions as strings): a nice one first, then the raw one'
        out = []
        seen = set()
        params = []
        for n, v in self.params:
            if n not in seen:
                seen.add(n)
                params.append((n, v))
        i = 0
        while 'rand!%d' % i in self.eng.name_to_id and i < self.eng.fresh_count.get('rand', 0):
            params.append(('rand!%d' % i, self.eng.var('rand!%d' % i)))
            i += 1
        raw = {n: self.eng.value(m, v) for n, v in params}
        # snap parameters to coarse grids while the failing query stays satisfiable
        extra = list(neg)
        cur = dict(raw)
        ok = True
        for n, v in params:
            done = False
            for g in (1, 4, 64, 1024, 1 << 20):
                val = Fraction(round(cur[n] * g), g)
                r, m2 = self.eng.model_for(extra + [cond_eq(v - val)])
                if r == z3.sat:
                    extra.append(cond_eq(v - val))
                    cur = {k: self.eng.value(m2, w) for k, w in params}
                    done = True
                    break
            if not done:
                ok = False
        out.append({k: str(cur[k]) for k in cur})
        if cur != raw:
            out.append({k: str(raw[k]) for k in raw})
        _ = ok
        # a generic one: distinct values different from zero where that is possible
        extra, far = list(neg), None
        for i, (n, v) in enumerate(params):
            for val in (Fraction(8 + i, 16 + i), Fraction(-8 - i, 16 + i), Fraction(17 + i, 12), Fraction(-17 - i, 12)):
                r, m2 = self.eng.model_for(extra + [cond_eq(v - val)])
                if r == z3.sat:
                    extra.append(cond_eq(v - val))
                    far = m2
                    break
        if far is not None:
            out.append({n: str(self.eng.value(far, v)) for n, v in params})
        return out

    def exception_candidate(self, e, tb):
        'the code under test raised on inputs it should accept'
        r, m = self.eng.model_for([])
        if r == z3.unsat:
            return False
        if r == z3.unknown:
            self.undecided.append('exception')
            return False
        self.candidates.append({'label': 'unexpected %s: %s' % (type(e).__name__, str(e)[:200]), 'neg': [],
                                'models': self.models([], m), 'choices': list(self.choices), 'wit': None,
                                'tb': tb, 'rand': self._rand(m)})
        return True


class CandidateFound(BaseException):
    pass


class RealWorld(World):
    is_sym = False
    margin = Fraction(1, 128)
    num_tol = Fraction(1, 1 << 20)

    def __init__(self, eng, cfg, params, choices, rand=None):
        import numpy
        import scipy
        import scipy.sparse
        import swiglpk
        from . import checkedarrays
        checkedarrays.checked_arrays(swiglpk)
        self.eng = eng
        self.cfg = cfg
        self.np = numpy
        self.sp = scipy
        self.glpk = swiglpk
        self.csr_matrix = scipy.sparse.csr_matrix
        self.csc_matrix = scipy.sparse.csc_matrix
        self.pvals = params
        self.chs = list(choices)
        self.failures = []
        self.last_witness = None
        self.rand = list(rand or [])
        self.nchecks = 0

    def mod(self, name):
        return importlib.import_module('hylaa.' + name if name else 'hylaa')

    def real(self, name, lo=None, hi=None, dy=None):
        v = float(Fraction(self.pvals[name])) if name in self.pvals else float(lo if lo is not None else 0)
        if lo is not None and mk(v) < mk(lo) - Fraction(1, 1 << 30):
            raise PathEnd()
        if hi is not None and mk(v) > mk(hi) + Fraction(1, 1 << 30):
            raise PathEnd()
        return v

    def choose(self, n, label='choice'):
        return self.chs.pop(0) if self.chs else 0

    def assume(self, c):
        if isinstance(c, Cond):
            self.eng.assume(c)
            self.eng.require_feasible()
        elif not c:
            raise PathEnd()

    def decide(self, c):
        return bool(c)

    def set_fault(self, hook):
        'wrap glp_simplex as seen by hylaa with a fault schedule'
        lpm = self.mod('lpinstance')
        real = sys.modules['swiglpk']

        class Proxy:
            def __init__(self):
                self.calls = 0
                self.forced = {}

            def __getattr__(self, n):
                return getattr(real, n)

            def glp_simplex(self, lp, p):
                k = self.calls
                self.calls += 1
                self.forced.pop(int(lp), None)
                f = hook(k, lp) if hook is not None else None
                if f is not None and f[0] == 'ret':
                    self.forced[int(lp)] = f[2] if len(f) > 2 else real.GLP_UNDEF
                    return f[1]
                if f is not None and f[0] == 'status':
                    self.forced[int(lp)] = f[1]
                    return 0
                return real.glp_simplex(lp, p)

            def glp_get_status(self, lp):
                if int(lp) in self.forced:
                    return self.forced[int(lp)]
                return real.glp_get_status(lp)
        lpm.glpk = Proxy()

    def sym_random(self, on=True):
        draws = []
        if on:
            vals = self.rand
            if 'rand!0' in self.pvals:
                vals = []
                while 'rand!%d' % len(vals) in self.pvals:
                    vals.append(float(Fraction(self.pvals['rand!%d' % len(vals)])))

            def rand(*shape):
                n = 1
                for s in shape:
                    n *= s
                out = [vals.pop(0) if vals else 0.5 for _ in range(n)]
                draws.extend(out)
                if not shape:
                    return out[0]
                return self.np.array(out, dtype=float).reshape(shape)
            def random(size=None):
                return rand(*(size if isinstance(size, tuple) else ((size,) if size is not None else ())))

            def uniform(low=0.0, high=1.0, size=None):
                if size is None and not (self.np.isscalar(low) and self.np.isscalar(high)):
                    size = self.np.broadcast(self.np.asarray(low), self.np.asarray(high)).shape
                return random(size) * (self.np.asarray(high) - self.np.asarray(low)) + low
            r = self.np.random
            r.rand, r.random, r.random_sample, r.ranf, r.sample, r.uniform = rand, random, random, random, random, uniform
            r.default_rng = lambda *a: r
        return draws

    def rows(self, lpi):
        import swiglpk as g
        lp = lpi.lp
        n = g.glp_get_num_cols(lp)
        ind, val = g.intArray(n + 1), g.doubleArray(n + 1)
        rows = []

        def add(el, ty, lb, ub):
            if ty == g.GLP_FX:
                rows.append(lpx.make_row(el, quant(lb), True))
            if ty in (g.GLP_UP, g.GLP_DB) and ub < 1e300:
                rows.append(lpx.make_row(el, quant(ub), False))
            if ty in (g.GLP_LO, g.GLP_DB) and lb > -1e300:
                rows.append(lpx.make_row({k: -v for k, v in el.items()}, -quant(lb), False))
        for i in range(1, g.glp_get_num_rows(lp) + 1):
            k = g.glp_get_mat_row(lp, i, ind, val)
            el = {ind[t] - 1: quant(val[t]) for t in range(1, k + 1)}
            add(el, g.glp_get_row_type(lp, i), g.glp_get_row_lb(lp, i), g.glp_get_row_ub(lp, i))
        for j in range(1, n + 1):
            ty = g.glp_get_col_type(lp, j)
            if ty != g.GLP_FR:
                add({j - 1: mk(1)}, ty, g.glp_get_col_lb(lp, j), g.glp_get_col_ub(lp, j))
        return rows

    def check(self, c, label, wit=None):
        self.nchecks += 1
        if isinstance(c, Cond):
            r, m = self.eng.model_for([cnot(c)])
            if r == z3.sat:
                w = [float(self.eng.value(m, x)) for x in wit] if wit else None
                self.failures.append({'label': label, 'wit': w})
                raise Failure(label)
            if r == z3.unknown:
                raise Unsupported('oracle query unknown in replay')
        elif not c:
            self.failures.append({'label': label, 'wit': None})
            raise Failure(label)
