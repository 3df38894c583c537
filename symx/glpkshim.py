'''
Model of the part of the GLPK C API used through swiglpk.

The problem store (rows, columns, bounds, element order, zero dropping, argument checking) mimics GLPK 5.0; the simplex
routine is an exact oracle: it eliminates all columns symbolically, so that its verdict (optimal / infeasible / unbounded)
and the optimum are known as functions of the symbolic data, and returns an arbitrary optimal point.
'''

import swiglpk as _real

from fractions import Fraction

from . import sym, lpx
from .sym import Sym, mk, cond_le, cond_eq, cand, cor, GlpkAbort, Unsupported

DBL_MAX = 1.7976931348623157e+308
GLP_FR, GLP_LO, GLP_UP, GLP_DB, GLP_FX = 1, 2, 3, 4, 5


def abort(msg):
    raise GlpkAbort(msg)


def _int(x, what=''):
    if isinstance(x, bool) or type(x) is int:
        return int(x)
    raise TypeError("in method '%s', argument of type 'int'" % what)


def _dbl(x, what=''):
    if isinstance(x, Sym):
        return sym.simp(x)
    if isinstance(x, (float, int)):
        return float(x)
    raise TypeError("in method '%s', argument of type 'double'" % what)


class intArray:
    def __init__(self, n):
        self.d = [0] * n

    def __getitem__(self, i):
        if not 0 <= i < len(self.d):
            raise IndexError('list index out of range')
        return self.d[i]

    def __setitem__(self, i, v):
        if not 0 <= i < len(self.d):
            raise IndexError('list assignment index out of range')
        self.d[i] = v


class doubleArray(intArray):
    def __init__(self, n):
        self.d = [0.0] * n


def as_intArray(lst):
    for x in lst:
        if type(x) is not int:
            raise SystemError('as_intArray: list must contain ints')
    a = intArray(1)
    a.d = [0] + list(lst)
    return a


def as_doubleArray(lst):
    for x in lst:
        if not isinstance(x, (float, Sym)):
            raise SystemError('as_doubleArray: list must contain floats')
    a = doubleArray(1)
    a.d = [0.0] + [sym.simp(x) if isinstance(x, Sym) else float(x) for x in lst]
    return a


class Prob:
    def __init__(self, owner=None):
        self.owner = owner
        self.rows = []      # each: {'el': [(col, val)] head first, 'type', 'lb', 'ub'}
        self.cols = []      # each: {'el': [row indices] , 'type','lb','ub'}
        self.obj = {}       # col -> coef
        self.obj_const = 0.0
        self.dir = _real.GLP_MIN
        self.status = _real.GLP_UNDEF
        self.sol = None     # list of values, or None when not yet materialised
        self.lazy = None
        self.it = 0
        self.deleted = False


def _chk(lp):
    if not isinstance(lp, Prob):
        raise TypeError('expected glp_prob')
    if lp.deleted:
        abort('use of deleted problem')


class Glpk:
    'one instance per path; used as the module object "swiglpk"'

    def __init__(self):
        self.intArray = intArray
        self.doubleArray = doubleArray
        self.as_intArray = as_intArray
        self.as_doubleArray = as_doubleArray
        self.fault_hook = None   # callable(call_index) -> None | ('ret', code) | ('status', code)
        self.calls = 0
        self.live = 0
        self.policy = None
        self.ties = 0
        self.vertices = False    # optimal points are corners (chosen per column), not arbitrary

    def tie(self):
        'which end of an edge is returned: always the lower, always the upper, or alternating (chosen once per path)'
        if self.policy is None:
            self.policy = sym.ENG.choose(4, 'corner')
        self.ties += 1
        return (0, 1, self.ties % 2, (self.ties + 1) % 2)[self.policy]

    def __getattr__(self, name):
        if name.startswith('GLP_'):
            return getattr(_real, name)
        if name.startswith('glp_') and hasattr(_real, name):
            raise Unsupported('GLPK routine not modelled: ' + name)
        raise AttributeError(name)

    # ---- problem

    def glp_create_prob(self):
        self.live += 1
        return Prob(self)

    def glp_delete_prob(self, lp):
        _chk(lp)
        lp.deleted = True
        self.live -= 1

    def glp_erase_prob(self, lp):
        _chk(lp)
        lp.__init__(lp.owner)

    def glp_set_prob_name(self, lp, name):
        pass

    def glp_set_row_name(self, lp, i, name):
        pass

    def glp_set_col_name(self, lp, i, name):
        pass

    def glp_copy_prob(self, dest, prob, names):
        _chk(dest)
        _chk(prob)
        if dest is prob:
            abort('copy onto itself')
        dest.rows = [{'el': [], 'type': r['type'], 'lb': r['lb'], 'ub': r['ub']} for r in prob.rows]
        dest.cols = [{'el': [], 'type': c['type'], 'lb': c['lb'], 'ub': c['ub']} for c in prob.cols]
        for j in range(len(prob.cols)):
            for i in prob.cols[j]['el']:
                v = dict(prob.rows[i]['el'])[j]
                dest.rows[i]['el'].insert(0, (j, v))
                dest.cols[j]['el'].insert(0, i)
        dest.obj = dict(prob.obj)
        dest.obj_const = prob.obj_const
        dest.dir = prob.dir
        dest.status = prob.status
        dest.sol = prob.sol
        dest.lazy = prob.lazy
        dest.it = prob.it

    def glp_add_rows(self, lp, n):
        _chk(lp)
        n = _int(n, 'glp_add_rows')
        if n < 1:
            abort('glp_add_rows: nrs = %d; invalid number of rows' % n)
        first = len(lp.rows) + 1
        for _ in range(n):
            lp.rows.append({'el': [], 'type': GLP_FR, 'lb': 0.0, 'ub': 0.0})
        return first

    def glp_add_cols(self, lp, n):
        _chk(lp)
        n = _int(n, 'glp_add_cols')
        if n < 1:
            abort('glp_add_cols: ncs = %d; invalid number of columns' % n)
        first = len(lp.cols) + 1
        for _ in range(n):
            lp.cols.append({'el': [], 'type': GLP_FX, 'lb': 0.0, 'ub': 0.0})
            if lp.sol is not None:
                lp.sol = lp.sol + [0.0]
        return first

    def _row(self, lp, i, what):
        _chk(lp)
        i = _int(i, what)
        if not 1 <= i <= len(lp.rows):
            abort('%s: i = %d; row number out of range' % (what, i))
        return lp.rows[i - 1]

    def _col(self, lp, j, what):
        _chk(lp)
        j = _int(j, what)
        if not 1 <= j <= len(lp.cols):
            abort('%s: j = %d; column number out of range' % (what, j))
        return lp.cols[j - 1]

    def _set_bnds(self, r, ty, lb, ub, what):
        ty = _int(ty, what)
        lb, ub = _dbl(lb, what), _dbl(ub, what)
        r['type'] = ty
        if ty == GLP_FR:
            r['lb'] = r['ub'] = 0.0
        elif ty == GLP_LO:
            r['lb'], r['ub'] = lb, 0.0
        elif ty == GLP_UP:
            r['lb'], r['ub'] = 0.0, ub
        elif ty == GLP_DB:
            r['lb'], r['ub'] = lb, ub
        elif ty == GLP_FX:
            r['lb'] = r['ub'] = lb
        else:
            abort('%s: type = %d; invalid row type' % (what, ty))

    def glp_set_row_bnds(self, lp, i, ty, lb, ub):
        self._set_bnds(self._row(lp, i, 'glp_set_row_bnds'), ty, lb, ub, 'glp_set_row_bnds')

    def glp_set_col_bnds(self, lp, j, ty, lb, ub):
        self._set_bnds(self._col(lp, j, 'glp_set_col_bnds'), ty, lb, ub, 'glp_set_col_bnds')

    def glp_get_num_rows(self, lp):
        _chk(lp)
        return len(lp.rows)

    def glp_get_num_cols(self, lp):
        _chk(lp)
        return len(lp.cols)

    def glp_get_num_nz(self, lp):
        _chk(lp)
        return sum(len(r['el']) for r in lp.rows)

    def glp_get_row_type(self, lp, i):
        return self._row(lp, i, 'glp_get_row_type')['type']

    def glp_get_col_type(self, lp, i):
        return self._col(lp, i, 'glp_get_col_type')['type']

    def _lb(self, r):
        return r['lb'] if r['type'] in (GLP_LO, GLP_DB, GLP_FX) else -DBL_MAX

    def _ub(self, r):
        return r['ub'] if r['type'] in (GLP_UP, GLP_DB, GLP_FX) else DBL_MAX

    def glp_get_row_lb(self, lp, i):
        return self._lb(self._row(lp, i, 'glp_get_row_lb'))

    def glp_get_row_ub(self, lp, i):
        return self._ub(self._row(lp, i, 'glp_get_row_ub'))

    def glp_get_col_lb(self, lp, i):
        return self._lb(self._col(lp, i, 'glp_get_col_lb'))

    def glp_get_col_ub(self, lp, i):
        return self._ub(self._col(lp, i, 'glp_get_col_ub'))

    def glp_set_mat_row(self, lp, i, n, ind, val):
        row = self._row(lp, i, 'glp_set_mat_row')
        n = _int(n, 'glp_set_mat_row')
        i0 = i - 1
        for j, _ in row['el']:
            lp.cols[j]['el'].remove(i0)
        row['el'] = []
        if not 0 <= n <= len(lp.cols):
            abort('glp_set_mat_row: i = %d; len = %d; invalid row length' % (i, n))
        seen = set()
        el = []
        for k in range(1, n + 1):
            j = ind.d[k]
            if not 1 <= j <= len(lp.cols):
                abort('glp_set_mat_row: i = %d; ind[%d] = %d; column index out of range' % (i, k, j))
            if j in seen:
                abort('glp_set_mat_row: i = %d; ind[%d] = %d; duplicate column indices not allowed' % (i, k, j))
            seen.add(j)
            v = val.d[k]
            if isinstance(v, Sym) or v != 0:
                el.insert(0, (j - 1, v))
                lp.cols[j - 1]['el'].insert(0, i0)
        row['el'] = el

    def glp_set_mat_col(self, lp, j, n, ind, val):
        col = self._col(lp, j, 'glp_set_mat_col')
        n = _int(n, 'glp_set_mat_col')
        j0 = j - 1
        for i in col['el']:
            lp.rows[i]['el'] = [(c, v) for c, v in lp.rows[i]['el'] if c != j0]
        col['el'] = []
        if not 0 <= n <= len(lp.rows):
            abort('glp_set_mat_col: j = %d; len = %d; invalid column length' % (j, n))
        seen = set()
        for k in range(1, n + 1):
            i = ind.d[k]
            if not 1 <= i <= len(lp.rows):
                abort('glp_set_mat_col: j = %d; ind[%d] = %d; row index out of range' % (j, k, i))
            if i in seen:
                abort('glp_set_mat_col: j = %d; ind[%d] = %d; duplicate row indices not allowed' % (j, k, i))
            seen.add(i)
            v = val.d[k]
            if isinstance(v, Sym) or v != 0:
                lp.rows[i - 1]['el'].insert(0, (j0, v))
                col['el'].insert(0, i - 1)

    def glp_load_matrix(self, lp, ne, ia, ja, ar):
        _chk(lp)
        for r in lp.rows:
            r['el'] = []
        for c in lp.cols:
            c['el'] = []
        for k in range(1, ne + 1):
            i, j, v = ia.d[k], ja.d[k], ar.d[k]
            if not (1 <= i <= len(lp.rows) and 1 <= j <= len(lp.cols)):
                abort('glp_load_matrix: index out of range')
            if isinstance(v, Sym) or v != 0:
                lp.rows[i - 1]['el'].insert(0, (j - 1, v))
                lp.cols[j - 1]['el'].insert(0, i - 1)

    def glp_get_mat_row(self, lp, i, ind, val):
        row = self._row(lp, i, 'glp_get_mat_row')
        for k, (j, v) in enumerate(row['el']):
            if ind is not None:
                ind.d[k + 1] = j + 1
            if val is not None:
                val.d[k + 1] = v
        return len(row['el'])

    def glp_get_mat_col(self, lp, j, ind, val):
        col = self._col(lp, j, 'glp_get_mat_col')
        for k, i in enumerate(col['el']):
            if ind is not None:
                ind.d[k + 1] = i + 1
            if val is not None:
                val.d[k + 1] = dict(lp.rows[i]['el'])[j - 1]
        return len(col['el'])

    def _del(self, lp, num, a, rows):
        idx = sorted(a.d[k] for k in range(1, num + 1))
        n = len(lp.rows) if rows else len(lp.cols)
        if num < 1 or len(set(idx)) != num or idx[0] < 1 or idx[-1] > n:
            abort('glp_del_rows/cols: invalid number')
        keep = [k for k in range(n) if k + 1 not in idx]
        ren = {o: nw for nw, o in enumerate(keep)}
        if rows:
            lp.rows = [lp.rows[k] for k in keep]
            for c in lp.cols:
                c['el'] = [ren[i] for i in c['el'] if i in ren]
        else:
            lp.cols = [lp.cols[k] for k in keep]
            for r in lp.rows:
                r['el'] = [(ren[j], v) for j, v in r['el'] if j in ren]
            lp.obj = {ren[j - 1] + 1: v for j, v in lp.obj.items() if j - 1 in ren}
        lp.sol = None
        lp.lazy = None

    def glp_del_rows(self, lp, num, a):
        _chk(lp)
        self._del(lp, num, a, True)

    def glp_del_cols(self, lp, num, a):
        _chk(lp)
        self._del(lp, num, a, False)

    # ---- objective

    def glp_set_obj_dir(self, lp, d):
        _chk(lp)
        lp.dir = d

    def glp_get_obj_dir(self, lp):
        return lp.dir

    def glp_set_obj_coef(self, lp, j, c):
        _chk(lp)
        j = _int(j, 'glp_set_obj_coef')
        if not 0 <= j <= len(lp.cols):
            abort('glp_set_obj_coef: j = %d; column number out of range' % j)
        c = _dbl(c, 'glp_set_obj_coef')
        if j == 0:
            lp.obj_const = c
        else:
            lp.obj[j] = c

    def glp_get_obj_coef(self, lp, j):
        _chk(lp)
        if not 0 <= j <= len(lp.cols):
            abort('glp_get_obj_coef: j = %d; column number out of range' % j)
        return lp.obj.get(j, 0.0) if j else lp.obj_const

    # ---- solving

    def glp_smcp(self):
        return _real.glp_smcp()

    def glp_init_smcp(self, p):
        return _real.glp_init_smcp(p)

    def glp_std_basis(self, lp):
        _chk(lp)

    def glp_cpx_basis(self, lp):
        _chk(lp)

    def glp_adv_basis(self, lp, flags):
        _chk(lp)

    def glp_warm_up(self, lp):
        return 0

    def glp_scale_prob(self, lp, flags):
        _chk(lp)

    def glp_unscale_prob(self, lp):
        _chk(lp)

    def glp_term_out(self, flag):
        return 1

    def glp_get_status(self, lp):
        _chk(lp)
        return lp.status

    def glp_get_prim_stat(self, lp):
        return {_real.GLP_OPT: _real.GLP_FEAS, _real.GLP_UNBND: _real.GLP_FEAS}.get(lp.status, lp.status)

    def glp_get_it_cnt(self, lp):
        return lp.it

    def glp_get_unbnd_ray(self, lp):
        return 1

    def glp_get_row_stat(self, lp, i):
        self._row(lp, i, 'glp_get_row_stat')
        return _real.GLP_BS

    def glp_get_col_stat(self, lp, i):
        self._col(lp, i, 'glp_get_col_stat')
        return _real.GLP_BS

    def glp_exact(self, lp, p):
        return self.glp_simplex(lp, p)

    def glp_simplex(self, lp, p):
        _chk(lp)
        k = self.calls
        self.calls += 1
        lp.it += 1
        if self.fault_hook is not None:
            f = self.fault_hook(k, lp)
            if f is not None:
                if f[0] == 'ret':
                    lp.status = f[2] if len(f) > 2 else _real.GLP_UNDEF
                    lp.sol, lp.lazy = None, None
                    return f[1]
                if f[0] == 'status':
                    lp.status = f[1]
                    lp.sol, lp.lazy = None, None
                    return 0
        for r in list(lp.rows) + list(lp.cols):
            if r['type'] == GLP_DB and not r['lb'] < r['ub']:
                return _real.GLP_EBOUND
        st, lazy = solve(lp)
        lp.status = st
        lp.lazy = lazy
        lp.sol = None
        if p is not None and p.presolve == _real.GLP_ON:
            if st == _real.GLP_NOFEAS:
                return _real.GLP_ENOPFS
            if st == _real.GLP_UNBND:
                return _real.GLP_ENODFS
        return 0

    def glp_get_col_prim(self, lp, j):
        self._col(lp, j, 'glp_get_col_prim')
        if lp.status != _real.GLP_OPT:
            return 0.0
        if lp.sol is None:
            lp.sol = materialise(lp, lp.lazy)
        return lp.sol[j - 1]

    def glp_get_row_prim(self, lp, i):
        r = self._row(lp, i, 'glp_get_row_prim')
        t = 0.0
        for j, v in r['el']:
            t = t + v * self.glp_get_col_prim(lp, j + 1)
        return t

    def glp_get_obj_val(self, lp):
        t = lp.obj_const
        for j, v in lp.obj.items():
            t = t + v * self.glp_get_col_prim(lp, j)
        return t

    def glp_write_prob(self, *_):
        raise Unsupported('file output')

    glp_write_lp = glp_write_prob


# ---------------------------------------------------------------------------------------------------- oracle

def rows_of(lp):
    'lpx rows of a model problem; columns are 0-based ints'
    rows = []

    def add(el, r):
        ty = r['type']
        if ty == GLP_FX:
            rows.append(lpx.make_row(el, r['lb'], True))
        if ty in (GLP_UP, GLP_DB):
            ub = r['ub']
            if not isinstance(ub, Sym) and (ub != ub or ub in (sym.INF, -sym.INF) or abs(ub) >= DBL_MAX):
                if ub != ub or ub < 0:
                    raise Unsupported('non-finite bound')
            else:
                rows.append(lpx.make_row(el, ub, False))
        if ty in (GLP_LO, GLP_DB):
            lb = r['lb']
            if not isinstance(lb, Sym) and (lb != lb or lb in (sym.INF, -sym.INF) or abs(lb) >= DBL_MAX):
                if lb != lb or lb > 0:
                    raise Unsupported('non-finite bound')
            else:
                rows.append(lpx.make_row({k: -mk(v) for k, v in el.items()}, -mk(lb), False))

    for r in lp.rows:
        add(dict(r['el']), r)
    for j, c in enumerate(lp.cols):
        if c['type'] != GLP_FR:
            add({j: 1}, c)
    return rows


def _ck(v):
    return v if isinstance(v, Fraction) else v.key()


def solve(lp):
    'returns (status, lazy) with lazy the data needed to build an optimal point'

    rows = rows_of(lp)
    sgn = 1 if lp.dir == _real.GLP_MIN else -1
    obj = {}
    for j, c in lp.obj.items():
        c = lpx.csimp(mk(c) * sgn)
        if not (isinstance(c, Fraction) and c == 0):
            obj[j - 1] = c

    sym.ENG.stats['lp_solves'] = sym.ENG.stats.get('lp_solves', 0) + 1

    pure = all(isinstance(v, Fraction) for r in rows for v in r.co.values()) and \
        all(isinstance(v, Fraction) for v in obj.values())
    key = None
    if pure:
        key = ('lp', tuple(r.key() for r in rows), tuple(sorted(obj.items())), len(lp.cols))
        hit = sym.ENG.pure_cache.get(key)
    else:
        hit = None

    if hit is None:
        feas = lpx.feasible_cond(rows)
        bounds = None
        hit = [feas, bounds, None]
        if key is not None:
            sym.ENG.pure_cache[key] = hit

    if not hit[0]:      # forks
        return _real.GLP_NOFEAS, None

    if not obj:
        return _real.GLP_OPT, (rows, obj, [], None)

    if hit[1] is None:
        orow = lpx.make_row(dict({k: -mk(v) for k, v in obj.items()}, **{'obj': 1}), 0, True)
        for i, r in enumerate(rows):
            if not r.eq:
                r.h = frozenset([i])
        hit[1] = lpx.project(rows + [orow], ['obj'], cache=False)

    lows = []
    for r in hit[1]:
        v = r.co.get('obj')
        if v is None:
            continue
        if r.eq:
            lows = [(r.rhs / v, frozenset())]
            break
        if lpx.sign(v) < 0:
            lows.append((r.rhs / v, r.h))

    if not lows:
        return _real.GLP_UNBND, None

    return _real.GLP_OPT, (rows, obj, lows, None)


def materialise(lp, lazy):
    'values of all columns at an arbitrary optimal point'

    rows, obj, lows, _ = lazy
    n = len(lp.cols)
    eng = sym.ENG

    if len(lows) > 1:
        # pick the largest lower bound
        uniq = {}
        for lo, h in lows:
            k = mk(lo).key()
            uniq[k] = (mk(lo), (uniq[k][1] | h) if k in uniq else h)
        lows = list(uniq.values())

    rows = list(rows)

    if lp.owner.vertices and len(lows) > 1:
        best = lows[0]
        for e in lows[1:]:
            if bool(mk(e[0]) > mk(best[0])):
                best = e
        lows = [best]

    if len(lows) == 1:
        v, h = lows[0]
        # complementary slackness: rows with a positive multiplier are tight at every optimal point
        for i in h:
            if isinstance(i, int):
                rows[i] = lpx.Row(rows[i].co, rows[i].rhs, True)
    elif lows:
        v = eng.fresh('opt')
        eng.assume(cand([cond_le(lo - v) for lo, _ in lows]))
        eng.assume(cor([cond_eq(lo - v) for lo, _ in lows]))
    else:
        v = None

    rows2 = list(rows)
    if v is not None:
        rows2.append(lpx.make_row(obj, v, True))

    if lp.owner.vertices:
        return corner(rows2, n, lp.owner)

    rest, subst = lpx.gauss(rows2, range(n))
    val = {}
    free = [j for j in range(n) if j not in {s[0] for s in subst}]
    for j in free:
        val[j] = eng.fresh('x%d' % j)
    for c, co, rhs, p in reversed(subst):
        t = mk(rhs)
        for k, cv in co.items():
            t = t - mk(val[k]) * cv
        val[c] = t / p if not (isinstance(p, Fraction) and p == 1) else t
    for r in rest:
        eng.assume(lpx.row_cond(r, val))
    return [sym.simp(val[j]) for j in range(n)]


def corner(rows, n, owner):
    'values of all columns at a corner of the optimal face: every column in turn at its least or greatest remaining value'
    eng = sym.ENG
    val = {}
    for j in range(n):
        lows, ups, fixed = [], [], None
        for r in lpx.project(rows, [j], cache=False):
            v = r.co.get(j)
            sg = 0 if v is None else lpx.sign(v)
            if sg == 0:
                continue
            b = r.rhs / v
            if r.eq:
                fixed = b
            elif sg < 0:
                lows.append(b)
            else:
                ups.append(b)
        if fixed is None:
            if not lows and not ups:
                fixed = mk(0)
            else:
                lo = pick(lows, True) if lows else None
                up = pick(ups, False) if ups else None
                if lo is not None and up is not None and not bool(mk(lo) < mk(up)):
                    fixed = lo
                elif lo is None or (up is not None and owner.tie()):
                    fixed = up
                else:
                    fixed = lo
        val[j] = sym.simp(mk(fixed))
        out = []
        for r in rows:
            c = r.co.get(j)
            if c is None:
                out.append(r)
                continue
            co = {k: x for k, x in r.co.items() if k != j}
            rhs = lpx.csimp(mk(r.rhs) - mk(c) * val[j])
            if co:
                out.append(lpx.make_row(co, rhs, r.eq))
        rows = out
    return [val[j] for j in range(n)]


def pick(vals, largest):
    best = vals[0]
    for v in vals[1:]:
        if bool(mk(v) > mk(best) if largest else mk(v) < mk(best)):
            best = v
    return best
