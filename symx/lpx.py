'''
Exact elimination on linear systems with symbolic right-hand sides (and, if need be, symbolic coefficients).

A row is (coeffs, rhs, kind): sum coeffs[c] * c  (<= | ==) rhs, with coeffs a dict column -> Fraction | Sym, rhs a Sym.
Gaussian elimination on equalities, then Fourier-Motzkin with support-minimality (Chernikov/Kohler) pruning, is an
equivalence: the result holds for some value of the eliminated columns iff the original rows do.  Signs of symbolic
coefficients are decided (forked) by the engine.
'''

from fractions import Fraction

from . import sym
from .sym import Sym, mk, cond_le, cond_lt, cond_eq, cand, cor, Unsupported

ZERO = Fraction(0)


class TooBig(Unsupported):
    'elimination exceeded its row budget'


MAX_ROWS = 4000


def csimp(c):
    'coefficient normal form: Fraction if constant else Sym'
    if isinstance(c, Fraction):
        return c
    if isinstance(c, Sym):
        if c.is_const():
            return c.const()
        return c
    return sym.frac(c)


def sign(c):
    'sign of a coefficient, forking if symbolic'
    if isinstance(c, Fraction):
        return (c > 0) - (c < 0)
    if cond_eq(c):
        return 0
    if cond_lt(c):
        return -1
    return 1


class Row:
    __slots__ = ('co', 'rhs', 'eq', 'h')

    def __init__(self, co, rhs, eq, h=frozenset()):
        self.co = co
        self.rhs = rhs
        self.eq = eq
        self.h = h

    def key(self):
        return (self.eq, tuple(sorted((str(k), v if isinstance(v, Fraction) else v.key())
                                      for k, v in self.co.items())), self.rhs.key())


def make_row(co, rhs, eq):
    d = {}
    for k, v in co.items():
        v = csimp(v)
        if isinstance(v, Fraction) and v == 0:
            continue
        d[k] = v
    return Row(d, mk(rhs), eq)


def _combine(a, fa, b, fb):
    'fa*a + fb*b (coeff dicts and rhs)'
    co = {}
    for k, v in a.co.items():
        n = csimp(v * fa) if True else None
        co[k] = n
    for k, v in b.co.items():
        n = v * fb
        if k in co:
            n = co[k] + n
        n = csimp(n)
        if isinstance(n, Fraction) and n == 0:
            co.pop(k, None)
        else:
            co[k] = n
    co = {k: v for k, v in co.items() if not (isinstance(v, Fraction) and v == 0)}
    rhs = a.rhs * fa + b.rhs * fb
    return co, mk(rhs)


def _pos_scale(r):
    'scale an inequality by a positive constant for canonical form'
    for k in sorted(r.co, key=str):
        v = r.co[k]
        if isinstance(v, Fraction):
            s = abs(v)
            if s != 1:
                return Row({c: csimp(x / s) if isinstance(x, Fraction) else csimp(x * (1 / s))
                            for c, x in r.co.items()}, mk(r.rhs * (1 / s)), r.eq, r.h)
            return r
    return r


class System:
    'a linear system; rows are Row objects'

    def __init__(self, rows):
        self.rows = rows
        self.pure = all(isinstance(v, Fraction) for r in rows for v in r.co.values())

    def key(self):
        return tuple(r.key() for r in self.rows)


def gauss(rows, elim):
    '''eliminate columns in elim using equalities.

    returns (rows, subst) where subst is a list of (col, coeffs, rhs, pivot): col = (rhs - coeffs . x) / pivot, in
    elimination order (later entries do not mention earlier columns)
    '''

    elim = set(elim)
    rows = list(rows)
    subst = []

    while True:
        best = None

        for ri, r in enumerate(rows):
            if not r.eq:
                continue
            for c, v in r.co.items():
                if c not in elim:
                    continue
                if isinstance(v, Fraction):
                    score = (0 if abs(v) == 1 else 1, len(r.co), str(c))
                else:
                    score = (2, len(r.co), str(c))
                if best is None or score < best[0]:
                    best = (score, ri, c)

        if best is None:
            break

        _, ri, c = best
        pr = rows[ri]
        p = pr.co[c]

        if not isinstance(p, Fraction):
            sg = sign(p)
            if sg == 0:
                co = dict(pr.co)
                del co[c]
                rows[ri] = Row(co, pr.rhs, True, pr.h)
                continue
        else:
            sg = 1 if p > 0 else -1

        rows.pop(ri)
        new = []
        for r in rows:
            v = r.co.get(c)
            if v is None:
                new.append(r)
                continue
            if isinstance(p, Fraction):
                co, rhs = _combine(r, Fraction(1), pr, csimp(v * (-1 / p)))
            else:
                # |p| * r - sgn * v * pr
                co, rhs = _combine(r, csimp(p * sg), pr, csimp(v * (-sg)))
            co.pop(c, None)
            new.append(Row(co, rhs, r.eq, r.h))
        rows = new
        subst.append((c, {k: v for k, v in pr.co.items() if k != c}, pr.rhs, p))
        elim.discard(c)

    return rows, subst


def fm(rows, elim):
    'Fourier-Motzkin elimination; rows must have no equalities mentioning elim columns'

    done = []       # rows not mentioning any elim column
    work = []
    seen = set()
    elim = set(elim)

    for r in rows:
        if r.eq or not any(c in elim for c in r.co):
            done.append(r)
        else:
            r = _pos_scale(r)
            k = r.key()
            if k in seen:
                continue
            seen.add(k)
            work.append(Row(r.co, r.rhs, False, r.h or frozenset(['w%d' % len(work)])))

    # rows with no elim columns need not be combined
    outs = list(done)

    while True:
        cols = {}
        for r in work:
            for c, v in r.co.items():
                if c in elim:
                    s = sign(v)
                    e = cols.setdefault(c, [0, 0])
                    if s > 0:
                        e[0] += 1
                    elif s < 0:
                        e[1] += 1
        if not cols:
            outs.extend(work)
            break
        c = min(cols, key=lambda k: (cols[k][0] * cols[k][1] - cols[k][0] - cols[k][1], str(k)))
        pos, neg, zero = [], [], []
        for r in work:
            v = r.co.get(c)
            if v is None:
                zero.append(r)
                continue
            s = sign(v)
            if s == 0:
                co = dict(r.co)
                del co[c]
                zero.append(Row(co, r.rhs, False, r.h))
            elif s > 0:
                pos.append(r)
            else:
                neg.append(r)
        new = list(zero)
        cand_rows = []
        for a in pos:
            for b in neg:
                va, vb = a.co[c], b.co[c]
                co, rhs = _combine(a, csimp(-vb), b, csimp(va))
                co.pop(c, None)
                cand_rows.append(_pos_scale(Row(co, rhs, False, a.h | b.h)))
        # support minimality among all rows (zero rows + candidates)
        allr = new + cand_rows
        if len(allr) > MAX_ROWS:
            raise TooBig('Fourier-Motzkin: %d rows' % len(allr))
        allr.sort(key=lambda r: len(r.h))
        kept = []
        for r in allr:
            if any(k.h <= r.h and k.h != r.h for k in kept):
                continue
            # identical support: keep one (they are positive multiples of each other in the extreme-ray sense)
            if any(k.h == r.h and k.key() == r.key() for k in kept):
                continue
            kept.append(r)
        work = []
        for r in kept:
            if any(x in elim for x in r.co):
                work.append(r)
            else:
                # it can no longer be combined, but its support still prunes others
                work.append(r)
        elim.discard(c)

    # final dedupe
    res, seen = [], set()
    for r in outs:
        if not r.co and r.rhs.is_const():
            v = r.rhs.const()
            if (r.eq and v == 0) or (not r.eq and v >= 0):
                continue
        r2 = _pos_scale(r)
        k = r2.key()
        if k not in seen:
            seen.add(k)
            res.append(r2)
    return drop_parallel(res)


def drop_parallel(rows):
    'among inequalities with identical constant coefficients and constant rhs difference keep the tightest'
    best = {}
    out = []
    for r in rows:
        if r.eq or not all(isinstance(v, Fraction) for v in r.co.values()):
            out.append(r)
            continue
        base = tuple(sorted((str(k), v) for k, v in r.co.items()))
        rp = {m: c for m, c in r.rhs.p.items() if m}
        k = (base, tuple(sorted(rp.items())))
        c0 = r.rhs.p.get((), ZERO)
        if k not in best or c0 < best[k][0]:
            best[k] = (c0, r)
    out.extend(r for _, r in best.values())
    return out


def project(rows, keep, cache=True):
    'project the system onto the keep columns: list of rows over keep only'

    cols = {c for r in rows for c in r.co}
    elim = cols - set(keep)
    pure = cache and all(isinstance(v, Fraction) for r in rows for v in r.co.values())
    if pure:
        k = ('proj', tuple(r.key() for r in rows), tuple(sorted(map(str, keep))))
        hit = sym.ENG.pure_cache.get(k)
        if hit is not None:
            return hit
    rows2, _ = gauss(rows, elim)
    res = fm(rows2, elim)
    if pure:
        sym.ENG.pure_cache[k] = res
    return res


def row_cond(r, val, margin=0):
    'condition that the row holds at val (dict col -> number/Sym); margin relaxes (>0) or tightens (<0) inequalities'
    d = -r.rhs
    for c, v in r.co.items():
        d = d + mk(val[c]) * v
    if r.eq:
        if margin:
            return cand(cond_le(d - margin), cond_le(-d - margin))
        return cond_eq(d)
    return cond_le(d - margin)


def rows_cond(rows, val, margin=0):
    return cand([row_cond(r, val, margin) for r in rows])


def feasible_cond(rows):
    'condition on the parameters that the rows have a solution'
    return rows_cond(project(rows, []), {})
