'''
Symbolic reals and the path explorer.

A symbolic number (Sym) is a multivariate polynomial with exact rational coefficients over z3 Real constants.  A symbolic
condition (Cond) is a polynomial compared with zero, or a boolean combination.  Taking the truth value of a Cond asks the
engine, which decides it from the path condition with z3 or forks the execution (DFS by re-execution with a decision
prefix).
'''

import sys
import time
import math
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa: E402  pylint: disable=wrong-import-position

import numpy as np  # noqa: E402

INF = float('inf')


class Unsupported(Exception):
    'the executed code used something the symbolic world does not model'


class PathEnd(BaseException):
    'stop exploring this path (assumption became infeasible)'


class Budget(BaseException):
    'path or time budget exhausted'


class GlpkAbort(Exception):
    'the modelled GLPK routine would have aborted the process (glp_error)'


# ---------------------------------------------------------------------------------------------------- numbers

def frac(x):
    'exact rational of a python/numpy number'

    if isinstance(x, Fraction):
        return x
    if isinstance(x, (int, np.integer)):
        return Fraction(int(x))
    if isinstance(x, (float, np.floating)):
        return Fraction(float(x))
    if isinstance(x, Sym):
        if x.is_const():
            return x.const()
    raise Unsupported('not a concrete number: %r' % (x,))


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    return tuple(sorted(a + b))


def is_sym(x):
    return isinstance(x, Sym)


_SNAP = {}


def snap(x):
    '''exact value of a float; one that is a simple rational up to rounding (0.6, 1/3) stands for that rational, in
    line with the treatment of floating point as real arithmetic'''
    r = _SNAP.get(x)
    if r is None:
        r = Fraction(x)
        if r.denominator > 4096:
            g = r.limit_denominator(1000)
            if abs(g - r) <= abs(r) / (1 << 49):
                r = g
        if len(_SNAP) > 100000:
            _SNAP.clear()
        _SNAP[x] = r
    return r


def _coerce(x):
    'number -> polynomial dict, or None'

    if isinstance(x, Sym):
        return x.p
    if isinstance(x, (bool, int, np.integer)):
        x = int(x)
        return {(): Fraction(x)} if x else {}
    if isinstance(x, (float, np.floating)):
        x = float(x)
        if x != x or x in (INF, -INF):
            return None
        return {(): snap(x)} if x else {}
    if isinstance(x, Fraction):
        return {(): x} if x else {}
    return None


def _nonfinite(x):
    return isinstance(x, (float, np.floating)) and not math.isfinite(float(x))


class Sym:
    'polynomial over engine variables'

    __slots__ = ('p', '_h')

    def __init__(self, p):
        self.p = p
        self._h = None

    # ---- structure

    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def const(self):
        return self.p.get((), Fraction(0))

    def is_linear(self):
        return all(len(m) <= 1 for m in self.p)

    def vars(self):
        return {v for m in self.p for v in m}

    # ---- arithmetic

    def _bin(self, other):
        if isinstance(other, np.ndarray):
            return NotImplemented
        return _coerce(other)

    def __add__(self, other):
        q = _coerce(other)
        if q is None:
            if _nonfinite(other):
                return float(other)
            return NotImplemented
        if not q:
            return self
        r = dict(self.p)
        for m, c in q.items():
            n = r.get(m, 0) + c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return Sym(r)

    __radd__ = __add__

    def __neg__(self):
        return Sym({m: -c for m, c in self.p.items()})

    def __pos__(self):
        return self

    def __sub__(self, other):
        q = _coerce(other)
        if q is None:
            if _nonfinite(other):
                return -float(other)
            return NotImplemented
        r = dict(self.p)
        for m, c in q.items():
            n = r.get(m, 0) - c
            if n:
                r[m] = n
            else:
                r.pop(m, None)
        return Sym(r)

    def __rsub__(self, other):
        return (-self) + other

    def __mul__(self, other):
        q = _coerce(other)
        if q is None:
            if _nonfinite(other):
                if self > 0:
                    return float(other)
                if self < 0:
                    return -float(other)
                return float('nan')
            return NotImplemented
        if not q or not self.p:
            return Sym({})
        if len(q) == 1 and () in q:
            c0 = q[()]
            return Sym({m: c * c0 for m, c in self.p.items()})
        r = {}
        for m1, c1 in self.p.items():
            for m2, c2 in q.items():
                m = _mono_mul(m1, m2)
                n = r.get(m, 0) + c1 * c2
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
        return Sym(r)

    __rmul__ = __mul__

    def __truediv__(self, other):
        q = _coerce(other)
        if q is None:
            if _nonfinite(other):
                return Sym({})
            return NotImplemented
        if not q:
            raise ZeroDivisionError('division by zero')
        if len(q) == 1 and () in q:
            c0 = q[()]
            return Sym({m: c / c0 for m, c in self.p.items()})
        return _divide(self, other if isinstance(other, Sym) else Sym(q))

    def __rtruediv__(self, other):
        q = _coerce(other)
        if q is None:
            return NotImplemented
        if self.is_const():
            if not self.p:
                raise ZeroDivisionError('division by zero')
            return Sym(q) / self.const()
        return _divide(Sym(q), self)

    def __pow__(self, n):
        if isinstance(n, (float, np.floating)) and float(n) == 0.5:
            return self.sqrt()
        if isinstance(n, (int, float, np.integer, np.floating)) and float(n).is_integer() and n >= 0:
            r = Sym({(): Fraction(1)})
            for _ in range(int(n)):
                r = r * self
            return r
        raise Unsupported('power %r' % (n,))

    def __abs__(self):
        if self >= 0:
            return self
        return -self

    def sqrt(self):
        if self.is_const():
            c = self.const()
            if c < 0:
                raise Unsupported('sqrt of negative')
            return Sym(_coerce(math.sqrt(c)))
        return ENG.sqrt(self)

    def _sympy_(self):
        from . import symnumber
        return symnumber.make(self, False)

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, _memo):
        return self

    def __round__(self, _n=None):
        return self

    @property
    def real(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    # ---- comparisons

    def _cmp(self, other, op):
        q = _coerce(other)
        if q is None:
            if _nonfinite(other):
                o = float(other)
                if o != o:
                    return op == 'ne'
                return {'le': o > 0, 'lt': o > 0, 'ge': o < 0, 'gt': o < 0, 'eq': False, 'ne': True}[op]
            return NotImplemented
        d = self - other
        if op == 'le':
            return cond_le(d)
        if op == 'lt':
            return cond_lt(d)
        if op == 'ge':
            return cond_le(-d)
        if op == 'gt':
            return cond_lt(-d)
        if op == 'eq':
            return cond_eq(d)
        return cnot(cond_eq(d))

    def __le__(self, o):
        return self._cmp(o, 'le')

    def __lt__(self, o):
        return self._cmp(o, 'lt')

    def __ge__(self, o):
        return self._cmp(o, 'ge')

    def __gt__(self, o):
        return self._cmp(o, 'gt')

    def __eq__(self, o):
        return self._cmp(o, 'eq')

    def __ne__(self, o):
        return self._cmp(o, 'ne')

    def __hash__(self):
        if self._h is None:
            if self.is_const():
                self._h = hash(self.const())
            else:
                self._h = hash(frozenset(self.p.items()))
        return self._h

    def key(self):
        'hashable canonical form'
        return tuple(sorted(self.p.items()))

    def __bool__(self):
        if self.is_const():
            return bool(self.p)
        return bool(cnot(cond_eq(self)))

    def __float__(self):
        if self.is_const():
            return float(self.const())
        raise Unsupported('concrete float of a symbolic value needed')

    def __int__(self):
        if self.is_const():
            return int(self.const())
        raise Unsupported('concrete int of a symbolic value needed')

    def __index__(self):
        if self.is_const() and self.const().denominator == 1:
            return int(self.const())
        raise Unsupported('symbolic index')

    def __repr__(self):
        if self.is_const():
            return repr(float(self.const()))
        return ' + '.join('%s*%s' % (float(c), '*'.join(ENG.names[v] for v in m) if m else '1')
                          for m, c in sorted(self.p.items()))

    __str__ = __repr__

    def __format__(self, _spec):
        return str(self)


def const(x):
    return Sym(_coerce(x))


def mk(x):
    'coerce to Sym'
    if isinstance(x, Sym):
        return x
    q = _coerce(x)
    if q is None:
        raise Unsupported('cannot make symbolic: %r' % (x,))
    return Sym(q)


def simp(x):
    'constant Sym -> float when exact'
    if isinstance(x, Sym) and x.is_const():
        c = x.const()
        f = float(c)
        if snap(f) == c:
            return f
    return x


def _divide(num, den):
    if not num.p:
        if cond_eq(den):
            raise ZeroDivisionError('division by zero')
        return num
    # exact monomial multiple?
    if len(num.p) == len(den.p):
        (m0, c0) = next(iter(den.p.items()))
        if m0 in num.p:
            r = num.p[m0] / c0
            if all(num.p.get(m, None) == c * r for m, c in den.p.items()):
                if cond_eq(den):
                    raise ZeroDivisionError('division by zero')
                return Sym({(): r})
    if cond_eq(den):
        raise ZeroDivisionError('division by zero')
    return ENG.quotient(num, den)


# ---------------------------------------------------------------------------------------------------- conditions

class Cond:
    'a boolean over engine variables: ("le"|"lt"|"eq", Sym) atoms, and/or/not trees, or a raw z3 expression'

    __slots__ = ('op', 'args', '_z', '_k')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._z = None
        self._k = None

    def z(self):
        if self._z is None:
            op, a = self.op, self.args
            if op == 'le':
                self._z = ENG.z(a) <= 0
            elif op == 'lt':
                self._z = ENG.z(a) < 0
            elif op == 'eq':
                self._z = ENG.z(a) == 0
            elif op == 'not':
                self._z = z3.Not(zc(a))
            elif op == 'and':
                self._z = z3.And([zc(x) for x in a])
            elif op == 'or':
                self._z = z3.Or([zc(x) for x in a])
            elif op == 'raw':
                self._z = a
            else:
                raise Unsupported(op)
        return self._z

    def key(self):
        if self._k is None:
            op, a = self.op, self.args
            if op in ('le', 'lt', 'eq'):
                self._k = (op, a.key())
            elif op == 'not':
                self._k = ('not', ckey(a))
            elif op == 'raw':
                self._k = ('raw', a.sexpr())
            else:
                self._k = (op, tuple(ckey(x) for x in a))
        return self._k

    def __bool__(self):
        return ENG.decide(self)

    def __and__(self, o):
        return cand(self, o)

    __rand__ = __and__

    def __or__(self, o):
        return cor(self, o)

    __ror__ = __or__

    def __invert__(self):
        return cnot(self)

    def __repr__(self):
        return 'Cond(%s)' % (self.z(),)


def ckey(c):
    return c.key() if isinstance(c, Cond) else bool(c)


def zc(c):
    if isinstance(c, Cond):
        return c.z()
    return z3.BoolVal(bool(c))


def _norm(d):
    'scale so that the leading coefficient has absolute value 1 (positive scaling only)'
    ms = [m for m in d.p if m]
    if not ms:
        return d
    m = min(ms)
    s = abs(d.p[m])
    if s == 1:
        return d
    return Sym({k: v / s for k, v in d.p.items()})


def cond_le(d):
    'd <= 0'
    d = mk(d)
    if d.is_const():
        return d.const() <= 0
    return Cond('le', _norm(d))


def cond_lt(d):
    'd < 0'
    d = mk(d)
    if d.is_const():
        return d.const() < 0
    # canonical: not(-d <= 0)
    return cnot(Cond('le', _norm(-d)))


def cond_eq(d):
    d = mk(d)
    if d.is_const():
        return d.const() == 0
    d = _norm(d)
    m = min(k for k in d.p if k)
    if d.p[m] < 0:
        d = -d
    return Cond('eq', d)


def cnot(c):
    if isinstance(c, Cond):
        if c.op == 'not':
            return c.args
        return Cond('not', c)
    return not c


def cand(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = cand(*c)
        if isinstance(c, Cond):
            if c.op == 'and':
                out.extend(c.args)
            else:
                out.append(c)
        elif not c:
            return False
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return Cond('and', tuple(out))


def cor(*cs):
    out = []
    for c in cs:
        if isinstance(c, (list, tuple)):
            c = cor(*c)
        if isinstance(c, Cond):
            if c.op == 'or':
                out.extend(c.args)
            else:
                out.append(c)
        elif c:
            return True
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return Cond('or', tuple(out))


def raw(zexpr):
    return Cond('raw', zexpr)


# ---------------------------------------------------------------------------------------------------- engine

BEAT = [None]      # shared value: when the running solver call began (0: none), read by the watchdog in run.py


def _beat(on):
    if BEAT[0] is not None:
        BEAT[0].value = time.time() if on else 0.0


class Engine:
    '''path explorer. mode "sym" explores all paths; mode "real" evaluates with concrete parameters'''

    def __init__(self, query_timeout_ms=10000, max_paths=200000, deadline=None):
        self.query_timeout_ms = query_timeout_ms
        self.max_paths = max_paths
        self.deadline = deadline
        self.stats = {'paths': 0, 'decisions': 0, 'forks': 0, 'queries': 0, 'solver_s': 0.0, 'discharged': 0,
                      'unknown': 0, 'checks': 0}
        self.worklist = []
        self.names = []
        self.zvars = []
        self.name_to_id = {}
        self.solver = None
        self.reset_solver()
        self.pure_cache = {}
        self.start_path([])

    def reset_solver(self):
        self.solver = z3.Solver()
        self.solver.set('timeout', self.query_timeout_ms)
        self.stack = []

    # ---- variables (interned by name so that re-executions share them)

    def var(self, name):
        vid = self.name_to_id.get(name)
        if vid is None:
            vid = len(self.names)
            self.names.append(name)
            self.zvars.append(z3.Real(name))
            self.name_to_id[name] = vid
        return Sym({(vid,): Fraction(1)})

    def fresh(self, base):
        n = self.fresh_count.get(base, 0)
        self.fresh_count[base] = n + 1
        return self.var('%s!%d' % (base, n))

    def z(self, s):
        'z3 expression of a polynomial'
        if not isinstance(s, Sym):
            s = mk(s)
        terms = []
        for m, c in sorted(s.p.items()):
            if not m:
                terms.append(z3.RealVal(c))
            else:
                t = self.zvars[m[0]]
                for v in m[1:]:
                    t = t * self.zvars[v]
                if c != 1:
                    t = z3.RealVal(c) * t
                terms.append(t)
        if not terms:
            return z3.RealVal(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def sqrt(self, s):
        s = self.reduce(s)
        if s.is_const() and s.const() >= 0:
            return s.sqrt()
        k = ('sqrt', s.key())
        r = self.memo_vals.get(k)
        if r is None:
            r = self.fresh('sqrt')
            self.assume(cand(cond_le(-r), cond_eq(r * r - s)))
            self.memo_vals[k] = r
            self.roots[next(iter(r.p))[0]] = s
            self.relations.append(r * r - s)
        return r

    def quotient(self, num, den):
        if len(den.p) == 1:
            (m, c), = den.p.items()
            if len(m) == 1 and m[0] in self.roots:
                # division by a root: multiply by its inverse, a new variable with algebraic relations
                k = ('inv', m)
                r = self.memo_vals.get(k)
                if r is None:
                    r = self.fresh('inv')
                    self.assume(cond_eq(r * den / c - 1))
                    self.memo_vals[k] = r
                    self.relations += [r * den / c - 1, r * r * self.roots[m[0]] - 1]
                return self.reduce(num * r / c)
        k = ('quo', num.key(), den.key())
        r = self.memo_vals.get(k)
        if r is None:
            r = self.fresh('quo')
            self.assume(cond_eq(r * den - num))
            self.memo_vals[k] = r
        return r

    def reduce(self, s):
        'normal form modulo the relations of the roots on this path (the value is the same)'
        if not self.relations or not isinstance(s, Sym) or s.is_const():
            return s
        if not s.vars() & {v for r in self.relations for v in r.vars()}:
            return s
        from . import algebra
        return algebra.reduce(s, self.relations)

    # ---- path bookkeeping

    def start_path(self, prefix):
        self.prefix = prefix
        self.decisions = []
        self.pc = []          # Cond list
        self.memo = {}
        self.memo_vals = {}
        self.roots = {}       # root variable -> radicand
        self.relations = []   # polynomials that are zero on this path because of roots
        self.fresh_count = {}
        self.trace = []       # human readable notes for counterexamples
        self.npos = 0

    def _sync(self):
        'make the incremental solver stack equal to the path condition'
        n = 0
        while n < len(self.stack) and n < len(self.pc) and self.stack[n] == self.pc[n][1]:
            n += 1
        k = len(self.stack) - n
        if k:
            self.solver.pop(k)
            del self.stack[n:]
        for i in range(n, len(self.pc)):
            self.solver.push()
            self.solver.add(zc(self.pc[i][0]))
            self.stack.append(self.pc[i][1])

    def _push_pc(self, c):
        if isinstance(c, Cond):
            self.pc.append((c, c.key()))

    def _check(self, extra, want_model=False):
        'check pc and extra; returns (result, model)'
        if self.deadline is not None and time.time() > self.deadline:
            raise Budget('deadline')
        self._sync()
        t0 = time.time()
        self.stats['queries'] += 1
        nonlin = False
        self.solver.push()
        for e in extra:
            self.solver.add(zc(e))
        _beat(True)
        r = self.solver.check()
        model = None
        if r == z3.sat and want_model:
            model = self.solver.model()
        if r == z3.unknown:
            nonlin = True
        self.solver.pop()
        if nonlin:
            for tac in ('qfnra-nlsat', 'smt'):
                s2 = z3.Tactic(tac).solver() if tac != 'smt' else z3.SolverFor('QF_NRA')
                s2.set('timeout', 2 * self.query_timeout_ms)
                for c, _ in self.pc:
                    s2.add(zc(c))
                for e in extra:
                    s2.add(zc(e))
                _beat(True)
                r = s2.check()
                if r != z3.unknown:
                    if r == z3.sat and want_model:
                        model = s2.model()
                    break
        _beat(False)
        self.stats['solver_s'] += time.time() - t0
        if r == z3.unknown:
            self.stats['unknown'] += 1
        return r, model

    def assume(self, c):
        'add to the path condition without checking'
        if isinstance(c, Cond):
            self._push_pc(c)
        elif not c:
            raise PathEnd()

    def require_feasible(self):
        r, _ = self._check([])
        if r == z3.unsat:
            raise PathEnd()

    def decide(self, c):
        'truth value of a condition on this path (forks if both are possible)'

        if not isinstance(c, Cond):
            return bool(c)
        k = c.key()
        if k in self.memo:
            return self.memo[k]
        neg = cnot(c)
        kn = neg.key()
        if kn in self.memo:
            return not self.memo[kn]
        i = self.npos
        self.npos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            self.stats['decisions'] += 1
            r1, _ = self._check([c])
            if r1 == z3.unsat:
                v = False
            else:
                r2, _ = self._check([neg])
                if r2 == z3.unsat:
                    v = True
                else:
                    v = True
                    self.stats['forks'] += 1
                    self.worklist.append(self.decisions + [False])
        self.decisions.append(v)
        self.memo[k] = v
        self._push_pc(c if v else neg)
        return v

    def choose(self, n, label='choice'):
        'nondeterministic integer in range(n)'
        i = self.npos
        self.npos += 1
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            v = 0
            for o in range(n - 1, 0, -1):
                self.worklist.append(self.decisions + [o])
            self.stats['forks'] += n - 1
        self.decisions.append(v)
        return v

    def model_for(self, extra=()):
        r, m = self._check(list(extra), want_model=True)
        return (r, m)

    def value(self, model, s):
        'rational value of a Sym in a model'
        v = model.eval(self.z(s), model_completion=True)
        return zval(v)


def zval(v):
    if z3.is_algebraic_value(v):
        v = v.approx(40)
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    raise Unsupported('model value %s' % (v,))


ENG = None


def set_engine(e):
    global ENG
    ENG = e
    return e
