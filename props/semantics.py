'''
Exact discrete-time semantics of a small hybrid automaton as unions of polytopes (the oracle of C12 to C15).

A trajectory starts in an initial set and in the invariant, and in every step: is in the invariant, moves by e^{Ah} x + V u with
u free in U, and may then take a transition whose guard holds (the current invariant need not hold any more), applying the reset;
it continues only if it is in the invariant of the mode it arrives in.  At most N steps altogether.
'''

from .common import *


class Sem:
    'modes / transitions as given to make_ha; delta loosens (positive) or tightens (negative) every condition'

    def __init__(self, modes, transitions, h, N, delta=0, urgent=False, max_sets=4000, trigger=None):
        self.m, self.t, self.N, self.delta, self.urgent = modes, transitions, N, delta, urgent
        self.E, self.V = [], []
        for m in modes:
            if m.get('A') is None:
                self.E.append(None)
                self.V.append(None)
                continue
            self.E.append(m['E'] if 'E' in m else mat_exp(m['A'], h))
            self.V.append((input_mat(m['A'], m['B'], h), m['U'], m['u']) if m.get('B') is not None else None)
        self.errors = []          # (set of error states, path)
        self.seen = []            # (mode, step in all, set, path) of every visited set
        self.max_sets = max_sets
        self.trigger = trigger    # transition index -> stop the mode once this condition can have held
        self.count = 0

    def loose(self, rhs):
        return [mk(r) + self.delta for r in rhs]

    def inv(self, i, p):
        m = self.m[i]
        return p if m.get('inv') is None else constrain(p, m['inv'], self.loose(m['inv_rhs']))

    def guard(self, t, p):
        return p if t.get('G') is None else constrain(p, t['G'], self.loose(t['g']))

    def reset(self, t, p):
        if t.get('R') is None and t.get('M') is None:
            return p
        R = t['R'] if t.get('R') is not None else eye(p.dim)
        return image(p, R, extra=(t['M'], t['C'], t['d']) if t.get('M') is not None else None)

    def step(self, i, p):
        if self.V[i] is not None:
            V, U, u = self.V[i]
            return image(p, self.E[i], extra=(V, U, u))
        return image(p, self.E[i])

    def run(self, inits):
        for i, p in inits:
            self.visit(i, p, 0, (), 0)
        return self

    def succ(self, i, p, k, path, in_mode):
        for n, t in enumerate(self.t):
            if t['src'] != i:
                continue
            g = self.guard(t, p)
            q = path + ((n, in_mode),)
            if self.m[t['dst']].get('A') is None:
                self.errors.append((g, q))
            else:
                self.visit(t['dst'], self.reset(t, g), k, q, 0)

    def visit(self, i, p, k, path, depth):
        self.count += 1
        assert self.count < self.max_sets, 'oracle too large'
        p = self.inv(i, p)
        self.seen.append((i, k, p, path, 0))
        if self.urgent and not (path and path[-1][1] == 0 and len(path) > 3):
            self.succ(i, p, k, path, 0)
        n = 0
        while k < self.N:
            p = self.inv(i, p)
            p = self.step(i, p)
            k += 1
            n += 1
            self.seen.append((i, k, p, path, n))
            self.succ(i, p, k, path, n)

    def error_possible(self):
        'condition: some error set is not empty'
        return cor(*[p.nonempty() for p, _ in self.errors]) if self.errors else False


def cond_any_nonempty(w, sets):
    'for claims that something exists'
    cs = [p.nonempty() for p in sets]
    cs = [c for c in cs if c is not False]
    if any(c is True for c in cs):
        return True
    return cor(cs) if cs else False


def check_some(w, sets, label):
    'at least one of the sets is not empty'
    w.check(cond_any_nonempty(w, sets), label)


def check_none(w, sets, label):
    'all of the sets are empty (decided without eliminating the trajectory variables)'
    from symx import lpx
    for p in sets:
        cols = {}
        for r in p.rows:
            for c in r.co:
                cols.setdefault(c, None)
        val = {c: w.eng.fresh('wit') for c in cols}
        c = lpx.rows_cond(p.rows, val)
        w.check(cnot(c) if not isinstance(c, bool) else not c, label, wit=[val[x] for x in p.vis if x in val])


class Verdict:
    'the loose and tight semantics side by side'

    def __init__(self, w, modes, transitions, h, N, inits, urgent=False, eps=None):
        d = w.margin if eps is None else eps
        self.w = w
        self.loose = Sem(modes, transitions, h, N, d, urgent).run([(i, p) for i, p in inits])
        self.tight = Sem(modes, transitions, h, N, -d, urgent).run([(i, p) for i, p in inits])

    def check(self, has_error, what=''):
        if has_error:
            check_some(self.w, [p for p, _ in self.loose.errors], what + 'error reported but no trajectory reaches an error mode')
        else:
            check_none(self.w, [p for p, _ in self.tight.errors], what + 'error missed')
