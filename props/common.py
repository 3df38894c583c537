'''helpers shared by the property harnesses'''

from fractions import Fraction

from symx.sym import mk, cond_le, cond_lt, cond_eq, cand, cor, cnot, Unsupported   # noqa: F401
from symx import world as W                                                        # noqa: F401
from symx.world import (Poly, box, from_ineq, constrain, image, matmul, matvec, eye, hull2, box_rows, le_rows,  # noqa
                        new_cols, row)

F = Fraction


def sc(name, fn, cfg=None, **k):
    d = {'name': name, 'fn': fn, 'cfg': cfg or {}}
    d.update(k)
    return d


def mat_exp(A, h, k=1):
    'exact e^{A h k} of a nilpotent rational matrix'
    n = len(A)
    t = F(h) * k
    acc = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    p = [r[:] for r in acc]
    f = F(1)
    for q in range(1, n + 1):
        p = [[sum(p[i][m] * F(A[m][j]) for m in range(n)) for j in range(n)] for i in range(n)]
        f = f * t / q
        for i in range(n):
            for j in range(n):
                acc[i][j] += p[i][j] * f
    p = [[sum(p[i][m] * F(A[m][j]) for m in range(n)) for j in range(n)] for i in range(n)]
    assert not any(any(r) for r in p), 'not nilpotent'
    return acc


def input_mat(A, B, h):
    'exact one step input effect (integral of e^{As} over [0, h]) B'
    n = len(A)
    acc = [[F(0)] * n for _ in range(n)]
    p = [[F(int(i == j)) for j in range(n)] for i in range(n)]
    f = F(h)
    for q in range(1, n + 2):
        for i in range(n):
            for j in range(n):
                acc[i][j] += p[i][j] * f
        p = [[sum(p[i][m] * F(A[m][j]) for m in range(n)) for j in range(n)] for i in range(n)]
        f = f * F(h) / (q + 1)
    return [[sum(acc[i][m] * F(B[m][j]) for m in range(n)) for j in range(len(B[0]))] for i in range(n)]


def raw_csr(w, mat, zeros=False):
    'the same matrix as a csr matrix whose rows are stored with descending column numbers (and explicit zeros, if asked)'
    data, inds, ptr = [], [], [0]
    mat = [list(r) for r in mat]
    for r in mat:
        for j in range(len(r) - 1, -1, -1):
            if zeros or not (isinstance(r[j], (int, float, F)) and r[j] == 0):
                data.append(r[j] if not isinstance(r[j], (int, F)) else float(r[j]))
                inds.append(j)
        ptr.append(len(data))
    return w.csr_matrix((data, inds, ptr), shape=(len(mat), len(mat[0]) if mat else 0), dtype=float)


def make_ha(w, modes, transitions=()):
    '''modes: list of dict(A, B, U, u, inv, inv_rhs, name) ; transitions: list of dict(src, dst, G, g, R, M, C, d)
    cfg 'raw': 1 passes every matrix as a csr matrix with unsorted columns, 2 with explicit zeros too'''
    hm = w.mod('hybrid_automaton')
    raw = w.cfg.get('raw')
    if raw:
        def conv(d, keys):
            return {k: raw_csr(w, v, raw == 2) if k in keys and v is not None and len(v) else v for k, v in d.items()}
        modes = [conv(m, 'A inv B U'.split()) for m in modes]
        transitions = [conv(t, 'G R M C'.split()) for t in transitions]
    ha = hm.HybridAutomaton()
    ms = []
    for i, m in enumerate(modes):
        mo = ha.new_mode(m.get('name', 'm%d' % i))
        if m.get('A') is not None:
            mo.set_dynamics(m['A'])
            if m.get('inv') is not None:
                mo.set_invariant(m['inv'], m['inv_rhs'])
            if m.get('B') is not None:
                mo.set_inputs(m['B'], m['U'], m['u'], allow_constants=True)
        ms.append(mo)
    ts = []
    for t in transitions:
        tr = ha.new_transition(ms[t['src']], ms[t['dst']], t.get('name'))
        if t.get('G') is None:
            tr.set_guard_true()
        else:
            tr.set_guard(t['G'], t['g'])
        if t.get('R') is not None or t.get('M') is not None or t.get('C') is not None:
            tr.set_reset(t.get('R'), t.get('M'), t.get('C'), t.get('d'))
        ts.append(tr)
    return ha, ms, ts


def spec_step(p, E, V=None, ub=None):
    'image of p under E x + V u, u in ub=(U, rhs)'
    if V is None:
        return image(p, E)
    return image(p, E, extra=(V, ub[0], ub[1]))


def sym_box(w, n, lo=-4, hi=4, pre='x'):
    out = []
    for i in range(n):
        a = w.real('%s%dl' % (pre, i), lo, hi)
        b = w.real('%s%du' % (pre, i), lo, hi)
        w.assume(cond_le(mk(a) - mk(b)))
        out.append((a, b))
    return out


def make_core(w, ha, h, nsteps, agg=None, **kw):
    'Core with quiet settings; agg: None = no aggregation, or an aggregation strategy'
    st = w.mod('settings')
    s = st.HylaaSettings(h, h * nsteps)
    s.stdout = st.HylaaSettings.STDOUT_NONE
    s.plot.plot_mode = st.PlotSettings.PLOT_NONE
    s.aggstrat = agg if agg is not None else w.mod('aggstrat').Unaggregated()
    for k, v in kw.items():
        setattr(s, k, v)
    return bounded(w, w.mod('core').Core(ha, s))


def bounded(w, core, limit=250):
    'an analysis that takes far more steps than any correct one within the bounds is reported instead of being run for ever'
    step, n = core.do_step, [0]

    def do_step():
        n[0] += 1
        if n[0] > limit:
            w.fail('the analysis does not end')
            raise RuntimeError('the analysis does not end')
        step()
    core.do_step = do_step
    return core


def mul(a, b):
    'matrix product tolerating symbolic entries'
    return matmul(a, b)
