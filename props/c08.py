'''C08 Invariant pruning keeps exactly the trajectories that stayed in the invariant'''

from .common import *
from .c05 import start

BOUNDS = {'quick': '1 or 2 invariant rows (also repeated, multiples of each other or constant) with symbolic right-hand sides, 2-dimensional nilpotent dynamics (plus one 3-d), symbolic '
                   'initial sets, 0 or 1 input with symbolic bound, 3 prune/step rounds (4 without inputs), single or double '
                   'advances, in the initial mode and after a reset',
          'thorough': '4 prune/step rounds (5 without inputs), up to 3 rows'}
OUTSIDE = 'more rounds, rows or dimensions; sets touching the invariant within 1/64'

DYN = {
    'drift': dict(A=[[0, 1], [0, 0]], B=[[1], [0]], x=[(None, None), (-1, 1)]),
    'int': dict(A=[[0, 1], [0, 0]], B=[[0], [1]], x=[(None, None), (1, 2)]),
    'back': dict(A=[[0, -1], [0, 0]], B=[[0], [1]], x=[(0, 1), (None, None)]),
    'line': dict(A=[[0]], B=[[1]], x=[(None, None)]),
    'chain': dict(A=[[0, 1, 0], [0, 0, 1], [0, 0, 0]], B=[[0], [0], [1]], x=[(None, None), (-1, 1), (-1, 0)]),
}
INV = {
    'up': [[1, 0]],
    'two': [[1, 0], [-1, 0]],
    'diag': [[1, 1]],
    'vel': [[0, 1], [1, 1]],
    'neg': [[-1, -2]],
    'down': [[-1, 0]],
    'three': [[1, 0], [-1, 1], [0, -1]],
    'same': [[1, 0], [1, 0]],
    'scaled': [[1, 0], [2, 0]],
    'zero': [[0, 0], [1, 0]],
}


def scenarios(tier):
    out = []
    q = tier == 'quick'
    for d in ('drift', 'int', 'back'):
        for i in INV:
            if q and i == 'three' or i in ('neg', 'down', 'same', 'scaled', 'zero'):
                continue
            for inp in (0, 1):
                n = (4 if not inp else 3) + (0 if q else 1)
                if len(INV[i]) > 1 and inp:
                    n -= 1
                out.append(sc('%s invariant %s inputs %d' % (d, i, inp), 'f_inv', {'d': d, 'i': i, 'inp': inp, 'n': n}))
    out.append(sc('chain invariant up', 'f_inv', {'d': 'chain', 'i': 'up', 'inp': 0, 'n': 3}))
    for d in ('drift', 'int', 'back'):
        for inp in (0, 1):
            out.append(sc('%s invariant neg inputs %d' % (d, inp), 'f_inv', {'d': d, 'i': 'neg', 'inp': inp, 'n': 3 - inp}))
    for i in ('up', 'down'):
        out.append(sc('line invariant %s, six rounds with inputs' % i, 'f_inv', {'d': 'line', 'i': i, 'inp': 1, 'n': 6}))
    for i in ('same', 'scaled', 'zero'):
        for inp in (0, 1):
            out.append(sc('int invariant %s inputs %d' % (i, inp), 'f_inv', {'d': 'int', 'i': i, 'inp': inp, 'n': 3 - inp}))
    out.append(sc('unsorted rows', 'f_inv', {'d': 'int', 'i': 'vel', 'inp': 1, 'n': 2, 'raw': 1}))
    out.append(sc('polytope start', 'f_inv', {'d': 'int', 'i': 'diag', 'inp': 0, 'n': 3, 'start': 'poly'}))
    out.append(sc('double advance', 'f_inv', {'d': 'int', 'i': 'up', 'inp': 1, 'n': 2, 'jump': 2}))
    for inp in (0, 1):
        out.append(sc('after a transition inputs %d' % inp, 'f_after', {'inp': inp}))
    out.append(sc('initial pruning', 'f_setup'))
    out.append(sc('recorded operations', 'f_ops'))
    return out


class Spec:
    """exact set of the trajectories that satisfied the invariant at every round, and the same with the invariant
    shifted outwards / inwards by the margin: whether states exactly on the boundary count is a matter of rounding"""

    def __init__(self, w, p, mat, rhs):
        self.w, self.mat = w, mat
        self.sets = [p, p]
        self.rhs = [[mk(r) + w.margin for r in rhs], [mk(r) - w.margin for r in rhs]]

    def each(self, f):
        self.sets = [f(p) for p in self.sets]

    def cut(self):
        self.sets = [constrain(p, self.mat, r) for p, r in zip(self.sets, self.rhs)]

    def check(self, lpi, what):
        p = self.w.poly(lpi)
        self.w.check_subset(p, self.sets[0], what + ' (left the invariant earlier)')
        self.w.check_subset(self.sets[1], p, what + ' (never left the invariant)')

    def prune(self, core, s, what):
        self.cut()
        if not core.intersect_invariant(s, add_ops_to_aggdag=False):
            self.w.check(self.sets[1].empty(), what + ': emptiness reported but states remain')
            return False
        self.w.check(self.sets[0].nonempty(), what + ': emptiness not reported')
        self.check(s.lpi, what + ': states')
        return True


def f_inv(w):
    c = w.cfg
    d = DYN[c['d']]
    n = len(d['A'])
    mat = [(r + [0] * (n - 2))[:n] for r in INV[c['i']]]
    rhs = [w.real('lim%d' % i, -4, 4) for i in range(len(mat))]
    if len(mat) > 1:
        w.assume(from_ineq(mat, rhs).nonempty())
    md = {'A': d['A'], 'inv': mat, 'inv_rhs': rhs}
    if c['inp']:
        md.update(B=d['B'], U=[[1], [-1]], u=[w.real('uu', 0, 2), 1])
    ha, ms, _ = make_ha(w, [md])
    m = ms[0]
    m.init_time_elapse(0.5)
    core = make_core(w, ha, 0.5, 10)
    if c.get('start'):
        lpi, p = start(w, c['start'], 2, m)
    else:
        b = []
        for i, (lo, hi) in enumerate(d['x']):
            if lo is None:
                lo, hi = w.real('x%dl' % i, -4, 4), w.real('x%du' % i, -4, 4)
                w.assume(cond_le(mk(lo) - hi))
            b.append((lo, hi))
        lpi, p = w.mod('lputil').from_box(b, m), box(b)
    s = w.mod('stateset').StateSet(lpi, m)
    E = mat_exp(d['A'], 0.5)
    V = input_mat(d['A'], d['B'], 0.5) if c['inp'] else None
    p = Spec(w, p, mat, rhs)
    for k in range(c['n']):
        if not p.prune(core, s, 'round %d' % k):
            return
        j = c.get('jump', 1)
        s.step(s.cur_step_in_mode + j)
        for _ in range(j):
            p.each(lambda a: spec_step(a, E, V, (md.get('U'), md.get('u'))))
    p.check(s.lpi, 'states after the last step')


def f_after(w):
    c = w.cfg
    A = [[0, 1], [0, 0]]
    R = [[0, 1], [1, 0]]
    mat = [[1, 0]]
    rhs = [w.real('r', -4, 4)]
    md0 = {'A': A}
    md = {'A': A, 'inv': mat, 'inv_rhs': rhs}
    if c['inp']:
        md.update(B=[[1], [0]], U=[[1], [-1]], u=[w.real('uu', 0, 2), 1])
        md0.update(B=[[0], [1]], U=[[1], [-1]], u=[1, 1])
    ha, ms, ts = make_ha(w, [md0, md], [dict(src=0, dst=1, R=R)])
    for m in ms:
        m.init_time_elapse(0.5)
    core = make_core(w, ha, 0.5, 10)
    S = w.mod('stateset').StateSet
    b = [(w.real('bl', -3, 0), w.real('bu', 0, 3)), (-1, 1)]
    s = S(w.mod('lputil').from_box(b, ms[0]), ms[0])
    E = mat_exp(A, 0.5)
    p = box(b)
    if c['inp']:
        s.step()
        p = spec_step(p, E, input_mat(A, md0['B'], 0.5), (md0['U'], md0['u']))
    tl = ts[0].get_guard_intersection(s.lpi)
    s = core.aggdag.make_op_transition(ts[0], tl, s, None).poststate
    p = image(p, R)
    V = input_mat(A, md['B'], 0.5) if c['inp'] else None
    p = Spec(w, p, mat, rhs)
    for k in range(3):
        if not p.prune(core, s, 'round %d' % k):
            return
        s.step()
        p.each(lambda a: spec_step(a, E, V, (md.get('U'), md.get('u'))))
    p.check(s.lpi, 'states after the last step')


def f_setup(w):
    'initial sets are pruned before they are put on the waiting list, empty ones are dropped'
    mat, rhs = [[1, 0], [0, -1]], [w.real('r0', -4, 4), w.real('r1', -4, 4)]
    A = [[0, 1], [0, 0]]
    ha, ms, _ = make_ha(w, [{'A': A, 'inv': mat, 'inv_rhs': rhs}])
    core = make_core(w, ha, 0.5, 2)
    S = w.mod('stateset').StateSet
    boxes = [[(w.real('bl', -3, 0), w.real('bu', 0, 3)), (-1, 1)], [(1, 2), (0, 3)]]
    sts = [S(w.mod('lputil').from_box(b, ms[0]), ms[0]) for b in boxes]
    q = [constrain(box(b), mat, rhs) for b in boxes]
    loose = [constrain(box(b), mat, [mk(r) + w.margin for r in rhs]) for b in boxes]
    tight = [constrain(box(b), mat, [mk(r) - w.margin for r in rhs]) for b in boxes]
    try:
        core.setup(sts)
    except RuntimeError:
        w.check(cand(tight[0].empty(), tight[1].empty()), 'all initial states dropped')
        return
    got = [op.poststate for op in core.aggdag.waiting_list]
    w.check([s for s in sts if s in got] == got, 'initial states in order')
    for s, a, lo, ti in zip(sts, q, loose, tight):
        if s in got:
            w.check(lo.nonempty(), 'empty initial set kept')
            w.check_equal(w.poly(s.lpi), a, 'initial set')
        else:
            w.check(ti.empty(), 'initial set dropped')
    # later pruning in the mode works from a clean start
    s = got[0]
    i = sts.index(s)
    E = mat_exp(A, 0.5)
    p = Spec(w, box(boxes[i]), mat, rhs)
    p.cut()
    for k in range(2):
        if not p.prune(core, s, 'round %d' % k):
            return
        s.step()
        p.each(lambda a: spec_step(a, E))
    p.check(s.lpi, 'states after pruning from the initial set')


def f_ops(w):
    'replaying the recorded operations on a smaller set prunes that set exactly'
    mat, rhs = [[1, 0]], [w.real('r', -4, 4)]
    A = [[0, 1], [0, 0]]
    ha, ms, _ = make_ha(w, [{'A': A, 'inv': mat, 'inv_rhs': rhs}])
    core = make_core(w, ha, 0.5, 4)
    ms[0].init_time_elapse(0.5)
    S = w.mod('stateset').StateSet
    lu = w.mod('lputil')
    b = [(w.real('bl', -3, 0), w.real('bu', 0, 3)), (-1, 1)]
    s = S(lu.from_box(b, ms[0]), ms[0])
    core.aggdag.add_init_state(s)
    core.aggdag.pop_waiting_list()
    E = mat_exp(A, 0.5)
    p = Spec(w, box(b), mat, rhs)
    # another set of the mode, pruned by replaying the recorded operations
    b2 = [(w.real('bl2', -3, 0), w.real('bu2', 0, 3)), (-1, 1)]
    w.assume(cand(cond_le(mk(b[0][0]) - b2[0][0]), cond_le(mk(b2[0][0]) - b2[0][1]), cond_le(mk(b2[0][1]) - b[0][1])))
    s2 = S(lu.from_box(b2, ms[0]), ms[0])
    p2 = Spec(w, box(b2), mat, rhs)
    node = core.aggdag.cur_node
    for k in range(3):
        before = len(node.op_list)
        p.cut()
        p2.cut()
        if not core.intersect_invariant(s):
            return
        if len(node.op_list) > before:
            w.check(len(node.op_list) == before + 1, 'one operation per invariant condition')
            if not node.replay_op_intersect_invariant(s2, node.op_list[-1]):
                w.check(p2.sets[1].empty(), 'replay: emptiness reported but states remain')
                return
            w.check(p2.sets[0].nonempty(), 'replay: emptiness not reported')
            del node.op_list[before + 1:]  # the replay records its own operation
            p2.check(s2.lpi, 'replayed states')
        s.step()
        s2.step()
        p.each(lambda a: spec_step(a, E))
        p2.each(lambda a: spec_step(a, E))
    p.check(s.lpi, 'states after pruning')
