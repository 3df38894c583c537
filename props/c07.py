'''C07 A transition's image is exactly the reset applied to the guarded states'''

from .common import *

BOUNDS = {'quick': 'resets 1x2 .. 3x2 (concrete, or with symbolic entries in [-2, 2]) with 0..2 extra reset variables with '
                   'symbolic bounds; source sets: symbolic boxes after 0..2 steps with and without inputs, cut by a symbolic '
                   'guard; successor with and without inputs; chains of 2 transitions with steps between and after; aggregated '
                   'and unaggregated strategies',
          'thorough': 'chains of 3 transitions'}
OUTSIDE = 'longer chains; larger dimensions; set differences below 1/64'

A2 = [[0, 1], [0, 0]]
A3 = [[0, 1, 0], [0, 0, 1], [0, 0, 0]]
A1 = [[0]]

RESETS = {
    'identity': None,
    'swap': [[0, 1], [1, 0]],
    'proj': [[1, 1]],
    'lift': [[1, 0], [0, 1], [1, -1]],
    'sing': [[1, 0], [2, 0]],
    'zero': [[0, 0], [0, 0]],
    'sym': 'sym',
}
MINK = {
    None: None,
    'offset': ('fix', 1),
    'box1': ('box', 1),
    'box2': ('box', 2),
    'nomat': ('nomat', 2),
    'tri': ('tri', 2),
    'redundant': ('red', 1),
    'many': ('many', 3),
}


def scenarios(tier):
    out = []
    for r in RESETS:
        for mk_ in MINK:
            for inp in (0, 1):
                if mk_ == 'nomat' and r in ('proj', 'lift') or mk_ in ('tri', 'redundant', 'many') and r not in ('identity', 'proj', 'lift'):
                    continue
                for steps in (0, 1):
                    if r not in ('identity', 'swap', 'proj') and steps == 1 and mk_ not in (None, 'box1'):
                        continue
                    out.append(sc('reset %s extra %s inputs %d steps %d' % (r, mk_, inp, steps), 'f_one',
                                  {'r': r, 'm': mk_, 'in0': inp, 'in1': (inp + steps) % 2, 'steps': steps}))
    for inp in (0, 1, 2, 3):
        for chain in (['proj', 'up'], ['swap', 'sing'], ['lift', 'down']):
            out.append(sc('chain %s inputs %d' % (' '.join(chain), inp), 'f_chain', {'chain': chain, 'inp': inp}))
    if tier != 'quick':
        for inp in (0, 1, 2, 3):
            out.append(sc('chain of three inputs %d' % inp, 'f_chain', {'chain': ['swap', 'proj', 'up'], 'inp': inp}))
            out.append(sc('chain of three with lift inputs %d' % inp, 'f_chain', {'chain': ['lift', 'down', 'swap'], 'inp': inp}))
    for agg in (0, 1):
        out.append(sc('through the transition bookkeeping agg=%d' % agg, 'f_op', {'agg': agg}))
    out.append(sc('point reset', 'f_point'))
    return out


def dynA(n):
    return {1: A1, 2: A2, 3: A3}[n]


def modes_with(n, inp, w, tag):
    d = {'A': dynA(n)}
    if inp:
        B = [[0]] * (n - 1) + [[1]]
        d.update(B=B, U=[[1], [-1]], u=[w.real('u' + tag, 0, 2), 1])
    return d


def reset_of(w, r, n=2):
    R = RESETS[r]
    if R == 'sym':
        R = [[w.real('r0', -2, 2), 1], [0, w.real('r1', -2, 2)]]
    return R


def mink_of(w, name, n1):
    'returns M, C, d'
    if name is None:
        return None, None, None
    kind, k = MINK[name]
    if kind == 'fix':
        c = w.real('off', -4, 4)
        return [[1]] * n1, [[1], [-1]], [c, -mk(c) if w.is_sym else -c]
    if kind == 'tri':
        C, d = [[-1, 0], [0, -1], [1, 1]], [0, 1, w.real('mhi', 0, 2)]
        return [[1, 0], [1, -1], [0, 2]][:n1], C, d
    if kind == 'many':
        # more extra variables than twice the number of target dimensions; the last ones matter
        k = 2 * n1 + 1
        C = [[int(i == j) for j in range(k)] for i in range(k)] + [[-int(i == j) for j in range(k)] for i in range(k)] + [[1] * k]
        d = [1] * (2 * k - 1) + [0, w.real('mhi', 0, k)]
        return [[0] * i + [1] * (k - i - 1) + [2 + i] for i in range(n1)], C, d
    if kind == 'red':
        C, d = [[1], [-1], [2]], [1, 1, w.real('mhi', -2, 4)]
        return [[1], [-1], [2]][:n1], C, d
    C, d = [], []
    for i in range(k):
        lo, hi = w.real('mlo%d' % i, -2, 2), w.real('mhi%d' % i, -2, 2)
        w.assume(cond_le(mk(lo) - hi))
        C += [[int(i == j) for j in range(k)], [-int(i == j) for j in range(k)]]
        d += [hi, -mk(lo) if w.is_sym else -lo]
    if kind == 'nomat':
        return None, C, d
    M = [[1, 0], [1, -1], [0, 2]][:n1]
    return [r[:k] for r in M], C, d


def step_set(p, n, md):
    E = mat_exp(dynA(n), 0.5)
    if md.get('B'):
        return spec_step(p, E, input_mat(dynA(n), md['B'], 0.5), (md['U'], md['u']))
    return spec_step(p, E)


def reset_set(p, R, n, M, C, d):
    R = R if R is not None else eye(n)
    if C is None:
        return image(p, R)
    return image(p, R, extra=(M if M is not None else eye(len(C[0])), C, d))


def f_one(w):
    c = w.cfg
    R = reset_of(w, c['r'])
    n1 = 2 if R is None else len(R)
    M, C, d = mink_of(w, c['m'], n1)
    m0, m1 = modes_with(2, c['in0'], w, 'a'), modes_with(n1, c['in1'], w, 'b')
    t = dict(src=0, dst=1, G=[[1, 1]], g=[w.real('g', -4, 4)])
    if R is not None or C is not None:
        t.update(R=R, M=M, C=C, d=d)
    ha, ms, ts = make_ha(w, [m0, m1], [t])
    for m in ms:
        m.init_time_elapse(0.5)
    core = make_core(w, ha, 0.5, 10)
    b = sym_box(w, 2)
    S = w.mod('stateset').StateSet
    s = S(w.mod('lputil').from_box(b, ms[0]), ms[0], cur_steps_since_start=[2, 4])
    p = box(b)
    for _ in range(c['steps']):
        s.step()
        p = step_set(p, 2, m0)
    g = constrain(p, t['G'], t['g'])
    w.assume(constrain(p, t['G'], [mk(t['g'][0]) - w.margin]).nonempty())
    tl = ts[0].get_guard_intersection(s.lpi)
    op = core.aggdag.make_op_transition(ts[0], tl, s, None)
    q = reset_set(g, R, 2, M, C, d)
    s2 = op.poststate
    w.check(s2.mode is ms[1] and s2.cur_step_in_mode == 0, 'successor mode and step')
    w.check(list(s2.cur_steps_since_start) == [2 + c['steps'], 4 + c['steps']], 'successor step interval')
    w.check(s2.is_concrete, 'successor exactness')
    w.check_equal(w.poly(s2.lpi), q, 'successor states')
    s2.step()
    q = step_set(q, n1, m1)
    w.check_equal(w.poly(s2.lpi), q, 'successor states after a step')
    w.check_equal(w.poly(s.lpi), p, 'source states')
    w.check(list(s.cur_steps_since_start) == [2 + c['steps'], 4 + c['steps']], 'source step interval')


CH = {'proj': ([[1, 1]], 2, 1), 'up': ([[1], [-1]], 1, 2), 'swap': ([[0, 1], [1, 0]], 2, 2), 'sing': ([[1, 0], [2, 0]], 2, 2),
      'lift': ([[1, 0], [0, 1], [1, -1]], 2, 3), 'down': ([[1, 0, 1], [0, 1, 0]], 3, 2)}


def f_chain(w):
    c = w.cfg
    dims = [CH[c['chain'][0]][1]]
    mds = [modes_with(dims[0], c['inp'] & 1, w, '0')]
    trs = []
    for i, name in enumerate(c['chain']):
        R, _, nd = CH[name]
        dims.append(nd)
        mds.append(modes_with(nd, (c['inp'] >> ((i + 1) % 2)) & 1, w, str(i + 1)))
        t = dict(src=i, dst=i + 1, R=R)
        if i == 0:
            lo = w.real('ml', -1, 1)
            t.update(M=[[1]] * nd, C=[[1], [-1]], d=[1, -mk(lo) if w.is_sym else -lo])
        else:
            t.update(G=[[1] + [0] * (dims[i] - 1)], g=[w.real('g%d' % i, -4, 4)])
        trs.append(t)
    ha, ms, ts = make_ha(w, mds, trs)
    for m in ms:
        m.init_time_elapse(0.5)
    core = make_core(w, ha, 0.5, 10)
    S = w.mod('stateset').StateSet
    b = [(w.real('bl', -2, 0), w.real('bu', 0, 2)), (0, 1)]
    s = S(w.mod('lputil').from_box(b, ms[0]), ms[0])
    p = box(b)
    for i, t in enumerate(trs):
        s.step()
        p = step_set(p, dims[i], mds[i])
        if t.get('G'):
            w.assume(constrain(p, t['G'], [mk(t['g'][0]) - w.margin]).nonempty())
            p = constrain(p, t['G'], t['g'])
        tl = ts[i].get_guard_intersection(s.lpi)
        op = core.aggdag.make_op_transition(ts[i], tl, s, None)
        p = reset_set(p, t['R'], dims[i], t.get('M'), t.get('C'), t.get('d'))
        s = op.poststate
    w.check_equal(w.poly(s.lpi), p, 'states after a chain')
    s.step()
    p = step_set(p, dims[-1], mds[-1])
    w.check_equal(w.poly(s.lpi), p, 'states after a chain and a step')
    w.check(list(s.cur_steps_since_start) == [len(trs) + 1] * 2, 'step interval')


def f_op(w):
    'a real transition found by the main loop with its guard'
    ast = w.mod('aggstrat')
    agg = ast.Aggregated() if w.cfg['agg'] else None
    m0, m1 = modes_with(2, 1, w, 'a'), modes_with(2, 0, w, 'b')
    R = [[0, 1], [2, 0]]
    g = [w.real('g', -4, 4)]
    t = dict(src=0, dst=1, G=[[1, 0]], g=g, R=R)
    ha, ms, ts = make_ha(w, [m0, m1], [t])
    core = make_core(w, ha, 0.5, 10, agg=agg)
    for m in ms:
        m.init_time_elapse(0.5)
    S = w.mod('stateset').StateSet
    b = [(w.real('bl', -2, 0), w.real('bu', 0, 2)), (0, 1)]
    s = S(w.mod('lputil').from_box(b, ms[0]), ms[0])
    core.aggdag.add_init_state(s)
    cur = core.aggdag.pop_waiting_list()
    w.check(cur is s, 'popped state')
    s.step()
    p = step_set(box(b), 2, m0)
    core.check_guards()
    wl = core.aggdag.waiting_list
    q = constrain(p, t['G'], g)
    if not wl:
        w.check(constrain(p, t['G'], [mk(g[0]) - w.margin]).empty(), 'transition missed')
        return
    w.check(len(wl) == 1 and wl[0].transition is ts[0] and wl[0].parent_node is core.aggdag.cur_node, 'successor record')
    w.check_equal(w.poly(wl[0].poststate.lpi), image(q, R), 'successor states')
    w.check_equal(w.poly(s.lpi), p, 'source states')
    if w.cfg['agg']:
        c = wl[0].premode_center
        w.check(len(c) == 2, 'center dimension')


def f_point(w):
    R = [[w.real('r0', -2, 2), 1], [0, -1]]
    ha, ms, ts = make_ha(w, [{'A': A2}, {'A': A2}], [dict(src=0, dst=1, R=R), dict(src=0, dst=1)])
    pt = [w.real('p0', -4, 4), w.real('p1', -4, 4)]
    q, m = ts[0].apply_reset_for_point(w.np.array(pt, dtype=float))
    w.check(m is ms[1], 'target mode')
    w.check_mat([list(q)], [matvec(R, pt)], 'reset of a point')
    q, m = ts[1].apply_reset_for_point(w.np.array(pt, dtype=float))
    w.check_mat([list(q)], [pt], 'identity reset of a point')
