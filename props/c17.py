'''C17 Pending states are processed exactly once and none is lost'''

from .common import *
from .c12 import run_core
from .c13 import model, strategy

BOUNDS = {'quick': 'waiting lists of 2 to 6 successors with symbolic step stamps (three free values, offsets and widths fixed) in several patterns of modes, transitions, '
                   'parents and initial states, all pop orders, same path required or not; splits of merges of 2 to 7 members down to '
                   'single states with arbitrary stamps; removal below every node of graphs of up to 6 nodes; whole analyses with '
                   'de-aggregation (the models and options of C13) with one symbolic limit',
          'thorough': 'whole analyses with 1 more step'}
OUTSIDE = 'longer waiting lists, larger graphs, more steps; aggregation strategies written by users'

# transitions of the automaton: 0,1: a->b  2: b->a  3: a->err  4: b->err  5: a->a
TR = [(0, 1), (0, 1), (1, 0), (0, 2), (1, 2), (0, 0)]

# successors: (transition or None for an initial state, parent or mode of the initial state)
LISTS = {
    'same path': [(0, 0), (0, 0), (0, 0)],
    'two transitions': [(0, 0), (1, 0), (0, 0), (1, 0)],
    'two parents': [(0, 0), (0, 2), (0, 0), (0, 2)],
    'two modes': [(0, 0), (2, 1), (0, 0), (2, 1)],
    'modes and parents': [(0, 0), (5, 0), (2, 1), (5, 2), (0, 2)],
    'errors': [(3, 0), (3, 0), (4, 1), (4, 1)],
    'errors and others': [(3, 0), (0, 0), (3, 0), (0, 0)],
    'initial states': [(None, 0), (None, 0), (None, 1)],
    'initial and others': [(None, 0), (2, 1), (None, 1), (0, 0), (2, 1)],
    'single': [(0, 0)],
    'two': [(0, 0), (0, 0)],
    'six': [(0, 0), (1, 0), (0, 0), (0, 2), (0, 2), (1, 0)],
}


def scenarios(tier):
    q = tier == 'quick'
    out = []
    for name, l in LISTS.items():
        for pop in (0, 1, 2):
            for anypath in (0, 1):
                if len(l) > 4 and anypath and pop != 1 and q:
                    continue
                out.append(sc('pops: %s, order %d%s' % (name, pop, ', any path' if anypath else ''), 'f_pop',
                              {'list': name, 'pop': pop, 'anypath': anypath}))
        out.append(sc('pops: %s, no aggregation' % name, 'f_pop', {'list': name, 'unagg': 1}))
    for m in range(2, 8):
        out.append(sc('split of %d' % m, 'f_split', {'m': m}))
    for g in GRAPHS:
        out.append(sc('removal: ' + g, 'f_remove', {'graph': g}))
        for pref in (0, 1, 2):
            out.append(sc('node to split: %s, preference %d' % (g, pref), 'f_which', {'graph': g, 'pref': pref}))
        out.append(sc('node to split: %s, switched off' % g, 'f_which', {'graph': g, 'pref': 0, 'off': 1}))

    def add(name, model, n, agg='box', **k):
        k.update(model=model, n=n + (0 if q else 1), agg=agg)
        out.append(sc('run: %s %s%s' % (name, agg, ' deaggregation' if k.get('de') else ''), 'f_run', k))
    for de in (0, 1):
        add('slab', 'slab', 4, 'arnoldi', de=de)
        for m in ('slab', 'chain', 'branch', 'paths', 'inv', 'late', 'reset', 'guard', 'inp'):
            add(m, m, 4 if m not in ('guard', 'inp') else 3, de=de)
    for pop in (0, 2):
        add('order %d' % pop, 'chain', 4, de=1, pop=pop)
        add('branch order %d' % pop, 'branch', 4, de=1, pop=pop)
    for pref in (0, 1):
        add('preference %d' % pref, 'chain', 4, de=1, pref=pref)
        add('any path preference %d' % pref, 'paths', 4, de=1, pref=pref, anypath=1)
    add('any path', 'paths', 4, de=1, anypath=1)
    add('any path, branching', 'branch', 4, de=1, anypath=1)
    add('all errors', 'slab', 4, de=1, nostop=1)
    add('all errors, chain', 'chain', 4, de=1, nostop=1)
    add('urgent', 'slab', 3, de=1, urgent=1)
    for avoid in ('', 'a', 'b', 'ab'):
        for agg in (0, 1):
            if agg or not avoid:
                out.append(sc('simulated runs: next mode%s%s' % (', avoiding ' + avoid if avoid else '', '' if agg else ', no aggregation'),
                              'f_simpop', {'avoid': avoid, 'agg': agg}))
    return out


def setup(w, agg):
    ha, ms, ts = make_ha(w, [{'A': [[0]], 'name': 'b'}, {'A': [[0]], 'name': 'a'}, {'name': 'err'}],
                         [dict(src=s, dst=d) for s, d in TR])
    core = make_core(w, ha, 1.0, 9, agg)
    core.setup_ha(ha)
    core.result = w.mod('result').HylaaResult()
    return core, ms, ts


def init_state(w, m, lo=0.0):
    return w.mod('stateset').StateSet(w.mod('lputil').from_box([[lo, lo + 1.0]], m), m)


def root(w, core, m):
    'a node being processed'
    core.aggdag.add_init_state(init_state(w, m))
    op = core.aggdag.waiting_list.pop()
    return core.aggdag.make_node([op], None, 'init')


def successor(w, core, t, node, stamps=None):
    op = core.aggdag.make_op_transition(t, node.stateset.lpi.clone(), node.stateset, node)
    if stamps is not None:
        op.poststate.cur_steps_since_start = list(stamps)
    node.op_list.append(op)
    core.aggdag.waiting_list.append(op)
    return op


def stamp(w, m=3):
    'm symbolic stamps, used with various offsets and widths'
    k = w.serial = getattr(w, 'serial', -1) + 1
    if k < m:
        w.stamps = getattr(w, 'stamps', []) + [w.real('s%d' % k, 0, 9)]
    a = w.stamps[k % m]
    if k >= m:
        a = a + (k // m) * (1 if k % 2 else -1)
    return a, a + (0, 2, 1, 0, 3)[k % 5]


def score(pop, s):
    a, b = s
    return (-mk(a), -(mk(a) + b), mk(b))[pop]


def ids(ops):
    return [id(o) for o in ops]


def f_simpop(w):
    'the next simulated mode has a run with the fewest elapsed steps, modes to avoid come last; all its runs leave the list'
    a = w.mod('aggstrat')
    c = w.cfg
    s = a.Aggregated(a.Aggregated.AGG_BOX) if c['agg'] else a.Unaggregated()
    if c['agg']:
        s.sim_avoid_modes = list(c['avoid'])
    core, ms, _ = setup(w, s)
    items, st = [], {}
    for i, k in enumerate((0, 1, 1, 0)):
        n = w.real('n%d' % i, 0, 9) if i < 3 else 4
        items.append([ms[k], w.np.array([float(i)]), n])
        st[i] = mk(n)
        w.assume(cand(*[cor(cond_le(st[i] - st[j] + F(1, 2)), cond_le(st[j] - st[i] + F(1, 2))) for j in range(i)]) if i else True)
    for m in ms[:2]:
        if m.time_elapse is None:
            m.init_time_elapse(1.0)
    core.sim_waiting_list = list(items)
    before = [(x[0], x[2]) for x in items]
    core.sim_pop_waiting_list()
    popped, left = list(core.sim_states), list(core.sim_waiting_list)
    w.check(sorted(ids(popped + left)) == sorted(ids(items)), 'a run is lost or doubled')
    w.check([x[0] for x in items] == [m for m, _ in before], 'a run is changed')
    w.check(len(popped) > 0 and all(x[0] is popped[0][0] for x in popped), 'runs of different modes')
    w.check(not any(x[0] is popped[0][0] for x in left), 'a run of the mode is left behind')
    avoid = [m.name in c['avoid'] for m, _ in before]
    mode = popped[0][0]
    if not all(avoid):
        w.check(mode.name not in c['avoid'], 'a mode to avoid comes first')
        best = [i for i, x in enumerate(items) if x[0] is mode]
        for j, (m, _) in enumerate(before):
            if not avoid[j]:
                w.check(cor(*[cond_le(st[i] - st[j]) for i in best]), 'a run with fewer elapsed steps waits')


def f_pop(w):
    c = w.cfg
    a = w.mod('aggstrat')
    if c.get('unagg'):
        s = a.Unaggregated()
    else:
        s = a.Aggregated(a.Aggregated.AGG_BOX)
        s.pop_type, s.require_same_path = c['pop'], not c['anypath']
    core, ms, ts = setup(w, s)
    dag = core.aggdag
    nodes = [root(w, core, ms[0]), root(w, core, ms[1]), root(w, core, ms[0])]
    stamps = {}
    keep = []
    for t, p in LISTS[c['list']]:
        st = stamp(w)
        if t is None:
            dag.add_init_state(init_state(w, ms[p]))
            op = dag.waiting_list[-1]
            op.poststate.cur_steps_since_start = list(st)
        else:
            op = successor(w, core, ts[t], nodes[p], st)
        stamps[id(op)] = st
        keep.append(op)
    done = []
    while dag.waiting_list:
        before = list(dag.waiting_list)
        state = dag.pop_waiting_list()
        after = ids(dag.waiting_list)
        w.check(len(set(after)) == len(after) and set(after) <= set(ids(before)), 'waiting list after a pop')
        gone = [o for o in before if id(o) not in after]
        w.check(len(gone) > 0, 'nothing was processed')
        node = dag.cur_node
        w.check(node.stateset is state, 'processed set')
        w.check(sorted(ids(node.parent_ops)) == sorted(ids(gone)), 'members of the processed set differ from the states removed')
        for o in gone:
            w.check(o.child_node is node, 'link from a state to where it is processed')
            w.check(id(o) not in done, 'state processed twice')
            done.append(id(o))
        f = gone[0]
        if len(gone) > 1:
            w.check(not c.get('unagg'), 'merged although aggregation is off')
            for o in gone:
                w.check(o.poststate.mode is f.poststate.mode, 'merged states of several modes')
                w.check(o.parent_node is not None and not o.poststate.mode.is_error(), 'merged initial or error states')
                if not c.get('anypath'):
                    w.check(o.transition is f.transition and o.parent_node is f.parent_node, 'merged states of several paths')
            w.check(not state.is_concrete, 'merged states are called concrete')
            lo, hi = state.cur_steps_since_start
            for k, v, sgn in ((0, lo, 1), (1, hi, -1)):
                w.check(cand(*[cond_le((mk(v) - mk(stamps[id(o)][k])) * sgn) for o in gone]), 'steps of the merge')
                w.check(cor(*[cond_eq(mk(v) - mk(stamps[id(o)][k])) for o in gone]), 'steps of the merge')
        else:
            w.check(state is f.poststate, 'processed set of a single state')
        if c.get('unagg'):
            w.check(gone == before[:1] and gone[0] is keep[len(done) - 1], 'states are not processed in order')
        else:
            # some member, or a state of the same mode and path, has the best score
            like = [o for o in before if o.poststate.mode is f.poststate.mode and
                    (c.get('anypath') or o.transition is f.transition and o.parent_node is f.parent_node)]
            w.check(cor(*[cand(*[cond_le(score(c['pop'], stamps[id(p)]) - score(c['pop'], stamps[id(o)])) for p in before])
                          for o in like]), 'not the configured order')
            if f.parent_node is not None and not f.poststate.mode.is_error() and all(o.parent_node is not None for o in like):
                w.check(len(gone) == len(like), 'not all states of the same mode and path are merged')
        dag.cur_state_left_invariant()
    w.check(sorted(done) == sorted(ids(keep)), 'states were lost')
    w.check(len(done) == len(keep), 'states were processed more than once')


def f_split(w):
    'splitting down to single states: members are partitioned'
    m = w.cfg['m']
    a = w.mod('aggstrat')
    core, ms, ts = setup(w, a.Aggregated(a.Aggregated.AGG_BOX))
    dag = core.aggdag
    node = root(w, core, ms[0])
    ops = [successor(w, core, ts[0], node, stamp(w)) for _ in range(m)]
    dag.pop_waiting_list()
    top = dag.cur_node
    w.check(sorted(ids(top.parent_ops)) == sorted(ids(ops)), 'members of the merge')
    live = [top]
    for _ in range(m - 1):
        big = [n for n in live if len(n.parent_ops) > 1]
        n = big[w.choose(len(big), 'split')] if m < 6 else big[-1]
        members = list(n.parent_ops)
        parts = n.split()
        live.remove(n)
        live += parts
        w.check(len(parts) == 2 and all(len(p.parent_ops) > 0 for p in parts), 'parts of a split')
        got = [o for p in parts for o in p.parent_ops]
        w.check(sorted(ids(got)) == sorted(ids(members)), 'the parts do not partition the members')
        for p in parts:
            for o in p.parent_ops:
                w.check(o.child_node is p, 'link from a member to its part')
            st = [o.poststate.cur_steps_since_start for o in p.parent_ops]
            lo, hi = p.stateset.cur_steps_since_start
            w.check(cand(*[cond_le(mk(lo) - s[0]) for s in st], *[cond_le(mk(s[1]) - hi) for s in st]), 'steps of a part')
            w.check(cor(*[cond_eq(mk(lo) - s[0]) for s in st]), 'steps of a part')
            w.check(cor(*[cond_eq(mk(hi) - s[1]) for s in st]), 'steps of a part')
            w.check(bool(p.stateset.is_concrete) == (len(p.parent_ops) == 1), 'single states are concrete, merges are not')
            w.check(len(p.parent_ops) > 1 or p.stateset is p.parent_ops[0].poststate, 'set of a single state')
    w.check(sorted(ids([o for n in live for o in n.parent_ops])) == sorted(ids(ops)), 'members lost after splitting')


# nodes: name -> list of parent names ('' is the root); every node is a merge of one successor of each parent (two if one parent);
# waiting successors: list of parents
GRAPHS = {
    'chain': ([('A', ['']), ('B', ['A']), ('C', ['B'])], ['', 'A', 'B', 'C', 'C']),
    'tree': ([('A', ['']), ('B', ['']), ('C', ['A']), ('D', ['A']), ('E', ['B'])], ['A', 'B', 'C', 'D', 'E', 'D']),
    'joined': ([('A', ['']), ('B', ['']), ('C', ['A', 'B']), ('D', ['C'])], ['A', 'B', 'C', 'D', '']),
    'diamond': ([('A', ['']), ('B', ['A']), ('C', ['A']), ('D', ['B', 'C']), ('E', ['D'])], ['B', 'C', 'D', 'E', 'E']),
    'joined late': ([('A', ['']), ('B', ['A']), ('C', ['']), ('D', ['B', 'C'])], ['A', 'C', 'D', 'D', 'B']),
}


def f_remove(w):
    'pending states are removed for a split only below the node that is split'
    a = w.mod('aggstrat')
    s = a.Aggregated(a.Aggregated.AGG_BOX)
    s.require_same_path = False
    core, ms, ts = setup(w, s)
    dag = core.aggdag
    spec, pend = GRAPHS[w.cfg['graph']]
    nodes = {'': root(w, core, ms[0])}
    up = {'': set()}
    for name, ps in spec:
        ops = []
        for p in ps * (2 if len(ps) == 1 else 1):
            ops.append(successor(w, core, ts[5], nodes[p], stamp(w, 1)))
            dag.waiting_list.pop()
        nodes[name] = dag.make_node(ops, s.get_agg_type(ops), 'full')
        up[name] = set(ps).union(*[up[p] for p in ps])
    waiting = [(successor(w, core, ts[(0, 1, 5)[w.choose(2, 'transition')]], nodes[p], stamp(w, 1)), p) for p in pend]
    which = [n for n, _ in spec][w.choose(len(spec), 'node')]
    dag.remove_node_decendants_from_waiting_list(nodes[which])
    want = [o for o, p in waiting if not (p == which or which in up[p])]
    w.check(ids(dag.waiting_list) == ids(want), 'pending states removed for a split')
    # states from elsewhere that reached the descendants are found again
    below = [n for n, _ in spec if which in up[n]]
    want = {}
    for n in below:
        ps = [o for o in nodes[n].parent_ops if not any(o.parent_node is nodes[x] for x in below + [which])]
        if ps:
            want[id(nodes[n])] = sorted(ids(ps))
    got = {}
    for n, ops in dag.get_outside_ops(nodes[which]):
        w.check(id(n) not in got, 'descendant considered twice')
        got[id(n)] = sorted(ids(ops))
    w.check(got == want, 'states that reached descendants from elsewhere')


def f_which(w):
    '''the node that is split is a merged ancestor (or self) of a node whose inexact successors reach an error or leave by different
    transitions, chosen by the configured preference; without such a node nothing is split'''
    a = w.mod('aggstrat')
    s = a.Aggregated(a.Aggregated.AGG_BOX, deaggregate=not w.cfg.get('off'))
    s.require_same_path = False
    s.deagg_preference = pref = w.cfg['pref']
    core, ms, ts = setup(w, s)
    dag = core.aggdag
    left = w.mod('aggdag').OpLeftInvariant
    spec, pend = GRAPHS[w.cfg['graph']]
    nodes = {'': root(w, core, ms[0])}
    first = {}
    for name, ps in spec:
        ops = []
        for p in ps * (1 if name in 'BD' and len(ps) == 1 else 2):
            ops.append(successor(w, core, ts[5], nodes[p], stamp(w, 1)))
            dag.waiting_list.pop()
        if name == 'D':
            ops.append(successor(w, core, ts[5], nodes[ps[0]], stamp(w, 1)))
            dag.waiting_list.pop()
        nodes[name] = dag.make_node(ops, s.get_agg_type(ops), 'full')
        first[name] = ps[0]
    waiting = []
    for p in pend[:4]:
        t = (0, 3, 5)[w.choose(3, 'transition')]
        successor(w, core, ts[t], nodes[p], stamp(w, 1))
        waiting.append((p, t))
    for n in nodes.values():
        n.op_list.append(left(9, n, True))
    conc = {n: nodes[n].stateset.is_concrete for n in nodes}
    trig = {p for p, t in waiting if not conc[p] and (t == 3 or any(q == p and u != t for q, u in waiting))}
    got = s.get_deagg_node(dag)
    if w.cfg.get('off') or not trig:
        w.check(got is None, 'a node is split without need')
        return
    ok = []
    for p in trig:
        path = [p]
        while first.get(path[-1]):
            path.append(first[path[-1]])
        path = [n for n in path if len(nodes[n].parent_ops) > 1]          # leaf to root
        if pref == a.Aggregated.DEAGG_LEAVES_FIRST:
            ok.append(path[0])
        elif pref == a.Aggregated.DEAGG_ROOT_FIRST:
            ok.append(path[-1])
        else:
            m = max(len(nodes[n].parent_ops) for n in path)
            ok += [n for n in path if len(nodes[n].parent_ops) == m]
    w.check(any(got is nodes[n] for n in ok), 'node chosen for a split')


def f_run(w):
    c = w.cfg
    modes, trans, inits = model(w, c['model'])
    for m in modes:
        if m.get('inv') is not None:
            w.assume(from_ineq(m['inv'], m['inv_rhs']).nonempty())
    ha, ms, _ = make_ha(w, modes, trans)
    core = make_core(w, ha, 1.0, c['n'], strategy(w, c), optimize_tt_transitions=False, make_counterexample=False,
                     process_urgent_guards=bool(c.get('urgent')))
    if c.get('nostop'):
        core.settings.stop_on_concrete_error = False
    S = w.mod('stateset').StateSet
    lu = w.mod('lputil')
    core.setup([S(lu.from_box(b, ms[i]), ms[i]) for i, b in inits])
    dag = core.aggdag
    roots = list(dag.waiting_list)
    seen = {id(o): o for o in dag.waiting_list}
    finished = set()
    limit = 400
    while not core.is_finished() and limit:
        limit -= 1
        before = list(dag.waiting_list)
        busy = bool(dag.deagg_man.doing_replay())
        core.do_step()
        after = ids(dag.waiting_list)
        w.check(len(after) == len(set(after)), 'state waits twice')
        for o in dag.waiting_list:
            w.check(id(o) not in finished, 'processed state waits again')
            seen[id(o)] = o
        gone = [o for o in before if id(o) not in after]
        finished |= set(ids(gone))
        if gone and not busy:
            split = bool(dag.deagg_man.doing_replay())
            if not split and dag.deagg_man.deagg_parent is None and any(o.child_node is None for o in gone):
                split = True       # a whole replay happened in this step
            if not split:
                f = gone[0]
                nd = f.child_node
                w.check(nd is not None and sorted(ids(nd.parent_ops)) == sorted(ids(gone)),
                        'states left the waiting list without being processed together')
        if busy:
            w.check(not gone, 'pending states removed during a replay')
        if not dag.deagg_man.doing_replay():
            invariant(w, core, roots, bool(c.get('anypath')))
    w.check(limit > 0, 'analysis does not end')
    stopped = core.result.has_concrete_error and core.settings.stop_on_concrete_error
    if not stopped:
        w.check(not dag.waiting_list, 'states still wait at the end')


def invariant(w, core, roots, anypath):
    'every successor of every node that is still part of the exploration waits, or was processed in a node that lists it'
    dag = core.aggdag
    OT = w.mod('deaggregation').OpTransition
    waiting = ids(dag.waiting_list)
    todo = [o.child_node for o in roots if o.child_node is not None]
    done = []
    reach = set(ids(roots))
    while todo:
        n = todo.pop()
        if any(n is d for d in done):
            continue
        done.append(n)
        f = n.parent_ops[0]
        for o in n.parent_ops:
            w.check(o.child_node is n, 'member of a node leads elsewhere')
            w.check(o.poststate.mode is n.stateset.mode, 'merged states of several modes')
            if not anypath:
                w.check(o.transition is f.transition and o.parent_node is f.parent_node, 'merged states of several paths')
        w.check(len(set(ids(n.parent_ops))) == len(n.parent_ops), 'state is a member twice')
        for o in n.op_list:
            if not isinstance(o, OT):
                continue
            w.check(o.parent_node is n, 'successor belongs to another node')
            reach.add(id(o))
            if o.child_node is None:
                w.check(waiting.count(id(o)) == 1, 'successor was lost')
            else:
                w.check(id(o) not in waiting, 'processed successor still waits')
                w.check(sum(1 for x in o.child_node.parent_ops if x is o) == 1, 'successor is not a member of its node')
                todo.append(o.child_node)
    for o in dag.waiting_list:
        w.check(id(o) in reach, 'a state of a split node is still waiting')
    for n in done:
        if n is not dag.cur_node:
            w.check(n.node_left_invariant(), 'node is not finished')
