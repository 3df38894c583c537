'''C23 The step bound covers the requested time horizon'''

from .common import *

BOUNDS = {'quick': 'step sizes in [1/1000, 1000] and time bounds giving up to 64 steps, both symbolic; analyses that run to the bound '
                   'and simulations of a clock for up to 6 steps with symbolic step size and time bound',
          'thorough': 'analyses for up to 12 steps'}
OUTSIDE = 'floating-point rounding of the quotient (an exact multiple may be rounded up by one step); more than 64 steps'


def scenarios(tier):
    out = [sc('time bound below %d steps' % b, 'f_bound', {'lo': a, 'hi': b}, max_paths=400)
           for a, b in ((0, 4), (4, 16), (16, 40), (40, 63))]
    out.append(sc('whole numbers', 'f_ints'))
    n = 6 if tier == 'quick' else 12
    for tt in (False, True):
        for inv in (0, 1):
            out.append(sc('analysis tt=%d inv=%d' % (tt, inv), 'f_run', {'n': n if not tt else 4, 'tt': tt, 'inv': inv}))
    out.append(sc('analysis from a later mode', 'f_chain', {'n': n}))
    return out


def f_bound(w):
    h = w.real('h', F(1, 1000), 1000)
    T = w.real('T', F(1, 1000), 64000)
    w.assume(cond_lt(mk(h) * w.cfg['lo'] - mk(T)))
    w.assume(cond_le(mk(T) - mk(h) * w.cfg['hi']))
    k = w.choose(w.cfg['hi'] - w.cfg['lo']) + w.cfg['lo']
    # one whole number of steps at a time; stay off exact multiples in the real run, where the quotient is rounded
    w.assume(cond_lt(mk(h) * k - mk(T)))
    w.assume(cond_le(mk(T) - mk(h) * (k + 1)))
    s = w.mod('settings').HylaaSettings(h, T)
    n = s.num_steps
    w.check(n == int(n), 'whole number of steps')
    w.check(n >= 1, 'at least one step')
    w.check(cond_le(mk(T) - mk(h) * n - F(1, 1 << 30)), 'steps reach the time bound')
    w.check(cond_lt(mk(h) * (n - 1) - mk(T) - F(1, 1 << 30)), 'no more steps than needed')
    w.check_num(s.step_size, h, 'step size')


def f_ints(w):
    st = w.mod('settings')
    for h, T in ((1, 1), (1, 3), (2, 3), (F(1, 2), 2), (F(1, 4), 5), (4, 1), (F(3, 2), 4)):
        for fl in (False, True):
            a, b = (float(h), float(T)) if fl or F(h).denominator > 1 else (int(h), int(T))
            n = st.HylaaSettings(a, b).num_steps
            w.check(n * F(h) >= T and (n - 1) * F(h) < T and n == int(n), 'steps for %s %s' % (a, b))


def clock(w, T, h, k, inv, extra=None):
    '2-d automaton with a clock and a constant; error when the clock is within half a step of step k'
    lo = mk(h) * k - mk(h) / 2
    m = {'A': [[0, 1], [0, 0]]}
    if inv:
        m['inv'], m['inv_rhs'] = [[1, 0]], [100000]
    return m, [[-1, 0]], [-lo]


def run(w, ha, mo, h, T, box_, tt):
    st = w.mod('settings')
    s = st.HylaaSettings(h, T)
    s.stdout = st.HylaaSettings.STDOUT_NONE
    s.aggstrat = w.mod('aggstrat').Unaggregated()
    s.optimize_tt_transitions = tt
    s.make_counterexample = False
    core = w.mod('core').Core(ha, s)
    init = w.mod('stateset').StateSet(w.mod('lputil').from_box(box_, mo), mo)
    return core.run([init]), s


def hT(w, n):
    h = w.real('h', F(1, 16), 16)
    T = w.real('T', F(1, 16), 16 * 16)
    k = w.choose(n)
    # T in (k h, (k + 1) h], away from the ends by a little so that rounding of the quotient does not matter
    w.assume(cond_le(mk(h) * k + mk(h) / 64 - mk(T)))
    w.assume(cond_le(mk(T) - mk(h) * (k + 1) + mk(h) / 64))
    return h, T, k + 1


def f_run(w):
    h, T, n = hT(w, w.cfg['n'])
    past = w.choose(2)
    m, G, g = clock(w, T, h, n + past, w.cfg['inv'])
    ha, ms, ts = make_ha(w, [m, {}], [dict(src=0, dst=1, G=G, g=g)])
    r, s = run(w, ha, ms[0], h, T, [[0, 0], [1, 1]], w.cfg['tt'])
    w.check(s.num_steps == n, 'number of steps')
    w.check(bool(r.has_concrete_error) == (not past), 'error %s the last step' % ('after' if past else 'at'))


def f_chain(w):
    'the bound counts the steps of all modes together'
    h, T, n = hT(w, w.cfg['n'])
    if n < 2:
        return
    past = w.choose(2)
    m, G, g = clock(w, T, h, n + past, 0)
    a = 1 + w.choose(n - 1)
    ha, ms, ts = make_ha(w, [m, {'A': [[0, 1], [0, 0]]}, {}],
                         [dict(src=0, dst=1, G=[[-1, 0]], g=[-(mk(h) * a - mk(h) / 2)]), dict(src=1, dst=2, G=G, g=g)])
    r, s = run(w, ha, ms[0], h, T, [[0, 0], [1, 1]], False)
    w.check(bool(r.has_concrete_error) == (not past), 'error %s the last step' % ('after' if past else 'at'))
