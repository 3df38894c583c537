'''
Decide one property:  run.py --property C01 [--tier quick|thorough] [--only SUBSTR] [-v]

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken (confirmed on the real code); exit 2: the check
could not decide anything.
'''

import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

from symx import explore as ex  # noqa: E402


def _failed(job, why):
    return {'name': job['name'], 'violations': [], 'unconfirmed': [], 'known': [], 'undecided': [why],
            'complete': False, 'paths_done': 0, 'validated': 0, 'mismatch': [], 'samples': [], 'stats': {},
            'funcs': [], 'wall': 0, 'checks': 0}


def _work(job):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        return ex.explore(job)
    except BaseException as e:      # pylint: disable=broad-except
        import traceback
        return _failed(job, 'worker: %s %s' % (type(e).__name__, traceback.format_exc()[-1500:]))


def _child(job, conn, beat):
    ex.sym.BEAT[0] = beat
    if job.get('retry'):
        ex.sym.z3.set_param('smt.random_seed', 7 + job['retry'])
        job['query_ms'] = job['query_ms'] // 2
    conn.send(_work(job))
    conn.close()


def run_jobs(jobs, n):
    '''one process per scenario; a process whose solver does not come back is ended and the scenario is tried once more'''
    from multiprocessing.connection import wait
    ctx = multiprocessing.get_context('fork')
    todo = list(reversed(jobs))
    live = {}
    out = []
    while todo or live:
        while todo and len(live) < n:
            job = todo.pop()
            r, s = ctx.Pipe(False)
            beat = ctx.Value('d', 0.0, lock=False)
            p = ctx.Process(target=_child, args=(job, s, beat), daemon=True)
            p.start()
            s.close()
            live[r] = (p, job, beat)
        for r in wait(list(live), timeout=1.0):
            p, job, beat = live.pop(r)
            try:
                out.append(r.recv())
            except EOFError:
                out.append(_failed(job, 'worker ended'))
            r.close()
            p.join(5)
            if p.is_alive():
                p.kill()
        now = time.time()
        for r, (p, job, beat) in list(live.items()):
            b = beat.value
            if b and now - b > 4 * job['query_ms'] / 1000 + 20 or now > job['deadline'] + 60:
                p.kill()
                p.join()
                del live[r]
                r.close()
                if now < job['deadline'] and job.get('retry', 0) < 1:
                    todo.insert(0, dict(job, retry=job.get('retry', 0) + 1))
                else:
                    out.append(_failed(job, 'solver: no answer'))
    return out


def load_known():
    out = []
    p = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(p):
        with open(p, encoding='utf-8') as f:
            out = json.load(f).get('findings', [])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    pid = a.property
    modname = pid.lower()
    mod = importlib.import_module('props.' + modname)
    budget = a.budget or (420 if a.tier == 'quick' else 840)
    deadline = t0 + budget
    known = load_known()
    jobs = []
    for s in mod.scenarios(a.tier):
        j = {'property': pid, 'module': modname, 'fn': s['fn'], 'name': s['name'], 'cfg': s.get('cfg', {}),
             'deadline': deadline, 'max_paths': s.get('max_paths', 100000), 'query_ms': s.get('query_ms', 10000),
             'validate': s.get('validate', 1), 'known': known}
        if a.only and a.only not in j['name']:
            continue
        jobs.append(j)
    if a.tier == 'quick' and len(jobs) > 40:
        # re-running a path on the real stack costs a process start: do it for a spread of 40 scenarios
        keep = {int(i * len(jobs) / 40) for i in range(40)}
        for i, j in enumerate(jobs):
            if i not in keep:
                j['validate'] = 0
    results = [_work(j) for j in jobs] if a.jobs == 1 else run_jobs(jobs, a.jobs)
    results.sort(key=lambda r: r['name'])
    rc = report(pid, a, mod, jobs, results, t0)
    sys.exit(rc)


def report(pid, a, mod, jobs, results, t0):
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    funcs = sorted({f for r in results for f in r['funcs']})
    viol = [v for r in results for v in r['violations']]
    known = []
    for r in results:
        for k in r['known']:
            if k not in known:
                known.append(k)
    undec = {r['name']: r['undecided'] for r in results if r['undecided']}
    unconf = {r['name']: r['unconfirmed'] for r in results if r['unconfirmed']}
    mism = {r['name']: r['mismatch'] for r in results if r['mismatch']}
    paths_done = sum(r['paths_done'] for r in results)
    ev = {
        'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick',
        'seed': int(os.environ.get('VERIF_SEED', '1')),
        'level': 'model_checking',
        'coverage': {
            'states': paths_done,
            'transitions': tot.get('decisions', 0),
            'traces_validated_against_impl': sum(r['validated'] for r in results),
            'samples': [s for r in results for s in r['samples']][:12],
            'explanation': 'states = completed symbolic paths of the real code (each covers all inputs that take it); '
                           'transitions = branch decisions settled by the solver; traces_validated = path models replayed '
                           'on the real numpy/scipy/GLPK stack where every check held too',
            'scenarios': len(results),
            'scenarios_complete': sum(1 for r in results if r['complete']),
            'functions_encoded': funcs,
            'bounds': getattr(mod, 'BOUNDS', {}).get(a.tier, getattr(mod, 'BOUNDS', {}).get('quick', '')),
            'outside_bounds': getattr(mod, 'OUTSIDE', ''),
            'paths_started': tot.get('paths', 0),
            'solver_queries': tot.get('queries', 0),
            'checks_discharged_by_solver': tot.get('discharged', 0),
            'checks_true_by_normalisation': tot.get('trivial', 0),
            'solver_unknown': tot.get('unknown', 0),
            'solver_s': round(tot.get('solver_s', 0.0), 2),
            'symbolic_lp_solves': tot.get('lp_solves', 0),
            'undecided': {k: v[:4] for k, v in undec.items()},
            'unconfirmed_candidates': {k: [x['label'] for x in v][:4] for k, v in unconf.items()},
            'real_run_disagreements': {k: v[:2] for k, v in mism.items()},
            'exhaustive': all(r['complete'] for r in results) and not undec,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []) + [
            'real arithmetic in place of floating point; oracles allow a margin (1/64 on set comparisons unless stated)',
            'GLPK is modelled as an exact solver returning an arbitrary optimal point (symx/glpkshim.py)'],
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w', encoding='utf-8') as f:
        json.dump(ev, f, indent=1)
    print('%s %s: %d scenarios (%d complete), %d paths, %d checks by solver, %d queries, %.1f s solver, %d validated on real '
          'code, %.1f s' % (pid, a.tier, len(results), ev['coverage']['scenarios_complete'], paths_done,
                            tot.get('discharged', 0), tot.get('queries', 0), tot.get('solver_s', 0.0),
                            ev['coverage']['traces_validated_against_impl'], ev['wall_s']))
    if a.v:
        for r in results:
            print('  %-40s paths %4d/%4d complete %s wall %.1f solver %.1f q %d' % (
                r['name'], r['paths_done'], r['stats'].get('paths', 0), r['complete'], r['wall'],
                r['stats'].get('solver_s', 0), r['stats'].get('queries', 0)))
    for k, v in undec.items():
        print('undecided in %s: %s' % (k, '; '.join(sorted(set(x[:(3000 if a.v else 200)] for x in v))[:3])))
    for k, v in unconf.items():
        for x in v[:2]:
            print('unconfirmed in %s: %s %s' % (k, x['label'], json.dumps(x)[:3000] if a.v else ''))
            if a.v and x.get('tb'):
                print(x['tb'])
    for k, v in mism.items():
        print('real run disagrees in %s: %s' % (k, json.dumps(v[0])[:(4000 if a.v else 300)]))
    for k in known:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    if viol:
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        for i, v in enumerate(viol[:5]):
            p = os.path.join(d, '%s_%d.json' % (pid, i))
            with open(p, 'w', encoding='utf-8') as f:
                json.dump(v, f, indent=1)
            print('  scenario %s: %s; inputs %s choices %s' % (v['scenario'], v['real']['failures'][0]['label'],
                                                             v['params'], v['choices']))
            print('  re-run: %s %s/symx/replay.py %s -v' % (sys.executable, HERE, p))
            print('VIOLATION property=%s replay=%s' % (pid, p))
        return 1
    if paths_done == 0:
        print('nothing decided')
        return 2
    return 0


if __name__ == '__main__':
    main()
