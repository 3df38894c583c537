'''
Path exploration of one scenario and confirmation of candidates on the real code.
'''

import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback

import numpy as np

from . import sym, world
from .sym import PathEnd, Unsupported, Budget, GlpkAbort

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('HYLAA_REPO', '/repo')
PY = sys.executable


class Coverage:
    'which functions of the code under test ran (sys.monitoring, one event per code object)'

    TOOL = 4

    def __init__(self):
        self.funcs = set()
        self.prefix = os.path.join(REPO, 'hylaa') + os.sep
        self.on = False

    def start(self):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, 'symx')
        except ValueError:
            return
        self.on = True
        mon.register_callback(self.TOOL, mon.events.PY_START, self._cb)
        mon.set_events(self.TOOL, mon.events.PY_START)

    def _cb(self, code, _off):
        if code.co_filename.startswith(self.prefix):
            if code.co_name != '<module>' and not code.co_qualname.endswith('>'):
                self.funcs.add(code.co_filename[len(self.prefix):-3] + '.' + code.co_qualname)
        return sys.monitoring.DISABLE

    def stop(self):
        if self.on:
            sys.monitoring.set_events(self.TOOL, 0)
            sys.monitoring.free_tool_id(self.TOOL)


def replay(d, timeout=120):
    'run a candidate on the real code; returns dict'
    env = dict(os.environ, MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1', HYLAA_REPO=REPO)
    tmp = tempfile.mkdtemp(prefix='symx_')
    try:
        p = os.path.join(tmp, 'c.json')
        with open(p, 'w', encoding='utf-8') as f:
            json.dump(d, f)
        try:
            r = subprocess.run([PY, os.path.join(HERE, 'replay.py'), p], cwd=tmp, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=timeout, check=False)
        except subprocess.TimeoutExpired:
            return {'confirmed': bool(d.get('hang')), 'failures': [{'label': 'does not terminate', 'wit': None}],
                    'error': 'timeout', 'raw': ''}
        txt = r.stdout.decode('utf-8', 'replace')
        i = txt.rfind('REPLAY-RESULT ')
        if i >= 0:
            return json.loads(txt[i + len('REPLAY-RESULT '):].splitlines()[0])
        if r.returncode < 0:
            return {'confirmed': True, 'failures': [{'label': 'process ended by signal %d' % -r.returncode, 'wit': None}],
                    'error': txt[-2000:]}
        return {'confirmed': False, 'failures': [], 'error': txt[-2000:]}
    finally:
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)


def explore(job):
    '''job: dict(property, module, fn, name, cfg, deadline, max_paths, validate)'''

    t0 = time.time()
    mod = importlib.import_module('props.' + job['module'])
    fn = getattr(mod, job['fn'])
    np.seterr(all="ignore")   # object arrays report stale floating point flags
    eng = sym.set_engine(sym.Engine(query_timeout_ms=job.get('query_ms', 10000), deadline=job['deadline']))
    res = {'name': job['name'], 'violations': [], 'unconfirmed': [], 'undecided': [], 'complete': False, 'paths_done': 0,
           'validated': 0, 'mismatch': [], 'samples': [], 'known': []}
    cov = Coverage()
    cov.start()
    eng.worklist = [[]]
    skip = set()
    tries = {}
    known = job.get('known', [])
    nval = job.get('validate', 1)
    decided_checks = 0
    paths = 0

    try:
        while eng.worklist:
            if paths >= job.get('max_paths', 100000) or time.time() > job['deadline']:
                raise Budget('path budget')
            prefix = eng.worklist.pop()
            eng.start_path(prefix)
            world.reset_cols()
            w = world.SymWorld(eng, job['cfg'], mod.sympy_shim() if hasattr(mod, 'sympy_shim') else None)
            w.skip_labels = skip
            cand = None
            paths += 1
            try:
                fn(w)
                res['paths_done'] += 1
                if nval > 0 and w.nchecks:
                    r, m = eng.model_for([])
                    if str(r) == 'sat':
                        nval -= 1
                        _validate(job, w, res)
            except world.CandidateFound:
                cand = w.candidates[-1]
            except PathEnd:
                pass
            except Unsupported as e:
                res['undecided'].append('unsupported: %s [%s]' % (e, _where(e)))
            except (Exception, SystemExit) as e:    # pylint: disable=broad-except
                tb = traceback.format_exc()
                if _in_repo(e) and w.exception_candidate(e, tb):
                    cand = w.candidates[-1]
                    if isinstance(e, GlpkAbort):
                        cand['abort'] = True
                elif not _in_repo(e):
                    res['undecided'].append('harness: %s' % tb[-1500:])
            decided_checks += w.nchecks
            for u in w.undecided:
                res['undecided'].append('unknown: %s' % u)
            if cand is not None:
                lab = cand['label']
                n = tries.get(lab, 0)
                tries[lab] = n + 1
                conf = _confirm(job, cand)
                if conf is not None:
                    k = _known(known, job, conf)
                    if k is not None:
                        res['known'].append(k)
                        skip.add(lab) if not lab.startswith('unexpected') else None
                        # explore the rest of this path with the known failure excluded
                        if not lab.startswith('unexpected'):
                            eng.worklist.append(prefix_of(eng))
                    else:
                        res['violations'].append(conf)
                        break
                else:
                    res['unconfirmed'].append({'label': lab, 'params': cand['models'][0], 'choices': cand['choices'],
                                               'wit': cand['wit'], 'tb': cand.get('tb'), 'last': cand.get('last')})
                    if n + 1 >= 4:
                        skip.add(lab)
                    if not lab.startswith('unexpected'):
                        # finish this path without the unconfirmed check
                        skip2 = skip | {lab}
                        eng.start_path(prefix_of(eng))
                        world.reset_cols()
                        w = world.SymWorld(eng, job['cfg'], mod.sympy_shim() if hasattr(mod, 'sympy_shim') else None)
                        w.skip_labels = skip2
                        try:
                            fn(w)
                        except (world.CandidateFound, PathEnd):
                            pass
                        except Exception:       # pylint: disable=broad-except
                            pass
        else:
            res['complete'] = True
    except Budget as e:
        res['undecided'].append('budget: %s (%d paths pending)' % (e, len(eng.worklist) + 1))
    cov.stop()
    eng.stats['paths'] = paths
    res['stats'] = dict(eng.stats)
    res['funcs'] = sorted(cov.funcs)
    res['wall'] = time.time() - t0
    res['checks'] = decided_checks
    if skip:
        res['undecided'].append('not decided after unconfirmed candidates: %s' % sorted(skip))
    return res


def prefix_of(eng):
    return list(eng.decisions)


def _validate(job, w, res):
    'run the real code on a model of a completed path: the same checks must hold there'
    models = w.models([], None) if False else None
    r, m = w.eng.model_for([])
    params = w.models([], m)[0]
    d = {'property': job['property'], 'module': job['module'], 'fn': job['fn'], 'cfg': job['cfg'], 'params': params,
         'choices': list(w.choices), 'rand': w._rand(m)}
    rr = replay(d)
    _ = models
    if rr['error'] == 'assumption not met':
        pass        # a model on the boundary of an assumption, lost in the conversion to floats
    elif rr['confirmed'] or rr['error']:
        res['mismatch'].append({'params': params, 'choices': d['choices'], 'result': rr})
    else:
        res['validated'] += 1
    res['samples'].append({'scenario': job['name'], 'params': params, 'choices': d['choices'], 'decisions':
                           len(w.eng.decisions), 'real_checks_passed': rr.get('checks', 0)})


def _in_repo(e):
    pre = os.path.join(REPO, 'hylaa') + os.sep
    tb = e.__traceback__
    ok = False
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pre):
            ok = True
        tb = tb.tb_next
    return ok


def _where(e):
    pre = os.path.join(REPO, 'hylaa') + os.sep
    tb = e.__traceback__
    s = '?'
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if fn.startswith(pre):
            s = '%s:%d' % (fn[len(pre):], tb.tb_lineno)
        tb = tb.tb_next
    return s


def _confirm(job, cand):
    for params in cand['models']:
        d = {'property': job['property'], 'module': job['module'], 'fn': job['fn'], 'cfg': job['cfg'], 'params': params,
             'choices': cand['choices'], 'rand': cand.get('rand'), 'label': cand['label'], 'scenario': job['name']}
        rr = replay(d)
        cand['last'] = rr
        if rr['confirmed']:
            d['real'] = rr
            d['wit'] = cand['wit']
            return d
    return None


def _known(known, job, conf):
    for k in known:
        if k['property'] == job['property'] and k.get('scenario', job['name']) == job['name']:
            labs = [x['label'] for x in conf['real']['failures']]
            if any(k['label'] in lb for lb in labs):
                return k
    return None
