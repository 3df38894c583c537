'''
Run one scenario on the real hylaa with concrete inputs.

usage: replay.py FILE.json          exit 1 if the recorded violation shows on the real code, 0 if it does not
'''

import json
import os
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.path.insert(0, os.environ.get('HYLAA_REPO', '/repo'))
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')


def main():
    import importlib
    from symx import sym, world
    import builtins

    with open(sys.argv[1], encoding='utf-8') as f:
        d = json.load(f)
    out = {'confirmed': False, 'failures': [], 'error': None}
    eng = sym.set_engine(sym.Engine(query_timeout_ms=30000))
    world.reset_cols()
    mod = importlib.import_module('props.' + d['module'])
    w = world.RealWorld(eng, d['cfg'], d['params'], d['choices'], d.get('rand'))
    real_print = builtins.print
    if '-v' not in sys.argv:
        builtins.print = lambda *a, **k: None
        w.mod('util')
        try:
            w.mod('lpinstance').LpInstance.print_normal = w.mod('lpinstance').LpInstance.print_verbose = \
                w.mod('lpinstance').LpInstance.print_debug = staticmethod(lambda *a: None)
        except AttributeError:
            pass
    try:
        getattr(mod, d['fn'])(w)
    except world.Failure:
        out['confirmed'] = True
        out['failures'] = w.failures
    except sym.PathEnd:
        out['error'] = 'assumption not met'
    except sym.Unsupported as e:
        out['error'] = 'unsupported: %s' % e
    except (Exception, SystemExit) as e:    # pylint: disable=broad-except
        out['error'] = traceback.format_exc()
        if d.get('exc_ok') or harness_fault(e):
            pass
        else:
            out['confirmed'] = True
            out['failures'] = [{'label': 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]), 'wit': None}]
    out['checks'] = w.nchecks
    builtins.print = real_print
    sys.stdout.write('\nREPLAY-RESULT ' + json.dumps(out) + '\n')
    sys.stdout.flush()
    if '-v' in sys.argv:
        print('params', d['params'], 'choices', d['choices'], 'cfg', d['cfg'])
        for x in out['failures']:
            print('property %s: %s%s' % (d['property'], x['label'], '' if not x['wit'] else '  witness %s' % x['wit']))
        if out['error']:
            print(out['error'])
    sys.exit(1 if out['confirmed'] else 0)


def harness_fault(e):
    'the innermost frame that is not library code lies in /verif: not a fault of the code under test'
    repo = os.path.realpath(os.environ.get('HYLAA_REPO', '/repo')) + os.sep
    tb = e.__traceback__
    verif = os.path.dirname(HERE) + os.sep
    last = None
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(repo):
            last = True
        elif fn.startswith(verif) and os.path.basename(fn) != 'checkedarrays.py':
            last = False
        tb = tb.tb_next
    return not last


if __name__ == '__main__':
    main()
