'''regenerate MANIFEST.json from properties.jsonl and the harness modules present in props/'''
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
checks, na = [], []
for p in props:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'props', pid.lower() + '.py')) and pid not in NA:
        cmd = '/opt/venv/bin/python run.py --property %s --tier ' % pid
        checks.append({
            'property': pid, 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough',
            'technique': 'symbolic execution of the real Python sources with z3 deciding every branch and assertion; '
                         'counterexamples replayed on the real numpy/scipy/GLPK stack',
            'level': 'model_checking',
            'level_note': 'Holds for all parameter values and modelled solver behaviours within the stated bounds on the '
                          'explored paths. Trusted: z3, the numpy/scipy/GLPK stand-ins in symx/, real arithmetic for '
                          'floating point with margins. See DESIGN.md for bounds per property.'})
    else:
        na.append({'property': pid, 'reason': NA.get(pid, 'harness not built yet')})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python tools/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Everything runs from the committed sources; nothing to build.'}
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
