'''create/verify a planted bug: mkseed.py SPEC.py  (spec defines id, prop, edits=[(file, old, new)], demo, needs, breaks)'''
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HYLAA_REPO', '/repo')    # another clone may be used while /repo is busy
os.environ['HYLAA_REPO'] = REPO
os.environ['PYTHONPATH'] = REPO
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['MPLBACKEND'] = 'Agg'


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main(spec):
    g = {}
    exec(open(spec).read(), g)
    d = os.path.join(V, 'seeded', g['id'])
    os.makedirs(d, exist_ok=True)
    assert not sh('git -C ' + REPO + ' status --porcelain').stdout.strip(), 'dirty /repo'
    open(os.path.join(d, 'demo.py'), 'w').write(g['demo'].lstrip())
    open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexec env MPLBACKEND=Agg /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': g['prop'], 'needs': g['needs'], 'what_it_breaks': g['breaks']},
              open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    r = sh('bash %s/demo.sh' % d, cwd=REPO)
    print('demo clean:', r.returncode)
    if r.returncode:
        print(r.stdout[-1500:])
        return 1
    try:
        for f, old, new in g['edits']:
            p = os.path.join(REPO, f)
            t = open(p).read()
            assert t.count(old) == 1, ('not unique', f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C ' + REPO + ' diff').stdout)
        root = sh('git -C ' + REPO + ' rev-list --max-parents=0 HEAD').stdout.strip()[:8]
        for f, old, new in g['edits']:
            for i, l in enumerate(sh('git -C ' + REPO + ' diff -U0 -- ' + f).stdout.splitlines()):
                if l.startswith('@@'):
                    a = l.split()[1][1:].split(',')
                    a0, n = int(a[0]), int(a[1]) if len(a) > 1 else 1
                    if n:
                        b = sh('git -C %s blame -s -L %d,+%d HEAD -- %s' % (REPO, a0, n, f)).stdout
                        for x in b.splitlines():
                            if not x.lstrip('^').startswith(root[:7]):
                                print('NOT AN ORIGINAL LINE:', x)
                    else:
                        print('pure insertion at', f, a0)
        print(sh('/opt/venv/bin/python -m pytest -q -p no:cacheprovider -n 5 --dist loadfile -W ignore tests', cwd=REPO).stdout.strip().splitlines()[-1])
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        print('demo patched:', r.returncode, r.stdout[-300:])
        for pr in g.get('checks', [g['prop']]):
            r = sh('/opt/venv/bin/python run.py --property %s --tier quick' % pr, cwd=V)
            print('check', pr, r.returncode, '\n   ' + '\n   '.join(r.stdout.strip().splitlines()[-3:]))
    finally:
        sh('git -C ' + REPO + ' checkout -- .')
    return 0


for s in sys.argv[1:]:
    print('==', s)
    main(s)
