"""Create and confirm a planted bug.  usage: plant.py SPEC.py [ID ...]

SPEC.py defines BUGS: list of dict(id, prop, edits=[(file, old, new)], demo,
needs, breaks).  Each edit's `old` must occur exactly once in the file.  The
bug is confirmed in a scratch copy of /repo: it compiles, the stable tests
pass, the demo passes without and fails with the change.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

SCR = '/tmp/plant_repo'
SEED = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'seeded')
DEMO = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg CUDA_VISIBLE_DEVICES=
export PYTHONPATH="$PWD/src/hookeai:$PWD/src"
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, cwd=SCR, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True,
                          text=True, **kw)


def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))['stable']
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               CUDA_VISIBLE_DEVICES='')
    dirs = sh("find tests -name 'test_*.py' -printf '%h\\n' | sort -u"
              ).stdout.split()
    n = 0
    for d in dirs:
        r = sh(f'/opt/venv/bin/python -m pytest -q -p no:cacheprovider '
               f'--rootdir={SCR} --continue-on-collection-errors {d}', env=env)
        for line in r.stdout.splitlines():
            if ' passed' in line:
                n += int(line.split(' passed')[0].split()[-1])
    return n, len(base)


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    ids = sys.argv[2:]
    sh('rm -rf /tmp/plant_repo && git -c advice.detachedHead=false clone -q '
       '/repo /tmp/plant_repo', cwd='/tmp')
    for b in bugs:
        if ids and b['id'] not in ids:
            continue
        d = os.path.join(SEED, b['id'])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write(DEMO)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(b['demo'])
        with open(os.path.join(d, 'meta.json'), 'w') as f:
            json.dump({'property': b['prop'], 'needs': b['needs'],
                       'what_it_breaks': b['breaks']}, f, indent=1)
        sh('git checkout -q -- .')
        r0 = sh(f'bash {d}/demo.sh')
        ok = True
        for file, old, new in b['edits']:
            p = os.path.join(SCR, 'src/hookeai', file)
            s = open(p).read()
            if s.count(old) != 1:
                print(b['id'], 'edit matches', s.count(old), 'times in', file,
                      '::', old[:60])
                ok = False
                break
            open(p, 'w').write(s.replace(old, new))
        if not ok:
            shutil.rmtree(d)
            continue
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(sh('git diff').stdout)
        c = sh('/opt/venv/bin/python -W ignore -m compileall -q src')
        r1 = sh(f'bash {d}/demo.sh')
        n, m = tests()
        good = (r0.returncode == 0 and r1.returncode != 0 and n >= m
                and c.returncode == 0)
        print(b['id'], 'OK' if good else 'BAD', 'demo', r0.returncode,
              r1.returncode, 'tests', n, m)
        if r0.returncode:
            print(r0.stdout[-1500:], r0.stderr[-1500:])
        elif not r1.returncode:
            print('patched demo passed', r1.stdout[-500:])
        else:
            print('   ', (r1.stderr or r1.stdout).strip().splitlines()[-1][:150])
        sh('git checkout -q -- .; git clean -fdq')
        if not good:
            shutil.rmtree(d)
    shutil.rmtree(SCR, ignore_errors=True)


main()
