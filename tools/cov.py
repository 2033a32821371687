"""Lines of the code under test executed by a check (development aid).

python tools/cov.py OUT.json C01 [run.py options]"""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.path.abspath(sys.argv[1])
ARGS = sys.argv[2:]
os.environ.update({'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1',
                   'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
                   'MPLBACKEND': 'Agg', 'VERIF_ENV': '1'})
sys.path.insert(0, os.path.join(HERE, 'lib'))
sys.path.insert(0, HERE)
sys.argv = [os.path.join(HERE, 'run.py')] + ARGS
import run                      # noqa: E402
import harness                  # noqa: E402
SRC = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'src', 'hookeai')
M = sys.monitoring
DIR = OUT + '.d'
os.makedirs(DIR, exist_ok=True)
LINES = {}


def hit(code, line):
    if code.co_filename.startswith(SRC):
        LINES.setdefault(code.co_filename, set()).add(line)
    return M.DISABLE


def worker(*a):
    M.use_tool_id(M.COVERAGE_ID, 'cov')
    M.register_callback(M.COVERAGE_ID, M.events.LINE, hit)
    M.set_events(M.COVERAGE_ID, M.events.LINE)
    try:
        orig(*a)
    finally:
        with open(os.path.join(DIR, f'{os.getpid()}.json'), 'w') as f:
            json.dump({k: sorted(v) for k, v in LINES.items()}, f)


orig = harness._worker
harness._worker = worker
rc = run.main()
tot = {}
for q in os.listdir(DIR):
    p = os.path.join(DIR, q)
    for k, v in json.load(open(p)).items():
        tot.setdefault(os.path.relpath(k, SRC), set()).update(v)
    os.remove(p)
os.rmdir(DIR)
with open(OUT, 'w') as f:
    json.dump({k: sorted(v) for k, v in tot.items()}, f)
print(rc, {k: len(v) for k, v in tot.items()})
