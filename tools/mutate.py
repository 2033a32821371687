"""Mutation campaign (development aid): sample small changes of the lines a
check executes, run the check on each in a scratch copy, list what it misses.

python tools/mutate.py CXX --cov COV.json --n 40 [--files REGEX] [--scale F]
Results are appended to OUT (default /tmp/mut/CXX.txt)."""
import argparse
import ast
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import time
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'],
       ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
       ast.NotIn: ['in']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.Pow: '*', ast.FloorDiv: '/', ast.Mod: '+', ast.MatMult: '*'}
SWAP = {'max': 'min', 'min': 'max', 'sum': 'mean', 'mean': 'sum',
        'sin': 'cos', 'cos': 'sin', 'any': 'all', 'all': 'any',
        'zeros': 'ones', 'ones': 'zeros', 'sqrt': 'abs', 'argmin': 'argmax',
        'argmax': 'argmin', 'floor': 'ceil', 'ceil': 'floor',
        'append': 'extend', 'triu_indices': 'tril_indices'}


def mutants(path, lines):
    src = open(path).read()
    tree = ast.parse(src)
    offs = [0]
    for ln in src.split('\n'):
        offs.append(offs[-1] + len(ln) + 1)
    pos = lambda a, b: offs[a - 1] + len(             # noqa: E731
        src.split('\n')[a - 1].encode()[:b].decode())
    seg = lambda n: (pos(n.lineno, n.col_offset),      # noqa: E731
                     pos(n.end_lineno, n.end_col_offset))
    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Raise):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.FunctionDef):
            if n.name.startswith('plot') or 'save_fig' in n.name:
                skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.JoinedStr):
            skip.update(id(m) for m in ast.walk(n))
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'print':
            skip.update(id(m) for m in ast.walk(n))
    for n in ast.walk(tree):
        if id(n) in skip or not hasattr(n, 'lineno'):
            continue
        if n.lineno not in lines:
            continue

        def out(a, b, new, kind):
            return (kind, n.lineno, a, b, new)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a = seg(n.left)[1]
            b = seg(n.comparators[0])[0]
            old = src[a:b]
            for t in CMP.get(type(n.ops[0]), []):
                m = re.search(r'(not\s+in|is\s+not|[<>=!]=?|is|in)', old)
                if m:
                    yield out(a + m.start(), a + m.end(), t, 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if isinstance(n.left, ast.Constant) and isinstance(
                    n.left.value, str) or isinstance(
                    n.right, (ast.JoinedStr,)) or (isinstance(
                        n.right, ast.Constant)
                    and isinstance(n.right.value, str)):
                continue
            a = seg(n.left)[1]
            b = seg(n.right)[0]
            m = re.search(r'(\*\*|//|[-+*/%@])', src[a:b])
            if m:
                yield out(a + m.start(), a + m.end(), BIN[type(n.op)], 'bin')
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            a = seg(n.target)[1]
            b = seg(n.value)[0]
            m = re.search(r'(\*\*|//|[-+*/%@])=', src[a:b])
            if m:
                yield out(a + m.start(), a + m.end(),
                          BIN[type(n.op)] + '=', 'aug')
                yield out(a + m.start(), a + m.end(), '=', 'aug')
        elif isinstance(n, ast.UnaryOp) and isinstance(
                n.op, (ast.USub, ast.Not)):
            a, b = seg(n)
            yield out(a, b, '(' + src[seg(n.operand)[0]:b] + ')', 'unary')
        elif isinstance(n, ast.BoolOp):
            a = seg(n.values[0])[1]
            b = seg(n.values[1])[0]
            m = re.search(r'\b(and|or)\b', src[a:b])
            if m:
                yield out(a + m.start(), a + m.end(), 'or' if m.group(
                    ) == 'and' else 'and', 'bool')
        elif isinstance(n, ast.Constant):
            a, b = seg(n)
            v = n.value
            if isinstance(v, bool):
                yield out(a, b, str(not v), 'const')
            elif isinstance(v, int):
                yield out(a, b, str(v + 1), 'const')
                if v > 0:
                    yield out(a, b, str(v - 1), 'const')
            elif isinstance(v, float):
                yield out(a, b, repr(v*1.5 if v else 0.1), 'const')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                if f.attr in SWAP:
                    a = seg(f.value)[1]
                    b = seg(f)[1]
                    yield out(a, b, '.' + SWAP[f.attr], 'call')
                if f.attr in ('copy', 'clone', 'detach', 'reset', 'eval',
                              'requires_grad_', 'abs', 'transpose', 't',
                              'flip') and not n.args:
                    yield out(*seg(n), src[slice(*seg(f.value))], 'drop')
                if f.attr in ('deepcopy', 'abs', 'sort', 'unique', 'copy',
                              'sqrt', 'normalize', 'transpose') and len(
                                  n.args) == 1:
                    yield out(*seg(n), '(' + src[slice(*seg(
                        n.args[0]))] + ')', 'drop')
            elif isinstance(f, ast.Name) and f.id in (
                    'sorted', 'abs', 'reversed', 'set', 'list', 'dict') \
                    and len(n.args) == 1:
                yield out(*seg(n), '(' + src[slice(*seg(n.args[0]))] + ')',
                          'drop')
            elif isinstance(f, ast.Name) and f.id in SWAP:
                yield out(*seg(f), SWAP[f.id], 'call')
            if len(n.args) >= 2 and not any(isinstance(
                    x, ast.Starred) for x in n.args):
                a, b = seg(n.args[0]), seg(n.args[1])
                x, y = src[slice(*a)], src[slice(*b)]
                if x != y:
                    yield out(a[0], b[1], y + src[a[1]:b[0]] + x, 'swap')
        elif isinstance(n, ast.keyword):
            pass
        elif isinstance(n, ast.If):
            a, b = seg(n.test)
            yield out(a, b, 'True', 'if')
            yield out(a, b, 'False', 'if')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            yield out(*seg(n), 'pass', 'del')
        elif isinstance(n, ast.Assign) and isinstance(
                n.targets[0], (ast.Attribute, ast.Subscript)):
            yield out(*seg(n), 'pass', 'del')
        elif isinstance(n, (ast.Break, ast.Continue)):
            yield out(*seg(n), 'pass', 'del')


def run(pid, wdir, timeout, scale, seed, tag):
    flag = os.path.join(wdir, 'flag')
    if os.path.exists(flag):
        os.remove(flag)
    env = dict(os.environ, VERIF_REPO=wdir, MUT_FLAG=flag)
    t0 = time.time()
    p = subprocess.Popen(
        ['/opt/venv/bin/python', '-B', os.path.abspath(__file__), '--run',
         pid, '--scale', str(scale), '--jobs', '1', '--seed', str(seed)],
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
        start_new_session=True, text=True)
    res = None
    while p.poll() is None:
        time.sleep(0.3)
        if os.path.exists(flag):
            time.sleep(0.2)
            res = 'KILLED ' + open(flag).read()[:150]
        elif time.time() - t0 > timeout:
            res = 'TIMEOUT'
        if res:
            break
    if res is None:
        if os.path.exists(flag):
            res = 'KILLED ' + open(flag).read()[:150]
        else:
            o = p.communicate()[0]
            res = f'SURVIVED rc={p.returncode} ' if p.returncode == 0 else \
                f'ERROR rc={p.returncode} ' + o.strip()[-100:]
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    subprocess.run(f'rm -rf {wdir}/tmp && mkdir -p {wdir}/tmp', shell=True)
    return res.replace('\n', ' '), time.time() - t0


def inner(a):
    """Run a check; on the first violation write the flag and stop."""
    os.environ.update({'PYTHONHASHSEED': '0', 'OMP_NUM_THREADS': '1',
                       'MKL_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
                       'MPLBACKEND': 'Agg', 'VERIF_ENV': '1',
                       'TMPDIR': os.environ['VERIF_REPO'] + '/tmp'})
    sys.path.insert(0, os.path.join(HERE, 'lib'))
    sys.path.insert(0, HERE)
    sys.argv = ['run.py', a.run, '--scale', str(a.scale), '--jobs', '1',
                '--seed', str(a.seed)]
    import run as R
    import harness
    harness.VERIF_EVIDENCE = None
    orig = harness._dump

    def dump(out, pid, name, shard, st, phase):
        orig(out, pid, name, shard, st, phase)
        if st['last'] is not None:
            with open(os.environ['MUT_FLAG'], 'w') as f:
                f.write(f'{name}: {st["last"][1][1]}')
    harness._dump = dump

    def report(pid, mod, tier, seed, out, tasks, cut, t0):
        bad = []
        for name, i, k in tasks:
            p = os.path.join(out, f'{name}.{i}.json')
            if not os.path.exists(p):
                bad.append(name)
                continue
            d = json.load(open(p))
            if d['err']:
                bad.append(d['err'][1][1] + str(d['err'][1][2]))
        if bad:
            print(bad[0])
            return 2
        return 0
    harness._report = report
    return R.main()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid', nargs='?')
    ap.add_argument('--run')
    ap.add_argument('--cov')
    ap.add_argument('--n', type=int, default=40)
    ap.add_argument('--files', default='.')
    ap.add_argument('--scale', type=float, default=0.5)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--mseed', type=int, default=0)
    ap.add_argument('--timeout', type=float, default=420)
    ap.add_argument('--workers', type=int, default=8)
    ap.add_argument('--lines')
    ap.add_argument('--jobs')
    a = ap.parse_args()
    if a.run:
        return inner(a)
    cov = json.load(open(a.cov))
    src = '/repo/src/hookeai'
    every = []
    for f, lines in cov.items():
        if not re.search(a.files, f):
            continue
        lines = set(lines)
        if a.lines:
            lo, hi = a.lines.split('-')
            lines = {x for x in lines if int(lo) <= x <= int(hi)}
        text = open(os.path.join(src, f)).read()
        for m in mutants(os.path.join(src, f), lines):
            new = text[:m[2]] + m[4] + text[m[3]:]
            try:
                ast.parse(new)
            except SyntaxError:
                continue
            every.append((f, m))
    r = random.Random(a.mseed)
    r.shuffle(every)
    every = every[:a.n]
    os.makedirs('/tmp/mut', exist_ok=True)
    slots = Queue()
    for k in range(a.workers):
        w = f'/tmp/mut/w{os.getpid()}_{k}'
        os.makedirs(w + '/src')
        subprocess.run(['cp', '-a', src, w + '/src/'], check=True)
        slots.put(w)
    log = open(f'/tmp/mut/{a.pid}.txt', 'a')
    tally = {}

    def one(job):
        f, (kind, line, x, y, new) = job
        w = slots.get()
        try:
            p = os.path.join(w, 'src/hookeai', f)
            text = open(os.path.join(src, f)).read()
            with open(p, 'w') as g:
                g.write(text[:x] + new + text[y:])
            res, t = run(a.pid, w, a.timeout, a.scale, a.seed, '')
            with open(p, 'w') as g:
                g.write(text)
        finally:
            slots.put(w)
        tally[res.split()[0]] = tally.get(res.split()[0], 0) + 1
        old = text[x:y].replace('\n', ' ')
        log.write(f'{res[:110]} | {t:.0f}s | {f}:{line} {kind} '
                  f'`{old[:70]}` -> `{new[:70]}` | '
                  f'{text.splitlines()[line - 1].strip()[:90]}\n')
        log.flush()
    with ThreadPoolExecutor(a.workers) as ex:
        list(ex.map(one, every))
    while not slots.empty():
        shutil.rmtree(slots.get())
    print(a.pid, len(every), tally)


if __name__ == '__main__':
    sys.exit(main())
