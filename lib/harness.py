"""Shared machinery of every check: generation, shrinking, replay, evidence.

A check module (``checks/cXX.py``) declares ``PROPERTY``, ``RULE`` and a set of
sub-checks with the ``sub`` decorator.  Each sub-check is one executable
statement over generated cases: a Hypothesis strategy draws a plain (JSON)
case, the body runs the code of /repo on it and compares against an oracle.
"""
import hashlib
import importlib
import importlib.machinery
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
PKG = os.path.join(SRC, 'hookeai')

# CPU seconds after which a single generated case counts as non-terminating
HANG_CPU_S = float(os.environ.get('VERIF_HANG_CPU_S', '120'))
# Wall clock after which the parent stops waiting for its workers
WALL_LIMIT_S = float(os.environ.get('VERIF_WALL_S', '0')) or None


class Violation(AssertionError):
    """The property does not hold on this case."""


class Hang(BaseException):
    """A single case used more CPU time than HANG_CPU_S."""


class Ctx:
    """Handed to each sub-check body; collects evidence and raises."""

    def __init__(self, scratch_root):
        self._root = scratch_root
        self._dirs = []
        self.is_nontrivial = False
        self.labels = []

    def nontrivial(self, flag=True):
        if flag:
            self.is_nontrivial = True

    def label(self, name):
        self.labels.append(str(name))

    def check(self, cond, msg):
        if not bool(cond):
            raise Violation(msg() if callable(msg) else str(msg))

    def close(self, a, b, rtol, atol, msg):
        import numpy as np
        a = to_np(a)
        b = to_np(b)
        if a.shape != b.shape:
            raise Violation(f'{msg}: shape {a.shape} != {b.shape}')
        if a.size == 0:
            return
        if not np.all(np.isfinite(a)) or not np.all(np.isfinite(b)):
            if not (np.array_equal(np.isnan(a), np.isnan(b))
                    and np.array_equal(np.isinf(a), np.isinf(b))):
                raise Violation(f'{msg}: non-finite values: {_brief(a)} '
                                f'vs {_brief(b)}')
            a = np.nan_to_num(a)
            b = np.nan_to_num(b)
        err = np.abs(a - b)
        tol = atol + rtol*np.maximum(np.abs(a), np.abs(b))
        if np.any(err > tol):
            i = np.unravel_index(np.argmax(err - tol), err.shape)
            raise Violation(
                f'{msg}: at {tuple(int(k) for k in i)}: {a[i]!r} vs {b[i]!r} '
                f'(|diff|={err[i]:.3e} > {tol[i]:.3e})')

    def close_norm(self, a, b, rtol, atol, msg):
        """Compare arrays relative to the magnitude of the whole array."""
        import numpy as np
        a = to_np(a)
        b = to_np(b)
        if a.shape != b.shape:
            raise Violation(f'{msg}: shape {a.shape} != {b.shape}')
        if a.size == 0:
            return
        if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
            raise Violation(f'{msg}: non-finite values: {_brief(a)} vs '
                            f'{_brief(b)}')
        scale = max(np.max(np.abs(a)), np.max(np.abs(b)))
        self.close(a, b, 0.0, atol + rtol*scale, msg)

    def scratch(self):
        d = tempfile.mkdtemp(dir=self._root)
        self._dirs.append(d)
        return d

    def cleanup(self):
        for d in self._dirs:
            shutil.rmtree(d, ignore_errors=True)
        self._dirs = []


def to_np(x):
    import numpy as np
    if hasattr(x, 'detach'):
        x = x.detach().cpu().numpy()
    x = np.asarray(x)
    if x.dtype == bool:
        return x.astype(float)
    if np.issubdtype(x.dtype, np.integer):
        return x.astype(float)
    return x


def _brief(a):
    s = repr(a)
    return s if len(s) < 300 else s[:300] + '...'


_SUBS = {}


def sub(name, strategy, quick=100, thorough=None, shards=1, known=None):
    """Register a sub-check.

    ``strategy`` is a zero-argument callable returning a Hypothesis strategy
    (evaluated lazily in the worker).
    """
    def deco(f):
        _SUBS[name] = dict(name=name, strategy=strategy, fn=f, quick=quick,
                           thorough=thorough or quick*20, shards=shards)
        return f
    return deco


# --------------------------------------------------------------------------
def use_repo_sources():
    """Import the code of /repo from source, never from stale bytecode."""
    class _Loader(importlib.machinery.SourceFileLoader):
        def path_stats(self, path):
            raise OSError

    hook = importlib.machinery.FileFinder.path_hook((_Loader, ['.py']))

    def _hook(path):
        if not os.path.abspath(path).startswith(SRC):
            raise ImportError
        return hook(path)
    sys.path_hooks.insert(0, _hook)
    sys.path_importer_cache.clear()
    for p in (SRC, PKG):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True


def _in_repo(tb):
    """Was the exception raised beneath a call into the code of /repo?"""
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(SRC):
            return True
    return False


def _derive(seed, *parts):
    h = hashlib.sha256(repr((seed,) + parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def canonical(case):
    return json.loads(json.dumps(case))


def run_case(s, case, root):
    """Run one case; return (ctx, None) or (ctx, (kind, message, detail))."""
    ctx = Ctx(root)

    def _hang(*_):
        raise Hang()
    signal.signal(signal.SIGPROF, _hang)
    signal.setitimer(signal.ITIMER_PROF, HANG_CPU_S)
    try:
        s['fn'](case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, ('violation', str(e), traceback.format_exc())
    except Hang:
        return ctx, ('hang', f'case did not terminate within {HANG_CPU_S} s '
                     f'of CPU time', '')
    except Exception as e:      # noqa: BLE001
        if _is_control(e):
            raise
        if _in_repo(e.__traceback__):
            kind, note = 'violation', ''
        elif _uninterpretable(e):
            kind, note = 'violation', 'result could not be interpreted: '
        else:
            kind, note = 'error', ''
        return ctx, (kind, f'{note}{type(e).__name__}: {e}',
                     traceback.format_exc())
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        ctx.cleanup()


def _uninterpretable(e):
    """A result (value, array, file) the oracle cannot make sense of: it has
    the wrong shape, lacks an entry, is missing or malformed. Everything else
    outside the code under test is an error of the check itself."""
    if isinstance(e, TypeError) and 'argument' in str(e):
        return False
    return isinstance(e, (ValueError, LookupError, TypeError, RuntimeError,
                          ZeroDivisionError, FileNotFoundError, EOFError)) \
        and not isinstance(e, (NotImplementedError, RecursionError))


def _is_control(e):
    return type(e).__module__.startswith('hypothesis')


class _Fail(Exception):
    pass


def _worker(pid, name, shard, n_shards, tier, seed, root, out, scale):
    from hypothesis import given, settings, HealthCheck, Phase
    from hypothesis import seed as hseed
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40 if tier == 'quick' else 120
    import random
    import numpy as np
    import torch
    torch.set_num_threads(1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get('VERIF_DEBUG'):
        os.dup2(devnull, 2)
    wdir = tempfile.mkdtemp(dir=root)
    os.chdir(wdir)
    s = _SUBS[name]
    total = s['quick'] if tier == 'quick' else s['thorough']
    n = max(1, int(total*scale)//n_shards)
    sd = _derive(seed, pid, name, shard)
    st = dict(evaluations=0, nontrivial=set(), distinct=set(), labels={},
              samples=[], last=None, err=None, hang=None)

    def body(case):
        case = canonical(case)
        key = hashlib.sha1(json.dumps(case, sort_keys=True).encode()
                           ).hexdigest()[:16]
        random.seed(sd)
        np.random.seed(sd % 2**31)
        torch.manual_seed(sd)
        ctx, res = run_case(s, case, wdir)
        st['evaluations'] += 1
        st['distinct'].add(key)
        for lb in ctx.labels:
            st['labels'][lb] = st['labels'].get(lb, 0) + 1
        if ctx.is_nontrivial:
            st['nontrivial'].add(key)
            if len(st['samples']) < 2:
                st['samples'].append(case)
        if res is None:
            return
        if res[0] == 'error':
            st['err'] = (case, res)
            raise Hang()
        if res[0] == 'hang':
            st['last'] = (case, res)
            _dump(out, pid, name, shard, st, 'partial')
            raise Hang()
        first = st['last'] is None
        st['last'] = (case, res)
        if first:
            _dump(out, pid, name, shard, st, 'partial')
        raise _Fail(res[1])

    t0 = time.time()
    fn = given(s['strategy']())(body)
    fn = hseed(sd)(fn)
    fn = settings(max_examples=n, database=None, deadline=None,
                  print_blob=False, report_multiple_bugs=False,
                  suppress_health_check=list(HealthCheck),
                  phases=(Phase.generate, Phase.shrink))(fn)
    try:
        fn()
    except _Fail:
        pass
    except Hang:
        pass
    except BaseException as e:      # noqa: BLE001
        st['last'] = None if st['last'] is None else st['last']
        if st['last'] is None:
            st['err'] = (None, ('error', f'{type(e).__name__}: {e}',
                                traceback.format_exc()))
    st['wall'] = time.time() - t0
    _dump(out, pid, name, shard, st, 'final')


def _dump(out, pid, name, shard, st, phase):
    d = dict(pid=pid, sub=name, shard=shard, phase=phase,
             evaluations=st['evaluations'],
             nontrivial=sorted(st['nontrivial']),
             n_distinct=len(st['distinct']), labels=st['labels'],
             samples=st['samples'], last=st['last'], err=st['err'],
             wall=st.get('wall', 0.0))
    p = os.path.join(out, f'{name}.{shard}.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(d, f)
    os.replace(p + '.tmp', p)


def load_check(pid):
    path = os.path.join(VERIF, 'checks')
    if path not in sys.path:
        sys.path.insert(0, path)
    mod = importlib.import_module(pid.lower())
    for k in [k for k, s in _SUBS.items()       # not those of imported checks
              if s['fn'].__module__ != mod.__name__]:
        del _SUBS[k]
    return mod


def run_check(pid, tier, seed, only=None, scale=1.0, jobs=None):
    t0 = time.time()
    root = tempfile.mkdtemp(prefix=f'verif_{pid}_')
    os.environ['MPLCONFIGDIR'] = os.path.join(root, 'mpl')
    os.makedirs(os.environ['MPLCONFIGDIR'])
    try:
        return _run_check(pid, tier, seed, only, scale, jobs, root, t0)
    finally:
        os.chdir('/')
        shutil.rmtree(root, ignore_errors=True)


def _run_check(pid, tier, seed, only, scale, jobs, root, t0):
    try:
        mod = load_check(pid)
    except BaseException:       # noqa: BLE001
        traceback.print_exc()
        print(f'ERROR property={pid}: the check could not be loaded')
        return 2
    out = os.path.join(root, 'out')
    os.makedirs(out)
    subs = [s for n, s in _SUBS.items() if only is None or n in only]
    tasks = []
    for s in subs:
        k = s['shards'] if tier == 'quick' else max(s['shards'], 4)
        for i in range(k):
            tasks.append((s['name'], i, k))
    jobs = jobs or int(os.environ.get('VERIF_JOBS', '0')) \
        or (os.cpu_count() or 4)
    limit = WALL_LIMIT_S or (780 if tier == 'quick' else 6*3600)
    fork = mp.get_context('fork')
    running = {}
    pending = list(tasks)
    cut = []
    while pending or running:
        while pending and len(running) < jobs:
            name, i, k = pending.pop(0)
            p = fork.Process(target=_worker, args=(
                pid, name, i, k, tier, seed, root, out, scale))
            p.start()
            running[(name, i)] = p
        for key, p in list(running.items()):
            p.join(0.02)
            if not p.is_alive():
                del running[key]
        if time.time() - t0 > limit:
            for key, p in running.items():
                p.kill()
                p.join()
                cut.append(key)
            cut += [(n, i) for n, i, _ in pending]
            break
    return _report(pid, mod, tier, seed, out, tasks, cut, t0)


def _report(pid, mod, tier, seed, out, tasks, cut, t0):
    rep = {}
    errors = []
    viols = []
    for name, i, k in tasks:
        p = os.path.join(out, f'{name}.{i}.json')
        r = rep.setdefault(name, dict(evaluations=0, nontrivial=set(),
                                      labels={}, samples=[], wall=0.0))
        if not os.path.exists(p):
            errors.append(f'{name}.{i}: no result'
                          + (' (out of time)' if (name, i) in cut else
                             ' (worker died)'))
            continue
        with open(p) as f:
            d = json.load(f)
        r['evaluations'] += d['evaluations']
        r['nontrivial'] |= set(d['nontrivial'])
        for a, b in d['labels'].items():
            r['labels'][a] = r['labels'].get(a, 0) + b
        if len(r['samples']) < 2:
            r['samples'] += d['samples'][:2 - len(r['samples'])]
        r['wall'] = max(r['wall'], d['wall'])
        if d['last'] is not None:
            viols.append((name, i, d['last']))
        elif d['phase'] != 'final':
            errors.append(f'{name}.{i}: incomplete')
        if d['err'] is not None:
            errors.append(f'{name}.{i}: {d["err"][1][1]}\n{d["err"][1][2]}\n'
                          f'case={json.dumps(d["err"][0])[:2000]}')
    evals = sum(r['evaluations'] for r in rep.values())
    nont = sum(len(r['nontrivial']) for r in rep.values())
    samples = []
    for name, r in rep.items():
        for c in r['samples'][:1 if len(rep) > 8 else 2]:
            s = json.dumps(c)
            samples.append({'sub_check': name,
                            'case': c if len(s) < 1500 else s[:1500]})
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=nont,
                            rule=mod.RULE, samples=samples,
                            per_sub_check={
                                n: dict(evaluations=r['evaluations'],
                                        distinct_nontrivial=len(
                                            r['nontrivial']),
                                        labels=r['labels'],
                                        wall_s=round(r['wall'], 2))
                                for n, r in rep.items()}),
              assumptions=getattr(mod, 'ASSUMPTIONS', []),
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    seen = set()
    for name, i, (case, res) in viols:
        if name in seen:
            continue
        seen.add(name)
        rdir = os.path.join(VERIF, 'replay')
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, f'{pid}-{name}.json')
        with open(rp, 'w') as f:
            json.dump(dict(property=pid, sub=name, seed=seed, tier=tier,
                           case=case, message=res[1], detail=res[2]), f,
                      indent=1)
        print(f'VIOLATION property={pid} replay={rp}')
        print(f'  sub-check {name}: {res[1][:600]}')
        print(f'  case: {json.dumps(case)[:600]}')
    for e in errors:
        print(f'ERROR property={pid} {e}')
    print(f'{pid} [{tier}, seed {seed}]: {evals} cases, {nont} distinct '
          f'non-trivial, {len(seen)} violated sub-checks, '
          f'{time.time() - t0:.1f} s')
    if seen:
        return 1
    return 2 if errors else 0


def replay(path):
    with open(path) as f:
        d = json.load(f)
    load_check(d['property'])
    root = tempfile.mkdtemp(prefix='verif_replay_')
    os.environ['MPLCONFIGDIR'] = root
    try:
        import random
        import numpy as np
        import torch
        sd = _derive(d['seed'], d['property'], d['sub'], 0)
        random.seed(sd)
        np.random.seed(sd % 2**31)
        torch.manual_seed(sd)
        ctx, res = run_case(_SUBS[d['sub']], d['case'], root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if res is None:
        print('replay: the property holds on this case')
        return 0
    print(f'replay: {res[0]}: {res[1]}\n{res[2]}')
    if res[0] == 'error':
        return 2
    print(f'VIOLATION property={d["property"]} replay={path}')
    return 1
