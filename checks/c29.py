"""C29: temperature and composition dependent local model update."""
import contextlib
import io
import math
import os
import random
import warnings
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import fl, rng, seeds
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, load_dataset, save_dataset)
import user_scripts.complete_pipelines.evaluate_gru_model as E
import user_scripts.complete_pipelines.local_model_update as L
import user_scripts.local_model_update.hybrid_material_model.\
    uncertainty_quantification as U_HYB
import user_scripts.local_model_update.rc_material_model.\
    uncertainty_quantification as U_RC
import user_scripts.local_model_update.rnn_material_model.\
    uncertainty_quantification as U_RNN
from user_scripts.synthetic_data.gen_response_dataset import \
    MaterialResponseDatasetGenerator
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.procedures.model_state_files import save_model_state
from model_architectures.procedures.model_data_scaling import \
    set_fitted_data_scalers

PROPERTY = 'C29'
RULE = ('Random temperature and composition grids (close values included), '
        'sample numbers, ratios of random paths, failing responses, existing '
        'directories and decoys, histories of training and prediction runs '
        'of ensembles; non-trivial if there are several '
        'temperature-composition pairs, data files or models.')
warnings.filterwarnings('ignore')
ORDER = {1: ('11', '22', '12'),
         4: ('11', '22', '33', '12', '23', '13')}
TARGET = {'training': '1_training_dataset',
          'validation': '2_validation_dataset',
          'testing_id': '5_testing_id_dataset'}
BASE = 'ss_paths_dataset'


@contextlib.contextmanager
def precision(double):
    old = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64 if double else torch.float32)
    try:
        yield
    finally:
        torch.set_default_dtype(old)


@contextlib.contextmanager
def patched(*items):
    """Replace attributes of modules or classes where they exist."""
    done = []
    try:
        for o, k, v in items:
            if hasattr(o, k):
                done.append((o, k, getattr(o, k)))
                setattr(o, k, v)
        yield
    finally:
        for o, k, v in reversed(done):
            setattr(o, k, v)


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def start(s):
    s = s % 2**31
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def poly(x, *c):
    """Polynomial, highest power first."""
    v = 0.0
    for a in c:
        v = v*x + a
    return v


def material(t, c):
    """Young modulus, Poisson ratio, yield stress and slope (MPa)."""
    tn, cn = (t - 325.0)/180.606, (c - 0.5)/0.3168
    e = 1e3*(poly(cn, 20.186, 135.546) + poly(cn, 0.936, -8.489)*tn)
    g = 1e3*(poly(cn, 8.843, 52.891) + poly(cn, 0.405, -3.340)*tn)
    s0 = (poly(cn, 39.738, -47.582, 25.107)
          * np.exp(-poly(cn, -0.091, 0.018, 0.883)*tn)
          + poly(cn, 20.025, 29.518, -121.669, -74.391, 541.225))
    s1 = poly(cn, 2213.1, 7253.7) + poly(cn, -57.7, -68.7)*tn
    return e, e/(2*g) - 1, s0, s1


def radial_return(t, c, path):
    """Stress and accumulated plastic strain histories (linear law)."""
    e, v, s0, h = material(t, c)
    g, k = e/(2*(1 + v)), e/(3*(1 - 2*v))
    n = path.shape[1]
    idx = [(int(a) - 1, int(b) - 1) for a, b in ORDER[4 if n == 6 else 1]]
    ep, acc = np.zeros((3, 3)), 0.0
    out, accs = np.zeros(path.shape), np.zeros(len(path))
    for i in range(len(path)):
        x = np.zeros((3, 3))
        for (a, b), y in zip(idx, path[i]):
            x[a, b] = x[b, a] = y
        el = x - ep
        p = k*np.trace(el)
        s = 2*g*(el - np.trace(el)/3*np.eye(3))
        q = np.sqrt(1.5*np.sum(s*s))
        f = q - (s0 + h*acc)
        if f > 0 and i > 0:
            d = f/(3*g + h)
            ep = ep + 1.5*d*s/q
            s = s*(1 - 3*g*d/q)
            acc += d
        sig = s + p*np.eye(3)
        out[i] = [sig[a, b] for a, b in idx]
        accs[i] = acc
    return out, accs


def small_paths(n_time):
    """Shorter strain paths."""
    real = getattr(L, 'set_strain_path_generator', None)

    def fun(*a, **k):
        g, kw = real(*a, **k)
        if 'n_time' in kw:
            kw = dict(kw, n_time=n_time)
        return g, kw
    return (L, 'set_strain_path_generator', fun)


def find(root, kind):
    """Data set files of a type below a directory."""
    out = []
    for d, _, files in os.walk(root):
        if os.path.basename(d) == kind + '_dataset':
            out += [os.path.join(d, f) for f in files if f.endswith('.pkl')]
    return sorted(out)


def grid(draw, lo, hi, k):
    kind = draw(st.sampled_from(['uniform', 'random', 'close']))
    if kind == 'uniform':
        return [float(x) for x in np.linspace(lo, hi, k)]
    if kind == 'random':
        return sorted(draw(st.lists(fl(lo, hi), min_size=k, max_size=k,
                                    unique_by=lambda x: round(x, 6))))
    x = lo + (hi - lo)*draw(fl(0.0, 0.9))
    return [x + (hi - lo)*1e-5*i for i in range(k)]


@st.composite
def data_case(draw):
    nt, nc = draw(st.sampled_from([(1, 1), (1, 2), (2, 1), (2, 2), (3, 1),
                                   (1, 3), (3, 2)]))
    kinds = draw(st.lists(st.sampled_from(
        ['training', 'validation', 'testing_id', 'testing_od']), min_size=1,
        max_size=3, unique=True))
    if 'training' not in kinds:
        kinds.append('training')
    n = {k: draw(st.integers(1, 4)) for k in kinds}
    ratio = {}
    for k in kinds:
        # None: documented default, random paths only
        q = draw(st.sampled_from([None, 1.0, 0.5, 0.75, 0.34]))
        if q is not None and not (q == 1.0 or 1 <= int(n[k]*q) < n[k]):
            q = 1.0
        if q is not None:
            ratio[k] = q
    return {'t': grid(draw, 25.0, 625.0, nt), 'c': grid(draw, 0.0, 1.0, nc),
            'n': n, 'ratio': ratio, 'pt': draw(st.sampled_from([4, 4, 1])),
            'steps': draw(st.integers(3, 12)), 'dbl': draw(st.booleans()),
            'fail': draw(st.lists(st.integers(0, 9), max_size=6)),
            'old': draw(st.booleans()), 's': draw(seeds())}


@sub('generate', data_case, quick=70, thorough=2500, shards=4)
def _(c, ctx):
    """Data of every temperature and composition pair."""
    d = ctx.scratch()
    if c['old']:
        os.makedirs(os.path.join(d, '0_simulation', 'T1.00_C1.00',
                                 'training_dataset'))
        with open(os.path.join(d, '0_simulation', 'T1.00_C1.00',
                               'training_dataset', BASE + '_n1.pkl'),
                  'wb') as f:
            f.write(b'stale')
    ratio = dict(c['ratio'])
    # Failing responses: sample i fails c['fail'][i] times
    real = MaterialResponseDatasetGenerator.compute_stress_path
    todo = list(c['fail'])

    def respond(self, *a, **k):
        out = real(self, *a, **k)
        if todo and not out[-1]:
            if todo[0] > 0:
                todo[0] -= 1
                return tuple(out[:-1]) + (True,)
            todo.pop(0)
        return out
    start(c['s'])
    with precision(c['dbl']), quiet(), contextlib.redirect_stderr(
            io.StringIO()), patched(
            small_paths(c['steps']),
            (MaterialResponseDatasetGenerator, 'compute_stress_path',
             respond)):
        L.generate_material_data(
            d, 'infinitesimal', c['pt'], 'von_mises',
            temperatures=list(c['t']), compositions=list(c['c']),
            n_sample_type=dict(c['n']), rnd_strain_path_ratio=ratio,
            is_save_dataset_plots=False)
    ctx.check(ratio == c['ratio'], 'the given ratios were changed')
    root = os.path.join(d, '0_simulation')
    pairs = [(t, x) for t in c['t'] for x in c['c']]
    files = {k: find(root, k) for k in c['n']}
    for k, fs in files.items():
        ctx.check(len(fs) == len(pairs), f'{k}: {len(fs)} files for '
                  f'{len(pairs)} temperature-composition pairs')
    tol = 1e-9 if c['dbl'] else 2e-5
    where = {}
    for fs in files['training']:
        s = load_dataset(fs)[0]
        t, x = float(s['temperature_hist'][0]), float(s['composition_hist'][0])
        hit = min(pairs, key=lambda p: abs(p[0] - t)/600 + abs(p[1] - x))
        where[os.path.dirname(os.path.dirname(fs))] = hit
    ctx.check(sorted(where.values()) == sorted(pairs),
              'training samples do not cover the pairs')
    plastic = False
    for k, fs in files.items():
        for f in fs:
            t0, c0 = where[os.path.dirname(os.path.dirname(f))]
            data = load_dataset(f)
            n = c['n'][k]
            ctx.check(len(data) == n, f'{k}: {len(data)} samples, not {n}')
            ctx.check(os.path.basename(f) == f'{BASE}_n{n}.pkl', 'file name')
            q = c['ratio'].get(k, 1.0)
            n_rnd = 0
            for i in range(n):
                s = data[i]
                th = to_np(s['temperature_hist'])
                ch = to_np(s['composition_hist'])
                e = to_np(s['strain_path']).astype(float)
                tm = to_np(s['time_hist'])
                m = len(e)
                for a in (th, ch, tm):
                    ctx.check(a.shape == (m, 1), 'history shape')
                ctx.check(np.all(th == th[0]) and np.all(ch == ch[0]),
                          'temperature or composition changes on a path')
                ctx.check(np.all(np.diff(tm[:, 0]) > 0), 'time history')
                t, x = float(th[0, 0]), float(ch[0, 0])
                if k in ('validation', 'testing_id'):
                    i0, j0 = c['t'].index(t0), c['c'].index(c0)
                    a, b = c['t'][max(0, i0 - 1)], c['t'][
                        min(len(c['t']) - 1, i0 + 1)]
                    ctx.check(a - 1e-4 <= t <= b + 1e-4, f'{k} temperature '
                              f'{t} not between the neighbours of {t0}')
                    a, b = c['c'][max(0, j0 - 1)], c['c'][
                        min(len(c['c']) - 1, j0 + 1)]
                    ctx.check(a - 1e-6 <= x <= b + 1e-6, f'{k} composition '
                              f'{x} not between the neighbours of {c0}')
                else:
                    ctx.check(abs(t - t0) <= tol*600 and abs(x - c0) <= tol,
                              f'{k} sample not at the pair')
                    t, x = t0, c0
                ctx.check(tuple(s['strain_comps_order']) == ORDER[c['pt']]
                          and tuple(s['stress_comps_order'])
                          == ORDER[c['pt']], 'component order')
                sig, acc = radial_return(t, x, e - e[0])
                top = np.abs(sig).max() + 1e-30
                ctx.close(to_np(s['stress_path'])/top, sig/top, 0,
                          1e-7 if c['dbl'] else 5e-4,
                          f'{k} stress is not the response at T={t}, C={x}')
                ctx.close(to_np(s['acc_p_strain'])[:, 0], acc, 0,
                          1e-8 if c['dbl'] else 2e-6, 'acc_p_strain')
                plastic = plastic or acc[-1] > 0
                sv = np.linalg.svd(e - e[0], compute_uv=False)
                n_rnd += bool(sv[1] > 1e-5*sv[0])
            y = n*q
            ok = {int(y), int(y + 1e-9)}
            if min(len(e) - 1, e.shape[1]) >= 2:
                ctx.check(n_rnd in ok, f'{k}: {n_rnd} random paths of {n} '
                          f'with ratio {q}')
    ctx.label('plastic' if plastic else 'elastic')
    ctx.nontrivial(len(pairs) > 1 or sum(c['n'].values()) > 2)


@st.composite
def spread(draw):
    nt, nc = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    return {'t': [100.0 + 150.0*i*draw(fl(0.9, 1.1)) for i in range(nt)],
            'c': [0.1 + 0.3*i*draw(fl(0.9, 1.1)) for i in range(nc)],
            'k': draw(st.sampled_from(['validation', 'testing_id'])),
            's': draw(seeds())}


@sub('spread', spread, quick=12, thorough=300)
def _(c, ctx):
    """Validation samples spread over the neighbourhood of every pair."""
    d = ctx.scratch()
    n = 40
    start(c['s'])
    with precision(True), quiet(), patched(small_paths(2)):
        L.generate_material_data(
            d, 'infinitesimal', 4, 'von_mises', temperatures=list(c['t']),
            compositions=list(c['c']),
            n_sample_type={'training': 1, c['k']: n},
            rnd_strain_path_ratio={}, is_save_dataset_plots=False)
    root = os.path.join(d, '0_simulation')
    for f in find(root, c['k']):
        g = [x for x in find(root, 'training')
             if os.path.dirname(os.path.dirname(x))
             == os.path.dirname(os.path.dirname(f))]
        s = load_dataset(g[0])[0]
        for key, vals in (('temperature_hist', c['t']),
                          ('composition_hist', c['c'])):
            i = int(np.argmin(np.abs(np.array(vals) - float(s[key][0]))))
            a, b = vals[max(0, i - 1)], vals[min(len(vals) - 1, i + 1)]
            x = np.array([float(y[key][0]) for y in load_dataset(f)])
            ctx.check(np.all((a <= x) & (x <= b)), f'{key} out of range')
            if b > a:
                # Largest gap of 40 uniform samples: below 0.6 except with
                # probability 41*0.4**40 < 1e-14
                z = np.sort(np.concatenate([[a, b], x]))
                ctx.check(np.max(np.diff(z)) < 0.6*(b - a),
                          f'{key}: samples are not spread over the '
                          f'neighbourhood')
                ctx.check(len(set(x)) == n, f'{key}: repeated values')
    ctx.nontrivial(len(c['t'])*len(c['c']) > 1)


@sub('refuse', lambda: st.fixed_dictionaries({
    'k': st.sampled_from(['always', 'ratio0', 'ratio1', 'model', 't', 'c',
                          'dir', 'type', 'empty']),
    's': seeds()}), quick=45, thorough=300)
def _(c, ctx):
    """Impossible requests are refused, never silently answered."""
    d = ctx.scratch()
    r = rng(c['s'])
    kw = dict(temperatures=[300.0], compositions=[0.5],
              n_sample_type={'training': 2}, rnd_strain_path_ratio={},
              is_save_dataset_plots=False)
    name, items = 'von_mises', [small_paths(3)]
    real = MaterialResponseDatasetGenerator.compute_stress_path
    calls = []

    class Endless(Exception):
        pass

    def never(self, *a, **k):
        calls.append(1)
        if len(calls) > 500:
            raise Endless
        return tuple(real(self, *a, **k)[:-1]) + (True,)
    k = c['k']
    fun = L.generate_material_data
    args = (d, 'infinitesimal', 4, name)
    if k == 'always':
        items.append((MaterialResponseDatasetGenerator,
                      'compute_stress_path', never))
    elif k == 'ratio0':
        kw['rnd_strain_path_ratio'] = {'training': float(r.choice([0, 0.3]))}
    elif k == 'ratio1':
        kw['n_sample_type'] = {'training': 1}
        kw['rnd_strain_path_ratio'] = {'training': 0.9}
    elif k == 'model':
        args = (d, 'infinitesimal', 4, 'no_model')
    elif k == 't':
        kw['temperatures'] = [float(r.choice([24.0, 626.0, -10.0]))]
    elif k == 'c':
        kw['compositions'] = [float(r.choice([-0.01, 1.01]))]
    elif k == 'dir':
        fun, kw = L.set_lmu_dir, {}
        args = (os.path.join(d, 'missing'),)
    elif k in ('type', 'empty'):
        os.makedirs(os.path.join(d, '0_simulation', 'a', 'odd_dataset'))
        os.makedirs(os.path.join(d, '0_simulation', 'a',
                                 'training_dataset'))
        for x in ('odd', 'training'):
            save_dataset(TimeSeriesDatasetInMemory(
                [{'id': torch.ones(2, 1)}]), BASE,
                os.path.join(d, '0_simulation', 'a', x + '_dataset'))
        fun = L.assemble_material_datasets
        if k == 'type':
            args, kw = (d, 'infinitesimal', 4, ['training', 'odd'], BASE), {}
        else:
            fun, args, kw = L.find_dataset_file, (d,), {}
    try:
        with quiet(), patched(*items):
            fun(*args, **kw)
    except Endless:
        ctx.check(False, 'never gives up on a response that always fails')
    except Exception:
        pass
    else:
        ctx.check(False, f'accepted: {k}')
    if k == 'type':
        f = os.path.join(d, TARGET['training'], BASE + '_n1.pkl')
        ctx.check(os.path.isfile(f), 'assembled training data lost')
    ctx.nontrivial()


@sub('parameters', lambda: st.fixed_dictionaries({
    't': st.one_of(fl(25.0, 625.0), st.sampled_from([25.0, 325.0, 625.0])),
    'c': st.one_of(fl(0.0, 1.0), st.sampled_from([0.0, 0.5, 1.0])),
    'x': fl(0.0, 1.9)}), quick=300, thorough=8000)
def _(c, ctx):
    """Material parameters at any temperature and composition."""
    p = L.get_model_parameters('von_mises', c['t'], c['c'])
    e, v, s0, s1 = material(c['t'], c['c'])
    ctx.close(float(p['E']), e, 1e-9, 0, 'Young modulus')
    ctx.close(float(p['v']), v, 1e-8, 1e-9, 'Poisson ratio')
    ctx.check(0 < v < 0.5, 'Poisson ratio range')
    y, h = p['hardening_law'](dict(p['hardening_parameters']), torch.tensor(
        c['x'], dtype=torch.float64))[:2]
    ctx.close(float(y), s0 + s1*c['x'], 1e-7, 0, 'yield stress')
    ctx.close(float(h), s1, 1e-5, 0, 'hardening slope')
    ctx.check(p['elastic_symmetry'] == 'isotropic', 'elastic symmetry')
    ctx.nontrivial(c['t'] not in (25.0, 325.0, 625.0))


@st.composite
def files_case(draw):
    files = []
    for _ in range(draw(st.integers(1, 6))):
        files.append({'k': draw(st.sampled_from(sorted(TARGET))),
                      'n': draw(st.one_of(st.integers(1, 6),
                                          st.integers(1, 40)))})
    ks = sorted({f['k'] for f in files})
    frac = {}
    for k in sorted(TARGET):
        x = draw(st.sampled_from([None, None, 0.5, 0.3, 1.0, 0.9, 1.7,
                                  -0.5]))
        if x is not None and (x >= 1 or x < 0 or all(
                int(f['n']*x) >= 1 for f in files if f['k'] == k)):
            frac[k] = x
    return {'files': files, 'frac': draw(st.sampled_from([frac, None])),
            'kinds': draw(st.permutations(ks)),
            'depth': draw(st.integers(1, 3)),
            'old': draw(st.booleans()), 'decoy': draw(st.booleans()),
            's': draw(seeds())}


@sub('assemble', files_case, quick=120, thorough=4000, shards=2)
def _(c, ctx):
    """Assembled data sets hold every sample once."""
    d = ctx.scratch()
    r = rng(c['s'])
    ids, uid = {}, 0
    for i, f in enumerate(c['files']):
        p = os.path.join(d, '0_simulation', *[f'l{j}_{i}' for j in
                                              range(c['depth'])],
                         f['k'] + '_dataset')
        os.makedirs(p)
        data = []
        for _ in range(f['n']):
            data.append({'id': torch.full((3, 1), float(uid),
                                          dtype=torch.float64),
                         'strain_path': torch.tensor(r.normal(size=(3, 6))),
                         'time_hist': torch.arange(3.0).reshape(-1, 1),
                         'strain_comps_order': ORDER[4]})
            ids.setdefault(f['k'], []).append((uid, i, data[-1]))
            uid += 1
        save_dataset(TimeSeriesDatasetInMemory(data), BASE, p)
        if c['decoy']:
            for q in (p, os.path.dirname(p)):
                save_dataset(TimeSeriesDatasetInMemory(
                    [{'id': torch.full((3, 1), -1.0)}]), 'other', q)
    if c['old']:
        for k in TARGET:
            os.makedirs(os.path.join(d, TARGET[k]))
            save_dataset(TimeSeriesDatasetInMemory(
                [{'id': torch.full((3, 1), -2.0)}]*2), BASE,
                os.path.join(d, TARGET[k]))
    start(c['s'])
    frac = None if c['frac'] is None else dict(c['frac'])
    with quiet():
        L.assemble_material_datasets(
            d, 'infinitesimal', 4, list(c['kinds']), BASE,
            size_balanced_reduction=frac)
    for k in c['kinds']:
        path = L.find_dataset_file(os.path.join(d, TARGET[k]))
        out = load_dataset(path)
        x = (c['frac'] or {}).get(k, 1.0)
        x = x if 0 <= x <= 1 else 1.0
        got = [int(out[i]['id'][0]) for i in range(len(out))]
        all_ = {u: (i, s) for u, i, s in ids[k]}
        ctx.check(len(set(got)) == len(got), f'{k}: repeated samples')
        ctx.check(set(got) <= set(all_), f'{k}: foreign samples')
        for i, f in enumerate(c['files']):
            if f['k'] == k:
                n = sum(1 for u in got if all_[u][0] == i)
                ctx.check(n in {int(f['n']*x), int(f['n']*x + 1e-9)},
                          f'{k}: {n} of {f["n"]} samples with fraction {x}')
                if x < 1.0 and math.comb(f['n'], n) > 10**9:
                    seq = sorted(u for u in got if all_[u][0] == i)
                    ctx.check(seq[-1] - seq[0] >= n, f'{k}: the samples of a '
                              f'reduced data set are not chosen at random')
        for i, u in enumerate(got):
            s = all_[u][1]
            ctx.check(sorted(out[i]) == sorted(s), 'features')
            for key in s:
                same = (torch.equal(out[i][key], s[key])
                        if torch.is_tensor(s[key])
                        else tuple(out[i][key]) == s[key])
                ctx.check(same, f'{k}: {key} of sample {u} changed')
        ctx.check(os.path.basename(path) == f'{BASE}_n{len(got)}.pkl',
                  'file name')
        if len(got) >= 16:
            ctx.check(got != sorted(got), f'{k}: samples are not shuffled')
            if x < 1.0:
                ctx.label('reduced')
    # The simulation data stays
    n = sum(len(load_dataset(f)) for k in TARGET
            for f in find(os.path.join(d, '0_simulation'), k)
            if os.path.basename(f).startswith(BASE))
    ctx.check(n == uid, 'simulation data changed')
    ctx.nontrivial(len(c['files']) > 1)


class Bench:
    """Stand-ins for training and prediction of a model."""

    def __init__(self, module):
        self.module = module
        self.single = module is U_RC
        self.count = 0
        self.models = []

    def train(self, train_dataset_file_path, model_directory, *a, **k):
        self.count += 1
        val = k.get('val_dataset_file_path')
        self.models.append((os.path.abspath(train_dataset_file_path),
                            val and os.path.abspath(val)))
        os.makedirs(model_directory, exist_ok=True)
        with open(os.path.join(model_directory, 'model.txt'), 'w') as f:
            f.write(str(self.count))
        os.makedirs(os.path.join(model_directory, 'sub'), exist_ok=True)
        with open(os.path.join(model_directory, 'sub', 'x.txt'), 'w') as f:
            f.write(str(self.count))

    def predict(self, predict_directory, dataset_file_path, model_directory,
                *a, **k):
        with open(os.path.join(model_directory, 'model.txt')) as f:
            m = f.read()
        i = 0
        while os.path.isdir(os.path.join(predict_directory,
                                         f'prediction_set_{i}')):
            i += 1
        d = os.path.join(predict_directory, f'prediction_set_{i}')
        os.makedirs(d)
        with open(os.path.join(d, 'out.txt'), 'w') as f:
            f.write(m + ' ' + os.path.abspath(dataset_file_path))
        with open(os.path.join(d, 'only_' + m + '_' + os.path.basename(
                dataset_file_path)), 'w') as f:
            f.write('x')
        return d if self.single else (d, 0.1)

    def active(self):
        m = self.module
        items = []
        for name, fun in (('perform_model_standard_training', self.train),
                          ('perform_model_prediction', self.predict)):
            items.append((m, name, fun))
            pkg = m.__name__.rsplit('.', 1)[0]
            for tail in ('train_model', 'predict'):
                import importlib
                items.append((importlib.import_module(pkg + '.' + tail),
                              name, fun))
        return patched(*items)


@st.composite
def runs(draw):
    out = []
    for i in range(draw(st.integers(1, 4))):
        out.append({'n': draw(st.integers(1, 4)),
                    'train': i == 0 or draw(st.booleans()),
                    'type': draw(st.sampled_from(
                        ['in_distribution', 'out_distribution', 'training'])),
                    'data': draw(st.integers(0, 2)),
                    'val': draw(st.booleans())})
    return {'m': draw(st.sampled_from(['rnn', 'rc', 'hybrid'])), 'runs': out,
            'old': draw(st.booleans()), 'slash': draw(st.booleans()),
            's': draw(seeds())}


def read(*p):
    with open(os.path.join(*p)) as f:
        return f.read()


def check_ensemble(ctx, uq, model, preds):
    """Models and predictions of an ensemble on disk."""
    found = sorted(x for x in os.listdir(uq) if x.startswith('model_'))
    ctx.check(found == sorted(f'model_{i}' for i in model),
              f'model directories {found}, expected {sorted(model)}')
    for i, m in model.items():
        p = os.path.join(uq, f'model_{i}')
        ctx.check(read(p, '3_model', 'model.txt') == str(m)
                  and read(p, '3_model', 'sub', 'x.txt') == str(m),
                  f'model {i} is not the one trained for it')
        q = os.path.join(p, '7_prediction')
        have = sorted(os.listdir(q)) if os.path.isdir(q) else []
        want = {t: x for (j, t), x in preds.items() if j == i}
        ctx.check(have == sorted(want), f'model {i}: predictions {have}, '
                  f'expected {sorted(want)}')
        for t, x in want.items():
            ctx.check(read(q, t, 'out.txt') == f'{m} {x}',
                      f'model {i}, {t}: predictions of another model or '
                      f'data set')
            ctx.check(sorted(os.listdir(os.path.join(q, t)))
                      == ['only_%d_%s' % (m, os.path.basename(x)), 'out.txt'],
                      'left-over predictions')


@sub('ensemble', runs, quick=120, thorough=4000, shards=2)
def _(c, ctx):
    """Histories of ensemble training and prediction runs."""
    d = ctx.scratch()
    bench = Bench({'rnn': U_RNN, 'rc': U_RC, 'hybrid': U_HYB}[c['m']])
    uq = os.path.join(d, 'uncertainty_quantification')
    if c['old']:
        os.makedirs(os.path.join(uq, 'model_9', '3_model'))
    model, preds = {}, {}
    for run in c['runs']:
        md, pd = os.path.join(d, '3_model'), os.path.join(
            d, '7_prediction', run['type'])
        for x in (md, pd):
            os.makedirs(x, exist_ok=True)
        train = os.path.join(d, 'train.pkl')
        test = os.path.join(d, f'test{run["data"]}.pkl')
        val = os.path.join(d, 'val.pkl') if run['val'] else None
        first = bench.count
        with bench.active(), quiet():
            bench.module.perform_model_uq(
                uq, run['n'], train, md, pd + ('/' if c['slash'] else ''),
                test, is_model_training=run['train'],
                val_dataset_file_path=val, device_type='cpu')
        if run['train']:
            ctx.check(bench.count == first + run['n'],
                      f'{bench.count - first} models trained, not {run["n"]}')
            ctx.check(all(x == (train, val) for x in bench.models[first:]),
                      'training or validation data')
            model = {i: first + 1 + i for i in range(run['n'])}
            preds = {}
        else:
            ctx.check(bench.count == first, 'models were trained again')
        for i in range(run['n']):
            if i in model:
                preds[i, run['type']] = test
        check_ensemble(ctx, uq, model, preds)
    ctx.nontrivial(len(c['runs']) > 1 or len(model) > 1)


@st.composite
def updates(draw):
    return {'runs': [{'n': draw(st.integers(1, 3)),
                      'train': i == 0 or draw(st.booleans()),
                      'again': draw(st.booleans())}
                     for i in range(draw(st.integers(1, 3)))],
            's': draw(seeds())}


@sub('update', updates, quick=50, thorough=1500)
def _(c, ctx):
    """Model updating uses the assembled data of its directory."""
    base = ctx.scratch()
    lmu = L.set_lmu_dir(base)
    ctx.check(os.path.isdir(lmu) and os.path.dirname(os.path.abspath(lmu))
              == os.path.abspath(base), 'update directory')
    with open(os.path.join(lmu, 'keep.txt'), 'w') as f:
        f.write('x')
    bench = Bench(U_RNN)
    r = rng(c['s'])
    path = {}

    def fill():
        for j, k in enumerate(TARGET):
            for i in range(2):
                p = os.path.join(lmu, '0_simulation', f'p{i}', k + '_dataset')
                os.makedirs(p, exist_ok=True)
                for f in os.listdir(p):
                    os.remove(os.path.join(p, f))
                save_dataset(TimeSeriesDatasetInMemory(
                    [{'id': torch.ones(2, 1)}]*int(r.integers(1, 5))),
                    BASE, p)
        with quiet():
            L.assemble_material_datasets(lmu, 'infinitesimal', 4,
                                         list(TARGET), BASE)
        for k in TARGET:
            p = os.path.join(lmu, TARGET[k])
            fs = [f for f in os.listdir(p) if f.endswith('.pkl')]
            ctx.check(len(fs) == 1, f'{len(fs)} assembled {k} data sets')
            path[k] = os.path.abspath(os.path.join(p, fs[0]))
    fill()
    model, preds = {}, {}
    for run in c['runs']:
        if run['again']:
            fill()
        ctx.check(L.set_lmu_dir(base) == lmu and os.path.isfile(
            os.path.join(lmu, 'keep.txt')), 'update directory was overwritten')
        first = bench.count
        with bench.active(), quiet():
            L.perform_material_model_updating(
                lmu, n_model_sample=run['n'],
                is_model_training=run['train'])
        if run['train']:
            ctx.check(bench.count == first + run['n'], 'trained models')
            ctx.check(all(x == (path['training'], path['validation'])
                          for x in bench.models[first:]),
                      'training or validation data')
            model = {i: first + 1 + i for i in range(run['n'])}
            preds = {}
        else:
            ctx.check(bench.count == first, 'models were trained again')
        for i in range(run['n']):
            if i in model:
                preds[i, 'in_distribution'] = path['testing_id']
        check_ensemble(ctx, os.path.join(lmu, 'uncertainty_quantification'),
                       model, preds)
        ctx.check(not os.path.isdir(os.path.join(lmu, '3_model'))
                  and not os.path.isdir(os.path.join(lmu, '7_prediction')),
                  'intermediate model or predictions left behind')
        for k in TARGET:
            ctx.check(os.path.isfile(path[k]), f'{k} data removed')
    L.set_lmu_dir(base, is_overwrite=True)
    ctx.check(not os.path.isfile(os.path.join(lmu, 'keep.txt')),
              'overwrite keeps earlier results')
    ctx.nontrivial(len(c['runs']) > 1)


@sub('uniaxial', lambda: st.fixed_dictionaries({
    't': fl(25.0, 625.0), 'c': fl(0.0, 1.0), 'n': st.integers(2, 5),
    'f': st.sampled_from([1e-3, 5e-3, 2e-2, 5e-2]),
    'cyc': st.booleans(), 's': seeds()}), quick=30, thorough=700, shards=4)
def _(c, ctx):
    """Uniaxial stress paths of the von Mises model."""
    r = rng(c['s'])
    e33 = np.concatenate([[0.0], np.cumsum(c['f']/c['n']*r.uniform(
        0.3, 1.7, c['n']))])
    if c['cyc']:
        e33[-1] = -e33[-1]*r.uniform(0, 1)
    with precision(True), quiet(), contextlib.redirect_stderr(io.StringIO()):
        m = E.get_vm_material_model('infinitesimal', 4, c['t'], c['c'])
        e, s = E.get_uniaxial_stress_path(
            torch.tensor(e33), 'von_mises', m, c['t'], c['c'])
        again = E.forward_material_model('von_mises', m, e, c['t'], c['c'])
    e, s = to_np(e), to_np(s)
    ctx.close(e[:, 2], e33, 1e-12, 0, 'prescribed axial strain')
    ctx.check(not np.any(e[:, 3:]), 'shear strains')
    ctx.close(to_np(again), s, 1e-10, 1e-9, 'stress of the strain path')
    sig, _ = radial_return(c['t'], c['c'], e)
    ctx.close(s, sig, 1e-7, 1e-4, 'stress is not the response')
    ctx.check(np.abs(s[:, [0, 1, 3, 4, 5]]).max() < 1e-4,
              'transverse stresses')
    # One-dimensional bilinear law
    ym, v, s0, h = material(c['t'], c['c'])
    ep = acc = 0.0
    for i, x in enumerate(e33):
        y = ym*(x - ep)
        f = abs(y) - (s0 + h*acc)
        if f > 0:
            g = f/(ym + h)
            ep += g*np.sign(y)
            acc += g
            y = ym*(x - ep)
        ctx.close(s[i, 2], y, 1e-6, 1e-3, 'axial stress')
    ctx.label('plastic' if acc > 0 else 'elastic')
    ctx.nontrivial(acc > 0)


@sub('recurrent', lambda: st.fixed_dictionaries({
    'ni': st.booleans(), 'no': st.booleans(), 'h': st.integers(1, 4),
    'l': st.integers(1, 2), 'sc': st.sampled_from(['std', 'minmax']),
    't': fl(25.0, 625.0), 'c': fl(0.0, 1.0), 'n': st.integers(2, 6),
    'extra': st.integers(0, 1), 'g': st.booleans(), 'uni': st.booleans(),
    's': seeds()}), quick=60, thorough=1500, shards=2)
def _(c, ctx):
    """Evaluation of a trained recurrent model at (T, C)."""
    d = ctx.scratch()
    r = rng(c['s'])
    torch.manual_seed(c['s'] % 2**31)
    no = 6 + c['extra']
    with precision(True), quiet(), contextlib.redirect_stderr(io.StringIO()):
        m = GRURNNModel(8, no, c['h'], d, is_model_in_normalized=c['ni'],
                        is_model_out_normalized=c['no'],
                        n_recurrent_layers=c['l'], is_save_model_init_file=True)
        sc, par = {}, {}
        for key, n, on in (('features_in', 8, c['ni']),
                           ('features_out', no, c['no'])):
            a = r.normal(size=n)
            b = r.uniform(0.5, 3.0, size=n)
            if key == 'features_in':
                a[6], b[6] = 325.0, 180.0
            if c['sc'] == 'std':
                par[key] = {'mean': torch.tensor(a), 'std': torch.tensor(b)}
            else:
                par[key] = {'minimum': torch.tensor(a - b),
                            'maximum': torch.tensor(a + b),
                            'norm_minimum': -1.0, 'norm_maximum': 1.0}
            sc[key] = (a, b) if on else (np.zeros(n), np.ones(n))
        if c['ni'] or c['no']:
            set_fitted_data_scalers(
                m, {'std': 'mean-std', 'minmax': 'min-max'}[c['sc']], par)
        m.save_model_init_file()
        save_model_state(m, 'best', 3)
        w = {k: v.clone() for k, v in m.state_dict().items()}
        x = torch.tensor(r.normal(size=(c['n'], 6))*0.05)
        n = E.get_gru_material_model(d, model_load_state='best')
        for k, v in n.state_dict().items():
            ctx.check(torch.equal(v, w[k]), f'{k} of the loaded model')
        fin = np.column_stack([to_np(x), np.full(c['n'], c['t']),
                               np.full(c['n'], c['c'])])
        ctx.close(to_np(E.build_gru_features_in(x, c['t'], c['c'])), fin,
                  1e-12, 0, 'input features')
        a, b = sc['features_in']
        with torch.no_grad():
            out, _ = m(torch.tensor((fin - a)/b), None)
        a, b = sc['features_out']
        ref = (to_np(out)*b + a)[:, :6]
        y = E.forward_material_model('gru', n, x, c['t'], c['c'],
                                     requires_grad=c['g'])
        ctx.close(to_np(y.detach()), ref, 1e-8, 1e-9, 'stress')
        if c['uni']:
            e33 = torch.tensor(np.linspace(0.0, 0.02, c['n']))
            try:
                e, s = E.get_uniaxial_stress_path(
                    e33, 'gru', n, c['t'], c['c'], max_iter=4)
            except RuntimeError:
                return       # singular tangent of an arbitrary network
            if not (torch.isfinite(e).all() and torch.isfinite(s).all()
                    and e.abs().max() < 1e3):
                return
            ctx.close(to_np(e)[:, 2], to_np(e33), 1e-12, 0, 'axial strain')
            ctx.check(not np.any(to_np(e)[:, 3:]), 'shear strains')
            fin[:, :6] = to_np(e)
            a, b = sc['features_in']
            with torch.no_grad():
                out, _ = m(torch.tensor((fin - a)/b), None)
            a, b = sc['features_out']
            ctx.close(to_np(s), (to_np(out)*b + a)[:, :6], 1e-8, 1e-9,
                      'uniaxial stress')
    ctx.nontrivial(c['ni'] or c['no'])
