"""C27: synthetic material response data sets."""
import contextlib
import io
import os
import random
import warnings
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import fl, random_rotation, rng, seeds, sym
from materials import (FULL_NAME, ORDER, T, build, failed, from_kelvin,
                       model, parameters, scal, yield_strain)
from data_generation.strain_paths.noise_generator import NoiseGenerator
from data_generation.strain_paths.proportional_path import \
    ProportionalStrainPathGenerator
from data_generation.strain_paths.random_path import RandomStrainPathGenerator
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, load_dataset, save_dataset)
from user_scripts.synthetic_data import gen_response_dataset as G
from user_scripts.synthetic_data import gen_noisy_response_dataset as N
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler

PROPERTY = 'C27'
RULE = ('Random materials (elastic, von Mises, mixed, Drucker-Prager, Lou), '
        'dimensions, random and proportional strain paths of 2-20 steps '
        'reaching beyond yield, requested state variables, storage, noise; '
        'non-trivial if the response is inelastic or several paths.')
warnings.filterwarnings('ignore')
STATE = ['e_strain_mf', 'p_strain_mf', 'strain_mf', 'stress_mf',
         'back_stress_mf', 'acc_p_strain', 'e_strain_33', 'nonsense',
         'stress_33']


@st.composite
def case(draw, names=('el', 'vm', 'dp', 'lou'), nmax=4):
    dim = draw(st.sampled_from([2, 3]))
    m = draw(model(names=names))
    y = yield_strain(m)*draw(st.sampled_from([0.3, 2.0, 6.0]))
    bounds = []
    for _ in ORDER[dim]:
        k = draw(st.sampled_from(['sym', 'pos', 'asym', 'zero']))
        a = y*draw(fl(0.2, 1.0))
        bounds.append({'sym': (-a, a), 'pos': (0.0, a), 'asym': (-a, 2*a),
                       'zero': (0.0, 0.0)}[k])
    kw = {'n_time': draw(st.integers(2, 20)),
          'n_cycle': draw(st.sampled_from([0, 0, 1])),
          'time_init': draw(st.sampled_from([0.0, 1.5])), 'time_end': 4.0}
    kw['n_time'] = max(kw['n_time'], 3)
    typ = draw(st.sampled_from(['random', 'proportional']))
    if typ == 'random':
        kw['n_control'] = draw(st.sampled_from([3, (2, 5)]))
        kw['generative_type'] = 'polynomial'
    return {'dim': dim, 'm': m, 'b': [list(x) for x in bounds], 'kw': kw,
            'typ': typ, 'n': draw(st.integers(1, nmax)),
            'state': draw(st.lists(st.sampled_from(STATE), unique=True,
                                   max_size=4)),
            's': draw(seeds())}


def start(s):
    s = s % 2**31
    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def kwargs(c):
    kw = dict(c['kw'])
    if isinstance(kw.get('n_control'), list):
        kw['n_control'] = tuple(kw['n_control'])
    kw['strain_bounds'] = {k: tuple(b) for k, b in zip(ORDER[c['dim']],
                                                       c['b'])}
    return kw


def features(c):
    return {k: len(ORDER[c['dim']]) if k.endswith('_mf') else 1
            for k in c['state']}


def respond(c, comps, path):
    """Stress and state histories from the material itself."""
    d = c['dim']
    mod = build(c['m'], d)
    old = mod.state_init()
    comps = [(int(k[0]) - 1, int(k[1]) - 1) for k in comps]

    def tensor(v):
        a = np.zeros((d, d))
        for (i, j), x in zip(comps, v):
            a[i, j] = a[j, i] = x
        return a
    stress = np.zeros(path.shape)
    state = {k: np.zeros((len(path), n)) for k, n in features(c).items()}
    plastic = False
    for t in range(1, len(path)):
        new, _ = mod.state_update(T(tensor(path[t]) - tensor(path[t - 1])),
                                  old)
        if failed(new):
            return None
        for k in list(state):
            if k not in new:
                del state[k]
            elif k.endswith('_mf'):
                a = from_kelvin(new[k], d)
                state[k][t] = [a[i, j] for i, j in comps]
            else:
                state[k][t] = scal(new[k])
        a = from_kelvin(new['stress_mf'], d)
        stress[t] = [a[i, j] for i, j in comps]
        plastic |= bool(scal(new.get('is_plastic', 0)))
        old = new
    return stress, state, plastic


def same(ctx, c, got, comps, path, time, ref, extra=()):
    """A sample holds the given path and its response."""
    stress, state, _ = ref
    ctx.check(tuple(got['strain_comps_order']) == tuple(comps)
              and tuple(got['stress_comps_order']) == tuple(comps),
              'components')
    want = {'strain_comps_order', 'stress_comps_order', 'strain_path',
            'stress_path', 'time_hist', *state, *extra}
    ctx.check(set(got) == want, f'features {sorted(got)}, not '
              f'{sorted(want)}')
    ctx.close(got['strain_path'], path, 0, 0, 'strain path')
    ctx.check(tuple(got['time_hist'].shape) == (len(path), 1),
              'shape of the time history')
    ctx.close(got['time_hist'].reshape(-1), np.ravel(time), 0, 0, 'time')
    top = np.max(np.abs(stress)) + 1e-9*c['m']['E']
    ctx.close(got['stress_path'], stress, 1e-9, 1e-9*top, 'stress path')
    for k, v in state.items():
        ctx.close(got[k], v, 1e-8, 1e-9*(np.max(np.abs(v)) + 1e-12), k)


def paths(c, n):
    g = {'random': RandomStrainPathGenerator,
         'proportional': ProportionalStrainPathGenerator}[c['typ']](
             'infinitesimal', c['dim'])
    for _ in range(n):
        bad = 0
        while True:
            o, t, p = g.generate_strain_path(**kwargs(c))
            ref = respond(c, o, p)
            if ref is not None:
                break
            bad += 1
            if bad > 8:
                return
        yield o, t, p, ref


@sub('generate', case, quick=160, thorough=4000, shards=4)
def _(c, ctx):
    """Samples are the strain paths drawn and the response to them."""
    start(c['s'])
    ref = list(paths(c, c['n']))
    if len(ref) < c['n']:
        return
    pt = {2: 1, 3: 4}[c['dim']]
    name = FULL_NAME[c['m']['m']]
    g = G.MaterialResponseDatasetGenerator('infinitesimal', pt)
    start(c['s'])
    a = g.generate_response_dataset(c['n'], c['typ'], kwargs(c), name,
                                    parameters(c['m']),
                                    state_features=features(c))
    ctx.check(len(a) == c['n'], 'number of samples')
    for i, (o, t, p, q) in enumerate(ref):
        same(ctx, c, a[i], o, p, t, q)
    # The same data set kept in files
    tmp = os.path.join(ctx.scratch(), 'data')
    os.makedirs(tmp)
    start(c['s'])
    b = g.generate_response_dataset(
        c['n'], c['typ'], kwargs(c), name, parameters(c['m']),
        state_features=features(c), is_in_memory_dataset=False,
        dataset_directory=tmp, dataset_basename='resp')
    ctx.check(len(b) == c['n'], 'number of samples in files')
    for i, (o, t, p, q) in enumerate(ref):
        same(ctx, c, b[i], o, p, t, q)
    # Refused requests
    for kw in ({'strain_path_type': 'other'}, {'model_name': 'other'},
               {'dataset_directory': None}, {'dataset_basename': None}):
        full = dict(n_path=1, strain_path_type=c['typ'],
                    strain_path_kwargs=kwargs(c), model_name=name,
                    model_parameters=parameters(c['m']),
                    is_in_memory_dataset=False, dataset_directory=tmp,
                    dataset_basename='x')
        full.update(kw)
        try:
            g.generate_response_dataset(**full)
        except RuntimeError:
            continue
        ctx.check(False, f'accepted {kw}')
    # Regenerated from the strains alone, whatever the stored stresses
    src = []
    for i in range(c['n']):
        x = dict(a[i])
        x['stress_path'] = x['stress_path']*0 + 7
        src.append(x)
    p = save_dataset(TimeSeriesDatasetInMemory(src), 'strains', tmp)
    d = g.gen_response_dataset_from_strain_dataset(
        p, name, parameters(c['m']), state_features=features(c))
    ctx.check(len(d) == c['n'], 'number of regenerated samples')
    for i, (o, t, p, q) in enumerate(ref):
        same(ctx, c, d[i], o, p, t, q)
    ctx.nontrivial(any(x[3][2] for x in ref) or c['n'] > 1)
    ctx.label(name)


@st.composite
def any_path(draw):
    c = draw(case(names=('el', 'vm', 'vmm', 'dp', 'lou'), nmax=1))
    c['nt'] = draw(st.integers(2, 12))
    c['perm'] = draw(st.booleans())
    return c


@sub('response', any_path, quick=200, thorough=5000, shards=2)
def _(c, ctx):
    """Any strain path in any order of components; failures reported."""
    r = rng(c['s'])
    y = yield_strain(c['m'])
    p = np.cumsum(r.normal(size=(c['nt'], len(ORDER[c['dim']])))*y
                  * 10.0**r.uniform(-1, 0.5), axis=0)
    p[0] = 0.0
    o = list(ORDER[c['dim']])
    if c['perm']:
        o = [x if r.random() < 0.5 else x[::-1] for x in r.permutation(o)]
    t = np.linspace(0, 1, c['nt'])
    pt = {2: 1, 3: 4}[c['dim']]
    ref = respond(c, o, p)
    for cls in (G.MaterialResponseDatasetGenerator,
                N.NoisyMaterialResponseDatasetGenerator):
        g = cls('infinitesimal', pt)
        with contextlib.redirect_stderr(io.StringIO()):
            a, b, s, bad = g.compute_stress_path(
                o, t, p, build(c['m'], c['dim']),
                state_features=features(c))
        ctx.check(bool(bad) == (ref is None), f'failure reported: {bad}')
        if ref is None:
            continue
        got = {'strain_comps_order': o, 'strain_path': p, 'time_hist':
               t.reshape(-1, 1), 'stress_comps_order': a, 'stress_path': b,
               **s}
        same(ctx, c, got, o, p, t, ref)
    ctx.nontrivial(ref is not None and ref[2])
    ctx.label('failed' if ref is None else 'done')


@st.composite
def noisy(draw):
    c = draw(case(names=('el', 'vm', 'vmm', 'dp')))
    c['var'] = draw(st.sampled_from(['homoscedastic', 'heteroscedastic']))
    c['dist'] = draw(st.sampled_from(['uniform', 'gaussian',
                                      'spiked_gaussian']))
    c['amp'] = draw(st.sampled_from([0.0, 1e-3, 0.1]))
    c['norm'] = draw(st.sampled_from([None, None, 0.5, 3.0]))
    c['scale'] = draw(st.sampled_from([None, 'minmax', 'std']))
    c['clean'] = draw(st.booleans())
    return c


@sub('noisy', noisy, quick=160, thorough=4000, shards=2)
def _(c, ctx):
    """Noise is the one drawn, zero at first; the response is that to the
    noisy strains."""
    d = c['dim']
    pt = {2: 1, 3: 4}[d]
    nc = len(ORDER[d])
    g = N.NoisyMaterialResponseDatasetGenerator('infinitesimal', pt)
    start(c['s'])
    base = list(paths(c, c['n']))
    if len(base) < c['n']:
        return
    mod = build(c['m'], d)
    start(c['s'])
    with contextlib.redirect_stderr(io.StringIO()):
        a = g.generate_noiseless_dataset(c['n'], c['typ'], kwargs(c), mod,
                                         state_features=features(c))
    ctx.check(len(a) == c['n'], 'number of noiseless samples')
    for i, (o, t, p, q) in enumerate(base):
        same(ctx, c, a[i], o, p, t, q)
    w = np.array([1.0 if k[0] == k[1] else 2.0 for k in ORDER[d]])
    norms = [np.sqrt((w*p**2).sum(1)) for _, _, p, _ in base]
    if c['var'] == 'heteroscedastic' and min(x.max() for x in norms) == 0:
        return
    y = yield_strain(c['m'])
    sc, sw = None, np.ones(nc)
    off = np.zeros(nc)
    if c['scale'] == 'minmax':
        lo, hi = -y*(1 + np.arange(nc)), 0.5*y*(2 + np.arange(nc))
        sc = TorchMinMaxScaler(nc, minimum=T(lo), maximum=T(hi))
        sw, off = (hi - lo)/2, (hi + lo)/2
    elif c['scale'] == 'std':
        sw, off = y*(1.0 + np.arange(nc)), 0.1*y*np.arange(nc)
        sc = TorchStandardScaler(nc, mean=T(off), std=T(sw))
    amp = c['amp']*(1.0 if sc else y)
    par = {'uniform': {'amp': amp}, 'gaussian': {'std': amp},
           'spiked_gaussian': {'std': amp, 'spike': 2*amp,
                               'p_spike': 0.3}}[c['dist']]

    def noise():
        q = NoiseGenerator()
        q.set_noise_distribution(c['dist'])
        q.set_noise_parameters(dict(par))
        return q
    hn = None if c['norm'] is None else c['norm']*y
    # The noise that is going to be drawn
    start(c['s'] + 1)
    drawn, q = [], noise()
    ok = True
    for (_, _, p, _), x in zip(base, norms):
        z = q.generate_noise_path(
            p.copy(), noise_variability=c['var'], heteroscedastic_weights=(
                x/(x.max() if hn is None else hn)
                if c['var'] == 'heteroscedastic' else None))
        z[0] = 0.0
        drawn.append(z)
    start(c['s'] + 1)
    try:
        with contextlib.redirect_stderr(io.StringIO()):
            b = g.generate_noisy_dataset(
                a, noise(), mod, state_features=features(c),
                strain_data_scaler=sc, noise_variability=c['var'],
                heteroscedastic_normalizer=hn,
                is_denoise_strain_path=c['clean'])
    except RuntimeError as e:
        if 'maximum' in str(e):
            return
        raise
    ctx.check(len(b) == c['n'], 'number of noisy samples')
    for i, (o, t, p, q) in enumerate(base):
        x = b[i]
        n = to_np(x['strain_noise_path'])
        got = to_np(x['strain_path'])
        if ok:
            # A retried path draws its noise again
            if np.allclose(n, drawn[i], 1e-9, 1e-15*y):
                ctx.label('noise as drawn')
            else:
                first = respond(c, o, p + drawn[i]*sw) \
                    if not c['clean'] else None
                ctx.check(first is None, f'path {i}: noise {n} instead of '
                          f'{drawn[i]}')
                ok = False
        ctx.check((n[0] == 0).all(), 'noise at the start')
        full = p + n*sw
        if not c['clean']:
            ctx.close(got, full, 1e-9, 1e-12 + 1e-10*np.max(np.abs(off)),
                      'noisy strains')
        else:
            ctx.close(got[0], p[0], 0, 1e-15, 'initial strain')
            for k in range(1, len(p)):
                near = full[max(0, k - 4):k + 5]
                ctx.check((got[k] <= near.max(0) + 1e-9*y).all()
                          and (got[k] >= near.min(0) - 1e-9*y).all(),
                          'averaged strains outside the noisy ones')
        ref = respond(c, o, got)
        ctx.check(ref is not None, 'failed response in the data set')
        same(ctx, c, x, o, got, t, ref, extra=('strain_noise_path',
                                               'stress_noise_path'))
        top = 1e-9*(np.max(np.abs(ref[0])) + np.max(np.abs(q[0])))
        ctx.close(x['stress_noise_path'], ref[0] - q[0], 1e-9,
                  top + 1e-9*c['m']['E']*1e-6, 'stress noise')
    for i, (o, t, p, q) in enumerate(base):
        same(ctx, c, a[i], o, p, t, q)
    ctx.nontrivial(c['amp'] > 0 and len(norms[0]) > 2)
    ctx.label(c['var'] + (', scaled' if sc else ''))


@sub('csv', lambda: st.fixed_dictionaries({
    'dim': st.sampled_from([2, 3]), 'n': st.integers(1, 12),
    'zero': st.sampled_from([0.0, 0.3]), 'mem': st.booleans(),
    'head': st.sampled_from(['path_', 'r2_', 'x-1.']),
    'bad': st.sampled_from([None, None, None, 12, 14]), 's': seeds()}),
    quick=120, thorough=3000)
def _(c, ctx):
    """Recorded responses come back by number, empty ones left out."""
    r = rng(c['s'])
    tmp = ctx.scratch()
    num = [int(x) for x in r.permutation(150)[:c['n']]]
    files, want = [], []
    for k in num:
        nt = int(r.integers(2, 9))
        v = r.normal(size=(nt, 13))*10.0**r.integers(-3, 4, size=13)
        v[:, 7:] *= 10.0
        if r.random() < c['zero'] and k != num[0]:
            v[:, 7:] = 0.0
        else:
            want.append((k, v))
        q = os.path.join(tmp, f'{c["head"]}{k}.csv')
        cols = ('TIME,E11,E22,E33,E12,E23,E13,S11,S22,S33,S12,S23,'
                'S13').split(',')
        rows = [[repr(float(x)) for x in row] for row in v]
        if c['bad'] and k == num[-1]:
            cols = (cols + ['X'])[:c['bad']]
            rows = [(x + ['1.0'])[:c['bad']] for x in rows]
        with open(q, 'w') as f:
            f.write('\n'.join(','.join(x) for x in [cols] + rows) + '\n')
        files.append(q)
    g = G.MaterialResponseDatasetGenerator('infinitesimal',
                                           {2: 1, 3: 4}[c['dim']])
    kw = {}
    if not c['mem']:
        os.makedirs(os.path.join(tmp, 'd'))
        kw = dict(is_in_memory_dataset=False, dataset_basename='resp',
                  dataset_directory=os.path.join(tmp, 'd'))
    try:
        d = g.gen_response_dataset_from_csv(tuple(files), **kw)
    except RuntimeError:
        ctx.check(c['bad'] is not None, 'refused')
        return
    ctx.check(c['bad'] is None, f'accepted {c["bad"]} columns')
    want.sort()
    ctx.check(len(d) == len(want), f'{len(d)} samples of {len(want)}')
    sel = [0, 1, 3] if c['dim'] == 2 else list(range(6))
    for i, (k, v) in enumerate(want):
        x = d[i]
        ctx.check(list(x['strain_comps_order']) == list(ORDER[c['dim']])
                  and list(x['stress_comps_order']) == list(
                      ORDER[c['dim']]), 'components')
        ctx.close(x['time_hist'], v[:, :1], 1e-11, 0, 'time')
        ctx.close(x['strain_path'], v[:, 1:7][:, sel], 1e-11, 0,
                  'strains')
        ctx.close(x['stress_path'], v[:, 7:][:, sel], 1e-11, 0,
                  'stresses')
    ctx.nontrivial(c['n'] > 1)


@sub('invariants', lambda: st.fixed_dictionaries({
    's': seeds(), 'k': st.sampled_from(['rnd', 'hyd', 'uni', 'dev', 'zero'])
    }), quick=200, thorough=4000)
def _(c, ctx):
    r = rng(c['s'])
    e = {'rnd': r.normal(size=3), 'hyd': np.ones(3)*r.normal(),
         'uni': np.array([r.normal(), 0, 0]), 'zero': np.zeros(3),
         'dev': np.array([1.0, -2.0, 1.0])*r.normal()}[c['k']]
    e = e*10.0**int(r.integers(-3, 4))
    q = random_rotation(r, 3)
    s = sym(q @ np.diag(e) @ q.T)
    a, b = G.MaterialResponseDatasetGenerator.compute_stress_invariants(s)
    m = e.mean()
    f = e - m
    k = np.max(np.abs(e)) + 1e-30
    ctx.close(np.asarray(a)/k**np.arange(1, 4), np.array(
        [e.sum(), e[0]*e[1] + e[1]*e[2] + e[0]*e[2], e.prod()])
        / k**np.arange(1, 4), 0, 1e-12, 'invariants')
    ctx.close(np.asarray(b)/k**np.arange(1, 4), np.array(
        [0.0, 0.5*(f**2).sum(), f.prod()])/k**np.arange(1, 4), 0, 1e-12,
        'deviatoric invariants')
    # Components and tensors
    for cls in (G.MaterialResponseDatasetGenerator,
                N.NoisyMaterialResponseDatasetGenerator):
        for d in (2, 3):
            x = r.normal(size=(d, d))
            full = [f'{i + 1}{j + 1}' for i in range(d) for j in range(d)]
            full = [full[i] for i in r.permutation(len(full))]
            y = cls.store_tensor_comps(full, x)
            ctx.close(y, [x[int(z[0]) - 1, int(z[1]) - 1] for z in full], 0,
                      0, 'stored components')
            ctx.close(cls.build_tensor_from_comps(d, full, y), x, 0, 0,
                      'tensor of components')
            x = sym(x)
            y = cls.store_tensor_comps(list(ORDER[d]), x)
            ctx.close(cls.build_tensor_from_comps(
                d, list(ORDER[d]), y, is_symmetric=True), x, 0, 0,
                'symmetric tensor')
            ctx.close(N.NoisyMaterialResponseDatasetGenerator
                      .compute_norm_path(
                          np.array([y, 2*y]), d, list(ORDER[d]),
                          is_symmetric=True),
                      np.linalg.norm(x)*np.array([1, 2]), 1e-12, 0, 'norm')
    ctx.nontrivial(c['k'] == 'rnd')


@sub('curves', lambda: st.fixed_dictionaries({
    'nt': st.integers(2, 12), 'dim': st.sampled_from([2, 3]), 's': seeds()}),
    quick=30, thorough=400)
def _(c, ctx):
    """Plotted curves: the given components and von Mises equivalents."""
    import matplotlib
    matplotlib.use('Agg')
    r = rng(c['s'])
    d, n = c['dim'], len(ORDER[c['dim']])
    e, s = r.normal(size=(c['nt'], n))*1e-2, r.normal(size=(c['nt'], n))*99
    t = np.linspace(0, 2, c['nt'])
    seen = {}

    def save(figure, filename, *a, **k):
        seen[filename] = [np.array(x.get_xydata()) for x in
                          figure.axes[0].get_lines()]
    old, G.save_figure = G.save_figure, save
    try:
        G.MaterialResponseDatasetGenerator.plot_material_response_path(
            'infinitesimal', d, ORDER[d], e, ORDER[d], s, t,
            is_plot_strain_stress_paths=True, is_plot_eq_strain_stress=True,
            filename='f', save_dir=ctx.scratch(), is_save_fig=True)
    finally:
        G.save_figure = old
    if not seen:
        return
    for name, v in (('f_strain', e), ('f_stress', s)):
        ctx.check(len(seen[name]) == n, f'{name}: {len(seen[name])} curves')
        for j in range(n):
            ctx.close(seen[name][j], np.column_stack([t, v[:, j]]), 1e-12,
                      0, name)
    if d == 3:
        w = np.array([1, 1, 1, 2, 2, 2.0])

        def eq(v, f):
            x = v.copy()
            x[:, :3] -= v[:, :3].mean(1, keepdims=True)
            return np.sqrt(f*(w*x**2).sum(1))
        ctx.close(seen['f_eq_strain_stress'][0], np.column_stack(
            [eq(e, 2/3), eq(s, 3/2)]), 1e-9, 0, 'equivalent values')
    ctx.nontrivial(d == 3)


class Flaky:
    """A material whose state update gives up on some of the paths."""
    def __init__(self, at, n, steps):
        self.at, self.left, self.failed, self.steps = at, n, 0, steps

    @contextlib.contextmanager
    def on(self, cls):
        update = cls.state_update
        pos = [0]

        def state_update(s, *a, **k):
            new, tang = update(s, *a, **k)
            pos[0] += 1
            if pos[0] == self.at and self.left > 0:
                self.left -= 1
                self.failed += 1
                if self.failed > 500:
                    raise AssertionError('endless trials')
                pos[0] = 0
                new['is_su_fail'] = True
                new['stress_mf'] = new['stress_mf']*float('nan')
            elif pos[0] == self.steps:
                pos[0] = 0
            return new, tang
        cls.state_update = state_update
        try:
            yield
        finally:
            cls.state_update = update


@st.composite
def flaky(draw):
    c = draw(case(names=('el', 'vm'), nmax=3))
    nt = c['kw']['n_time']
    c['at'] = draw(st.sampled_from([1, 2, nt - 1]))
    c['bad'] = draw(st.integers(0, 9))
    c['cls'] = draw(st.sampled_from(['noiseless', 'noisy', 'plain',
                                     'strains']))
    return c


@sub('retry', flaky, quick=120, thorough=2000, shards=2)
def _(c, ctx):
    """A path that fails is drawn again, a bounded number of times."""
    d, pt = c['dim'], {2: 1, 3: 4}[c['dim']]
    name = FULL_NAME[c['m']['m']]
    cls = type(build(c['m'], d))
    g = G.MaterialResponseDatasetGenerator('infinitesimal', pt)
    h = N.NoisyMaterialResponseDatasetGenerator('infinitesimal', pt)
    mod = build(c['m'], d)
    start(c['s'])
    if len(list(paths(c, c['n']))) < c['n']:
        return
    start(c['s'])
    with contextlib.redirect_stderr(io.StringIO()):
        a = g.generate_response_dataset(c['n'], c['typ'], kwargs(c), name,
                                        parameters(c['m']))
    nt = len(a[0]['strain_path'])
    if c['at'] > nt - 1:
        return

    def make():
        if c['cls'] == 'plain':
            return g.generate_response_dataset(
                c['n'], c['typ'], kwargs(c), name, parameters(c['m']),
                state_features=features(c))
        if c['cls'] == 'noiseless':
            return h.generate_noiseless_dataset(
                c['n'], c['typ'], kwargs(c), mod,
                state_features=features(c))
        if c['cls'] == 'noisy':
            q = NoiseGenerator()
            q.set_noise_distribution('gaussian')
            q.set_noise_parameters({'std': 1e-4*yield_strain(c['m'])})
            return h.generate_noisy_dataset(a, q, mod,
                                            state_features=features(c))
        p = save_dataset(a, 'strains', ctx.scratch())
        return g.gen_response_dataset_from_strain_dataset(
            p, name, parameters(c['m']), state_features=features(c))
    start(c['s'])
    f = Flaky(c['at'], c['bad'], nt - 1)
    try:
        with contextlib.redirect_stderr(io.StringIO()), f.on(cls):
            b = make()
    except RuntimeError:
        ctx.check(c['cls'] == 'strains' and c['bad'] > 0,
                  f'gave up after {f.failed} trials')
    else:
        ctx.check(c['cls'] != 'strains' or c['bad'] == 0,
                  'failed response of a given strain path kept')
        ctx.check(len(b) == c['n'], 'number of samples')
        ctx.check(f.left == 0, 'a failed path was not noticed')
        for i in range(c['n']):
            x = b[i]
            p = to_np(x['strain_path'])
            ref = respond(c, x['strain_comps_order'], p)
            ctx.check(ref is not None, 'failed response')
            same(ctx, c, x, x['strain_comps_order'], p, x['time_hist'], ref,
                 extra=('strain_noise_path', 'stress_noise_path')
                 if c['cls'] == 'noisy' else ())
    # Never a response
    f = Flaky(c['at'], 10**9, nt - 1)
    try:
        with contextlib.redirect_stderr(io.StringIO()), f.on(cls):
            make()
    except RuntimeError:
        pass
    else:
        ctx.check(False, 'data set of paths without a response')
    ctx.nontrivial(c['bad'] > 0)
    ctx.label(c['cls'])
