"""C21: strain and stress features."""
import itertools
import os
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds, sym, random_rotation
from model_architectures.materials.strain_features import (
    add_strain_features, compute_strain_feature, build_strain_from_comps)
from model_architectures.materials.stress_features import (
    add_stress_features, compute_stress_feature, build_stress_from_comps,
    store_stress_comps)
from time_series_data.time_dataset import (
    TimeSeriesDataset, TimeSeriesDatasetInMemory)

PROPERTY = 'C21'
RULE = ('Random strain/stress histories of 1-6 steps stored in random '
        '(permuted, transposed-index, symmetric and full) component orders, '
        'data sets of 1-4 samples in memory, on disk and as subsets; '
        'non-trivial if the component order is not the standard one.')
T = torch.tensor


@st.composite
def case(draw):
    return {'s': draw(seeds()), 'full': draw(st.booleans()),
            'perm': draw(st.booleans()), 'n': draw(st.integers(1, 6)),
            'sc': draw(st.sampled_from([1.0, 1e-4, 1e3]))}


def order(r, full, perm, d=3):
    if full:
        o = [f'{i}{j}' for i, j in itertools.product(range(1, d + 1),
                                                     repeat=2)]
    else:
        o = ['11', '22', '33', '12', '23', '13'] if d == 3 else \
            ['11', '22', '12']
    if perm:
        if not full:
            o = [x if r.integers(2) else x[::-1] for x in o]
        o = [o[i] for i in r.permutation(len(o))]
    return tuple(o)


def comps(a, o):
    return np.array([a[int(x[0]) - 1, int(x[1]) - 1] for x in o])


@sub('features', case, quick=500)
def _feat(c, ctx):
    r = rng(c['s'])
    o = order(r, c['full'], c['perm'])
    a = c['sc']*sym(r.standard_normal((3, 3)))
    v = T(comps(a, o))
    ctx.nontrivial(c['perm'])
    i1 = np.trace(a)
    i2 = 0.5*(i1**2 - np.trace(a @ a))
    tol = 1e-12*max(1.0, c['sc']**2)
    ctx.close(build_strain_from_comps(3, o, v), a, 0, 0, 'strain tensor')
    ctx.close(build_stress_from_comps(3, o, v), a, 0, 0, 'stress tensor')
    ctx.close(store_stress_comps(o, T(a)), comps(a, o), 0, 0,
              'stored components')
    ctx.close(compute_strain_feature(v, 'i1_strain', 3, o), [i1], 1e-12, tol,
              'first invariant')
    ctx.close(compute_strain_feature(v, 'i2_strain', 3, o), [i2], 1e-12, tol,
              'second invariant')
    vol = compute_stress_feature(v, 'vol_stress', 3, o)
    dev = compute_stress_feature(v, 'dev_stress', 3, o)
    ctx.close(vol, [i1/3], 1e-12, tol, 'volumetric stress')
    ctx.close(dev, comps(a - i1/3*np.eye(3), o), 1e-12, tol,
              'deviatoric stress')
    # frame indifference
    q = random_rotation(r, 3)
    w = T(comps(sym(q @ a @ q.T), o))
    for f, lb in ((compute_strain_feature, 'i1_strain'),
                  (compute_strain_feature, 'i2_strain'),
                  (compute_stress_feature, 'vol_stress')):
        ctx.close(f(w, lb, 3, o), f(v, lb, 3, o), 1e-10, 1e-10*max(
            1.0, c['sc']**2), f'{lb} changes under rotation')
    # plane tensors
    o2 = order(r, c['full'], c['perm'], 2)
    b = sym(r.standard_normal((2, 2)))
    ctx.close(build_strain_from_comps(2, o2, T(comps(b, o2))), b, 0, 0,
              'plane strain tensor')
    ctx.close(build_stress_from_comps(2, o2, T(comps(b, o2))), b, 0, 0,
              'plane stress tensor')


@st.composite
def dcase(draw):
    c = draw(case())
    c['ns'] = draw(st.integers(1, 4))
    c['store'] = draw(st.sampled_from(['mem', 'disk', 'submem', 'subdisk']))
    return c


@sub('data_sets', dcase, quick=250)
def _ds(c, ctx):
    r = rng(c['s'])
    oe = order(r, c['full'], c['perm'])
    os_ = order(r, c['full'], c['perm'])
    E, S, samples = [], [], []
    for k in range(c['ns']):
        n = int(r.integers(1, 7))
        e = np.array([sym(r.standard_normal((3, 3))) for _ in range(n)])
        s = np.array([sym(r.standard_normal((3, 3))) for _ in range(n)])
        E.append(e)
        S.append(s)
        samples.append({'strain_path': T(np.array([comps(x, oe) for x in e])),
                        'strain_comps_order': oe,
                        'stress_path': T(np.array([comps(x, os_)
                                                   for x in s])),
                        'stress_comps_order': os_, 'other': k})
    ctx.nontrivial(c['ns'] > 1)
    ctx.label(c['store'])
    idx = list(range(c['ns']))
    if 'disk' in c['store']:
        d = ctx.scratch()
        files = []
        for k, s in enumerate(samples):
            p = os.path.join(d, f's_{k}.pt')
            torch.save(s, p)
            files.append(p)
        ds = TimeSeriesDataset(d, files)
    else:
        ds = TimeSeriesDatasetInMemory(samples)
    if c['store'].startswith('sub'):
        idx = [int(i) for i in r.permutation(c['ns'])][:max(1, c['ns'] - 1)]
        ds = torch.utils.data.Subset(ds, idx)
    for lb in ('i1_strain', 'i2_strain'):
        ds = add_strain_features(ds, lb)
    for lb in ('vol_stress', 'dev_stress'):
        ds = add_stress_features(ds, lb)
    ctx.check(len(ds) == len(idx), 'number of samples')
    for j, k in enumerate(idx):
        x = ds[j]
        i1 = np.trace(E[k], axis1=1, axis2=2)
        i2 = 0.5*(i1**2 - np.einsum('kij,kji->k', E[k], E[k]))
        p = np.trace(S[k], axis1=1, axis2=2)/3
        ctx.check(x['other'] == k, 'sample order')
        for lb in ('i1_strain', 'i2_strain', 'vol_stress', 'dev_stress'):
            ctx.check(lb in x, f'feature {lb} is missing')
        ctx.close(x['i1_strain'], i1[:, None], 1e-12, 1e-12, 'i1_strain')
        ctx.close(x['i2_strain'], i2[:, None], 1e-11, 1e-11, 'i2_strain')
        ctx.close(x['vol_stress'], p[:, None], 1e-12, 1e-12, 'vol_stress')
        ctx.close(x['dev_stress'],
                  np.array([comps(a - q*np.eye(3), os_)
                            for a, q in zip(S[k], p)]), 1e-12, 1e-12,
                  'dev_stress')
        ctx.close(x['strain_path'], np.array([comps(a, oe) for a in E[k]]),
                  0, 0, 'strain path was changed')
        ctx.close(x['stress_path'], np.array([comps(a, os_) for a in S[k]]),
                  0, 0, 'stress path was changed')


@st.composite
def ucase(draw):
    return {'lab': draw(st.sampled_from(['i3', 'i1', '', 'vol'])),
            'dim2': draw(st.booleans()), 's': draw(seeds())}


@sub('refusals', ucase, quick=60)
def _ref(c, ctx):
    """Undefined features are refused, not filled with something else."""
    r = rng(c['s'])
    o = order(r, c['s'] % 2 == 1, False, 2 if c['dim2'] else 3)
    ds = TimeSeriesDatasetInMemory([{
        'strain_path': T(r.standard_normal((3, len(o)))),
        'strain_comps_order': o,
        'stress_path': T(r.standard_normal((3, len(o)))),
        'stress_comps_order': o}])
    ctx.nontrivial()
    for f, lb in ((add_strain_features, 'i1_strain'),
                  (add_strain_features, 'i2_strain'),
                  (add_stress_features, 'vol_stress'),
                  (add_stress_features, 'dev_stress')):
        for lab in ([lb] if c['dim2'] else [c['lab']]):
            try:
                f(ds, lab)
            except RuntimeError:
                continue
            ctx.check(False, f'{f.__name__}({lab!r}) was not refused')
