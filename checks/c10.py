"""C10: data scaling."""
import os
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
from utilities.data_scalers import TorchMinMaxScaler, TorchStandardScaler
from utilities.fit_data_scalers import (
    fit_data_scaler_from_dataset, mean_std_batch_fit, min_max_batch_fit)
from time_series_data.time_dataset import (
    TimeSeriesDataset, TimeSeriesDatasetInMemory)
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
import model_architectures.procedures.model_data_scaling as mds

PROPERTY = 'C10'
RULE = ('Random feature data of 1-5 features with independent offsets and '
        'scales (1e-16..1e10, including constant features), 1-38 samples, '
        'sequences of 1-6 steps (of one or of varying length), both scalers '
        'and both floating point precisions; non-trivial if more than one '
        'feature and more than one sample.')


@st.composite
def case(draw):
    return {'s': draw(seeds()), 'nf': draw(st.integers(1, 5)),
            'n': draw(st.integers(1, 12)), 'len': draw(st.integers(1, 6)),
            'dim': draw(st.sampled_from([2, 3])),
            'kind': draw(st.sampled_from(['min-max', 'mean-std'])),
            'bounds': draw(st.booleans()),
            'f32': draw(st.integers(0, 4)) == 0}


def data(r, shape, off=None, scl=None, const=None):
    nf = shape[-1]
    if off is None:
        # any unit of measure, also tiny or large numbers throughout
        m = 10.0**r.choice([0, 0, 0, -12, -8, 6], nf)
        off = m*r.standard_normal(nf)*10.0**r.integers(-2, 3, nf)
        scl = m*10.0**r.integers(-4, 5, nf)
    x = off + scl*r.standard_normal(shape)
    if const is None:
        const = r.integers(0, 6, nf) == 0
    x[..., const] = off[const] if r.integers(3) else 0.0
    return x, off, scl, const


def bounds(r, on):
    if not on:
        return -1.0, 1.0
    a = float(np.round(r.uniform(-3, 3), 3))
    return a, a + float(np.round(r.uniform(0.2, 4), 3))


def expected(kind, flat, y, lo, hi):
    """Reference scaling of y by the statistics of flat."""
    if kind == 'mean-std':
        m, s = flat.mean(0), flat.std(0)
        return (y - m)/np.where(s == 0, 1.0, s)
    mn, mx = flat.min(0), flat.max(0)
    rg = np.where(mx == mn, 1.0, mx - mn)
    return lo + (hi - lo)*(y - mn)/rg


def varying(flat):
    """Features that are not constant up to round-off."""
    return np.ptp(flat, 0) > 1e-9*(np.abs(flat).max(0) + 1e-300)


@sub('scaler', case, quick=500, thorough=20000)
def _scaler(c, ctx):
    r = rng(c['s'])
    nf, kind = c['nf'], c['kind']
    shape = (c['len'], c['n'], nf) if c['dim'] == 3 else (c['n'], nf)
    x, off, scl, const = data(r, shape)
    dt = torch.float32 if c['f32'] else torch.float64
    tx = torch.tensor(x, dtype=dt)
    x = tx.numpy().astype(float)
    lo, hi = bounds(r, c['bounds'])
    eps = 3e-5 if c['f32'] else 1e-11
    flat = x.reshape(-1, nf)
    vr = varying(flat) & (np.ptp(flat, 0) > (1e-2 if c['f32'] else 1e-9)
                          * np.abs(flat).max(0))
    ctx.nontrivial(nf > 1 and flat.shape[0] > 1)
    if kind == 'min-max':
        sc = TorchMinMaxScaler(nf, norm_minimum=lo, norm_maximum=hi)
    else:
        sc = TorchStandardScaler(nf)
    keep = tx.clone()
    bes = bool(r.integers(2)) and flat.shape[0] > 1
    if kind == 'mean-std' and bes:
        sc.fit(tx, is_bessel=True)
    else:
        sc.fit(tx)
        bes = False
    ctx.check(torch.equal(tx, keep), 'fit modifies the data')
    mag = np.abs(flat).max(0)
    if kind == 'min-max':
        mn, mx = sc.get_minimum_and_maximum()
        ctx.close(mn, flat.min(0), 0, 0, 'fitted minimum')
        ctx.close(mx, flat.max(0), 0, 0, 'fitted maximum')
    else:
        m, s = sc.get_mean_and_std()
        ctx.close(m.double().numpy()/(mag + 1e-300),
                  flat.mean(0)/(mag + 1e-300), 0, 10*eps, 'fitted mean')
        ctx.close(s.double().numpy()/(mag + 1e-300),
                  flat.std(0, ddof=int(bes))/(mag + 1e-300), 0, 10*eps,
                  'fitted deviation')
    t = sc.transform(tx, is_check_data=bool(r.integers(2)))
    ctx.check(torch.equal(tx, keep), 'transform modifies the data')
    ctx.check(t.shape == tx.shape, 'shape changed')
    ctx.check(bool(torch.isfinite(t).all()), 'scaled data not finite')
    amp = 1 + np.where(vr, mag/np.where(np.ptp(flat, 0) == 0, 1,
                                        np.ptp(flat, 0)), 0)
    e = expected(kind, flat, x, lo, hi)
    if bes:
        e = e*np.sqrt((flat.shape[0] - 1)/flat.shape[0])
    tn = t.double().numpy()
    ctx.close((tn/amp)[..., vr], (e/amp)[..., vr], 0,
              100*eps*(hi - lo + abs(lo) + 1), 'scaled data')
    if kind == 'min-max' and vr.any():
        f = tn.reshape(-1, nf)
        ctx.close(f.min(0)[vr], np.full(vr.sum(), lo), 0, 100*eps*(1 + abs(lo)
                  ) * amp.max(), 'lower end of the range')
        ctx.close(f.max(0)[vr], np.full(vr.sum(), hi), 0, 100*eps*(1 + abs(hi)
                  ) * amp.max(), 'upper end of the range')
    b = sc.inverse_transform(t, is_check_data=bool(r.integers(2)))
    ctx.check(b.shape == tx.shape, 'shape changed on the way back')
    ctx.close(b.double().numpy()/(mag + 1e-300), x/(mag + 1e-300), 0,
              30*eps, 'scaling back does not return the data')
    # data the scaler was not fitted to, in either direction
    y, *_ = data(r, shape, off, scl, const)
    ty = torch.tensor(y, dtype=dt)
    if vr.any():
        yb = sc.inverse_transform(sc.transform(ty)).double().numpy()
        my = np.maximum(np.abs(ty.double().numpy()), mag)[..., vr]
        ctx.close(yb[..., vr]/my, ty.double().numpy()[..., vr]/my, 0, 30*eps,
                  'round trip of other data')
        z = torch.tensor(r.uniform(-2, 2, shape), dtype=dt)
        zb = sc.transform(sc.inverse_transform(z)).double().numpy()
        ctx.close((zb/amp)[..., vr], (z.double().numpy()/amp)[..., vr], 0,
                  200*eps*(1 + abs(lo) + abs(hi)),
                  'round trip of scaled data')
    # 3D scaling is the 2D scaling of every step
    if c['dim'] == 3:
        for i in range(c['len']):
            ctx.close(sc.transform(tx[i]), tn[i], 0, 0 if not c['f32']
                      else 1e-6, 'sequence scaling differs from step scaling')
    # explicit parameters
    if kind == 'min-max':
        p = TorchMinMaxScaler(nf, *sc.get_minimum_and_maximum(), lo, hi)
        q = TorchMinMaxScaler(nf, norm_minimum=lo, norm_maximum=hi)
        q.set_minimum(mn)
        q.set_maximum(mx)
    else:
        p = TorchStandardScaler(nf, *sc.get_mean_and_std())
        q = TorchStandardScaler(nf)
        q.set_mean(m)
        q.set_std(s)
    ctx.close(p.transform(tx), tn, 0, 0, 'given parameters')
    ctx.close(q.transform(tx), tn, 0, 0, 'set parameters')


def dataset(r, c, ctx, nf_in, nf_out):
    xi, oi, si, ci = data(r, (1, nf_in))
    xo, oo, so, co = data(r, (1, nf_out))
    ci[:] = False
    co[:] = False
    ci[int(r.integers(nf_in))] = r.integers(3) == 0
    samples = []
    n, fixed = c['n'], None
    if r.integers(3) == 0:
        # larger data sets, sequences of one length
        n, fixed = 3*c['n'] + int(r.integers(3)), int(r.integers(1, 7))
    for _ in range(n):
        ln = int(r.integers(1, 7)) if fixed is None else fixed
        samples.append({
            'features_in': torch.tensor(data(r, (ln, nf_in), oi, si, ci)[0]),
            'features_out': torch.tensor(data(r, (ln, nf_out), oo, so,
                                              co)[0])})
    # one consistent constant
    for s in samples:
        s['features_in'][:, torch.tensor(ci)] = torch.tensor(oi[ci])
    if c['dim'] == 3:
        return TimeSeriesDatasetInMemory(samples), samples
    d = ctx.scratch()
    fs = []
    for i, s in enumerate(samples):
        fs.append(os.path.join(d, f's{i}.pt'))
        torch.save(s, fs[-1])
    ds = TimeSeriesDataset(d, fs)
    if r.integers(2):
        k = int(r.integers(1, len(samples) + 1))
        idx = [int(i) for i in r.permutation(len(samples))[:k]]
        return torch.utils.data.Subset(ds, idx), [samples[i] for i in idx]
    return ds, samples


def stats_close(ctx, kind, sc, flat, msg):
    mag = np.abs(flat).max(0) + 1e-300
    if kind == 'min-max':
        a, b = sc.get_minimum_and_maximum()
        ctx.close(a, flat.min(0), 0, 0, f'{msg}: minimum')
        ctx.close(b, flat.max(0), 0, 0, f'{msg}: maximum')
    else:
        a, b = sc.get_mean_and_std()
        ctx.close(a.numpy()/mag, flat.mean(0)/mag, 0, 1e-10, f'{msg}: mean')
        ctx.close(b.numpy()/mag, flat.std(0)/mag, 0, 1e-7,
                  f'{msg}: deviation')


@sub('dataset', case, quick=250, thorough=8000)
def _dataset(c, ctx):
    r = rng(c['s'])
    nf = c['nf']
    ds, samples = dataset(r, c, ctx, nf, 1 + c['s'] % 3)
    ctx.nontrivial(nf > 1 and len(samples) > 1)
    lo, hi = bounds(r, c['bounds'])
    par = {'features_in': {'norm_minimum': lo, 'norm_maximum': hi}} \
        if c['kind'] == 'min-max' and c['bounds'] else {}
    flat = np.concatenate([s['features_in'].numpy() for s in samples])
    sc = fit_data_scaler_from_dataset(ds, 'features_in', nf,
                                      scaling_type=c['kind'],
                                      scaling_parameters=par)
    stats_close(ctx, c['kind'], sc, flat, 'data set fit')
    if c['kind'] == 'min-max':
        a, b = min_max_batch_fit(ds, 'features_in', nf)
        ctx.close(a, flat.min(0), 0, 0, 'batch fit minimum')
        ctx.close(b, flat.max(0), 0, 0, 'batch fit maximum')
    else:
        a, b = mean_std_batch_fit(ds, 'features_in', nf)
        mag = np.abs(flat).max(0) + 1e-300
        ctx.close(a.numpy()/mag, flat.mean(0)/mag, 0, 1e-10, 'batch mean')
        ctx.close(b.numpy()/mag, flat.std(0)/mag, 0, 1e-7, 'batch deviation')
    vr = varying(flat)
    x = samples[0]['features_in']
    t = sc.transform(x).numpy()
    amp = 1 + np.abs(flat).max(0)/np.where(vr, np.ptp(flat, 0), 1)
    ctx.close((t/amp)[:, vr],
              (expected(c['kind'], flat, x.numpy(), lo, hi)/amp)[:, vr],
              1e-6, 1e-6, 'scaled sample')
    for i, s in enumerate(samples):
        ctx.check(torch.equal(ds[i]['features_in'], s['features_in']),
                  'fitting modifies the data set')


@sub('model', case, quick=150, thorough=4000)
def _model(c, ctx):
    """Scalers attached to a model: fitting, setting, saving, reloading."""
    r = rng(c['s'])
    ni, no, kind = c['nf'], 1 + c['s'] % 3, c['kind']
    ds, samples = dataset(r, c, ctx, ni, no)
    d = ctx.scratch()
    ctx.nontrivial(ni > 1 and len(samples) > 1)
    model = GRURNNModel(ni, no, 2, d, is_model_in_normalized=True,
                        is_model_out_normalized=True)
    x, y = samples[0]['features_in'], samples[0]['features_out']
    try:
        mds.data_scaler_transform(model, x, 'features_in')
    except RuntimeError:
        pass
    else:
        ctx.check(False, 'scaling without fitted scalers is not refused')
    lo, hi = bounds(r, c['bounds'] and kind == 'min-max')
    par = {}
    if c['bounds'] and kind == 'min-max':
        par = {k: {'norm_minimum': lo, 'norm_maximum': hi}
               for k in ('features_in', 'features_out')}
    mds.fit_data_scalers(model, ds, scaling_type=kind, scaling_parameters=par)
    ref = {}
    for ft, z in (('features_in', x), ('features_out', y)):
        flat = np.concatenate([s[ft].numpy() for s in samples])
        stats_close(ctx, kind, mds.get_fitted_data_scaler(model, ft), flat,
                    ft)
        t = mds.data_scaler_transform(model, z, ft, mode='normalize')
        mag = np.abs(flat).max(0) + 1e-300
        vr = varying(flat)
        amp = 1 + mag/np.where(vr, np.ptp(flat, 0), 1)
        ctx.close((t.numpy()/amp)[:, vr], (expected(
            kind, flat, z.numpy(), lo, hi)/amp)[:, vr], 1e-6, 1e-6,
            f'{ft} normalised')
        b = mds.data_scaler_transform(model, t, ft, mode='denormalize')
        ctx.close(b.numpy()/mag, z.numpy()/mag, 0, 1e-9, f'{ft} round trip')
        t32 = mds.data_scaler_transform(model, z.float(), ft)
        ctx.check(t32.dtype == torch.float32, 'precision not kept')
        ref[ft] = (z, t)

    def agree(m, msg):
        for ft, (z, t) in ref.items():
            ctx.close(mds.data_scaler_transform(m, z, ft), t, 1e-12, 1e-12,
                      f'{msg}: {ft}')
            ctx.close(mds.data_scaler_transform(m, t, ft, 'denormalize'),
                      mds.data_scaler_transform(model, t, ft, 'denormalize'),
                      1e-12, 0, f'{msg}: {ft} back')
    # reloaded from the initialisation file
    agree(GRURNNModel.init_model_from_file(d), 'reloaded model')
    agree(GRURNNModel.init_model_from_file(model_init_file_path=os.path.join(
        d, 'model_init_file.pkl')), 'reloaded model (file)')
    other = GRURNNModel(ni, no, 3, d, is_model_in_normalized=True,
                        is_model_out_normalized=True,
                        is_save_model_init_file=False)
    mds.load_model_data_scalers_from_file(other)
    agree(other, 'scalers loaded from file')
    # transferred to another model, which stores them
    d2 = ctx.scratch()
    other = GRURNNModel(ni, no, 3, d2, is_model_in_normalized=True,
                        is_model_out_normalized=True)
    how = int(r.integers(2))
    if how == 0:
        mds.set_data_scalers(other, *[mds.get_fitted_data_scaler(model, f)
                                      for f in ('features_in',
                                                'features_out')])
    else:
        prm = {}
        for ft in ('features_in', 'features_out'):
            s = mds.get_fitted_data_scaler(model, ft)
            if kind == 'min-max':
                a, b = s.get_minimum_and_maximum()
                prm[ft] = {'minimum': a, 'maximum': b, 'norm_minimum': lo,
                           'norm_maximum': hi}
            else:
                a, b = s.get_mean_and_std()
                prm[ft] = {'mean': a, 'std': b}
        mds.set_fitted_data_scalers(other, kind, prm)
    agree(other, 'transferred scalers')
    agree(GRURNNModel.init_model_from_file(d2), 'transferred and reloaded')
    agree(model, 'original model after transfer')
