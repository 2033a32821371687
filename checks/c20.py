"""C20: losses, prediction procedures and prediction metrics."""
import contextlib
import io
import os
import pickle
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds
from c14 import real
from utilities.loss_functions import get_pytorch_loss
from utilities.prediction_metrics import compute_prediction_metrics
from utilities import output_prediction_metrics as OM
from model_architectures.procedures.model_prediction import (
    make_predictions_subdir, save_sample_predictions,
    load_sample_predictions)
from model_architectures.procedures.model_data_scaling import \
    set_fitted_data_scalers
from model_architectures.procedures.model_state_files import save_model_state
from model_architectures.materials import process_predictions as PP
from time_series_data.time_dataset import (TimeSeriesDatasetInMemory,
                                           save_dataset)

PROPERTY = 'C20'
RULE = ('Random prediction/target pairs (zero, tiny, negative and equal '
        'entries), sample sets of 1-13 samples in directories with other '
        'files, models with and without normalised features, batch sizes; '
        'non-trivial if several samples or features.')


# -------------------------------------------------------------------- losses
@st.composite
def lcase(draw):
    return {'shape': draw(st.lists(st.integers(1, 5), min_size=0,
                                   max_size=3)),
            'kind': draw(st.sampled_from(['mse', 'mre'])),
            'zero': draw(st.sampled_from([None, 'absolute', 'clip',
                                          'regularizer'])),
            'small': draw(st.sampled_from([None, 1e-5, 1e-2, 0.5])),
            'red': draw(st.sampled_from([None, 'sum', 'mean'])),
            'pz': draw(st.sampled_from([0.0, 0.3, 1.0])),
            'pt': draw(st.sampled_from([0.0, 0.3])),
            'pe': draw(st.sampled_from([0.0, 0.3, 1.0])), 's': draw(seeds())}


@sub('loss', lcase, quick=1500, thorough=40000)
def _(c, ctx):
    r = rng(c['s'])
    shape = tuple(c['shape'])
    small = 1e-5 if c['small'] is None else c['small']
    y = np.asarray(r.normal(size=shape)*10.0**r.integers(-2, 3))
    y = np.where(r.random(shape) < c['pz'], 0.0, y)
    y = np.where(r.random(shape) < c['pt'], small*r.uniform(
        -0.9, 0.9, size=shape), y)
    x = np.where(r.random(shape) < c['pe'], y, y + r.normal(size=shape))
    # Keep off the threshold itself
    y = np.where(np.abs(np.abs(y) - small) < 1e-9, 0.0, y)
    kw = {}
    if c['kind'] == 'mse':
        if c['red']:
            kw['reduction'] = c['red']
        e = (x - y)**2
        want = e.sum() if c['red'] == 'sum' else e.mean()
        g = 2*(x - y)/(1 if c['red'] == 'sum' else e.size)
    else:
        if c['zero']:
            kw['zero_handling'] = c['zero']
        if c['small'] is not None:
            kw['small'] = small
        a = np.abs(y)
        den = {'absolute': np.where(a < small, 1.0, a), None: np.where(
            a < small, 1.0, a), 'clip': np.maximum(a, small),
            'regularizer': a + small}[c['zero']]
        want = (np.abs(x - y)/den).mean()
        g = np.sign(x - y)/den/np.asarray(x).size
    f = get_pytorch_loss(c['kind'], **kw)
    tx = torch.tensor(x, requires_grad=True)
    ty = torch.tensor(y)
    out = f(tx, ty)
    ctx.check(out.dim() == 0, 'loss is not a scalar')
    ctx.close(out, want, 1e-12, 1e-300, 'loss')
    out.backward()
    ctx.check(bool(torch.isfinite(tx.grad).all()), 'gradient not finite')
    ctx.close(tx.grad, g, 1e-12, 1e-300, 'gradient')
    ctx.close(f(ty, ty), 0.0, 0, 0, 'loss of a perfect prediction')
    if tx.numel() > 1:
        p = torch.tensor(r.permutation(tx.numel()))
        ctx.close(f(tx.detach().reshape(-1)[p], ty.reshape(-1)[p]), want,
                  1e-12, 1e-300, 'order of entries')
    ctx.nontrivial(tx.numel() > 1 and bool(np.any(x != y)))
    if c['s'] % 5 == 0:
        for bad in (('xyz', {}), ('mre', {'zero_handling': 'none'})):
            try:
                get_pytorch_loss(bad[0], **bad[1])
                ctx.check(False, 'unknown loss accepted')
            except RuntimeError:
                pass


# ------------------------------------------------------------------- metrics
@st.composite
def mcase(draw):
    ids = draw(st.lists(st.integers(0, 120), min_size=1, max_size=13,
                        unique=True))
    return {'ids': ids, 'f': draw(st.integers(1, 6)),
            'perfect': draw(st.sampled_from([0.0, 0.0, 0.4])),
            'zero': draw(st.sampled_from([0.0, 0.0, 0.2])),
            'm': draw(st.lists(st.sampled_from(['rmse', 'nrmse']),
                               min_size=1, max_size=2, unique=True)),
            'label': draw(st.sampled_from(['', 'n10', 'gru test'])),
            's': draw(seeds())}


def write_set(c, d, r):
    data = {}
    for i in c['ids']:
        t = int(r.integers(1, 9))
        y = r.normal(size=(t, c['f']))*10.0**r.integers(-3, 4, size=c['f'])
        y[:, r.random(c['f']) < c['zero']] = 0.0
        x = y + r.normal(size=y.shape)
        m = r.random(c['f']) < c['perfect']
        x[:, m] = y[:, m]
        data[i] = (x, y)
        save_sample_predictions(d, i, {
            'features_out': torch.tensor(x), 'targets': torch.tensor(y),
            'prediction_loss_data': ('features_out', 'mse', None, False)})
    for k in ('summary.dat', 'prediction_sample_x.pkl',
              'prediction_sample_3.pkl.bak', 'old_prediction_sample_4.pkl'):
        with open(os.path.join(d, k), 'w') as f:
            f.write('x')
    return data


def ref(x, y):
    mse = ((x - y)**2).mean(0)
    return {'mse': mse, 'rmse': np.sqrt(mse), 'mav': np.abs(x).mean(0),
            'mav_gt': np.abs(y).mean(0)}


def mean_ref(data, m):
    rows = []
    for x, y in data.values():
        k = ref(x, y)
        with np.errstate(all='ignore'):
            rows.append(k['rmse'] if m == 'rmse' else k['rmse']/k['mav_gt'])
    return np.mean(rows, axis=0)


def same(ctx, a, b, msg, rtol=1e-10):
    a, b = to_np(a), np.asarray(b)
    ctx.check(a.shape == b.shape, f'{msg}: shape {a.shape} {b.shape}')
    ok = np.isfinite(b)
    ctx.check(np.array_equal(np.isnan(a), np.isnan(b)) and np.array_equal(
        a[np.isinf(b)], b[np.isinf(b)]), f'{msg}: {a} instead of {b}')
    ctx.close(a[ok], b[ok], rtol, 1e-300, msg)


@sub('metrics', mcase, quick=300, thorough=6000, shards=2)
def _(c, ctx):
    r = rng(c['s'])
    d = ctx.scratch()
    data = write_set(c, d, r)
    names = ['mse', 'rmse', 'mav', 'mav_gt']
    pick = [names[i] for i in r.permutation(4)[:int(r.integers(1, 5))]]
    for i, (x, y) in data.items():
        p = os.path.join(d, f'prediction_sample_{i}.pkl')
        got = compute_prediction_metrics(p, pick)
        ctx.check(set(got) == set(pick), 'metrics')
        for k in pick:
            same(ctx, got[k], ref(x, y)[k], f'sample {i}: {k}')
            if k in ('mse', 'rmse'):
                z = np.all(x == y, axis=0)
                ctx.check(np.array_equal(to_np(got[k]) == 0, z),
                          f'{k} of a perfect prediction')
        s = load_sample_predictions(p)
        ctx.check(torch.equal(s['features_out'], torch.tensor(x))
                  and torch.equal(s['targets'], torch.tensor(y)),
                  'stored prediction')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        n, mean = OM.compute_directory_prediction_metrics(
            d, c['m'], process_label=c['label'], is_save_file=True,
            is_display_results=bool(r.random() < 0.3))
    ctx.check(n == len(data), f'number of samples {n}')
    ctx.check(set(mean) == set(c['m']), 'mean metrics')
    for m in c['m']:
        same(ctx, mean[m], mean_ref(data, m), f'mean {m}')
    f = os.path.join(d, 'prediction_metrics', 'mean_prediction_metrics.dat')
    back = OM.read_mean_metrics_results_file(f)
    ctx.check(set(back) == set(mean), 'metrics of the file')
    for m in mean:
        same(ctx, back[m], to_np(mean[m]), f'{m} of the file', 1e-7)
    # Order of the files is irrelevant
    paths = [os.path.join(d, f'prediction_sample_{i}.pkl') for i in data]
    for m, v in OM.compute_mean_prediction_metrics(
            [paths[i] for i in r.permutation(len(paths))], c['m']).items():
        same(ctx, v, to_np(mean[m]), f'order of samples: {m}')
    # No ground truth
    for t in ('none', 'missing'):
        q = {'features_out': torch.ones((2, c['f']))}
        if t == 'none':
            q['targets'] = None
        save_sample_predictions(d, 999, q)
        try:
            compute_prediction_metrics(os.path.join(
                d, 'prediction_sample_999.pkl'), ['mse'])
            ctx.check(False, 'metric without ground truth')
        except RuntimeError:
            pass
    ctx.nontrivial(len(data) > 1 and c['f'] > 1)


@sub('processes', lambda: st.fixed_dictionaries({
    'sets': st.lists(mcase(), min_size=1, max_size=4, unique_by=lambda c: len(
        c['ids'])), 'm': st.just(['rmse', 'nrmse']), 's': seeds(),
    'other': st.booleans(),
    'n': st.lists(st.integers(1, 3000), min_size=4, max_size=4,
                  unique=True)}), quick=100, thorough=2000, shards=2)
def _(c, ctx):
    """Several prediction processes in one file and one convergence table."""
    r = rng(c['s'])
    top = ctx.scratch()
    dirs, data = {}, {}
    f = c['sets'][0]['f']
    for q, n in zip(c['sets'], c['n']):
        d = os.path.join(top, f'n{n}_dir')
        os.mkdir(d)
        dirs[f'n{n}'] = d
        data[f'n{n}'] = write_set(dict(q, f=f, zero=0.0), d, r)
    save = os.path.join(top, 'save')
    os.mkdir(save)
    with contextlib.redirect_stdout(io.StringIO()):
        res = OM.compute_processes_prediction_metrics(
            dirs, c['m'], save_dir=save, is_save_file=True,
            is_display_results=True)
    ctx.check(set(res) == set(dirs), 'processes')
    path = os.path.join(save, 'mean_prediction_metrics.dat')
    for k, d in data.items():
        ctx.check(res[k]['n_sample'] == len(d), 'samples of a process')
        got = OM.read_mean_metrics_results_file(path, n_sample=len(d))
        ctx.check(set(got) == set(c['m']), 'metrics of the file')
        for m in c['m']:
            same(ctx, res[k]['mean_metrics_results'][m], mean_ref(d, m),
                 f'{k}: mean {m}')
            same(ctx, got[m], mean_ref(d, m), f'{k}: {m} of the file', 1e-7)
    first = OM.read_mean_metrics_results_file(path)
    k = list(dirs)[0]
    for m in c['m']:
        same(ctx, first[m], mean_ref(data[k], m), f'first {m}', 1e-7)
    if c['other']:
        res = dict(res, other=res[k])
    OM.plot_prediction_metrics_convergence(
        res, c['m'], save_dir=save, is_save_plot_data=True)
    size = sorted(int(x[1:]) for x in dirs)
    for m in c['m']:
        with open(os.path.join(save, 'plot_data',
                               f'mean_{m}_convergence_data.pkl'), 'rb') as h:
            a = pickle.load(h)['data_xy']
        ctx.check(a.shape == (len(size), 2*f), 'convergence table')
        for i in range(f):
            ctx.close(a[:, 2*i], size, 0, 0, 'training sizes')
            ctx.close(a[:, 2*i + 1], [mean_ref(data[f'n{n}'], m)[i]
                                      for n in size], 1e-6, 1e-300,
                      f'convergence of {m}')
    ctx.nontrivial(len(dirs) > 1)


# ---------------------------------------------------------------- data arrays
@sub('arrays', mcase, quick=200, thorough=4000, shards=2)
def _(c, ctx):
    r = rng(c['s'])
    top = ctx.scratch()
    kind = ['stress_comps', 'p_strain_comps', 'acc_p_strain'][
        int(r.integers(3))]
    nf = c['f'] + int(r.integers(1, 3))
    ns = max(c['ids']) + 1 if max(c['ids']) < 30 else len(c['ids'])
    ids = [i if max(c['ids']) < 30 else k for k, i in enumerate(c['ids'])]
    length = [int(r.integers(1, 7)) for _ in range(ns)]
    time = [np.sort(r.normal(size=(t, 1)), 0) for t in length]
    ds = TimeSeriesDatasetInMemory([{'time_hist': torch.tensor(t)}
                                    for t in time])
    base = os.path.join(top, 'base')
    os.makedirs(os.path.join(base, '5_testing_dataset'))
    file = save_dataset(ds, 'ds', os.path.join(base, '5_testing_dataset'))
    models = [''] if r.random() < 0.4 else [f'model_{i}' for i in r.choice(
        30, size=int(r.integers(1, 5)), replace=False)]
    out = {}
    y = {i: r.normal(size=(length[i], nf)) for i in ids}
    for m in models:
        d = (os.path.join(base, '7_prediction', 'in', 'set') if m == '' else
             os.path.join(base, 'uncertainty_quantification', m,
                          '7_prediction', 'in'))
        os.makedirs(d)
        for i in ids:
            out[m, i] = r.normal(size=(length[i], nf))
            save_sample_predictions(d, i, {
                'features_out': torch.tensor(out[m, i]),
                'targets': torch.tensor(y[i]),
                'stress_comps_order': ('11',)*c['f']})
    pdir = os.path.join(base, '7_prediction', 'in', 'set')
    os.makedirs(pdir, exist_ok=True)
    labels = tuple(f'l{i}' for i in range(c['f']))
    want = ('all' if r.random() < 0.5 else
            [int(i) for i in r.permutation(ids)[:int(r.integers(
                1, len(ids) + 1))]])
    pick = ids if want == 'all' else want
    cols = [c['f']] if kind == 'acc_p_strain' else list(range(c['f']))
    got = PP.build_time_series_predictions_data(
        file, pdir, kind, labels, samples_ids=want,
        is_uncertainty_quantification=models != [''])
    ctx.check(len(got) == len(cols), 'number of components')
    order = sorted(models, key=lambda m: int(m.split('_')[1]) if m else 0)
    for k, a in zip(cols, got):
        ctx.check(set(a) == {str(i) for i in pick}, 'samples')
        for i in pick:
            ref_ = np.column_stack([time[i], y[i][:, k]] + [
                out[m, i][:, k] for m in order])
            ctx.check(a[str(i)].shape == ref_.shape, 'columns')
            ctx.close(a[str(i)], ref_, 0, 0, f'sample {i}')
    if models == ['']:
        got = PP.build_prediction_data_arrays(pdir, kind, labels,
                                              samples_ids=want)
        ctx.check(len(got) == len(cols), 'number of arrays')
        for k, a in zip(cols, got):
            b = np.concatenate([np.column_stack(
                [y[i][:, k], out['', i][:, k]]) for i in pick])
            ctx.check(a.shape == b.shape, 'collated points')
            if want == 'all':
                a, b = a[np.lexsort(a.T)], b[np.lexsort(b.T)]
            ctx.close(a, b, 0, 0, 'collated data')
        try:
            PP.build_prediction_data_arrays(pdir, kind, labels,
                                            samples_ids=[ns + 5])
            ctx.check(False, 'unknown sample accepted')
        except RuntimeError:
            pass
    ctx.nontrivial(len(pick) > 1)


# ----------------------------------------------------------------- prediction
@st.composite
def pcase(draw):
    k = draw(st.sampled_from(['gru', 'gru', 'hybrid', 'rc']))
    return {'k': k, 'nin': draw(st.booleans()), 'nout': draw(st.booleans()),
            'pnorm': draw(st.booleans()), 'n': draw(st.integers(1, 6)),
            'b': draw(st.integers(1, 7)), 'sc': draw(st.sampled_from(
                ['mean-std', 'min-max'])), 'gt': draw(st.sampled_from(
                    ['all', 'all', 'all', 'none'])),
            'loss': draw(st.sampled_from(['mse', 'mre', 'clip'])),
            'nl': draw(st.booleans()), 'dir': draw(st.sampled_from(
                [True, True, True, False])), 'seed': draw(st.booleans()),
            'load': draw(st.booleans()), 't': draw(st.integers(2, 5)),
            'pre': draw(st.integers(0, 3)), 's': draw(seeds())}


@sub('predict', pcase, quick=220, thorough=4000, shards=4)
def _(c, ctx):
    r = rng(c['s'])
    d = ctx.scratch()
    torch.manual_seed(c['s'] % 2**31)
    m, cls, pred = real(c, r, d)
    q = 3
    aff = {}
    par = {}
    for k in ('features_in', 'features_out'):
        if c['sc'] == 'mean-std':
            mu, sd = r.normal(size=q), r.uniform(0.1, 5, size=q)
            par[k] = {'mean': torch.tensor(mu), 'std': torch.tensor(sd)}
            aff[k] = (mu, sd)
        else:
            lo = r.normal(size=q)
            hi = lo + r.uniform(0.5, 3, size=q)
            a, b = -1.0, float(r.choice([1.0, 2.0]))
            par[k] = {'minimum': torch.tensor(lo), 'maximum': torch.tensor(
                hi), 'norm_minimum': a, 'norm_maximum': b}
            w = (hi - lo)/(b - a)
            aff[k] = (lo - a*w, w)

    def norm(x, k):
        return (x - aff[k][0])/aff[k][1]
    nin = c['nin'] and c['k'] == 'gru'
    nout = c['nout'] and c['k'] != 'rc'
    if nin or nout:
        set_fitted_data_scalers(m, c['sc'], par)
    nl = c['nl'] and (nin or nout)
    xs = [np.cumsum(r.standard_normal((c['t'], q))*0.02, 0)
          for _ in range(c['n'])]
    ys = [r.normal(size=(c['t'], q)) for _ in range(c['n'])]
    rows = [{'features_in': torch.tensor(x)} for x in xs]
    if c['gt'] == 'all':
        for a, y in zip(rows, ys):
            a['features_out'] = torch.tensor(y)
    ds = TimeSeriesDatasetInMemory(rows)
    # Reference: the model applied to one sample at a time
    want = []
    m.eval()
    with torch.no_grad():
        for x in xs:
            v = torch.tensor(norm(x, 'features_in') if nin else x)[:, None]
            o = m(v)
            o = to_np(o[0] if isinstance(o, tuple) else o)[:, 0]
            if nout:
                o = o*aff['features_out'][1] + aff['features_out'][0]
            want.append(o)
    kw = {'loss_type': 'mse'}
    if c['loss'] != 'mse':
        kw = {'loss_type': 'mre', 'loss_kwargs': {
            'zero_handling': 'clip' if c['loss'] == 'clip' else 'absolute',
            'small': 1e-3}}
    ref_loss = []
    for o, y in zip(want, ys):
        if nl:
            o, y = norm(o, 'features_out'), norm(y, 'features_out')
        if c['loss'] == 'mse':
            ref_loss.append(((o - y)**2).mean())
        else:
            den = np.abs(y)
            den = (np.maximum(den, 1e-3) if c['loss'] == 'clip' else
                   np.where(den < 1e-3, 1.0, den))
            ref_loss.append((np.abs(o - y)/den).mean())
    out = os.path.join(d, 'pred')
    os.mkdir(out)
    for i in range(c['pre']):
        os.mkdir(os.path.join(out, f'prediction_set_{i}'))
    arg = None if c['load'] else m
    if c['load']:
        save_model_state(m, 'default')
    before = sorted(os.listdir(d))
    sd, loss = pred.predict(
        ds, d, model=arg, predict_directory=out if c['dir'] else None,
        is_normalized_loss=nl, batch_size=c['b'],
        seed=7 if c['seed'] else None, **kw)
    ctx.check(sorted(os.listdir(d)) == before, 'files of the model')
    if c['gt'] == 'all':
        ctx.close(loss, np.mean(ref_loss), 1e-8, 1e-300, 'average loss')
    else:
        ctx.check(loss is None, 'loss without ground truth')
    if c['dir']:
        ctx.check(sd == os.path.join(out, f'prediction_set_{c["pre"]}'),
                  f'predictions directory {sd}')
        files = sorted(f for f in os.listdir(sd) if f.endswith('.pkl'))
        ctx.check(files == sorted(f'prediction_sample_{i}.pkl'
                                  for i in range(c['n'])), f'files {files}')
        for i in range(c['n']):
            s = load_sample_predictions(os.path.join(
                sd, f'prediction_sample_{i}.pkl'))
            ctx.close(s['features_out'], want[i], 1e-8, 1e-9,
                      f'prediction of sample {i}')
            if c['gt'] == 'all':
                ctx.close(s['targets'], ys[i], 1e-12, 0,
                          f'ground truth of sample {i}')
                a = s['prediction_loss_data']
                ctx.check(a[1] == kw['loss_type'] and a[3] == nl, 'loss type')
                ctx.close(a[2], ref_loss[i], 1e-8, 1e-300,
                          f'loss of sample {i}')
            else:
                ctx.check(s['targets'] is None
                          and s['prediction_loss_data'][2] is None,
                          'loss without ground truth')
    else:
        ctx.check(sd is None and len(os.listdir(out)) == c['pre'],
                  'predictions saved although not requested')
    # Data set untouched
    for i in range(c['n']):
        ctx.check(torch.equal(ds[i]['features_in'], torch.tensor(xs[i])),
                  'data set modified')
    ctx.nontrivial(c['n'] > 1)
    ctx.label(c['k'])
