"""C14: model checkpoints."""
import os
import shutil
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds
import materials as M
from model_architectures.procedures.model_state_files import (
    save_model_state, load_model_state)
from model_architectures.procedures.model_training import save_training_state
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel
from model_architectures.hybrid_base_model.model.hybrid_model import \
    HybridModel
from model_architectures.hybrid_base_model.model.hybridized_model import \
    set_hybridized_model
from model_architectures.procedures.model_data_scaling import \
    fit_data_scalers
from model_architectures.procedures.model_prediction import \
    load_sample_predictions
import model_architectures.rnn_base_model.predict.prediction as P_rnn
import model_architectures.rc_base_model.predict.prediction as P_rc
import model_architectures.hybrid_base_model.predict.prediction as P_hyb
from time_series_data.time_dataset import TimeSeriesDatasetInMemory

PROPERTY = 'C14'
RULE = ('Random histories of 1-10 saves and loads of every kind (initial, '
        'epoch, best with and without epoch, last, default; with and without '
        'removal of posterior epochs) of models with plain and unusual names '
        'next to other models and files; checkpoints of trained-like '
        'network, constitutive and hybrid models; non-trivial if at least '
        'three operations, or two checkpoints.')


class Net(torch.nn.Module):
    def __init__(self, d, name):
        super().__init__()
        self.model_directory, self.model_name = d, name
        self.w = torch.nn.Parameter(torch.zeros(3))
        self.l = torch.nn.Linear(2, 2)
        self.register_buffer('b', torch.zeros(2))

    def set(self, v):
        r = rng(v)
        with torch.no_grad():
            for p in list(self.parameters()) + [self.b]:
                p.copy_(torch.tensor(r.standard_normal(p.shape)))

    def vec(self):
        return np.concatenate([to_np(p).ravel()
                               for p in list(self.parameters()) + [self.b]])


def value(v):
    n = Net('', '')
    n.set(v)
    return n.vec()


NAMES = ['model', 'gru.v1', 'a+b', 'm(1)', 'net-b', 'm', 'x_2', 'best',
         'gru[0]', 'net 1']


def neighbours(name):
    """Other models of the same directory, with confusable names."""
    out = [name + '2', 'x' + name, name + 'x', name + '_b',
           name.replace('.', 'z').replace('+', '')]
    return [n for n in dict.fromkeys(out) if n != name]


@st.composite
def case(draw, training=False):
    ep = st.one_of(st.integers(0, 12), st.sampled_from(
        [99, 100, 999, 1000, 12345]))
    save = st.fixed_dictionaries({
        'op': st.just('save'), 't': st.sampled_from(
            ['epoch', 'epoch', 'epoch', 'best', 'best', 'init', 'default']),
        'e': ep, 'none': st.sampled_from([False, False, False, True]),
        'rm': st.sampled_from([True, True, False]), 'v': st.integers(
            1, 10**6)})
    load = st.fixed_dictionaries({
        'op': st.just('load'), 't': st.sampled_from(
            ['epoch', 'best', 'last', 'init', 'default']),
        'e': ep, 'rm': st.booleans()})
    ops = draw(st.lists(save if training else st.one_of(save, save, load),
                        min_size=1, max_size=10))
    return {'name': draw(st.sampled_from(NAMES)), 'ops': ops,
            's': draw(seeds())}


def others(d, name):
    """Files of other models and other files, and their content."""
    for i, n in enumerate(neighbours(name)):
        m = Net(d, n)
        m.set(1000 + i)
        save_model_state(m, 'init')
        for e in (0, 5, 20):
            save_model_state(m, 'epoch', e, is_remove_posterior=False)
        save_model_state(m, 'best', 11)
        save_model_state(m, 'default')
    for f in (f'{name}-7.pt.bak', f'{name}-9-best.pt.old', 'notes.txt',
              f'{name}-31.csv', f'old-{name}-14.pt', f'{name}-init.pt~'):
        with open(os.path.join(d, f), 'w') as fh:
            fh.write(f)
    return snapshot(d)


def snapshot(d):
    out = {}
    for f in sorted(os.listdir(d)):
        with open(os.path.join(d, f), 'rb') as fh:
            out[f] = fh.read()
    return out


def apply(files, op):
    """Model of a save; files maps 'init', 'default', 'best' and epochs."""
    t, e = op['t'], (None if op['none'] else op['e'])
    if t == 'init':
        files['init'] = (op['v'], 0)
    elif t == 'best':
        files['best'] = (op['v'], e)
    elif e is None:
        files['default'] = (op['v'], None)
    else:
        files[e] = (op['v'], e)
    if e is not None and op['rm']:
        prune(files, e)


def prune(files, e):
    for k in [k for k in files if isinstance(k, int) and k > e]:
        del files[k]


def last(files):
    ks = [k for k in files if isinstance(k, int)]
    return max(ks) if ks else 'nothing'


def verify(ctx, d, name, files, when):
    for k in ['init', 'default', 'best', 'last'] + list(range(14)):
        m = Net(d, name)
        m.set(77)
        key = last(files) if k == 'last' else k
        try:
            e = load_model_state(m, k, is_remove_posterior=False)
        except RuntimeError:
            ctx.check(key not in files, f'{when}: checkpoint {k!r} is lost')
            continue
        ctx.check(key in files, f'{when}: checkpoint {k!r} was never saved '
                  f'or was superseded, yet it is loaded')
        v, ep = files[key]
        ctx.check(np.array_equal(m.vec(), value(v)),
                  f'{when}: checkpoint {k!r} loads other parameters')
        ctx.check(e == ep, f'{when}: checkpoint {k!r} reports epoch {e}, '
                  f'saved at {ep}')


@sub('history', case, quick=400, thorough=12000, shards=3)
def _history(c, ctx):
    d = ctx.scratch()
    name = c['name']
    fixed = others(d, name)
    files = {}
    ctx.nontrivial(len(c['ops']) > 2)
    for i, op in enumerate(c['ops']):
        m = Net(d, name)
        when = f'after operation {i} ({op["op"]} {op["t"]})'
        if op['op'] == 'save':
            m.set(op['v'])
            e = None if op['none'] else op['e']
            save_model_state(m, op['t'], e, is_remove_posterior=op['rm'])
            ctx.check(np.array_equal(m.vec(), value(op['v'])),
                      'saving changed the model')
            apply(files, op)
        else:
            m.set(77)
            k = op['e'] if op['t'] == 'epoch' else op['t']
            key = last(files) if k == 'last' else k
            try:
                e = load_model_state(m, k, is_remove_posterior=op['rm'])
            except RuntimeError:
                ctx.check(key not in files, f'checkpoint {k!r} not found')
                ctx.check(np.array_equal(m.vec(), value(77)),
                          'a failed load changed the model')
            else:
                ctx.check(key in files, f'{k!r} loaded but never saved')
                v, ep = files[key]
                ctx.check(np.array_equal(m.vec(), value(v)) and e == ep,
                          f'loading {k!r}: parameters or epoch {e} (saved '
                          f'at {ep})')
                if e is not None and op['rm']:
                    prune(files, e)
        verify(ctx, d, name, files, when)
    now = snapshot(d)
    for f, b in fixed.items():
        ctx.check(now.get(f) == b, f'file {f} of another model or kind was '
                  f'changed or removed')


@sub('training_state', lambda: case(training=True), quick=150,
     thorough=4000)
def _training(c, ctx):
    """Model and optimizer states saved together."""
    d = ctx.scratch()
    name = c['name']
    fixed = others(d, name)
    fixed2 = {}
    m2 = Net(d, name + '2')
    o2 = torch.optim.Adam(m2.parameters(), lr=0.5)
    for t, e in (('epoch', 30), ('best', 31)):
        save_training_state(m2, o2, t, e, is_remove_posterior=False)
    fixed2 = snapshot(d)
    files, loose = {}, set()
    ctx.nontrivial(len(c['ops']) > 2)
    for i, op in enumerate(c['ops']):
        m = Net(d, name)
        m.set(op['v'])
        e = None if op['none'] else op['e']
        opt = torch.optim.Adam(m.parameters(), lr=1e-3*op['v'])
        m.l.weight.grad = torch.full((2, 2), float(op['v']))
        opt.step()
        m.set(op['v'])
        save_training_state(m, opt, op['t'], e, is_remove_posterior=op['rm'])
        old = set(files)
        apply(files, op)
        # Saving an initial state says nothing on later optimizer states
        loose = (loose | (old - set(files))) if op['t'] == 'init' else (
            {k for k in loose if not (e is not None and op['rm'] and k > e)})
        loose -= set(files)
        verify(ctx, d, name, files, f'after operation {i}')
    pre = name + '_optim'
    have = {f for f in os.listdir(d) if f.startswith(pre)}
    want = {pre + ('' if e is None else f'-{e}') + (
        '-best' if k == 'best' else '') + '.pt'
        for k, (v, e) in files.items() if k != 'init'}
    ctx.check(want <= have and not have - want - {
        f'{pre}-{k}.pt' for k in loose}, f'optimizer states {sorted(have)}, '
        f'saved and not discarded {sorted(want)}')
    for k, (v, e) in files.items():
        if k == 'init':
            continue
        f = name + '_optim' + ('' if e is None else f'-{e}') + (
            '-best' if k == 'best' else '') + '.pt'
        f = os.path.join(d, f)
        ctx.check(os.path.isfile(f), f'optimizer state of {k!r} is missing')
        s = torch.load(f)
        ctx.check(s['epoch'] == e, f'optimizer state of {k!r}: epoch')
        ctx.close(s['state']['param_groups'][0]['lr'], 1e-3*v, 1e-12, 0,
                  f'optimizer state of {k!r}: learning rate')
    now = snapshot(d)
    for f, b in fixed2.items():
        ctx.check(now.get(f) == b, f'file {f} of another model or kind was '
                  f'changed or removed')


# ---- real models ----------------------------------------------------------
@st.composite
def rcase(draw):
    return {'k': draw(st.sampled_from(['gru', 'rc', 'hybrid'])),
            'nin': draw(st.booleans()), 'nout': draw(st.booleans()),
            's': draw(seeds()), 'n': draw(st.integers(1, 3)),
            'kinds': draw(st.lists(st.sampled_from(
                ['epoch', 'best', 'init', 'default']), min_size=1,
                max_size=4, unique=True)),
            'pnorm': draw(st.booleans())}


def real(c, r, d):
    q = 3
    if c['k'] == 'rc':
        mat = {'m': 'vm', 'E': 1000.0, 'v': 0.3, 'hard': {
            'k': 'linear', 's0': 5.0, 'a': 50.0}}
        return RecurrentConstitutiveModel(
            q, q, {'E': {'initial_value': 900.0, 'bounds': (500.0, 1500.0)},
                   's0': {'initial_value': 4.0, 'bounds': (2.0, 8.0)}},
            'infinitesimal', 1, 'von_mises', M.parameters(mat), d,
            model_name='model', is_normalized_parameters=c['pnorm'],
            is_model_in_normalized=False,
            is_model_out_normalized=False), RecurrentConstitutiveModel, P_rc
    if c['k'] == 'gru':
        source = ['torch', 'custom'][int(r.integers(2))]
        layers = int(r.integers(1, 4))
        return GRURNNModel(q, q, int(r.integers(1, 5)), d,
                           model_name='model', is_model_in_normalized=c[
                               'nin'], is_model_out_normalized=c['nout'],
                           n_recurrent_layers=layers,
                           dropout=0.5 if source == 'torch' and layers > 1
                           else 0, gru_model_source=source), \
            GRURNNModel, P_rnn
    cols = [int(i) for i in sorted(r.choice(4, 2, replace=False))]
    models = {}
    for i, (res, n) in enumerate(((False, q), (bool(r.random() < 0.5), q))):
        models[f'g{i}'] = set_hybridized_model(
            GRURNNModel, (0, cols[i]), model_init_args=dict(
                n_features_in=2*n if res else n, n_features_out=q,
                hidden_layer_size=2, model_directory=None, model_name='g'),
            is_input_residual=res)
    return HybridModel(q, q, models, d, model_name='model',
                       hybridization_type='identity',
                       is_model_out_normalized=c['nout']), HybridModel, P_hyb


@sub('rebuilt', rcase, quick=120, thorough=2500, shards=2)
def _rebuilt(c, ctx):
    """Predictions from a checkpoint are those when it was saved."""
    r = rng(c['s'])
    d = ctx.scratch()
    m, cls, pred = real(c, r, d)
    ns = c['n']
    t = int(r.integers(2, 5))
    ds = TimeSeriesDatasetInMemory([
        {'features_in': torch.tensor(np.cumsum(
            r.standard_normal((t, 3))*0.01, 0)),
         'features_out': torch.tensor(r.standard_normal((t, 3)))}
        for _ in range(ns)])
    if (c['k'] == 'gru' and (c['nin'] or c['nout'])) or (
            c['k'] == 'hybrid' and c['nout']):
        fit_data_scalers(m, ds)
    ctx.nontrivial(len(c['kinds']) > 1)
    ctx.label(c['k'])

    def vary():
        with torch.no_grad():
            for p in m.parameters():
                p.mul_(torch.tensor(r.uniform(0.8, 1.2, p.shape)))

    def outputs(directory):
        return [to_np(load_sample_predictions(os.path.join(
            directory, f'prediction_sample_{i}.pkl'))['features_out'])
            for i in range(ns)]
    out = os.path.join(d, 'predictions')
    os.mkdir(out)
    saved = []
    for k in c['kinds']:
        vary()
        if k in ('epoch', 'best'):
            save_model_state(m, k, 4)
        else:
            save_model_state(m, k)
        sd, loss = pred.predict(ds, d, model=m, predict_directory=out)
        saved.append((4 if k == 'epoch' else k, outputs(sd), loss))
    vary()
    before = sorted(os.listdir(d))
    for k, want, loss in saved:
        sd, got = pred.predict(ds, d, predict_directory=out,
                               model_load_state=None if k == 'default'
                               else k, batch_size=int(r.integers(1, 4)))
        ctx.close(got, loss, 1e-10, 1e-300, f'loss from checkpoint {k!r}')
        for a, b in zip(outputs(sd), want):
            ctx.close(a, b, 1e-10, 1e-12, f'prediction from checkpoint '
                      f'{k!r}')
        n = cls.init_model_from_file(d)
        load_model_state(n, k, is_remove_posterior=False)
        sd, got = pred.predict(ds, d, model=n, predict_directory=out)
        for a, b in zip(outputs(sd), want):
            ctx.close(a, b, 1e-12, 1e-14, f'prediction of the model rebuilt '
                      f'from checkpoint {k!r}')
    if c['k'] == 'gru':
        # Training goes on with the same model
        x = torch.tensor(r.standard_normal((4, 2, 3)))
        load_model_state(m, k, is_remove_posterior=False)
        res = []
        for q in (m, n):
            q.train()
            torch.manual_seed(7)
            y = q(x)
            res.append(to_np((y[0] if isinstance(y, tuple) else y).detach()))
        ctx.close(res[1], res[0], 1e-10, 1e-12, 'rebuilt model in training')
    ctx.check(sorted(os.listdir(d)) == before, 'prediction changed the '
              'files of the model')
    # The directory is copied, the original goes on changing
    e = os.path.join(ctx.scratch(), 'copied')
    shutil.copytree(d, e)
    vary()
    for k in c['kinds']:
        save_model_state(m, k, *([4] if k in ('epoch', 'best') else []))
    f = os.path.join(e, 'model_init_file.pkl')
    for k, want, loss in saved:
        for kw in ({'model_directory': e}, {'model_init_file_path': f}, {
                'model_directory': e,
                'model_init_file_path': os.path.join(d, 'nothing.pkl')}):
            n = cls.init_model_from_file(**kw)
            ctx.check(os.path.samefile(n.model_directory, e),
                      f'directory of the rebuilt model: '
                      f'{n.model_directory}')
            load_model_state(n, k, is_remove_posterior=False)
            sd, got = pred.predict(ds, e, model=n, predict_directory=out)
            for a, b in zip(outputs(sd), want):
                ctx.close(a, b, 1e-12, 1e-14, 'prediction of the copied '
                          f'model, checkpoint {k!r}')
    for kw in ({}, {'model_directory': os.path.join(e, 'no')},
               {'model_directory': out},
               {'model_init_file_path': os.path.join(e, 'no.pkl')}):
        try:
            cls.init_model_from_file(**kw)
        except Exception:
            continue
        ctx.check(False, f'model rebuilt from {list(kw)} without a file')
