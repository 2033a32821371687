"""C15: training."""
import contextlib
import copy
import io
import os
import re
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds
import materials as M
from model_architectures.procedures.model_state_files import load_model_state
from model_architectures.procedures.model_training import (
    read_loss_history_from_file, read_lr_history_from_file)
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel
from model_architectures.hybrid_base_model.model.hybrid_model import \
    HybridModel
from model_architectures.hybrid_base_model.model.hybridized_model import \
    set_hybridized_model
import model_architectures.rnn_base_model.train.training as T_rnn
import model_architectures.rc_base_model.train.training as T_rc
import model_architectures.hybrid_base_model.train.training as T_hyb
import model_architectures.rnn_base_model.train.cross_validation as CV
import material_model_finder.train.training as T_mmf
import c09
from material_model_finder.model.material_discovery import \
    MaterialModelFinder
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState

PROPERTY = 'C15'
RULE = ('Random data sets (1-5 short sequences), network, constitutive and '
        'hybrid models and material discovery on random meshes, batch sizes, '
        'shuffling, normalisations, losses, learning rate schedules, '
        'checkpoint intervals, early stopping and parameter convergence '
        'settings, resumed training; non-trivial if at least two epochs are '
        'completed.')


class Data(torch.utils.data.Dataset):
    """Data set recording the order of access."""

    def __init__(self, samples):
        self.samples, self.log = samples, []

    def __len__(self):
        return len(self.samples)

    def __getitem__(self, i):
        self.log.append(int(i))
        return {k: v.clone() for k, v in self.samples[int(i)].items()}


@st.composite
def case(draw, kinds=('gru', 'gru', 'hybrid', 'rc')):
    sch = draw(st.sampled_from([None, None, 'steplr', 'explr', 'linlr']))
    long = draw(st.sampled_from(['', '', '', '', '', 'ep', 'n']))
    more = {'ep': draw(st.integers(11, 20))} if long == 'ep' else {
        'n': draw(st.integers(51, 60)), 't': 2, 'b': 1,
        'ep': draw(st.integers(0, 1))} if long else {}
    return {'k': draw(st.sampled_from(list(kinds))), 's': draw(seeds()),
            'n': draw(st.integers(1, 5)), 't': draw(st.integers(2, 4)),
            'q': draw(st.integers(1, 3)), 'b': draw(st.integers(1, 5)),
            'ep': draw(st.integers(0, 6)), 'shuffle': draw(st.booleans()),
            'seed': draw(st.sampled_from([None, 0, 7])),
            'nin': draw(st.booleans()), 'nout': draw(st.booleans()),
            'scal': draw(st.sampled_from(['mean-std', 'min-max'])),
            'loss': draw(st.sampled_from(['mse', 'mse', 'mre', 'mre-clip',
                                          'mre-reg'])),
            'lr': draw(st.sampled_from([0.001, 0.01, 0.05, 0.2, 0.5])),
            'sch': sch, 'every': draw(st.sampled_from([None, 1, 2, 3])),
            'stop': draw(st.booleans()), 'freq': draw(st.integers(1, 3)),
            'trig': draw(st.integers(1, 3)),
            'imp': draw(st.sampled_from([0.0, 0.01, 0.2])),
            'noise': draw(st.booleans()),
            'resume': draw(st.sampled_from([False, False, True])),
            'pstop': draw(st.booleans()), 'pnorm': draw(st.booleans()),
            'ptol': draw(st.sampled_from([1e-3, 0.01, 0.1, 10.0])),
            'ptrig': draw(st.integers(1, 3)),
            'pmin': draw(st.integers(0, 3)), 'nloss': draw(st.booleans()),
            'drop': draw(st.booleans()), 'h0': draw(st.booleans()),
            'src': draw(st.sampled_from(['torch', 'custom'])), **more}


# ---- references -----------------------------------------------------------
def loss_ref(kind):
    def f(a, b):
        if kind == 'mse':
            return ((a - b)**2).sum()/a.numel()
        if kind == 'mre':
            d = torch.where(b.abs() < 1e-5, 1.0, b.abs())
        elif kind == 'mre-clip':
            d = b.abs().clamp(min=1e-5)
        else:
            d = b.abs() + 1e-5
        return ((a - b).abs()/d).sum()/a.numel()
    return f


def loss_args(kind):
    if kind == 'mse':
        return {'loss_type': 'mse'}
    return {'loss_type': 'mre', 'loss_kwargs': {'mre': {}, 'mre-clip': {
        'zero_handling': 'clip'}, 'mre-reg': {
            'zero_handling': 'regularizer'}}[kind]}


def scale_ref(samples, key, kind):
    x = torch.cat([s[key] for s in samples])
    if kind == 'mean-std':
        m = x.mean(0)
        sd = ((x - m)**2).mean(0).sqrt()
        return lambda z: (z - m)/sd
    lo, hi = x.min(0)[0], x.max(0)[0]
    return lambda z: 2*(z - lo)/(hi - lo) - 1


def schedule(c):
    """Scheduler arguments and the learning rate of an epoch."""
    lr, k = c['lr'], c['sch']
    if k is None:
        return {}, lambda e: lr
    if k == 'steplr':
        return ({'lr_scheduler_type': k, 'lr_scheduler_kwargs': {
            'step_size': 2, 'gamma': 0.3}}, lambda e: lr*0.3**(e//2))
    if k == 'explr':
        return ({'lr_scheduler_type': k, 'lr_scheduler_kwargs': {
            'gamma': 0.6}}, lambda e: lr*0.6**e)
    return ({'lr_scheduler_type': k, 'lr_scheduler_kwargs': {
        'start_factor': 1.0, 'end_factor': 0.2, 'total_iters': 3}},
        lambda e: lr*(1 - 0.8*min(e, 3)/3))


def adam(params, loss_of, batches, lr_of, after=lambda: None):
    """Adam over the given epochs of batches.

    Returns the mean batch loss of each epoch and the parameters at its end.
    """
    params = list(params)
    m = [torch.zeros_like(p) for p in params]
    v = [torch.zeros_like(p) for p in params]
    n, losses, states = [0]*len(params), [], []
    for e, bs in enumerate(batches):
        tot = []
        for b in bs:
            loss = loss_of(b)
            gs = torch.autograd.grad(loss, params, allow_unused=True)
            with torch.no_grad():
                for k, (p, g, mi, vi) in enumerate(zip(params, gs, m, v)):
                    if g is None:   # no step of this parameter
                        continue
                    n[k] += 1
                    mi.mul_(0.9).add_(0.1*g)
                    vi.mul_(0.999).add_(0.001*g*g)
                    p -= lr_of(e)*(mi/(1 - 0.9**n[k]))/(
                        (vi/(1 - 0.999**n[k])).sqrt() + 1e-8)
            after()
            tot.append(float(loss))
        losses.append(sum(tot)/len(tot))
        states.append([to_np(p).copy() for p in params])
    return losses, states


def sensitivity(module, start, runs, losses, states):
    """Effect of round-off on the trajectory.

    Adam divides a gradient by its own size, so that a gradient that is pure
    round-off still moves its parameter: the tolerance of each epoch is the
    spread of trajectories that start a relative 1e-13 apart.
    """
    dl = np.zeros(len(losses))
    ds = [[np.zeros_like(x) for x in s] for s in states]
    r = np.random.default_rng(0)
    for _ in range(2):
        assign(module, [x*(1 + 1e-13*r.choice([-1, 1], x.shape))
                        for x in start])
        ls, ss = runs()
        dl = np.maximum(dl, np.abs(np.array(ls) - losses))
        for a, b, z in zip(ss, states, ds):
            for k in range(len(z)):
                z[k] = np.maximum(z[k], np.abs(a[k] - b[k]))
    return 1e3*dl, [[1e3*x for x in s] for s in ds]


class Ref(torch.nn.Module):
    """Independent recurrent network with the parameters in order."""

    def __init__(self, ni, nh, nl, no):
        super().__init__()
        self.g = torch.nn.GRU(ni, nh, nl)
        self.l = torch.nn.Linear(nh, no)

    def forward(self, x, h=None):
        return self.l(self.g(x, h)[0])


def states_of(model):
    return [to_np(p).copy() for p in model.parameters()]


def assign(model, values):
    with torch.no_grad():
        for p, v in zip(model.parameters(), values, strict=True):
            p.copy_(torch.tensor(v))


def near(ctx, a, b, rtol, msg, more=None):
    for k, (x, y) in enumerate(zip(a, b, strict=True)):
        ctx.close(x, y, rtol, rtol*(1e-3 + np.abs(y).max()) + (
            0 if more is None else more[k].max()), msg)


# ---- models ---------------------------------------------------------------
RC = {'m': 'vm', 'E': 1000.0, 'v': 0.3, 'hard': {'k': 'linear', 's0': 5.0,
                                                 'a': 50.0}}


def problem(c, r, d):
    """Model arguments, data and the reference forward of a batch."""
    q = 3 if c['k'] == 'rc' else c['q']
    y = 0.01 if c['k'] == 'rc' else 1.0

    def seq(k):
        x = np.cumsum(y*r.standard_normal((c['t'], q)), 0)
        x[0] = 0
        s = {'features_in': torch.tensor(x)}
        if c['k'] == 'rc':
            m = M.build(RC, 2)
            sv, out = m.state_init(), [np.zeros(3)]
            for i in np.diff(x, axis=0):
                inc = np.array([[i[0], i[2]], [i[2], i[1]]])
                sv, _ = m.state_update(torch.tensor(inc), sv)
                z = M.from_kelvin(sv['stress_mf'], 2)
                out.append(np.array([z[0, 0], z[1, 1], z[0, 1]]))
            o = np.stack(out)*(1 + 0.2*c['noise']*r.standard_normal())
        else:
            o = np.tanh(x @ W) if not c['noise'] else r.standard_normal(
                (c['t'], q))
            if r.random() < 0.5:
                o[0] = 0
        s['features_out'] = torch.tensor(o)
        if c['k'] == 'gru' and c['h0']:
            s['hidden_features_in'] = torch.tensor(
                r.standard_normal((nl, nh)))
        return s
    W = r.standard_normal((q, q))
    nh, nl = int(r.integers(1, 4)), int(r.integers(1, 3))
    train = [seq(k) for k in range(c['n'])]
    valid = [seq(k) for k in range(int(r.integers(1, 4)))]
    if c['k'] == 'rc':
        args = dict(n_features_in=q, n_features_out=q, learnable_parameters={
            'E': {'initial_value': float(r.uniform(600, 1400)),
                  'bounds': (500.0, 1500.0)},
            's0': {'initial_value': float(r.uniform(3, 7)),
                   'bounds': (2.0, 8.0)}},
            strain_formulation='infinitesimal', problem_type=1,
            material_model_name='von_mises',
            material_model_parameters=M.parameters(RC), model_directory=d,
            model_name='model', is_normalized_parameters=c['pnorm'],
            is_model_in_normalized=False, is_model_out_normalized=False)
    elif c['k'] == 'gru':
        args = dict(n_features_in=q, n_features_out=q, hidden_layer_size=nh,
                    n_recurrent_layers=nl, model_directory=d,
                    model_name='model', is_model_in_normalized=c['nin'],
                    is_model_out_normalized=c['nout'],
                    gru_model_source=c['src'])
    else:
        models = {}
        for i, res in enumerate((False, bool(r.random() < 0.5))):
            models[f'g{i}'] = set_hybridized_model(
                GRURNNModel, (0, i), model_init_args=dict(
                    n_features_in=2*q if res else q, n_features_out=q,
                    hidden_layer_size=2, model_directory=None,
                    model_name='g', gru_model_source=c['src']),
                is_input_residual=res)
        args = dict(n_features_in=q, n_features_out=q,
                    hyb_models_dict=models, model_directory=d,
                    model_name='model', hybridization_type='identity',
                    is_model_out_normalized=c['nout'])
    return args, train, valid, (q, nh, nl)


def trainer(c):
    return {'gru': T_rnn, 'rc': T_rc, 'hybrid': T_hyb}[c['k']].train_model


def run(c, args, train, valid, **kw):
    """Train; returns the result and the recorded accesses."""
    ds = Data(train)
    sc, _ = schedule(c)
    kw.update(sc)
    kw.update(loss_args(c['loss']))
    if c['k'] == 'gru':
        kw['data_scaling_type'] = c['scal']
    if c['stop']:
        kw.update(is_early_stopping=True, early_stopping_kwargs={
            'validation_dataset': Data(valid),
            'validation_frequency': c['freq'],
            'trigger_tolerance': c['trig'],
            'improvement_tolerance': c['imp']})
    if c['k'] == 'rc':
        kw.update(is_params_stopping=c['pstop'], params_stopping_kwargs={
            'convergence_tolerance': c['ptol'],
            'trigger_tolerance': c['ptrig'], 'min_hist_length': c['pmin']},
            is_normalized_loss=c['nloss'])
    args = dict(args)
    if 'hyb_models_dict' in args:
        args['hyb_models_dict'] = copy.deepcopy(args['hyb_models_dict'])
    with contextlib.redirect_stdout(io.StringIO()):
        out = trainer(c)(c['ep'], ds, args, c['lr'], batch_size=c['b'],
                         is_sampler_shuffle=c['shuffle'],
                         save_every=c['every'], seed=c['seed'],
                         is_verbose=c['s'] % 3 == 1, **kw)
    return out, ds.log


def cls(c):
    return {'gru': GRURNNModel, 'rc': RecurrentConstitutiveModel,
            'hybrid': HybridModel}[c['k']]


def stored(c, d, state):
    m = cls(c).init_model_from_file(d)
    e = load_model_state(m, state, is_remove_posterior=False)
    return m, e


def stop_epoch(hist, c):
    """Epoch of the stop and of the kept state by the validation losses."""
    best, bad, at = np.inf, 0, None
    for e in range(0, len(hist), c['freq']):
        v = float(hist[e])
        if v < best:
            if e > 0:
                bad = 0 if (best - v)/abs(best) > c['imp'] else bad + 1
            best, at = v, e
        else:
            bad += 1
        if bad >= c['trig']:
            return e, at
    return None, at


def converged(h, c):
    """Parameter convergence of the histories so far."""
    ok = True
    for x in h.values():
        x = np.array([float(v) for v in x])
        if len(x) <= c['ptrig'] or len(x) <= c['pmin']:
            return False
        d = np.abs(np.diff(x))
        d = np.where(np.abs(x[:-1]) > 1e-8, d/np.abs(x[:-1]), d)
        ok = ok and bool((d[-c['ptrig']:] < c['ptol']).all())
    return ok


@sub('training', case, quick=230, thorough=6000, shards=7)
def _training(c, ctx):
    r = rng(c['s'])
    d = ctx.scratch()
    args, train, valid, dims = problem(c, r, d)
    orig = [{k: v.clone() for k, v in s.items()} for s in train]
    q = dims[0]
    ctx.label(c['k'] + ('-stop' if c['stop'] else ''))
    if c['resume']:
        c0 = dict(c, ep=1, stop=False, resume=False, every=None, pstop=False)
        run(c0, args, train, valid)
        first, _ = stored(c, d, 'best')
        start = states_of(first)
        (model, best, at), log = run(c, args, train, valid,
                                     model_load_state='best')
    else:
        (model, best, at), log = run(c, args, train, valid)
    init, _ = stored(c, d, 'init')
    begin = states_of(init)
    if c['resume']:
        near(ctx, begin, start, 1e-14, 'resumed training does not start '
             'from the requested state')
    for a, b in zip(train, orig):
        for k in a:
            ctx.check(torch.equal(a[k], b[k]), 'training changed the data')
    _, _, hist, vhist = read_loss_history_from_file(
        os.path.join(d, 'loss_history_record.pkl'))
    hist = [float(x) for x in hist]
    ne = len(hist)
    ctx.nontrivial(ne > 1)
    ctx.check(1 <= ne <= c['ep'] + 1, f'{ne} epochs for n_max_epochs = '
              f'{c["ep"]}')
    # order of the samples
    n = c['n']
    log = np.array(log[len(log) - ne*n:]).reshape(ne, n)
    for row in log:
        ctx.check(sorted(row) == list(range(n)), f'an epoch visits the '
                  f'samples {sorted(row)} of {n}')
        ctx.check(c['shuffle'] or list(row) == list(range(n)),
                  'samples shuffled without being asked')
    batches = [[row[i:i + c['b']] for i in range(0, n, c['b'])]
               for row in log]
    # reference
    fin = fout = lambda z: z
    lf = loss_ref(c['loss'])
    after = lambda: None
    if c['k'] == 'gru':
        ref = Ref(q, dims[1], dims[2], q)
        assign(ref, begin)
        kind = c['scal']
        if c['nin']:
            fin = scale_ref(train, 'features_in', kind)
        forward = lambda x, h: ref(x, h)
        norm_out = c['nout']
    else:
        ref = init
        kind = 'mean-std'
        forward = lambda x, h: ref(x)
        norm_out = c['nout'] if c['k'] == 'hybrid' else False
        if c['k'] == 'rc':
            def after():
                ref.enforce_parameters_bounds()
                ref.enforce_parameters_constraints()
            after()
    post = lambda z: z
    if c['k'] == 'rc' and c['nloss']:
        post = fout = scale_ref(train, 'features_out', 'mean-std')
    elif norm_out:
        fout = scale_ref(train, 'features_out', kind)

    def batch_loss(data, ids):
        st_ = lambda k: torch.stack([data[i][k] for i in ids], 1)
        h = st_('hidden_features_in') if (
            'hidden_features_in' in data[0]) else None
        return lf(post(forward(fin(st_('features_in')), h)),
                  fout(st_('features_out')))
    _, lr_of = schedule(c)
    runs = lambda: adam(ref.parameters(), lambda b: batch_loss(train, b),
                        batches, lr_of, after)
    start = states_of(ref)
    want, states = runs()
    dl, ds = sensitivity(ref, start, runs, want, states)
    if not np.isfinite(want).all():
        ctx.check(False, 'reference training diverged')
    big = max(want)
    for e in range(ne):
        ctx.close(hist[e], want[e], 1e-6, 1e-7*big + dl[e], f'recorded loss of '
                  f'epoch {e}')
    # best state
    k = int(np.argmin(hist))
    ctx.check(best == min(hist) and at == k, f'returned best loss {best} at '
              f'{at}, recorded minimum {min(hist)} at {k}')
    ends = [k for k in range(ne) if hist[k] == min(hist)]
    kept, trig = ends, None
    if c['stop']:
        ctx.check(vhist is not None and len(vhist) == (ne - 1)//c['freq']
                  * c['freq'] + 1, 'length of the validation history')
        for e in range(len(vhist)):
            j = e//c['freq']*c['freq']
            assign(ref, states[j])
            with torch.no_grad():
                v = np.mean([float(batch_loss(valid, [i]))
                             for i in range(len(valid))])
            if max(x.max() for x in ds[j]) > 1e-7:
                break       # round-off decides
            ctx.close(float(vhist[e]), v, 1e-5, 1e-6*(1e-3 + v),
                      f'validation loss of epoch {e}')
        trig, keep = stop_epoch(vhist, c)
        ctx.check(trig is None or trig == ne - 1, f'training ran '
                  f'{ne} epochs although the validation losses '
                  f'{[float(v) for v in vhist]} stop it at epoch {trig}')
        if trig is not None:
            kept = [keep]
            ctx.label('early stop')
    else:
        ctx.check(vhist is None, 'validation history without validation')
    conv = False
    if c['k'] == 'rc':
        ph, pb = T_rc.read_parameters_history_from_file(os.path.join(
            d, 'parameters_history_record.pkl'))
        ctx.check(all(len(x) == ne + 1 for x in ph.values()),
                  'length of the parameter history')
        if c['pstop']:
            for e in range(ne - 1):
                ctx.check(not converged({k: x[:e + 2] for k, x in
                                         ph.items()}, c),
                          f'parameters converged at epoch {e}, training '
                          f'went on to {ne - 1}')
            conv = converged(ph, c)
            if conv:
                ctx.label('parameters converged')
    ctx.check(ne == c['ep'] + 1 or trig is not None or conv,
              f'training stopped after {ne} of {c["ep"] + 1} epochs without '
              f'cause: {vhist}')
    bm, be = stored(c, d, 'best')
    ctx.check(be in kept, f'best state is of epoch {be}, lowest loss at '
              f'{kept}')
    near(ctx, states_of(bm), states[be], 2e-6, f'best state (epoch {be})',
         ds[be])
    j = kept[0] if trig is not None else -1
    near(ctx, states_of(model), states[j], 2e-6, 'parameters of the '
         'returned model', ds[j])
    lm, le = stored(c, d, 'last')
    ctx.check(le == ne - 1, 'last state is not of the last epoch')
    near(ctx, states_of(lm), states_of(model), 1e-14, 'last state')
    # intermediate checkpoints; those after the kept epoch are superseded
    for e in range(0, (kept[0] if trig is not None else ne - 1),
                   c['every'] or ne):
        if c['every']:
            em, ee = stored(c, d, e)
            ctx.check(ee == e, 'checkpoint epoch')
            near(ctx, states_of(em), states[e], 2e-6, f'checkpoint {e}',
                 ds[e])
    if c['k'] == 'rc':
        bp, _ = T_rc.read_best_parameters_from_file(os.path.join(
            d, 'parameters_best.pkl'))
        now = bm.get_detached_model_parameters(is_normalized_out=False)
        for k in now:
            ctx.close(float(bp[k]), float(now[k]), 1e-12, 0,
                      f'best parameters file, {k}')
            lo, hi = {'E': (500, 1500), 's0': (2, 8)}[k]
            ctx.check(all(lo*(1 - 1e-12) <= float(x) <= hi*(1 + 1e-12)
                          for x in ph[k]), f'{k} left its bounds')
    sch, lrs = read_lr_history_from_file(os.path.join(
        d, 'loss_history_record.pkl'))
    ctx.check(sch == c['sch'] and len(lrs) == ne, 'learning rate history')
    # the written summary is that of this training
    got = summary(d)
    want = {'Number of completed epochs': ne - 1,
            'Training data set size': n, 'batch_size': c['b'],
            'n_max_epochs': c['ep'], 'lr_init': c['lr'], 'seed': c['seed'],
            'is_sampler_shuffle': c['shuffle'],
            'Best loss': f'{best:.8e} (training epoch {at})'}
    for k, v in want.items():
        ctx.check(got.get(k) == str(v), f'summary: {k} is {got.get(k)}, '
                  f'not {v}')
    if c['k'] == 'rc':
        for k in now:
            ctx.check(k in got, f'summary: no {k}')
            ctx.close(float(got[k]), float(now[k]), 1e-6, 0, f'summary: {k}')


def summary(d):
    """Entries of the summary file of a directory."""
    out = {}
    with open(os.path.join(d, 'summary.dat')) as f:
        for line in f:
            m = re.match(r'^ *"([^"]*?):? *": +(.*)$', line.rstrip('\n'))
            if m:
                out[m.group(1)] = m.group(2)
    return out


@sub('reproducible', case, quick=70, thorough=2000, shards=2)
def _repro(c, ctx):
    """Same seed, data and settings: same result whatever ran before."""
    c = dict(c, seed=[0, 1, c['s'] % 1000][c['s'] % 3], resume=False)
    ctx.label(c['k'])
    outs = []
    for j in range(2):
        d = ctx.scratch()
        r = rng(c['s'])
        torch.manual_seed(1)    # sub-models exist before the training
        args, train, valid, _ = problem(c, r, d)
        torch.manual_seed(123 + 77*j)
        np.random.seed(5 + j)
        torch.rand(3 + j)
        (model, best, at), log = run(c, args, train, valid)
        init, _ = stored(c, d, 'init')
        hist = read_loss_history_from_file(
            os.path.join(d, 'loss_history_record.pkl'))
        outs.append((states_of(model), best, at, log, hist,
                     states_of(init)))
    a, b = outs
    ctx.nontrivial(len(a[4][2]) > 1)
    ctx.check(a[3] == b[3], 'order of the samples differs')
    near(ctx, a[5], b[5], 0, 'initial parameters differ')
    near(ctx, a[0], b[0], 0, 'parameters differ')
    ctx.check(a[1] == b[1] and a[2] == b[2], 'best loss or epoch')
    for i in (2, 3):
        x, y = a[4][i], b[4][i]
        ctx.check((x is None and y is None) or [float(z) for z in x] == [
            float(z) for z in y], 'loss histories differ')


@st.composite
def dcase(draw):
    return {'k': draw(st.sampled_from(['gru', 'gru', 'hybrid'])),
            's': draw(seeds()), 'n': draw(st.integers(1, 3)),
            'b': draw(st.integers(1, 3)), 'ep': draw(st.integers(1, 5)),
            'stop': draw(st.booleans()), 'freq': draw(st.integers(1, 2)),
            'p': draw(st.sampled_from([0.3, 0.5])),
            'nout': draw(st.booleans())}


@sub('dropout', dcase, quick=24, thorough=400, shards=2)
def _dropout(c, ctx):
    """Dropout acts in every training epoch and in no validation. With a null
    learning rate only the drawn dropout masks change the training loss."""
    r = rng(c['s'])
    d = ctx.scratch()
    q, t = 2, 4
    seq = lambda: {k: torch.tensor(r.standard_normal((t, q)))
                   for k in ('features_in', 'features_out')}
    train = [seq() for _ in range(c['n'])]
    valid = [seq() for _ in range(2)]
    g = dict(n_features_in=q, n_features_out=q, hidden_layer_size=12,
             n_recurrent_layers=2, dropout=c['p'], gru_model_source='torch')
    if c['k'] == 'gru':
        args = dict(g, model_directory=d, model_name='model',
                    is_model_in_normalized=c['nout'],
                    is_model_out_normalized=c['nout'])
    else:
        args = dict(n_features_in=q, n_features_out=q, hyb_models_dict={
            'g': set_hybridized_model(GRURNNModel, (0, 0), model_init_args=dict(
                g, model_directory=None, model_name='g'))},
            model_directory=d, model_name='model',
            hybridization_type='identity', is_model_out_normalized=c['nout'])
    kw = {}
    if c['stop']:
        kw = dict(is_early_stopping=True, early_stopping_kwargs={
            'validation_dataset': Data(valid),
            'validation_frequency': c['freq'], 'trigger_tolerance': 99,
            'improvement_tolerance': 0.0})
    trainer(c)(c['ep'], Data(train), args, 0.0, batch_size=c['b'], seed=c['s']
               % 1000, **kw)
    _, _, hist, vhist = read_loss_history_from_file(
        os.path.join(d, 'loss_history_record.pkl'))
    hist = [float(x) for x in hist]
    ctx.check(len(hist) == c['ep'] + 1, f'{len(hist)} epochs')
    ctx.label(c['k'] + ('-stop' if c['stop'] else ''))
    ctx.nontrivial(c['ep'] > 1)
    ctx.check(len(set(hist)) == len(hist), f'no dropout in some epochs: '
              f'{hist}')
    m, _ = stored(c, d, 'init')
    m.eval()
    ss = scale_ref(train, 'features_out', 'mean-std') if c['nout'] else (
        lambda z: z)
    si = scale_ref(train, 'features_in', 'mean-std') if (
        c['nout'] and c['k'] == 'gru') else (lambda z: z)
    if c['stop']:
        with torch.no_grad():
            f = (lambda x: m(x)[0]) if c['k'] == 'gru' else m
            want = np.mean([float(((f(si(x['features_in'])[:, None])
                                    - ss(x['features_out'])[:, None])**2
                                   ).mean()) for x in valid])
        for v in vhist:
            ctx.close(float(v), want, 1e-6, 1e-9, 'validation loss of '
                      'unchanged parameters')


# ---- rules alone ----------------------------------------------------------
@st.composite
def rule(draw):
    return {'s': draw(seeds()), 'n': draw(st.integers(1, 14)),
            'freq': draw(st.sampled_from([1, 1, 2, 3, 4])),
            'trig': draw(st.integers(1, 4)),
            'imp': draw(st.sampled_from([0.0, 0.01, 0.2, 0.5])),
            'steps': draw(st.lists(st.sampled_from(
                [0.3, 0.7, 0.9, 0.97, 0.995, 1.0, 1.01, 1.5]), min_size=14,
                max_size=14)),
            'from_min': draw(st.lists(st.booleans(), min_size=14,
                                      max_size=14)),
            'ptol': draw(st.sampled_from([1e-3, 0.05, 0.2])),
            'ptrig': draw(st.integers(1, 4)),
            'pmin': draw(st.integers(0, 8)),
            'np': draw(st.integers(1, 3)),
            'zero': draw(st.booleans())}


class Net(torch.nn.Module):
    def __init__(self, d):
        super().__init__()
        self.model_directory, self.model_name = d, 'net'
        self.is_model_in_normalized = self.is_model_out_normalized = False
        self.w = torch.nn.Parameter(torch.zeros(2))


@sub('early_stopping', rule, quick=1600, thorough=8000, shards=2)
def _rule(c, ctx):
    """The stopping rule on arbitrary histories of validation losses."""
    for mod in (T_rnn, T_rc, T_hyb):
        stopping(c, ctx, mod)


def stopping(c, ctx, mod):
    d = ctx.scratch()
    losses = [1.0]
    for q, lowest in zip(c['steps'], c['from_min']):
        losses.append(q*(min(losses) if lowest else losses[-1]))
    losses = np.array(losses)
    m = Net(d)
    opt = torch.optim.Adam(m.parameters(), lr=0.1)
    es = mod.EarlyStopper(Data([]), validation_frequency=c['freq'],
                          trigger_tolerance=c['trig'],
                          improvement_tolerance=c['imp'])
    cur = {}
    old = mod.predict
    mod.predict = lambda *a, **k: (None, losses[cur['e']])
    ctx.nontrivial(c['n'] > c['freq'])
    stop = None
    try:
        for e in range(c['n']):
            cur['e'] = e
            with torch.no_grad():
                m.w.fill_(e + 1.0)
            want = e % c['freq'] == 0
            ctx.check(es.is_evaluate_criterion(e) == want,
                      f'validation at epoch {e}')
            if want:
                if es.evaluate_criterion(m, opt, e):
                    stop = e
                    break
    finally:
        mod.predict = old
    h = es.get_validation_loss_history()
    last = (stop if stop is not None else c['n'] - 1)//c['freq']*c['freq']
    full = [losses[e//c['freq']*c['freq']] for e in range(last + 1)]
    ctx.check([float(x) for x in h] == full, 'validation history')
    t, keep = stop_epoch(full, c)
    ctx.check(t == stop, f'stopped at {stop}, the rule stops at {t}: {full}')
    got = es.load_best_performance_state(m, opt)
    ctx.check(got == keep and bool((m.w == keep + 1.0).all()),
              f'state kept is of epoch {got} (values {m.w.tolist()}), the '
              f'minimum is at {keep}')
    ctx.check(os.listdir(d) == [], f'files left: {os.listdir(d)}')


@sub('convergence', rule, quick=400, thorough=10000)
def _conv(c, ctx):
    r = rng(c['s'])
    h = {f'p{i}': [float(x) for x in np.cumprod(
        np.concatenate([[r.choice([1e-3, 1.0, -50.0])], 1 + r.choice(
            [0.0, 5e-4, 0.01, 0.1, -0.04, -0.3], c['n'] - 1,
            p=[.3, .3, .15, .05, .15, .05])]))] for i in range(c['np'])}
    if c['zero']:
        h['p0'] = [0.0 if r.random() < 0.5 else x for x in h['p0']]
    ctx.nontrivial(c['n'] > c['ptrig'])
    got, status = T_rc.check_model_parameters_convergence(
        h, convergence_tolerance=c['ptol'], trigger_tolerance=c['ptrig'],
        min_hist_length=c['pmin'])
    ctx.check(bool(got) == converged(h, c), f'convergence {got} of {h}')
    ctx.label(f'{bool(got)}')
    for k in h:
        one = len(h[k]) > c['ptrig'] and converged(
            {k: h[k]}, dict(c, pmin=0))
        ctx.check(bool(status[k]['is_converged']) == one, f'status of {k}')


# ---- cross-validation -----------------------------------------------------
@st.composite
def kcase(draw):
    return dict(draw(case(kinds=('gru',))), n=draw(st.integers(3, 6)),
                folds=draw(st.integers(2, 3)), ep=draw(st.integers(0, 2)),
                resume=False, h0=False)


@sub('cross_validation', kcase, quick=30, thorough=600)
def _kfold(c, ctx):
    r = rng(c['s'])
    d = ctx.scratch()
    args, train, valid, _ = problem(c, r, d)
    out = ctx.scratch()
    ds = Data(train)
    ctx.nontrivial(c['ep'] > 0)
    seen = []
    a, b = CV.train_model, CV.predict

    def t(n, data, *x, **k):
        seen.append(sorted(int(i) for i in data.indices))
        return a(n, data, *x, **k)

    def p(data, *x, **k):
        seen.append(sorted(int(i) for i in data.indices))
        return b(data, *x, **k)
    CV.train_model, CV.predict = t, p
    try:
        arr = CV.kfold_cross_validation(
            out, c['folds'], c['ep'], ds, dict(args), c['lr'],
            batch_size=c['b'], is_sampler_shuffle=c['shuffle'],
            **loss_args(c['loss']))
    finally:
        CV.train_model, CV.predict = a, b
    arr = np.asarray(arr, float)
    ctx.check(arr.shape == (c['folds'], 2), 'one row per fold')
    tr, va = seen[::2], seen[1::2]
    ctx.check(sorted(sum(va, [])) == list(range(c['n'])), f'validation '
              f'folds {va} do not partition the data')
    for x, y in zip(tr, va):
        ctx.check(sorted(x + y) == list(range(c['n'])), f'training {x} and '
                  f'validation {y} samples of a fold')
    lf = loss_ref(c['loss'])
    for f in range(c['folds']):
        md = os.path.join(out, f'fold_{f + 1}', 'model')
        _, _, hist, _ = read_loss_history_from_file(
            os.path.join(md, 'loss_history_record.pkl'))
        ctx.check(arr[f, 0] == min(float(x) for x in hist),
                  'training loss of the fold')
        m, _ = stored(c, md, 'best')
        part = [train[i] for i in tr[f]]
        fi = scale_ref(part, 'features_in', 'mean-std') if c['nin'] else (
            lambda z: z)
        fo = scale_ref(part, 'features_out', 'mean-std') if c['nout'] else (
            lambda z: z)
        with torch.no_grad():
            v = np.mean([float(lf(m(fi(train[i]['features_in'])[:, None],
                                    None)[0],
                                  fo(train[i]['features_out'])[:, None]))
                         for i in va[f]])
        ctx.close(arr[f, 1], v, 1e-8, 1e-12, f'validation loss of fold '
                  f'{f + 1}')


# ---- material discovery ---------------------------------------------------
@st.composite
def fcase(draw):
    c = draw(c09.case(names=('vm', 'vmm', 'dp', 'gru')))
    # training offers no way to hand over the force bounds
    c.update(fnorm=False, vm=True, man=draw(st.booleans()), ep=draw(st.integers(0, 3)),
             lr=draw(st.sampled_from([1e-3, 0.02, 0.1])),
             sch=draw(st.sampled_from([None, 'explr'])),
             every=draw(st.sampled_from([None, 1, 2])),
             pstop=draw(st.booleans()),
             ptol=draw(st.sampled_from([1e-3, 0.1, 10.0])),
             ptrig=draw(st.integers(1, 2)), pmin=draw(st.integers(0, 2)))
    return c


@sub('discovery', fcase, quick=70, thorough=1200, shards=4)
def _discovery(c, ctx):
    r = rng(c['s'])
    S = c09.setup(c, ctx, r)
    if S is None:
        return
    sp, resp, args, par, tmp = S
    F, _, smax = c09.forces(sp, resp)
    if F is None:
        return
    reac = c09.reactions(c, r, sp, F)
    bc = (~sp.free).astype(int)
    loss = c09.Loss(c, r, sp, F)
    data, types = c09.specimen_data(sp, reac, bc, bc, r)
    name, p, mk = args
    explicit = c['kind'] != 'gru'
    ctx.label(c['kind'])

    def state(sub_dir):
        os.makedirs(sub_dir)
        s = StructureMaterialState('infinitesimal', {2: 1, 3: 4}[sp.d],
                                   len(sp.cells))
        s.init_elements_model(
            name, copy.deepcopy(p), [i + 1 for i in range(len(sp.cells))],
            types, dict(mk, model_directory=sub_dir))
        if isinstance(par, c09.Gru):
            c09.fill(list(s.get_material_models().values())[0],
                     par.arrays())
        return s

    def set_up(k):
        sub_dir = os.path.join(tmp, k)
        s = state(os.path.join(sub_dir, 'mat'))
        return s, sub_dir, dict(model_directory=sub_dir, model_name='finder',
                                is_force_normalization=c['fnorm'])
    s0, d0, a0 = set_up('ref')
    f0 = MaterialModelFinder(**a0)
    f0.set_specimen_data(data, s0, **loss.kwargs())

    def after():
        if explicit:
            f0.enforce_parameters_bounds()
            f0.enforce_parameters_constraints()
    after()
    begin = states_of(f0)
    kw, lr_of = schedule(c)
    lk = loss.kwargs()
    s1, d1, a1 = set_up('run')
    with contextlib.redirect_stdout(io.StringIO()):
        model, best, at = T_mmf.train_model(
            c['ep'], data, s1, a1, c['lr'], save_every=c['every'],
            is_explicit_model_parameters=explicit,
            is_params_stopping=c['pstop'], params_stopping_kwargs={
                'convergence_tolerance': c['ptol'],
                'trigger_tolerance': c['ptrig'],
                'min_hist_length': c['pmin']}, seed=3,
            is_verbose=c['s'] % 3 == 1, **lk, **kw)
    _, _, hist, _ = read_loss_history_from_file(
        os.path.join(d1, 'loss_history_record.pkl'))
    hist = [float(x) for x in hist]
    ne = len(hist)
    ctx.nontrivial(ne > 1)
    ctx.check(1 <= ne <= c['ep'] + 1, f'{ne} epochs')
    runs = lambda: adam(f0.parameters(), lambda b: f0(
        sequential_mode='sequential_element_vmap'), [[0]]*ne, lr_of, after)
    start = states_of(f0)
    want, states = runs()
    dl, ds = sensitivity(f0, start, runs, want, states)
    for e in range(ne):
        ctx.close(hist[e], want[e], 1e-5, 1e-7*max(want) + dl[e],
                  f'recorded loss '
                  f'of epoch {e}')
    ctx.check(best == min(hist) and at == int(np.argmin(hist)),
              'returned best loss or epoch')
    near(ctx, states_of(model), states[-1], 1e-5, 'parameters of the '
         'returned model', ds[-1])
    mats = list(model.get_material_models().values())
    for k in ('best', 'last') + tuple(
            range(0, ne, c['every']) if c['every'] else ()):
        keep = states_of(model)
        e = load_model_state(model, k, is_remove_posterior=False)
        ends = [i for i in range(ne) if hist[i] == min(hist)]
        ctx.check(e in ends if k == 'best' else e == (
            ne - 1 if k == 'last' else k), f'epoch {e} of state {k!r}')
        near(ctx, states_of(model), states[e], 1e-5, f'state {k!r}', ds[e])
        full = states_of(model)
        assign(model, keep)
        for mm in mats:
            e2 = load_model_state(mm, k, is_remove_posterior=False)
            ctx.check(e2 == e, f'material model state {k!r}: epoch')
        near(ctx, states_of(model), full, 1e-14, f'material model state '
             f'{k!r} differs from that of the finder')
        assign(model, keep)
    conv = False
    if explicit:
        ph, _ = T_mmf.read_parameters_history_from_file(os.path.join(
            d1, 'parameters_history_record.pkl'))
        ctx.check(all(len(x) == ne for x in ph.values()),
                  'length of the parameter history')
        if c['pstop']:
            for e in range(ne - 1):
                ctx.check(not converged({k: x[:e + 1] for k, x in
                                         ph.items()}, c),
                          f'parameters converged at epoch {e}, training '
                          f'went on to {ne - 1}')
            conv = converged(ph, c)
        bp, _ = T_mmf.read_best_parameters_from_file(os.path.join(
            d1, 'parameters_best.pkl'))
        for k in bp:
            ctx.check(float(ph[k][int(np.argmin(hist))]) == float(bp[k])
                      or min(hist) in hist[int(np.argmin(hist)) + 1:],
                      f'best parameters file, {k}')
    ctx.check(ne == c['ep'] + 1 or conv, f'training stopped after {ne} of '
              f'{c["ep"] + 1} epochs without cause')
    got = summary(d1)
    for k, v in {'Number of completed epochs': ne - 1,
                 'n_max_epochs': c['ep'],
                 'Best loss': f'{best:.8e} (training epoch {at})'}.items():
        ctx.check(got.get(k) == str(v), f'summary: {k} is {got.get(k)}, '
                  f'not {v}')
    if explicit:
        for k in bp:
            ctx.check(k in got and float(got[k]) == float(bp[k]),
                      f'summary: {k} is {got.get(k)}')
