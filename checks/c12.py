"""C12: gated recurrent unit networks."""
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
from model_architectures.rnn_base_model.custom.gru_vmap import GRU, GRUCell
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel

PROPERTY = 'C12'
RULE = ('Random architectures (1-5 inputs, 1-5 hidden, 1-3 layers, with and '
        'without bias), random weights and sequences (1-6 steps, batches of '
        '1-4 or unbatched), with and without initial hidden state; '
        'non-trivial if at least two steps and two layers or a batch.')


@st.composite
def case(draw):
    return {'s': draw(seeds()), 'ni': draw(st.integers(1, 5)),
            'nh': draw(st.integers(1, 5)), 'no': draw(st.integers(1, 4)),
            'nl': draw(st.integers(1, 3)), 't': draw(st.integers(1, 6)),
            'b': draw(st.integers(0, 4)), 'bias': draw(st.booleans()),
            'h0': draw(st.booleans()), 'amp': draw(st.sampled_from(
                [0.3, 1.0, 5.0]))}


def sigm(x):
    return 1/(1 + np.exp(-x))


def reference(ws, x, h):
    """Standard gated recurrent unit; x (t, b, i), h (l, b, h)."""
    h = h.copy()
    out = []
    for xt in x:
        inp = xt
        for k, (wi, wh, bi, bh) in enumerate(ws):
            n = wh.shape[1]
            gi, gh = inp @ wi.T + bi, h[k] @ wh.T + bh
            r = sigm(gi[:, :n] + gh[:, :n])
            z = sigm(gi[:, n:2*n] + gh[:, n:2*n])
            c = np.tanh(gi[:, 2*n:] + r*gh[:, 2*n:])
            h[k] = (1 - z)*c + z*h[k]
            inp = h[k]
        out.append(h[-1].copy())
    return np.stack(out), h


def weights(r, c):
    ws = []
    for k in range(c['nl']):
        i = c['ni'] if k == 0 else c['nh']
        ws.append([r.standard_normal((3*c['nh'], i))*c['amp'],
                   r.standard_normal((3*c['nh'], c['nh']))*c['amp']]
                  + ([r.standard_normal(3*c['nh'])*c['amp'] for _ in 'ab']
                     if c['bias'] else [np.zeros(3*c['nh'])]*2))
    return ws


def fill(module, arrays):
    """Set the learnable parameters, in order of registration."""
    ps = list(module.parameters())
    with torch.no_grad():
        for p, v in zip(ps, arrays, strict=True):
            p.copy_(torch.tensor(v).reshape(p.shape))


def flat(ws, bias):
    return [v for w in ws for v in (w if bias else w[:2])]


def load_torch(gru, ws, bias):
    with torch.no_grad():
        for k, w in enumerate(ws):
            for nm, v in zip(('weight_ih', 'weight_hh') + (
                    ('bias_ih', 'bias_hh') if bias else ()), w):
                getattr(gru, f'{nm}_l{k}').copy_(torch.tensor(v))


def inputs(r, c):
    b = c['b']
    x = r.standard_normal((c['t'], max(b, 1), c['ni']))*2
    h = r.standard_normal((c['nl'], max(b, 1), c['nh']))
    return x, h


@sub('custom', case, quick=400, thorough=15000)
def _custom(c, ctx):
    r = rng(c['s'])
    ws = weights(r, c)
    x, h = inputs(r, c)
    ctx.nontrivial(c['t'] > 1 and (c['nl'] > 1 or c['b'] > 1))
    gru = GRU(c['ni'], c['nh'], num_layers=c['nl'], bias=c['bias'])
    ctx.check(sum(p.numel() for p in gru.parameters()) == sum(
        w[0].size + w[1].size + (2*w[2].size if c['bias'] else 0)
        for w in ws), 'number of learnable parameters')
    fill(gru, flat(ws, c['bias']))
    ref, hn = reference(ws, x, h if c['h0'] else 0*h)
    tx, th = torch.tensor(x), torch.tensor(h)
    if c['b'] == 0:
        tx, th, ref, hn = tx[:, 0], th[:, 0], ref[:, 0], hn[:, 0]
    tx.requires_grad_()
    args = (tx, th) if c['h0'] else (tx,)
    keep = tx.detach().clone(), th.clone()
    out, ho = gru(*args)
    ctx.close(out, ref, 1e-9, 1e-10, 'outputs')
    ctx.close(ho, hn, 1e-9, 1e-10, 'hidden states')
    ctx.check(torch.equal(tx.detach(), keep[0]) and torch.equal(th, keep[1]),
              'inputs modified')
    # gradients of the library implementation
    lib = torch.nn.GRU(c['ni'], c['nh'], num_layers=c['nl'], bias=c['bias'])
    load_torch(lib, ws, c['bias'])
    g = torch.tensor(r.standard_normal(out.shape))
    gh = torch.tensor(r.standard_normal(ho.shape))
    tx2 = tx.detach().clone().requires_grad_()
    o2, h2 = lib(*((tx2, th) if c['h0'] else (tx2,)))
    ((out*g).sum() + (ho*gh).sum()).backward()
    ((o2*g).sum() + (h2*gh).sum()).backward()
    ctx.close(tx.grad, tx2.grad, 1e-7, 1e-9, 'gradient of the inputs')
    nm = [f'{n}_l{k}' for k in range(c['nl']) for n in
          ('weight_ih', 'weight_hh') + (('bias_ih', 'bias_hh')
                                        if c['bias'] else ())]
    for p, n in zip(gru.parameters(), nm, strict=True):
        ctx.close(p.grad, getattr(lib, n).grad, 1e-7, 1e-9,
                  f'gradient of {n}')
    # mapping over a batch
    if c['b'] > 0:
        with torch.no_grad():
            f = torch.vmap(lambda a, b: gru(a, b), in_dims=(1, 1),
                           out_dims=(1, 1))
            ov, hv = f(tx.detach(), th if c['h0'] else 0*th)
        ctx.close(ov, ref, 1e-9, 1e-10, 'mapped outputs')
        ctx.close(hv, hn, 1e-9, 1e-10, 'mapped hidden states')


@sub('cell', case, quick=150, thorough=5000)
def _cell(c, ctx):
    r = rng(c['s'])
    c = dict(c, nl=1)
    ws = weights(r, c)
    x, h = inputs(r, c)
    cell = GRUCell(c['ni'], c['nh'], bias=c['bias'])
    fill(cell, flat(ws, c['bias']))
    _, ref = reference(ws, x[:1], h if c['h0'] else 0*h)
    ref = ref[0]
    a, b = torch.tensor(x[0]), torch.tensor(h[0])
    if c['b'] == 0:
        a, b, ref = a[0], b[0], ref[0]
    with torch.no_grad():
        out = cell(a, b) if c['h0'] else cell(a)
    ctx.close(out, ref, 1e-10, 1e-11, 'updated hidden state')
    ctx.nontrivial(c['b'] > 1)


@sub('model', case, quick=250, thorough=8000)
def _model(c, ctx):
    """Network model: oracle, causality, batches, continuation."""
    r = rng(c['s'])
    c = dict(c, bias=True)
    ws = weights(r, c)
    x, h = inputs(r, c)
    lw, lb = r.standard_normal((c['no'], c['nh'])), r.standard_normal(c['no'])
    ctx.nontrivial(c['t'] > 1 and (c['nl'] > 1 or c['b'] > 1))
    h0 = h if c['h0'] else 0*h
    ref, hn = reference(ws, x, h0)
    ref = ref @ lw.T + lb
    sq = (lambda a: a[:, 0]) if c['b'] == 0 else (lambda a: a)
    for src in ('torch', 'custom'):
        m = GRURNNModel(c['ni'], c['no'], c['nh'], None,
                        n_recurrent_layers=c['nl'], gru_model_source=src,
                        is_save_model_init_file=False)
        fill(m, flat(ws, True) + [lw, lb])
        hh = torch.tensor(sq(h0)) if c['h0'] else None
        with torch.no_grad():
            out, ho = m(torch.tensor(sq(x)), hh)
            ctx.close(out, sq(ref), 1e-9, 1e-9, f'{src}: prediction')
            ctx.close(ho, sq(hn), 1e-9, 1e-10, f'{src}: hidden states')
            again, _ = m(torch.tensor(sq(x)), hh)
            ctx.check(torch.equal(again, out), f'{src}: second prediction')
            k = int(r.integers(1, c['t'] + 1))
            p, hp = m(torch.tensor(sq(x)[:k]), hh)
            ctx.close(p, sq(ref)[:k], 1e-9, 1e-9, f'{src}: prediction of a '
                      'prefix depends on later steps')
            if k < c['t']:
                q, hq = m(torch.tensor(sq(x)[k:]), hp)
                ctx.close(q, sq(ref)[k:], 1e-9, 1e-9,
                          f'{src}: continued prediction')
                ctx.close(hq, sq(hn), 1e-9, 1e-9, f'{src}: continued state')
            if c['b'] > 1:
                pm = r.permutation(c['b'])[:int(r.integers(1, c['b'] + 1))]
                q, _ = m(torch.tensor(x[:, pm]),
                         torch.tensor(h0[:, pm]) if c['h0'] else None)
                ctx.close(q, ref[:, pm], 1e-9, 1e-9, f'{src}: prediction '
                          'depends on the batch')


@sub('reload', case, quick=60, thorough=1500)
def _reload(c, ctx):
    """A model rebuilt from its files predicts the same."""
    r = rng(c['s'])
    d = ctx.scratch()
    src = ['torch', 'custom'][int(r.integers(2))]
    flags = [bool(r.integers(2)) for _ in range(2)]
    m = GRURNNModel(c['ni'], c['no'], c['nh'], d, model_name='net',
                    n_recurrent_layers=c['nl'], gru_model_source=src,
                    is_model_in_normalized=flags[0],
                    is_model_out_normalized=flags[1])
    n = GRURNNModel.init_model_from_file(d)
    n.load_state_dict(m.state_dict())
    x = torch.tensor(inputs(r, c)[0])
    with torch.no_grad():
        ctx.check(torch.equal(m(x)[0], n(x)[0]), 'rebuilt model predicts '
                  'differently')
    ctx.check([n.is_model_in_normalized, n.is_model_out_normalized,
               n.model_name] == flags + ['net'], 'rebuilt model attributes')
    ctx.nontrivial(c['nl'] > 1)
