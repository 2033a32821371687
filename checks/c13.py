"""C13: hybrid models and their building blocks."""
import os
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
from model_architectures.hybrid_base_model.model.hybrid_model import \
    HybridModel
from model_architectures.hybrid_base_model.model.hybridized_model import \
    set_hybridized_model
from model_architectures.hybrid_base_model.model import (
    hybridized_layers as HL, transfer_learning as TL)
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from utilities.data_scalers import TorchStandardScaler, TorchMinMaxScaler
from c12 import reference

PROPERTY = 'C13'
RULE = ('Random channel layouts (1-3 channels of 1-3 sub-models, shuffled '
        'declaration order, gaps in the indices), sub-models from affine, '
        'polynomial, gated recurrent, elastic and volumetric/deviatoric '
        'blocks, normalised or not; non-trivial if there are at least two '
        'sub-models, or for single blocks at least two steps.')

C3 = ('11', '22', '33', '12', '23', '13')
C2 = ('11', '22', '12')


# ---- sub-models of the harness -------------------------------------------
class Affine(torch.nn.Module):
    """Pointwise affine map, optionally returning a tuple."""

    def __init__(self, w, b, is_tuple, n_in=False, n_out=False):
        super().__init__()
        self.w = torch.nn.Parameter(torch.tensor(w))
        self.b = torch.nn.Parameter(torch.tensor(b))
        self.is_tuple = is_tuple
        self.is_model_in_normalized = n_in
        self.is_model_out_normalized = n_out
        self._data_scalers = None

    def forward(self, x):
        y = torch.tanh(x @ self.w.T + self.b)*3
        return (y, x) if self.is_tuple else y


def scaler(r, n):
    """A fitted scaler with its forward and inverse reference maps."""
    if r.random() < 0.5:
        m, s = r.standard_normal(n)*2, np.exp(r.uniform(-1, 1, n))
        return (TorchStandardScaler(n, mean=torch.tensor(m),
                                    std=torch.tensor(s)),
                lambda x: (x - m)/s, lambda x: x*s + m)
    lo = r.standard_normal(n)*2
    hi = lo + np.exp(r.uniform(-1, 1, n))
    return (TorchMinMaxScaler(n, minimum=torch.tensor(lo),
                              maximum=torch.tensor(hi)),
            lambda x: 2*(x - lo)/(hi - lo) - 1,
            lambda x: (x + 1)/2*(hi - lo) + lo)


def fill(module, arrays):
    with torch.no_grad():
        for p, v in zip(module.parameters(), arrays, strict=True):
            p.copy_(torch.tensor(v).reshape(p.shape))


# ---- elasticity oracle ----------------------------------------------------
SYMM = {
    'isotropic': ('E1111', 'E1122'),
    'transverse_isotropic': ('E1111', 'E3333', 'E1122', 'E1133', 'E2323'),
    'orthotropic': ('E1111', 'E2222', 'E3333', 'E1122', 'E1133', 'E2233',
                    'E1212', 'E2323', 'E1313'),
    'monoclinic': ('E1111', 'E2222', 'E3333', 'E1122', 'E1133', 'E2233',
                   'E1112', 'E2212', 'E3312', 'E1212', 'E2323', 'E1313',
                   'E2313'),
    'triclinic': ('E1111', 'E1122', 'E1133', 'E1112', 'E1123', 'E1113',
                  'E2222', 'E2233', 'E2212', 'E2223', 'E2213', 'E3333',
                  'E3312', 'E3323', 'E3313', 'E1212', 'E1223', 'E1213',
                  'E2323', 'E2313', 'E1313')}


def elastic_case(r, symmetry, technical, swap):
    """Moduli handed to the code and the explicit fourth-order tensor."""
    if symmetry == 'isotropic' and technical:
        E, v = 10**r.uniform(0, 3), r.uniform(-0.3, 0.45)
        lam, mu = E*v/((1 + v)*(1 - 2*v)), E/(2*(1 + v))
        d = np.eye(3)
        C = (lam*np.einsum('ij,kl->ijkl', d, d)
             + mu*(np.einsum('ik,jl->ijkl', d, d)
                   + np.einsum('il,jk->ijkl', d, d)))
        return {'E': E, 'v': v}, C
    m = {k: r.uniform(1, 10) for k in SYMM[symmetry]}
    a = dict(m)
    if symmetry == 'isotropic':
        a.update(E2222=m['E1111'], E3333=m['E1111'], E1133=m['E1122'],
                 E2233=m['E1122'])
        g = (m['E1111'] - m['E1122'])/2
        a.update(E1212=g, E2323=g, E1313=g)
    elif symmetry == 'transverse_isotropic':
        a.update(E2222=m['E1111'], E2233=m['E1133'], E1313=m['E2323'],
                 E1212=(m['E1111'] - m['E1122'])/2)
    C = np.zeros((3, 3, 3, 3))
    for k, v in a.items():
        i, j, p, q = (int(x) - 1 for x in k[1:])
        for (x, y) in ((i, j), (j, i)):
            for (z, w) in ((p, q), (q, p)):
                C[x, y, z, w] = v
                C[z, w, x, y] = v
    props = {('E' + k[3:5] + k[1:3] if swap and r.random() < 0.5 else k): v
             for k, v in m.items()}
    names = list(props)
    r.shuffle(names)
    return {k: props[k] for k in names}, C


def elastic_ref(C, e, comps):
    """Stress components of strain components, explicit contraction."""
    out = np.zeros_like(e)
    E = np.zeros(e.shape[:-1] + (3, 3))
    for n, k in enumerate(comps):
        i, j = int(k[0]) - 1, int(k[1]) - 1
        E[..., i, j] = E[..., j, i] = e[..., n]
    S = np.einsum('ijkl,...kl->...ij', C, E)
    for n, k in enumerate(comps):
        out[..., n] = S[..., int(k[0]) - 1, int(k[1]) - 1]
    return out


@st.composite
def elastic(draw):
    return {'s': draw(seeds()), 'sym': draw(st.sampled_from(sorted(SYMM))),
            'tech': draw(st.booleans()), 'swap': draw(st.booleans()),
            'pt': draw(st.sampled_from([1, 4])),
            'mod': draw(st.sampled_from(['HL', 'TL'])),
            'double': draw(st.booleans()), 't': draw(st.integers(1, 5)),
            'b': draw(st.integers(0, 4))}


@sub('elastic', elastic, quick=300, thorough=15000)
def _elastic(c, ctx):
    r = rng(c['s'])
    ctx.nontrivial(c['t'] > 1)
    props, C = elastic_case(r, c['sym'], c['tech'], c['swap'])
    comps = C2 if c['pt'] == 1 else C3
    n = len(comps)
    mod = {'HL': HL, 'TL': TL}[c['mod']]
    keep = dict(props)
    m = mod.BatchedElasticModel(c['pt'], props, c['sym'])
    ctx.check(props == keep, 'elastic properties modified')
    shape = (c['t'], n) if c['b'] == 0 else (c['t'], c['b'], n)
    e, ep = r.standard_normal(shape), r.standard_normal(shape)
    if not c['double']:
        x, ref = e, elastic_ref(C, e, comps)
    else:
        x = np.concatenate((ep, e) if c['mod'] == 'HL' else (e, ep), -1)
        ref = elastic_ref(C, e - ep, comps)
    tx = torch.tensor(x)
    y = m(tx)
    ctx.check(np.array_equal(tx.numpy(), x), 'input modified')
    scale = np.abs(C).max()
    ctx.close(y, ref, 1e-9, 1e-9*scale, 'stress of the elastic block')
    ctx.label(c['sym'])


@st.composite
def block(draw):
    return {'s': draw(seeds()), 't': draw(st.integers(1, 5)),
            'b': draw(st.integers(0, 4)), 'n': draw(st.integers(1, 6)),
            'deg': draw(st.integers(1, 4)), 'bias': draw(st.booleans())}


@sub('voldev', block, quick=100, thorough=3000)
def _voldev(c, ctx):
    r = rng(c['s'])
    ctx.nontrivial(c['t'] > 1)
    x = r.standard_normal((c['t'], c['b'], 7) if c['b'] else (c['t'], 7))
    ref = x[..., 1:] + x[..., :1]*np.array([1, 1, 1, 0, 0, 0])
    tx = torch.tensor(x)
    y = HL.VolDevCompositionModel()(tx)
    ctx.close(y, ref, 1e-12, 1e-12, 'volumetric/deviatoric composition')
    ctx.check(np.array_equal(tx.numpy(), x), 'input modified')


def poly_ref(co, x, bias):
    return np.stack([sum(w*x[..., i]**(k if bias else k + 1)
                         for k, w in enumerate(co[i]))
                     for i in range(x.shape[-1])], -1)


@sub('polynomial', block, quick=150, thorough=5000)
def _poly(c, ctx):
    r = rng(c['s'])
    ctx.nontrivial(c['deg'] > 1 and c['n'] > 1)
    m = TL.PolynomialLinearRegressor(c['n'], poly_degree=c['deg'],
                                     is_bias=c['bias'])
    co = r.standard_normal((c['n'], c['deg'] + c['bias']))
    ctx.check(sum(p.numel() for p in m.parameters()) == co.size,
              'number of polynomial coefficients')
    fill(m, list(co))
    x = r.standard_normal((c['t'], c['b'], c['n']) if c['b']
                          else (c['t'], c['n']))
    tx = torch.tensor(x)
    y = m(tx)
    ctx.close(y, poly_ref(co, x, c['bias']), 1e-9, 1e-9, 'polynomial block')
    ctx.check(np.array_equal(tx.numpy(), x), 'input modified')


# ---- composition ----------------------------------------------------------
KINDS = ('affine', 'affine', 'tuple', 'poly', 'gru', 'elasticHL',
         'elasticTL', 'voldev')


@st.composite
def hybrid(draw):
    nch = draw(st.integers(1, 3))
    chans = [[(draw(st.sampled_from(KINDS)), draw(st.booleans()),
               draw(st.booleans()), draw(st.booleans()))
              for _ in range(draw(st.integers(1, 3)))] for _ in range(nch)]
    return {'s': draw(seeds()), 'ch': chans,
            'ni': draw(st.integers(1, 7)), 'no': draw(st.integers(1, 6)),
            't': draw(st.integers(1, 4)), 'b': draw(st.integers(0, 3)),
            'out_norm': draw(st.booleans()),
            'kind': draw(st.sampled_from(['identity', 'additive'])),
            'via': draw(st.booleans())}


def make_gru(r, ni, no, nin, nout):
    nh, nl = int(r.integers(1, 4)), int(r.integers(1, 3))
    ws = [[r.standard_normal((3*nh, ni if k == 0 else nh)),
           r.standard_normal((3*nh, nh)), r.standard_normal(3*nh),
           r.standard_normal(3*nh)] for k in range(nl)]
    wo, bo = r.standard_normal((no, nh)), r.standard_normal(no)
    args = dict(n_features_in=ni, n_features_out=no, hidden_layer_size=nh,
                model_directory=None, model_name='sub',
                is_model_in_normalized=nin, is_model_out_normalized=nout,
                n_recurrent_layers=nl,
                gru_model_source=('torch', 'custom')[int(r.integers(2))])

    def ref(x):
        z = x[:, None] if x.ndim == 2 else x
        o, _ = reference(ws, z, np.zeros((nl, z.shape[1], nh)))
        o = o @ wo.T + bo
        return o[:, 0] if x.ndim == 2 else o
    return args, [v for w in ws for v in w] + [wo, bo], ref


def build(c, r, d):
    """Sub-models as handed to the code, and the reference composition."""
    entries, refs = [], []
    rows = sorted(r.choice(12, len(c['ch']), replace=False).tolist())
    for row, ch in zip(rows, c['ch']):
        cols = sorted(r.choice(12, len(ch), replace=False).tolist())
        n, stages = c['ni'], []
        for k, (col, (kind, res, nin, nout)) in enumerate(zip(cols, ch)):
            last = k == len(ch) - 1
            m_in = n + (c['ni'] if res else 0)
            pool = [kind]
            if (kind == 'voldev' and m_in != 7) or (
                    kind.startswith('elastic') and m_in not in (
                        3, 6, 12)):
                kind = 'affine'
            no = int(r.choice([1, 2, 3, 6, 7]))
            if last:
                no = c['no']
            if kind == 'voldev':
                no = 6
            elif kind == 'poly':
                no = m_in
            elif kind.startswith('elastic'):
                # the number of inputs fixes the dimension
                two_d = m_in == 3 or (m_in == 6 and r.random() < 0.5)
                no = 3 if two_d else 6
            if last and no != c['no']:
                kind, no = 'affine', c['no']
            sc_in, f_in, _ = scaler(r, m_in)
            sc_out, _, g_out = scaler(r, no)
            data = None
            if kind in ('affine', 'tuple'):
                w, b = r.standard_normal((no, m_in)), r.standard_normal(no)
                model = Affine(w, b, kind == 'tuple', nin, nout)
                model._data_scalers = {'features_in': sc_in,
                                       'features_out': sc_out}
                ref = (lambda x, w=w, b=b: np.tanh(x @ w.T + b)*3)
            elif kind == 'poly':
                bias, deg = bool(r.random() < 0.5), int(r.integers(1, 4))
                args = dict(n_features_in=m_in, poly_degree=deg,
                            is_bias=bias, is_model_in_normalized=nin,
                            is_model_out_normalized=nout)
                co = r.standard_normal((m_in, deg + bias))
                cls, w = TL.PolynomialLinearRegressor, list(co)
                ref = (lambda x, co=co, bias=bias: poly_ref(co, x, bias))
                data = (cls, args, w)
            elif kind == 'gru':
                args, w, ref = make_gru(r, m_in, no, nin, nout)
                cls = GRURNNModel
                data = (cls, args, w)
            elif kind.startswith('elastic'):
                sym = sorted(SYMM)[int(r.integers(5))]
                props, C = elastic_case(r, sym, True, True)
                comps = C2 if two_d else C3
                cls = (HL if kind == 'elasticHL' else TL).BatchedElasticModel
                args = dict(problem_type=1 if two_d else 4,
                            elastic_properties=props, elastic_symmetry=sym)
                nin = nout = False
                data = (cls, args, [])

                def ref(x, C=C, comps=comps, q=len(comps), kind=kind):
                    if x.shape[-1] == 2*q:
                        x = x[..., :q] - x[..., q:]
                        x = -x if kind == 'elasticHL' else x
                    return elastic_ref(C, x, comps)
            else:
                cls, args = HL.VolDevCompositionModel, {}
                nin = nout = False
                data = (cls, args, [])
                ref = (lambda x: x[..., 1:]
                       + x[..., :1]*np.array([1, 1, 1, 0, 0, 0]))
            if data is None:
                e = {'hyb_model': model, 'hyb_indices': (row, col),
                     'is_input_residual': res}
            else:
                cls, args, w = data
                tmp = cls(**args, **({'is_save_model_init_file': False}
                                     if cls is GRURNNModel else {}))
                fill(tmp, w)
                kw = {}
                if w:
                    p = os.path.join(d, f'sub{row}_{col}.pt')
                    torch.save(tmp.state_dict(), p)
                    kw['model_state_file_path'] = p
                if nin or nout:
                    kw['data_scalers'] = {'features_in': sc_in,
                                          'features_out': sc_out}
                e = set_hybridized_model(cls, (row, col),
                                         model_init_args=args,
                                         is_input_residual=res, **kw)
            entries.append(e)
            stages.append((res, f_in if nin else None, ref,
                           g_out if nout else None))
            n = no
        refs.append(stages)
    names = [f'm{i}' for i in range(len(entries))]
    order = r.permutation(len(entries))
    return {names[i]: entries[i] for i in order}, refs


def compose(refs, x, kind):
    outs = []
    for stages in refs:
        z = x
        for res, f_in, ref, g_out in stages:
            if res:
                z = np.concatenate((z, x), -1)
            if f_in is not None:
                z = f_in(z)
            z = ref(z)
            if g_out is not None:
                z = g_out(z)
        outs.append(z)
    return outs[0] if kind == 'identity' else sum(outs)


@sub('compose', hybrid, quick=250, thorough=15000, shards=3)
def _compose(c, ctx):
    r = rng(c['s'])
    d = ctx.scratch()
    models, refs = build(c, r, d)
    ctx.nontrivial(len(models) > 1)
    m = HybridModel(c['ni'], c['no'], models, d, model_name='hyb',
                    hybridization_type=c['kind'],
                    is_model_out_normalized=c['out_norm'],
                    is_save_model_init_file=False)
    so, f_out, _ = scaler(r, c['no'])
    if c['out_norm']:
        m._data_scalers = {'features_in': None, 'features_out': so}
    x = r.standard_normal((c['t'], c['b'], c['ni']) if c['b']
                          else (c['t'], c['ni']))
    ref = compose(refs, x, c['kind'])
    if c['out_norm']:
        ref = f_out(ref)
    tx = torch.tensor(x)
    with torch.no_grad():
        y = m(tx)
        big = 1 + np.abs(ref).max()
        ctx.close(y, ref, 1e-7, 1e-8*big, 'hybrid model output')
        ctx.check(np.array_equal(tx.numpy(), x), 'input modified')
        ctx.check(torch.equal(m(tx), y), 'repeated evaluation differs')
        # each sequence of the batch on its own
        for k in range(c['b']):
            ctx.close(m(tx[:, k].contiguous()), y[:, k], 1e-7, 1e-8*big,
                      'batch coupling')
    # learnable parameters are those of the sub-models
    want = {id(p) for e in models.values()
            for p in e['hyb_model'].parameters()}
    ctx.check({id(p) for p in m.parameters()} == want,
              'learnable parameters')
    for k, e in models.items():
        ctx.check(m.get_hybridized_model(k) is e['hyb_model'],
                  'sub-model by name')
    # restore from the initialization file and the saved parameters
    m.save_model_init_file()
    torch.save(m.state_dict(), os.path.join(d, 'state.pt'))
    m2 = HybridModel.init_model_from_file(model_directory=d)
    m2.load_state_dict(torch.load(os.path.join(d, 'state.pt')))
    with torch.no_grad():
        ctx.check(torch.equal(m2(tx), y), 'restored model differs')


@st.composite
def dup(draw):
    n = draw(st.integers(2, 5))
    idx = draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, 2)),
                        min_size=n, max_size=n))
    return {'idx': [list(i) for i in idx]}


@sub('duplicates', dup, quick=100, thorough=2000)
def _dup(c, ctx):
    models = {f'm{i}': {'hyb_model': Affine(np.eye(2), np.zeros(2), False),
                        'hyb_indices': tuple(k), 'is_input_residual': False}
              for i, k in enumerate(c['idx'])}
    bad = len({tuple(k) for k in c['idx']}) < len(c['idx'])
    ctx.nontrivial(bad)
    try:
        HybridModel(2, 2, models, None, is_save_model_init_file=False)
        raised = False
    except RuntimeError:
        raised = True
    ctx.check(raised == bad, 'duplicate positions must be refused, and '
              'distinct positions accepted')
