"""C09: force-equilibrium loss of the material model finder."""
import copy
import glob
import os
import pickle
import warnings
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds, fl
import fe
import materials as M
from c05 import LEARN, slot, with_values, base_value
from c12 import reference, weights, fill, flat
import material_model_finder.model.material_discovery as MD
from material_model_finder.model.material_discovery import \
    MaterialModelFinder
from material_model_finder.data.specimen_data import SpecimenNumericalData
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState
from time_series_data.time_dataset import load_dataset

PROPERTY = 'C09'
RULE = ('Random meshes (every element type and quadrature, distorted, '
        'shuffled numbering, 1-8 elements), random displacement and reaction '
        'histories of 1-4 steps, random boundary condition masks or sets, '
        'elastic, elastoplastic (standard and vectorised) and recurrent '
        'network materials, optional time weights, scaling and force '
        'normalisation; non-trivial if there are at least two elements or '
        'two steps.')
T = torch.tensor
ELEM, VMAP, TIME = ('sequential_element', 'sequential_element_vmap',
                    'sequential_time')
# Figures need a LaTeX installation: only the data files are judged.
for _k in ('plot_xy_data', 'save_figure'):
    if hasattr(MD, _k):
        setattr(MD, _k, lambda *a, **k: (None, None))


@st.composite
def case(draw, names=('el', 'vm', 'vmm', 'dp', 'gru'),
         kinds=('linear', 'nadai_ludwik', 'piecewise_linear'), big=False):
    e = draw(st.sampled_from(fe.NAMES))
    d = fe.dim(e)
    m = draw(st.sampled_from(list(names)))
    hi = 2 if d == 2 else 1
    if big and d == 2:
        hi = 3
    n = [draw(st.integers(1, hi)) for _ in range(d)]
    if d == 3 and e in ('tetra4', 'hexa8'):
        n[draw(st.integers(0, 2))] = draw(st.integers(1, 2))
    mat = draw(M.model(names=(m if m != 'gru' else 'el',), kinds=kinds))
    mat['moduli'] = False
    learn = []
    if m != 'gru':
        ok = []
        for k in LEARN[m]:
            dd, key = slot(M.parameters(mat), k)
            if key in dd:
                ok.append(k)
        learn = draw(st.lists(st.sampled_from(ok), min_size=1, max_size=3,
                              unique=True))
    return {'e': e, 'g': draw(st.sampled_from(fe.GAUSS[e])), 'n': n,
            'jit': draw(st.sampled_from([0.0, 0.2])),
            'aff': draw(st.booleans()), 's': draw(seeds()), 'mat': mat,
            'kind': m, 'learn': learn, 'nt': draw(st.integers(1, 4)),
            'f': draw(fl(0.2, 3.0)), 'start': draw(st.booleans()),
            'vm': draw(st.booleans()) if m not in ('el',) else False,
            'man': draw(st.booleans()),
            'pnorm': draw(st.booleans()), 'w': draw(st.booleans()),
            'scale': draw(st.sampled_from([None, None, 0.37, 25.0, 0.0])),
            'fnorm': draw(st.booleans()),
            'free': draw(st.sampled_from([0.0, 0.5, 0.5, 1.0])),
            'nl': draw(st.integers(1, 2)), 'nh': draw(st.integers(1, 4)),
            'io': draw(st.sampled_from(['', 'i', 'o', 'io']))}


# ---- specimen -------------------------------------------------------------
class Specimen:
    def __init__(self, c, r):
        self.c, self.name = c, c['e']
        self.d = fe.dim(c['e'])
        A = fe.rand_affine(r, self.d, 0.5, 2.0) if c['aff'] else None
        self.X, self.cells, _ = fe.grid_mesh(c['e'], c['n'], r, c['jit'], A)
        self.ok = all(np.linalg.det(fe.jac(self.name, self.X[q], p)) > 0
                      for q in self.cells for p in fe.NODES[self.name])
        self.size = np.ptp(self.X, axis=0).max()
        y = M.yield_strain(c['mat'])*c['f']
        du = y*self.size*0.3*r.standard_normal((c['nt'],) + self.X.shape)
        self.y = y
        u = np.cumsum(du, 0)
        self.u = np.concatenate([np.zeros((1,) + self.X.shape), u])
        if c['start']:      # the first recorded state is not undeformed
            self.u = self.u + y*self.size*0.3*r.standard_normal(
                self.X.shape)
        self.nt = c['nt'] + 1
        self.free = r.random(self.X.shape) < c['free']
        self.gauss = [c['g']]*len(self.cells)

    def strains(self, e):
        """Strain histories at the Gauss points of an element."""
        out = []
        xs, ws = fe.make_element(
            self.name, self.gauss[e]).get_gauss_integration_points()
        q = self.cells[e]
        for k in xs:
            x = to_np(xs[k])
            J = fe.jac(self.name, self.X[q], x)
            dN = np.linalg.solve(J, fe.dshape(self.name, x).T).T
            G = np.einsum('tni,nj->tij', self.u[:, q], dN)
            out.append((0.5*(G + G.transpose(0, 2, 1)), dN,
                        float(ws[k])*np.linalg.det(J)))
        return out


def forces(sp, response):
    """Assembled internal forces; also the Gauss point responses."""
    F = np.zeros((sp.nt,) + sp.X.shape)
    paths, smax = {}, 0.0
    for e, q in enumerate(sp.cells):
        for g, (strain, dN, w) in enumerate(sp.strains(e)):
            sig = response(e, strain)
            if sig is None:
                return None, None, None
            paths[e, g] = (strain, sig)
            smax = max(smax, np.abs(sig).max())
            F[:, q] += w*np.einsum('nj,tij->tni', dN, sig)
    return F, paths, smax


def plastic_response(mat, p, d, vmap):
    m = M.CLASSES[(mat['m'], int(vmap))]('infinitesimal', {2: 1, 3: 4}[d],
                                         copy.deepcopy(p))

    def f(strain):
        sv = m.state_init()
        out = [np.zeros((d, d))]
        for inc in np.diff(strain, axis=0):
            sv, _ = m.state_update(T(inc), sv)
            if M.failed(sv):
                return None
            out.append(M.from_kelvin(sv['stress_mf'], d))
        return np.stack(out)
    return f


class Gru:
    """A random recurrent network material and its reference response."""

    def __init__(self, c, r, d):
        q = M.ORDER[d]
        self.q, self.d, self.c = q, d, c
        self.cc = {'ni': len(q), 'nh': c['nh'], 'nl': c['nl'], 'amp': 0.8,
                   'bias': True}
        self.w = weights(r, self.cc)
        self.lw = r.standard_normal((len(q), c['nh']))
        self.lb = r.standard_normal(len(q))
        eps = M.yield_strain(c['mat'])*c['f']
        s = c['mat']['E']*eps
        self.im, self.isd = (r.standard_normal(len(q))*eps*0.3,
                             eps*np.exp(r.uniform(-1, 1, len(q))))
        self.om, self.osd = (r.standard_normal(len(q))*s,
                             s*np.exp(r.uniform(-1, 1, len(q))))

    def response(self, strain):
        x = np.stack([strain[:, int(k[0]) - 1, int(k[1]) - 1]
                      for k in self.q], 1)
        if 'i' in self.c['io']:
            x = (x - self.im)/self.isd
        h, _ = reference(self.w, x[:, None], np.zeros(
            (self.c['nl'], 1, self.c['nh'])))
        y = h[:, 0] @ self.lw.T + self.lb
        if 'o' in self.c['io']:
            y = y*self.osd + self.om
        out = np.zeros((len(x), self.d, self.d))
        for j, k in enumerate(self.q):
            a, b = int(k[0]) - 1, int(k[1]) - 1
            out[:, a, b] = out[:, b, a] = y[:, j]
        return out

    def arrays(self):
        return flat(self.w, True) + [self.lw, self.lb]

    def kwargs(self, tmp, source):
        q = len(self.q)
        return {'n_features_in': q, 'n_features_out': q,
                'hidden_layer_size': self.c['nh'],
                'n_recurrent_layers': self.c['nl'], 'dropout': 0.0,
                'model_directory': tmp, 'gru_model_source': source,
                'is_model_in_normalized': 'i' in self.c['io'],
                'is_model_out_normalized': 'o' in self.c['io'],
                'device_type': 'cpu', 'scaling_type': 'mean-std',
                'scaling_parameters': {
                    'features_in': {'mean': T(self.im), 'std': T(self.isd)},
                    'features_out': {'mean': T(self.om),
                                     'std': T(self.osd)}}}


def learnable(c, mat, learn, r):
    p = M.parameters(mat)
    lp = {}
    for k in learn:
        x = base_value(p, k)
        w = abs(x) + 0.1
        lp[k] = {'initial_value': x, 'bounds': (
            x - w*r.uniform(0.05, 2), x + w*r.uniform(0.05, 2))}
    return p, lp


def rc_kwargs(c, mat, lp, tmp, d, vmap, check=False):
    q = len(M.ORDER[d])
    return {'n_features_in': q, 'n_features_out': q,
            'learnable_parameters': copy.deepcopy(lp),
            'material_model_name': M.FULL_NAME[mat['m']] + (
                '_vmap' if vmap else ''),
            'state_features_out': {},
            'is_auto_sync_parameters': not (vmap and c['man']),
            'is_check_su_fail': check, 'model_directory': tmp,
            'is_normalized_parameters': c['pnorm'],
            'is_model_in_normalized': False,
            'is_model_out_normalized': False, 'device_type': 'cpu'}


def specimen_data(sp, reac, bc, dirb, r):
    s = SpecimenNumericalData()
    keys = [str(i + 1) for i in range(len(sp.cells))]
    r.shuffle(keys)
    types = {k: fe.make_element(sp.name, sp.gauss[int(k) - 1]) for k in keys}
    conn = {k: tuple(n + 1 for n in sp.cells[int(k) - 1]) for k in keys}
    s.set_specimen_mesh(T(sp.X), types, conn, T(dirb.astype(int)))
    wide = r.random() < 0.5

    def tl(a):
        a = T(np.ascontiguousarray(np.moveaxis(a, 0, 2)))
        if wide:    # part of a larger array, as read from files
            b = torch.full((a.shape[0], a.shape[1] + 5, a.shape[2]), 7,
                           dtype=a.dtype)
            b[:, 2:2 + a.shape[1]] = a
            a = b[:, 2:2 + a.shape[1]]
        return a
    s.set_specimen_data(tl(sp.u), tl(reac), tl(np.broadcast_to(
        bc, (sp.nt,) + bc.shape).copy()), T(np.linspace(0, 1, sp.nt)))
    return s, types


def plain(state):
    """The documented work-around that admits plain material models."""
    del state._material_models
    state._material_models = {}


class Loss:
    """Reference loss of given internal forces."""

    def __init__(self, c, r, sp, F):
        self.c = c
        d = sp.d
        a = np.abs(F).max() + 1e-30
        # force bounds, deliberately not symmetric about zero
        self.lo = -a*r.uniform(0.1, 3, d)
        self.hi = a*r.uniform(0.1, 3, d)
        self.s = 2/(self.hi - self.lo) if c['fnorm'] else np.ones(d)
        self.w = r.uniform(0, 2, sp.nt) if c['w'] else np.ones(sp.nt)
        if c['w'] and sp.nt > 2 and r.random() < 0.3:
            self.w[int(r.integers(sp.nt))] = 0.0
        self.k = 1.0 if c['scale'] is None else c['scale']

    def kwargs(self):
        k = {'loss_scaling_factor': self.c['scale'],
             'loss_time_weights': T(self.w) if self.c['w'] else None}
        if self.c['fnorm']:
            k.update(force_minimum=T(self.lo), force_maximum=T(self.hi))
        return k

    def hist(self, F, reac, bc, df, sets=False):
        """Free and constrained loss per step, and its error bound."""
        imb = np.where(bc > 0, F - reac, F)*self.s
        df = df*self.s
        free = np.where(bc == 0, imb**2, 0).sum((1, 2))
        tol = (2*np.abs(imb)*df + df**2).sum((1, 2))
        if sets:
            con = np.zeros(len(F))
            for k in np.unique(bc[bc > 0]):
                x = np.where(bc == k, imb, 0).sum((1, 2))
                n = np.where(bc == k, df, 0).sum()
                con += x**2
                tol += 2*np.abs(x)*n + n**2
        else:
            con = np.where(bc > 0, imb**2, 0).sum((1, 2))
        f = self.w*self.k
        return f*free, f*con, f*tol

    def value(self, *a, **k):
        free, con, tol = self.hist(*a, **k)
        t = (free + con).sum()
        return t, tol.sum() + 1e-10*t + 1e-300


def force_error(sp, smax, E):
    return 2e-5*(smax*sp.size**(sp.d - 1)) + 1e-11*E*max(
        sp.y*sp.size, np.abs(sp.u).max())*sp.size**(sp.d - 2)


def modes(c):
    if c['kind'] == 'el':
        return [ELEM]
    if c['kind'] == 'gru':
        return [ELEM, VMAP] if c['vm'] else [ELEM]
    if c['vm'] and c['man']:
        return [VMAP]       # parameters are synchronised by the finder
    return [ELEM, VMAP] if c['vm'] else [ELEM]


def setup(c, ctx, r):
    """Specimen, reference response and the model arguments."""
    sp = Specimen(c, r)
    if not sp.ok:
        return None
    d = sp.d
    ctx.nontrivial(len(sp.cells) > 1 or sp.nt > 2)
    ctx.label(c['e'] if c['s'] % 2 else c['kind'] + ('v' if c['vm'] else ''))
    tmp = ctx.scratch()
    if c['kind'] == 'gru':
        g = Gru(c, r, d)
        resp = lambda e, s: g.response(s)
        args = ('gru_material_model', None, g.kwargs(
            tmp, 'custom' if c['vm'] else 'torch'))
        vals = None
        par = g
    else:
        p, lp = learnable(c, c['mat'], c['learn'], r)
        vals = {k: v['initial_value'] for k, v in lp.items()}
        f = plastic_response(c['mat'], p, d, c['vm'])
        resp = lambda e, s: f(s)
        args = ('rc_model', p, rc_kwargs(c, c['mat'], lp, tmp, d, c['vm']))
        par = (p, lp)
    return sp, resp, args, par, tmp


def finder_of(c, tmp, sp, data, types, args, loss, kind='pointwise', par=None,
              **kw):
    state = StructureMaterialState('infinitesimal', {2: 1, 3: 4}[sp.d],
                                   len(sp.cells))
    name, p, mk = args
    state.init_elements_model(
        name, copy.deepcopy(p), [i + 1 for i in range(len(sp.cells))],
        types, copy.copy(mk))
    if isinstance(par, Gru):
        fill(list(state.get_material_models().values())[0], par.arrays())
    sub_dir = os.path.join(tmp, f'f{len(os.listdir(tmp))}')
    os.mkdir(sub_dir)
    f = MaterialModelFinder(sub_dir, force_equilibrium_loss_type=kind,
                            is_force_normalization=c['fnorm'], **kw)
    f.set_specimen_data(data, state, **loss.kwargs())
    return f, state, sub_dir


def reactions(c, r, sp, F):
    return F*r.choice([0.0, 0.9, 1.0, 1.3]) + 0.5*np.abs(F).max(
        )*r.standard_normal(F.shape)*r.choice([0.0, 1.0])


@sub('loss', lambda: case(big=True), quick=280, thorough=6000, shards=7)
def _loss(c, ctx):
    r = rng(c['s'])
    S = setup(c, ctx, r)
    if S is None:
        return
    sp, resp, args, par, tmp = S
    F, _, smax = forces(sp, resp)
    if F is None:
        return
    reac = reactions(c, r, sp, F)
    bc = (~sp.free).astype(int)
    loss = Loss(c, r, sp, F)
    df = force_error(sp, smax, c['mat']['E'])
    want, tol = loss.value(F, reac, bc, df)
    data, types = specimen_data(sp, reac, bc, bc, r)
    f, state, _ = finder_of(c, tmp, sp, data, types, args, loss, par=par)
    ms = modes(c)
    for k in ms + ms[::-1]:     # also repeatedly, in any order
        got = float(f(sequential_mode=k).detach())
        ctx.check(abs(got - want) <= tol,
                  f'{k}: loss {got:.10g}, imbalance gives {want:.10g} '
                  f'(tolerance {tol:.2g})')
    # a material that reproduces the data has no loss
    if c['free'] == 0.0:
        data, types = specimen_data(sp, F, bc, bc, r)
        f, _, _ = finder_of(c, tmp, sp, data, types, args, loss, par=par)
        _, tol = loss.value(F, F, bc, df)
        for k in ms:
            got = float(f(sequential_mode=k).detach())
            ctx.check(abs(got) <= tol, f'{k}: loss {got:.6g} of a material '
                      f'reproducing the reactions (tolerance {tol:.2g})')
    # the parameters of the material govern the loss
    if c['kind'] == 'gru':
        return
    p, lp = par
    new = {}
    model = list(f.get_material_models().values())[0]
    pd = model.get_model_parameters()
    for k in pd:
        lo, hi = lp[k]['bounds']
        x = lp[k]['initial_value']
        if k == 'v':
            hi = min(hi, 0.45)
            lo = max(lo, 0.0)
        elif k != 'E' or True:
            lo = max(lo, 0.5*x)
        new[k] = lo + (hi - lo)*r.uniform(0.2, 0.8) if hi > lo else x
        full_lo, full_hi = lp[k]['bounds']
        raw = new[k]
        if c['pnorm']:
            a, b = model.get_model_parameters_norm_bounds()[k]
            raw = a + (b - a)*(new[k] - full_lo)/(full_hi - full_lo)
        with torch.no_grad():
            pd[k].fill_(raw)
    d = sp.d
    g = plastic_response(c['mat'], with_values(p, new), d, c['vm'])
    F2, _, s2 = forces(sp, lambda e, s: g(s))
    if F2 is None:
        return
    R = F if c['free'] == 0.0 else reac
    want, tol = loss.value(F2, R, bc, force_error(sp, s2, new.get(
        'E', c['mat']['E'])))
    for k in ms:
        got = float(f(sequential_mode=k).detach())
        ctx.check(abs(got - want) <= tol,
                  f'{k}: loss after a parameter change {got:.10g}, '
                  f'imbalance gives {want:.10g} (tolerance {tol:.2g})')


@sub('dirichlet_sets', lambda: case(names=('vm', 'vmm', 'dp', 'gru')),
     quick=180, thorough=3000, shards=3)
def _sets(c, ctx):
    c = dict(c, vm=True)
    r = rng(c['s'])
    S = setup(c, ctx, r)
    if S is None:
        return
    sp, resp, args, par, tmp = S
    F, _, smax = forces(sp, resp)
    if F is None:
        return
    reac = reactions(c, r, sp, F)
    # sets of dofs, each in one dimension, with gaps in the labels
    labels = r.permutation(9)[:6] + 1
    if r.random() < 0.5:
        labels = r.permutation(12)[:6]*128 + int(r.integers(1, 1000))
    elif r.random() < 0.5:
        labels = (r.permutation(12)[:6] + 1)*256
    bc = np.zeros(sp.X.shape, int)
    for j in range(sp.d):
        bc[:, j] = labels[2*j + r.integers(0, 2, len(bc))]
    bc[sp.free] = 0
    loss = Loss(c, r, sp, F)
    df = force_error(sp, smax, c['mat']['E'])
    want, tol = loss.value(F, reac, bc, df, sets=True)
    data, types = specimen_data(sp, reac, bc, bc > 0, r)
    f, state, out = finder_of(
        c, tmp, sp, data, types, args, loss, 'dirichlet_sets', par=par,
        is_store_force_equilibrium_loss_hist=True,
        is_compute_sets_reaction_hist=True)
    for _ in range(2):
        got = float(f(sequential_mode=VMAP).detach())
        ctx.check(abs(got - want) <= tol,
                  f'loss {got:.10g}, imbalance gives {want:.10g} '
                  f'(tolerance {tol:.2g})')
    files = glob.glob(os.path.join(out, '*', '*.pkl'))
    with open([k for k in files if 'loss' in os.path.basename(k)][0],
              'rb') as fh:
        h = list(pickle.load(fh).values())[0]
    free, con, tl = loss.hist(F, reac, bc, df, sets=True)
    ctx.check(h.shape == (3, sp.nt), f'loss history shape {h.shape}')
    tl = tl + 1e-10*(free + con) + 1e-300
    for i, ref in enumerate((free + con, free, con)):
        ctx.check(np.all(np.abs(h[i] - ref) <= tl),
                  f'stored loss history row {i}: {h[i]} for {ref}')
    with open([k for k in files if 'sets' in os.path.basename(k)][0],
              'rb') as fh:
        h = list(pickle.load(fh).values())[0]
    ks = np.unique(np.append(bc.reshape(-1), 0))
    ctx.check(h.shape == (len(ks), 1, sp.nt),
              f'set reactions shape {h.shape}')
    import pandas
    table = pandas.read_csv(glob.glob(os.path.join(out, '*', '*.csv'))[0])
    for i, k in enumerate(ks):
        ref = np.where(bc == k, F, 0).sum((1, 2))
        n = max((bc == k).sum(), 1)
        ctx.close(h[i, 0], ref, 0, n*df, f'reaction of set {k}')
        ctx.close(table.to_numpy()[:, i], h[i, 0], 1e-12, 0,
                  f'exported reaction of set {k}')


@sub('stored', lambda: case(), quick=90, thorough=2000, shards=2)
def _stored(c, ctx):
    """Stored loss history and local strain-stress paths."""
    r = rng(c['s'])
    S = setup(c, ctx, r)
    if S is None:
        return
    sp, resp, args, par, tmp = S
    F, paths, smax = forces(sp, resp)
    if F is None:
        return
    reac = reactions(c, r, sp, F)
    bc = (~sp.free).astype(int)
    loss = Loss(c, r, sp, F)
    data, types = specimen_data(sp, reac, bc, bc, r)
    elems = None
    if r.random() < 0.6:
        elems = [int(k) + 1 for k in np.sort(r.permutation(len(sp.cells))[
            :int(r.integers(1, len(sp.cells) + 1))])]
    f, state, out = finder_of(
        c, tmp, sp, data, types, args, loss, par=par,
        is_store_force_equilibrium_loss_hist=True, is_store_local_paths=True,
        local_paths_elements=elems)
    q = M.ORDER[sp.d]
    for k in modes(c):
        for rep in range(2):
            f(sequential_mode=k)
        fs = glob.glob(os.path.join(out, 'local_response_dataset', '*.pkl'))
        ctx.check(len(fs) == 1, f'{k}: stored data sets {fs}')
        ds = load_dataset(fs[0])
        ref = [paths[e - 1, g] for e in (
            elems or range(1, len(sp.cells) + 1)) for g in range(
                len(sp.strains(0)))]
        ctx.check(len(ds) == len(ref), f'{k}: {len(ds)} stored paths, '
                  f'{len(ref)} Gauss points')
        for s, (e, sig) in zip(ds, ref):
            for key, a, t in (('strain', e, 1e-9*np.abs(e).max()),
                              ('stress', sig, 1e-5*smax
                               + 1e-12*c['mat']['E'])):
                o = s[key + '_comps_order']
                want = np.stack([a[:, int(j[0]) - 1, int(j[1]) - 1]
                                 for j in o], 1)
                ctx.check(sorted(o) == sorted(q), f'{k}: components {o}')
                ctx.close(s[key + '_path'], want, 0, t + 1e-15,
                          f'{k}: stored {key} path')
            ctx.close(to_np(s['time_hist']).reshape(-1),
                      np.linspace(0, 1, sp.nt), 1e-14, 0, 'time history')
        if k == VMAP:
            df = force_error(sp, smax, c['mat']['E'])
            free, con, tl = loss.hist(F, reac, bc, df)
            fl_ = glob.glob(os.path.join(out, '*', '*loss*.pkl'))
            with open(fl_[0], 'rb') as fh:
                h = list(pickle.load(fh).values())[0]
            ctx.check(h.shape == (1, sp.nt), f'loss history {h.shape}')
            tl = tl + 1e-10*(free + con) + 1e-300
            ctx.check(np.all(np.abs(h[0] - free - con) <= tl),
                      f'stored loss history {h[0]} for {free + con}')


@sub('gradient', lambda: case(names=('el', 'vm', 'vmm', 'dp'),
                              kinds=('linear',)),
     quick=120, thorough=2400, shards=4)
def _gradient(c, ctx):
    r = rng(c['s'])
    S = setup(c, ctx, r)
    if S is None:
        return
    sp, resp, args, par, tmp = S
    F, _, smax = forces(sp, resp)
    if F is None:
        return
    reac = reactions(c, r, sp, F)
    bc = (~sp.free).astype(int)
    loss = Loss(c, r, sp, F)
    data, types = specimen_data(sp, reac, bc, bc, r)
    f, state, _ = finder_of(c, tmp, sp, data, types, args, loss, par=par)
    p, lp = par
    model = list(f.get_material_models().values())[0]
    pd = model.get_model_parameters()
    d = sp.d
    ks = modes(c)
    grads = {}
    for k in ks:
        for q in pd.values():
            q.grad = None
        val = f(sequential_mode=k)
        if val.requires_grad:   # it need not depend on any of them
            val.backward()
        grads[k] = {n: 0.0 if q.grad is None else float(q.grad)
                    for n, q in pd.items()}
    L0, _ = loss.value(F, reac, bc, 0.0)

    def at(name, x):
        g = plastic_response(c['mat'], with_values(p, {name: x}), d, c['vm'])
        F2, _, _ = forces(sp, lambda e, s: g(s))
        return None if F2 is None else loss.value(F2, reac, bc, 0.0)[0]
    for n in pd:
        x = lp[n]['initial_value']
        lo, hi = lp[n]['bounds']
        h = 1e-5*(abs(x) if n != 'v' else 0.3)
        if h == 0:
            continue
        v = [at(n, x + k*h) for k in (-2, -1, 1, 2)]
        if any(k is None for k in v):
            continue
        d1, d2 = (v[2] - v[1])/(2*h), (v[3] - v[0])/(4*h)
        mag = max(L0, *v)/(abs(x) + 1e-3*abs(hi - lo))
        right, left = (v[3] - L0)/(2*h), (L0 - v[0])/(2*h)
        scale = abs(d1) + 1e-3*mag
        if abs(d1 - d2) > 1e-4*scale or abs(right - left) > 1e-2*scale:
            continue        # a Gauss point changes regime here
        # one-sided differences bound a possible jump of the derivative
        tol = (2e-3*scale + 2*abs(right - left))
        J = 1.0
        if c['pnorm']:
            a, b = model.get_model_parameters_norm_bounds()[n]
            J = (hi - lo)/(b - a)
        for k in ks:
            ctx.label('gradient')
            ctx.check(abs(grads[k][n] - d1*J) <= tol*abs(J),
                      f'{k}: d loss / d {n} is {grads[k][n]:.8g}, '
                      f'differences give {d1*J:.8g}')


@sub('two_materials', lambda: case(names=('el', 'vm', 'vmm', 'dp')),
     quick=100, thorough=2000, shards=2)
def _two(c, ctx):
    """Elements of different materials, and what cannot be vectorised."""
    r = rng(c['s'])
    S = setup(c, ctx, r)
    if S is None:
        return
    sp, _, args, par, tmp = S
    n = len(sp.cells)
    d = sp.d
    mat2 = copy.deepcopy(c['mat'])
    mat2['E'] *= 1.7
    same = r.random() < 0.5
    if not same and c['kind'] != 'el':
        mat2 = {'m': 'el', 'E': mat2['E'], 'v': mat2['v']}
    p2, lp2 = learnable(c, mat2, ['E'], r)
    fs = [plastic_response(c['mat'], par[0], d, c['vm']),
          plastic_response(mat2, p2, d, c['vm'] and mat2['m'] != 'el')]
    which = r.integers(0, 2, n)
    mixg = len(fe.GAUSS[c['e']]) > 1 and r.random() < 0.5
    if mixg:
        sp.gauss = [int(k) for k in r.choice(fe.GAUSS[c['e']], n)]
    F, _, smax = forces(sp, lambda e, s: fs[which[e]](s))
    if F is None:
        return
    reac = reactions(c, r, sp, F)
    bc = (~sp.free).astype(int)
    loss = Loss(c, r, sp, F)
    want, tol = loss.value(F, reac, bc, force_error(sp, smax, mat2['E']))
    data, types = specimen_data(sp, reac, bc, bc, r)
    state = StructureMaterialState('infinitesimal', {2: 1, 3: 4}[d], n)
    v2 = c['vm'] and mat2['m'] != 'el'
    for j in r.permutation(2):
        ids = [i + 1 for i in range(n) if which[i] == j]
        if not ids:
            continue
        if j == 0:
            state.init_elements_model(args[0], copy.deepcopy(args[1]), ids,
                                      types, copy.copy(args[2]))
        else:
            state.init_elements_model(
                'rc_other', copy.deepcopy(p2), ids, types,
                rc_kwargs(c, mat2, lp2, tmp, d, v2))
    sub_dir = os.path.join(tmp, 'finder')
    os.mkdir(sub_dir)
    f = MaterialModelFinder(sub_dir, is_force_normalization=c['fnorm'])
    f.set_specimen_data(data, state, **loss.kwargs())
    got = float(torch.as_tensor(f(sequential_mode=ELEM)).detach())
    ctx.check(abs(got - want) <= tol,
              f'loss {got:.10g} of a specimen of two materials, imbalance '
              f'gives {want:.10g} (tolerance {tol:.2g})')
    ps = f.get_detached_model_parameters()
    bs = f.get_model_parameters_bounds()
    count = 0
    for key, model in f.get_material_models().items():
        lp = par[1] if model.model_name == args[0] else lp2
        for k, v in lp.items():
            lab = f'model_{key}_{k}'
            ctx.check(lab in ps and lab in bs, f'parameter {lab} missing')
            ctx.close(ps[lab], v['initial_value'], 1e-9, 1e-12, lab)
            ctx.close(list(bs[lab]), list(v['bounds']), 1e-12, 0,
                      f'bounds of {lab}')
            count += 1
    ctx.check(len(ps) == count and len(bs) == count, 'model parameters')
    if len(set(which)) > 1 or len(set(sp.gauss)) > 1:
        ctx.label('not vectorisable')
        try:
            got = float(f(sequential_mode=VMAP).detach())
        except Exception:
            return
        ctx.check(abs(got - want) <= tol, f'vectorised loss {got:.10g} of '
                  f'a mixed specimen, imbalance gives {want:.10g}')


@sub('time_wise', lambda: case(names=('el', 'vm', 'vmm', 'dp')), quick=50,
     thorough=900, shards=2)
def _time(c, ctx):
    """Time-wise evaluation with plain material models."""
    c = dict(c, vm=False)
    r = rng(c['s'])
    S = setup(c, ctx, r)
    if S is None:
        return
    sp, resp, _, par, tmp = S
    F, _, smax = forces(sp, resp)
    if F is None:
        return
    reac = reactions(c, r, sp, F)
    bc = (~sp.free).astype(int)
    loss = Loss(c, r, sp, F)
    want, tol = loss.value(F, reac, bc, force_error(sp, smax, c['mat']['E']))
    for k in (TIME, ELEM):
        data, types = specimen_data(sp, reac, bc, bc, r)
        state = StructureMaterialState('infinitesimal', {2: 1, 3: 4}[sp.d],
                                       len(sp.cells))
        try:
            plain(state)
            state.init_elements_model(
                M.FULL_NAME[c['kind']], copy.deepcopy(par[0]),
                [i + 1 for i in range(len(sp.cells))], types)
        except (RuntimeError, AttributeError):
            ctx.label('plain models refused')
            return
        sub_dir = os.path.join(tmp, k)
        os.mkdir(sub_dir)
        f = MaterialModelFinder(sub_dir, is_force_normalization=c['fnorm'])
        f.set_specimen_data(data, state, **loss.kwargs())
        got = float(torch.as_tensor(f(sequential_mode=k)).detach())
        ctx.check(abs(got - want) <= tol,
                  f'{k}: loss {got:.10g}, imbalance gives {want:.10g} '
                  f'(tolerance {tol:.2g})')


@st.composite
def ocase(draw):
    op = st.fixed_dictionaries({
        'op': st.sampled_from(['update', 'update', 'converge', 'get']),
        'e': st.integers(0, 3), 't': st.sampled_from(['current', 'last']),
        'copy': st.booleans(), 's': seeds()})
    return {'ops': draw(st.lists(op, min_size=1, max_size=12)),
            'g': draw(st.sampled_from([1, 4])), 's': draw(seeds())}


@sub('state', ocase, quick=250, thorough=4000)
def _state(c, ctx):
    """Element states follow a dictionary model."""
    n = 4
    types = {str(i + 1): fe.make_element('quad4', c['g']) for i in range(n)}
    state = StructureMaterialState('infinitesimal', 1, n)
    r = rng(c['s'])
    p = {'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.3,
         'euler_angles': (0.0, 0.0, 0.0)}
    try:
        plain(state)
        state.init_elements_model('elastic', p, list(range(1, n + 1)), types)
    except (RuntimeError, AttributeError):
        return
    ctx.nontrivial(len(c['ops']) > 1)
    zero = np.zeros((c['g'], 3))
    cur = [zero]*n
    old = [zero]*n

    def read(e, t, **k):
        s = state.get_element_state(e + 1, time=t, **k)
        ctx.check(set(s) == {str(i + 1) for i in range(c['g'])},
                  'Gauss points of an element state')
        return s, np.stack([to_np(s[str(i + 1)]['stress_mf'])
                            for i in range(c['g'])])
    for op in c['ops']:
        e = op['e']
        if op['op'] == 'update':
            v = rng(op['s']).standard_normal((c['g'], 3))
            s = {str(i + 1): {'stress_mf': T(v[i]), 'strain_mf': T(v[i])}
                 for i in range(c['g'])}
            state.update_element_state(e + 1, s, time=op['t'])
            for i in s:
                s[i]['stress_mf'] += 9.0        # the state is its own copy
            (cur if op['t'] == 'current' else old)[e] = v
        elif op['op'] == 'converge':
            state.update_converged_elements_state()
            old = list(cur)
        else:
            s, _ = read(e, op['t'])
            for i in s:
                s[i]['stress_mf'] += 7.0        # what is read is a copy
        for k in range(n):
            ctx.close(read(k, 'current')[1], cur[k], 0, 0, 'current state')
            ctx.close(read(k, 'last')[1], old[k], 0, 0, 'converged state')
