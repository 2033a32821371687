"""C06: learnable material parameters, bounds and constraints."""
import copy
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds, fl, fixed
import c05
import fe
import materials as M
from material_model_finder.data.specimen_data import SpecimenNumericalData
from material_model_finder.model.material_discovery import \
    MaterialModelFinder
from model_architectures.hybrid_base_model.model.hybridized_model import \
    set_hybridized_model
from model_architectures.hybrid_base_model.train import training as T_hyb
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel
from model_architectures.rnn_base_model.model.gru_model import GRURNNModel
from simulators.fetorch.material.models.standard.lou import LouZhangYoon
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState
from time_series_data.time_dataset import TimeSeriesDatasetInMemory

PROPERTY = 'C06'
RULE = ('Random material models, subsets of learnable parameters, bound '
        'intervals (positive, negative, one-sided, tiny and huge) and '
        'sequences of parameter updates inside, on and outside the bounds; '
        'random yield parameter pairs around the convexity boundary; '
        'non-trivial if some update leaves the bounds or some pair is not '
        'admissible.')


@st.composite
def case(draw):
    c = draw(c05.case(n_max=1, most=11))
    c['seq'] = draw(st.lists(st.lists(st.one_of(
        fl(-3, 3), st.sampled_from([-1.0, 0.0, 1.0])), min_size=11,
        max_size=11), min_size=1, max_size=4))
    return c


def bounds_of(r, x):
    """An interval, not necessarily containing the value."""
    w = 10.0**r.uniform(-3, 3)*(abs(x) + 1e-3)
    k = r.integers(4)
    if k == 0:
        return (x - w*r.random(), x + w*r.random() + 1e-6*w)
    if k == 1:
        return (x, x + w)
    if k == 2:
        return (x - w, x)
    return (-w, w)


@sub('bounds', case, quick=500, thorough=12000)
def _bounds(c, ctx):
    r = rng(c['s'])
    p, vals, lp, base = c05.setup(c, r)
    for k in lp:
        lp[k]['bounds'] = bounds_of(r, vals[k])
    m = c05.construct(c, base, lp, {}, ctx.scratch())
    names = list(lp)
    ctx.check(list(m.get_model_parameters()) == names, 'learnable names')
    ctx.check(m.get_model_parameters_bounds()
              == {k: v['bounds'] for k, v in lp.items()}, 'reported bounds')

    def raw():
        return {k: float(v) for k, v in m.get_model_parameters().items()}

    def physical(k, z):
        lo, hi = lp[k]['bounds']
        return lo + (hi - lo)*(z + 1)/2 if c['norm'] else z

    def tol(k, x=0.0):
        lo, hi = lp[k]['bounds']
        return 1e-12*(abs(lo) + abs(hi) + abs(x))
    got = m.get_detached_model_parameters()
    for k in names:
        ctx.close(got[k], vals[k], 0, tol(k, vals[k]), f'initial {k}')
    for k in names:
        lo, hi = lp[k]['bounds']
        f = 1e-9*(1 + (abs(lo) + abs(hi))/(hi - lo))
        for a, b in ((lo, -1.0), (hi, 1.0), ((lo + hi)/2, 0.0)):
            ctx.close(float(m.transform_parameter(k, a)), b, 0, f,
                      f'normalised bound of {k}')
            ctx.close(float(m.transform_parameter(
                k, b, mode='denormalize')), a, 0, tol(k, a)*10,
                f'denormalised bound of {k}')
        x = lo + (hi - lo)*r.uniform(-1, 2)
        z = m.transform_parameter(k, torch.tensor(x))
        ctx.close(float(m.transform_parameter(k, z, mode='denormalize')),
                  x, 0, 10*tol(k, x), f'round trip of {k}')
        ctx.check(m.get_model_parameters_norm_bounds()[k] == (-1.0, 1.0),
                  'normalised interval')
    moved = False
    for step in c['seq']:
        for k, u in zip(names, step):
            lo, hi = lp[k]['bounds']
            z = u if c['norm'] else lo + (hi - lo)*(u + 1)/2
            with torch.no_grad():
                m.get_model_parameters()[k].fill_(z)
        before = raw()
        m.enforce_parameters_bounds()
        after = raw()
        for k in names:
            lo, hi = (-1.0, 1.0) if c['norm'] else lp[k]['bounds']
            ctx.check(after[k] == min(max(before[k], lo), hi),
                      f'{k}: {before[k]} became {after[k]} with bounds '
                      f'({lo}, {hi})')
            moved |= after[k] != before[k]
        m.enforce_parameters_bounds()
        ctx.check(raw() == after, 'enforcing bounds twice')
        if c['m']['m'] != 'lou':
            m.enforce_parameters_constraints()
            ctx.check(raw() == after, 'constraints changed free parameters')
        # reported, normalised and used values agree
        rep = m.get_detached_model_parameters()
        nrm = m.get_detached_model_parameters(is_normalized_out=True)
        m.sync_material_model_parameters()
        used = m.get_material_model_parameters()
        for k in names:
            want = physical(k, after[k])
            lo, hi = lp[k]['bounds']
            ctx.close(rep[k], want, 0, 10*tol(k, want), f'reported {k}')
            ctx.check(lo - 10*tol(k) <= rep[k] <= hi + 10*tol(k),
                      'reported value outside the bounds')
            ctx.close(nrm[k], 2*(want - lo)/(hi - lo) - 1, 0,
                      1e-9*(1 + (abs(lo) + abs(hi))/(hi - lo)),
                      f'normalised {k}')
            d, key = c05.slot(used, k)
            ctx.close(float(d[key]), want, 0, 10*tol(k, want), f'used {k}')
        # every other parameter keeps its value
        want = c05.with_values(base, rep)
        for k in c05.LEARN[c['m']['m']]:
            if k in names or k == 'friction_angle':
                continue
            d, key = c05.slot(want, k)
            if key in d:
                e, key = c05.slot(used, k)
                ctx.close(float(e[key]), float(d[key]), 1e-12, 1e-12,
                          f'fixed {k}')
    ctx.nontrivial(moved)
    # gradients flow to the learnable parameters that are not frozen
    frozen = names[int(r.integers(len(names)))]
    m.freeze_parameter(frozen)
    ctx.check({k for k, v in m.get_model_parameters().items()
               if v.requires_grad} == set(names) - {frozen}, 'frozen')
    bad = copy.deepcopy(lp)
    lo, hi = bad[frozen]['bounds']
    bad[frozen]['bounds'] = (hi + 1.0 + abs(hi), lo)
    try:
        c05.construct(c, base, bad, {}, ctx.scratch())
        ctx.check(False, 'reversed bounds accepted')
    except RuntimeError:
        pass
    bad = copy.deepcopy(lp)
    bad['no_such_parameter'] = bad[frozen]
    try:
        q = c05.construct(c, base, bad, {}, ctx.scratch())
        q.sync_material_model_parameters()
        ctx.check(False, 'parameter the material does not have accepted')
    except RuntimeError:
        pass


# ---- convexity -------------------------------------------------------------
TH = np.linspace(0, 2*np.pi/3, 4001)


def margin(c, d):
    """Smallest curvature of the unit yield locus in the deviatoric plane.

    The yield function is positively homogeneous, f = rho*phi(theta) with
    J2 = 1/3 and J3 = (2/27) cos(3 theta); it is convex iff phi + phi'' >= 0.
    """
    u, v = np.cos(3*TH), np.sin(3*TH)
    k = 4*c/729
    A = 1/27 - k*u*u
    if A.min() <= 0:
        return -np.inf
    du, d2u = -3*v, -9*u
    q = np.sqrt(A)
    dq = -k*u*du/q
    d2q = (-k*(du*du + u*d2u) - dq*dq)/q
    w = q - 2*d/27*u
    if w.min() <= 0:
        return -np.inf
    dw, d2w = dq - 2*d/27*du, d2q - 2*d/27*d2u
    phi = w**(1/3)
    d2 = d2w*w**(-2/3)/3 - 2/9*dw*dw*w**(-5/3)
    return float((phi + d2).min())


@st.composite
def pair(draw):
    return {'r': draw(fl(0.0, 5.5)), 't': draw(fl(0.0, 6.2831)),
            'fix': draw(st.sampled_from(['', '', 'c', 'd'])),
            'norm': draw(st.booleans()), 's': draw(seeds()),
            'nd': draw(st.sampled_from([2, 3])),
            'vmap': draw(st.integers(0, 1))}


@sub('convexity', pair, quick=32, thorough=800, shards=6)
def _convexity(c, ctx):
    r = rng(c['s'])
    y0, d0 = c['r']*np.cos(c['t']), c['r']*np.sin(c['t'])
    k0 = margin(y0, d0)
    t = torch.tensor
    if abs(k0) > 1e-3:
        ctx.check(bool(LouZhangYoon.check_yield_surface_convexity(
            t(y0), t(d0))) == (k0 > 0), f'convexity of ({y0}, {d0}), '
            f'margin {k0}')
    mat = {'m': 'lou', 'E': 1e5, 'v': 0.3, 'moduli': False, 'assoc': True,
           'a': 1.0, 'b': 0.0, 'cd': [y0, d0],
           'hard': {'k': 'linear', 's0': 100.0, 'a': 10.0}}
    w = r.uniform(0.1, 3, 4)
    lp = {'yield_c_s0': {'initial_value': y0,
                         'bounds': (y0 - w[0], y0 + w[1])},
          'yield_d_s0': {'initial_value': d0,
                         'bounds': (d0 - w[2], d0 + w[3])},
          'E': {'initial_value': 1.2e5, 'bounds': (1e5, 2e5)}}
    if c['fix']:
        del lp[f'yield_{c["fix"]}_s0']
    cc = dict(c, m=mat, learn=list(lp))
    m = c05.construct(cc, M.parameters(mat), lp, {}, ctx.scratch())
    m.enforce_parameters_constraints()
    got = m.get_detached_model_parameters()
    ctx.close(got['E'], 1.2e5, 1e-9, 0, 'unconstrained parameter')
    y1, d1 = got.get('yield_c_s0', y0), got.get('yield_d_s0', d0)
    if k0 > 1e-3:
        ctx.close([y1, d1], [y0, d0], 1e-9, 1e-9, 'admissible pair moved')
        return
    ctx.nontrivial()
    if k0 > -1e-3:
        return
    # the returned pair is on the boundary and reached by shrinking only
    if c['fix']:
        shrink = (lambda f: (y0, d0*f)) if c['fix'] == 'c' else \
            (lambda f: (y0*f, d0))
        if margin(*shrink(0.0)) < 1e-3:
            ctx.label('fixed parameter not admissible alone')
            return
        f = d1/d0 if c['fix'] == 'c' else y1/y0
    else:
        shrink = (lambda f: (y0*f, d0*f))
        f = np.hypot(y1, d1)/c['r']
    ctx.close([y1, d1], shrink(f), 1e-6, 1e-6, 'direction of the return')
    ctx.check(0 <= f < 1, f'returned beyond the initial pair: {f}')
    ctx.check(margin(*shrink(f*(1 - 2e-4))) > -1e-4,
              f'returned pair ({y1}, {d1}) is not admissible')
    # nothing beyond the returned pair is admissible close by
    g = f + 0.01*(1 - f)
    if margin(*shrink(f + 0.005)) > 1e-3 and f + 0.005 < g:
        ctx.check(False, f'({y1}, {d1}) is inside, not on the boundary')
    m.sync_material_model_parameters()
    used = m.get_material_model_parameters()
    ctx.close([float(used[f'{k}_hardening_parameters']['s0'])
               for k in 'cd'], [y1, d1], 1e-6, 1e-6, 'used yield parameters')


@sub('boundary', lambda: st.fixed_dictionaries({
    'n': st.integers(2, 5), 't': fl(0.0, 6.2831), 'f32': st.booleans(),
    'lo': fl(0.0, 0.5), 'hi': fl(4.5, 7.0)}), quick=12, thorough=300,
    shards=6)
def _boundary(c, ctx):
    """Points of the boundary of the convexity domain."""
    def on(y, d, th, what):
        q = float(np.hypot(y, d))
        ctx.close([y, d], [q*np.cos(th), q*np.sin(th)], 1e-5, 1e-5,
                  f'{what}: direction')
        for f, ok in ((q - 2e-3, True), (q + 2e-3, False)):
            k = margin(f*np.cos(th), f*np.sin(th))
            ctx.check(k > -1e-4 if ok else k < 1e-4,
                      f'{what}: ({y}, {d}) is not on the boundary')
    old = torch.get_default_dtype()
    try:
        torch.set_default_dtype(torch.float32 if c['f32'] else old)
        p = LouZhangYoon.compute_convex_boundary(n_theta=c['n'])
        t = torch.tensor(c['t'])
        q = LouZhangYoon.directional_convex_boundary(
            t, r_lower=c['lo'], r_upper=c['hi'])
    finally:
        torch.set_default_dtype(old)
    ctx.check(tuple(p.shape) == (c['n'], 2), f'points {tuple(p.shape)}')
    for i, th in enumerate(np.linspace(0, 2*np.pi, c['n'])):
        on(float(p[i, 0]), float(p[i, 1]), th, f'point {i}')
    ctx.check(all(x.dtype == t.dtype for x in q), 'type of the point')
    on(float(q[0]), float(q[1]), c['t'], 'point of a direction')
    ctx.nontrivial(c['n'] > 2)


# ---- several materials -----------------------------------------------------
@st.composite
def several(draw):
    nd = draw(st.sampled_from([2, 3]))
    mats = []
    for _ in range(draw(st.integers(1, 3))):
        subs = [dict(draw(c05.case(n_max=1, most=11)), nd=nd,
                     norm=draw(st.booleans()))
                for _ in range(draw(st.integers(1, 3)))]
        mats.append({'hyb': draw(st.booleans()), 'subs': subs,
                     'gru': draw(st.booleans())})
    return {'mats': mats, 'nd': nd, 's': draw(seeds()),
            'gru': draw(st.booleans())}


def rc_args(c, lp, base, d):
    q = len(M.ORDER[c['nd']])
    return dict(n_features_in=q, n_features_out=q,
                learnable_parameters=copy.deepcopy(lp),
                material_model_name=M.FULL_NAME[c['m']['m']] + (
                    '_vmap' if c['vmap'] else ''),
                state_features_out={}, is_auto_sync_parameters=True,
                is_check_su_fail=False, model_directory=d,
                is_normalized_parameters=c['norm'],
                is_model_in_normalized=False, is_model_out_normalized=False,
                device_type='cpu')


def gru_args(q, d=None):
    return dict(n_features_in=q, n_features_out=q, hidden_layer_size=2,
                model_directory=d, model_name='g', gru_model_source='torch')


def hybrid_dict(r, subs, gru, d):
    """Sub-models with explicit parameters, and possibly a network."""
    q = len(M.ORDER[subs[0][0]['nd']])
    out = {}
    for j, (c, lp, base) in enumerate(subs):
        a = rc_args(c, lp, base, d)
        a.update(strain_formulation='infinitesimal',
                 problem_type={2: 1, 3: 4}[c['nd']], model_name=f'm{j}',
                 material_model_parameters=copy.deepcopy(base))
        out[f'sub_{j}'] = (RecurrentConstitutiveModel, (j, 0), a)
    if gru:
        out['net'] = (GRURNNModel, (len(subs), 0), gru_args(q))
    names = list(out)
    r.shuffle(names)
    return {k: set_hybridized_model(out[k][0], out[k][1],
                                    model_init_args=out[k][2])
            for k in names}


def moves(ctx, m, c, lp, r):
    """New values of the parameters and what bounds make of them."""
    want, ps = {}, m.get_model_parameters()
    ctx.check(set(ps) == set(lp), 'learnable names of a sub-model')
    for k in lp:
        lo, hi = lp[k]['bounds']
        u = r.choice([-1.0, 1.0, 0.0, r.uniform(-3, 3), r.uniform(-1, 1)])
        z = u if c['norm'] else lo + (hi - lo)*(u + 1)/2
        with torch.no_grad():
            ps[k].fill_(z)
        z = float(ps[k])
        a, b = (-1.0, 1.0) if c['norm'] else (lo, hi)
        want[k] = (z, min(max(z, a), b))
    return want


@sub('several', several, quick=200, thorough=2000, shards=2)
def _several(c, ctx):
    """Bounds and values collected over several materials and sub-models."""
    r = rng(c['s'])
    tmp = ctx.scratch()
    q = len(M.ORDER[c['nd']])
    n = len(c['mats']) + c['gru']
    name = 'quad4' if c['nd'] == 2 else 'hexa8'
    X, cells, _ = fe.grid_mesh(name, [n] + [1]*(c['nd'] - 1), r, 0.0, None)
    types = {str(i + 1): fe.make_element(name, fe.GAUSS[name][0])
             for i in range(n)}
    state = StructureMaterialState('infinitesimal', {2: 1, 3: 4}[c['nd']],
                                   n)
    plan = []
    for i, mat in enumerate(c['mats']):
        subs = []
        for s in mat['subs'] if mat['hyb'] else mat['subs'][:1]:
            _, vals, lp, base = c05.setup(s, r)
            for k in lp:
                lp[k]['bounds'] = bounds_of(r, vals[k])
            subs.append((s, lp, base))
        plan.append((mat['hyb'], subs))
        if mat['hyb']:
            state.init_elements_model(
                'hybrid_material_model', None, [i + 1], types, dict(
                    n_features_in=q, n_features_out=q,
                    hyb_models_dict=hybrid_dict(r, subs, mat['gru'], tmp),
                    hybridization_type='additive' if len(subs) + mat['gru']
                    > 1 else 'identity', model_directory=tmp,
                    is_model_in_normalized=False,
                    is_model_out_normalized=False, device_type='cpu'))
        else:
            s, lp, base = subs[0]
            state.init_elements_model('rc_model', copy.deepcopy(base),
                                      [i + 1], types,
                                      rc_args(s, lp, base, tmp))
    if c['gru']:
        a = gru_args(q, tmp)
        del a['model_name']
        a.update(n_recurrent_layers=1, dropout=0.0, device_type='cpu',
                 is_model_in_normalized=False, is_model_out_normalized=False,
                 scaling_type='mean-std', scaling_parameters={
                     k: {'mean': torch.zeros(q), 'std': torch.ones(q)}
                     for k in ('features_in', 'features_out')})
        state.init_elements_model('gru_material_model', None, [n], types, a)
    data = SpecimenNumericalData()
    data.set_specimen_mesh(torch.tensor(X), types, {
        str(i + 1): tuple(int(k) + 1 for k in x)
        for i, x in enumerate(cells)},
        torch.zeros(X.shape, dtype=torch.int))
    z = torch.zeros(X.shape + (2,))
    data.set_specimen_data(z, z.clone(), z.int(), torch.tensor([0.0, 1.0]))
    f = MaterialModelFinder(tmp)
    f.set_specimen_data(data, state)
    models = f.get_material_models()
    ctx.check(len(models) == n, 'material models')
    # label, sub-model, its case and learnable parameters
    every = []
    for i, (hyb, subs) in enumerate(plan):
        m = models[str(i + 1)]
        for j, (s, lp, base) in enumerate(subs):
            if hyb:
                every.append((f'model_{i + 1}_sub_{j}_', f'sub_{j}_', m,
                              m.get_hybridized_model(f'sub_{j}'), s, lp))
            else:
                every.append((f'model_{i + 1}_', None, m, m, s, lp))
    labels = {lab + k: lp[k] for lab, _, _, _, _, lp in every for k in lp}
    ctx.nontrivial(len(every) > 1)
    ctx.label(f'{len(every)} explicit')
    got = f.get_model_parameters_bounds()
    ctx.check(set(got) == set(labels), f'collected bounds: {sorted(got)} '
              f'for {sorted(labels)}')
    for k, v in labels.items():
        ctx.close(list(got[k]), list(v['bounds']), 0, 0, f'bounds of {k}')
    want = [moves(ctx, m, s, lp, r) for _, _, _, m, s, lp in every]
    f.enforce_parameters_bounds()
    for (lab, _, _, m, s, lp), w in zip(every, want):
        for k, (a, b) in w.items():
            x = float(m.get_model_parameters()[k])
            ctx.check(x == b, f'{lab}{k}: {a} became {x}, bounds give {b}')
    rep = f.get_detached_model_parameters()
    ctx.check(set(rep) == set(labels), 'collected parameters')
    for lab, short, h, m, s, lp in every:
        mine = m.get_detached_model_parameters()
        for k in lp:
            lo, hi = lp[k]['bounds']
            x = float(m.get_model_parameters()[k])
            x = lo + (hi - lo)*(x + 1)/2 if s['norm'] else x
            t = 1e-11*(abs(lo) + abs(hi))
            ctx.close(float(rep[lab + k]), x, 0, t, f'reported {lab}{k}')
            if short:
                ctx.close(float(h.get_detached_model_parameters()[
                    short + k]), x, 0, t, f'hybrid {short}{k}')
                ctx.close(list(h.get_model_parameters_bounds()[short + k]),
                          [lo, hi], 0, 0, f'hybrid bounds {short}{k}')
            ctx.close(float(mine[k]), x, 0, t, k)
    # yield parameters of every (sub-)model are constrained
    if any({'yield_c_s0', 'yield_d_s0'} & set(e[5]) for e in every):
        ctx.label('constrained')
        ref = copy.deepcopy([e[3] for e in every])
        for m in ref:
            m.enforce_parameters_constraints()
        f.enforce_parameters_constraints()
        for e, m in zip(every, ref):
            for k in e[5]:
                a = float(e[3].get_model_parameters()[k])
                b = float(m.get_model_parameters()[k])
                ctx.check(a == b or abs(a - b) <= 1e-9*abs(b),
                          f'{e[0]}{k}: {a} after the constraints, {b} for '
                          f'the model alone')


# ---- training of hybrid models ---------------------------------------------
@st.composite
def htrain(draw):
    subs = [draw(c05.case(names=('el', 'vm'), n_max=1))
            for _ in range(draw(st.integers(1, 2)))]
    return {'subs': subs, 'nd': draw(st.sampled_from([2, 3])),
            's': draw(seeds()), 'gru': draw(st.booleans()),
            'ep': draw(st.integers(1, 4)), 'lr': draw(fl(0.3, 3.0))}


@sub('hybrid_training', htrain, quick=50, thorough=600, shards=2)
def _htrain(c, ctx):
    """Explicit parameters of hybrid models are bounded while training."""
    r = rng(c['s'])
    tmp = ctx.scratch()
    q = len(M.ORDER[c['nd']])
    subs = []
    for s in c['subs']:
        s = dict(s, nd=c['nd'], norm=True, vmap=0)
        if 'E' not in s['learn']:   # so that every response depends on one
            s['learn'] = [*s['learn'], 'E']
        _, vals, lp, base = c05.setup(s, r)
        for k in lp:    # a narrow interval with the value inside
            w = 1e-3*(abs(vals[k]) + 1e-3)
            lp[k]['bounds'] = (vals[k] - w*r.random(),
                               vals[k] + w*r.random() + 0.1*w)
        subs.append((s, lp, base))
    x = 1e-3*np.cumsum(r.standard_normal((3, 4, q)), 1)
    scale = 100.0*(1 + r.random())
    data = TimeSeriesDatasetInMemory([
        {'features_in': torch.tensor(a),
         'features_out': torch.tensor(scale*a)} for a in x])
    args = dict(n_features_in=q, n_features_out=q,
                hyb_models_dict=hybrid_dict(r, subs, c['gru'], tmp),
                model_directory=tmp, model_name='model',
                hybridization_type='additive' if len(subs) + c['gru'] > 1
                else 'identity')
    m, *_ = T_hyb.train_model(c['ep'], data, args, c['lr'],
                              opt_algorithm='adam', batch_size=2,
                              loss_kwargs={}, seed=0)
    moved = False
    for j, (s, lp, _) in enumerate(subs):
        h = m.get_hybridized_model(f'sub_{j}')
        z = h.get_model_parameters()
        for k, v in h.get_detached_model_parameters().items():
            lo, hi = lp[k]['bounds']
            t = 1e-10*(abs(lo) + abs(hi))
            ctx.check(lo - t <= float(v) <= hi + t and abs(float(z[k]))
                      <= 1 + 1e-12,
                      f'sub_{j} {k} is {float(v)} ({float(z[k])}) after '
                      f'training, bounds ({lo}, {hi})')
            moved |= abs(float(z[k])) > 1 - 1e-12
    ctx.nontrivial(moved)
