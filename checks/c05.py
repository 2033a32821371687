"""C05: recurrent material model."""
import copy
import math
import os
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
import materials as M
from model_architectures.rc_base_model.model.recurrent_model import \
    RecurrentConstitutiveModel

PROPERTY = 'C05'
RULE = ('Random material models (elastic, three/four plasticity families, '
        'standard and vectorised), plane strain or 3D, random subset of '
        'learnable parameters (with stale base values), random strain '
        'histories of 1-6 increments in batches of 1-3 or unbatched, random '
        'requested state features; non-trivial if some step is plastic or '
        'at least two features/paths are requested.')

LEARN = {'el': ('E', 'v'), 'vm': ('E', 'v', 's0', 'a', 'b'),
         'vmm': ('E', 'v', 's0', 'a', 'b', 'kin_s0', 'kin_a', 'kin_b'),
         'dp': ('E', 'v', 's0', 'a', 'b', 'yield_cohesion_parameter',
                'yield_pressure_parameter', 'flow_pressure_parameter',
                'friction_angle'),
         'lou': ('E', 'v', 's0', 'a', 'b', 'yield_a_s0', 'yield_b_s0',
                 'yield_c_s0', 'yield_d_s0', 'yield_a_a', 'yield_b_a')}


def slot(p, name):
    """Dictionary and key of a learnable parameter."""
    if name in ('s0', 'a', 'b'):
        return p['hardening_parameters'], name
    if name.startswith('kin_'):
        return p['kinematic_hardening_parameters'], name[4:]
    if name.startswith('yield_') and name[6] in 'abcd' and name[7] == '_':
        return p[f'{name[6]}_hardening_parameters'], name[8:]
    return p, name


def with_values(p, vals):
    p = copy.deepcopy(p)
    for k, v in vals.items():
        if k == 'friction_angle':
            p['yield_cohesion_parameter'] = 2/math.sqrt(3)*math.cos(v)
            p['yield_pressure_parameter'] = 3/math.sqrt(3)*math.sin(v)
            p['flow_pressure_parameter'] = 3/math.sqrt(3)*math.sin(v)
        d, key = slot(p, k)
        d[key] = v
    return p


@st.composite
def case(draw, names=('el', 'vm', 'vmm', 'dp', 'lou'), n_max=6, most=4):
    m = draw(M.model(names=names))
    m['moduli'] = False
    ok = []
    for k in LEARN[m['m']]:
        p = M.parameters(m)
        d, key = slot(p, k)
        if key in d or k == 'friction_angle':
            ok.append(k)
    learn = draw(st.lists(st.sampled_from(ok), min_size=1,
                          max_size=most, unique=True))
    if 'friction_angle' in learn:
        learn = [k for k in learn if not k.endswith('_parameter')]
    b = draw(st.integers(0, 3))
    n = draw(st.integers(1, n_max))
    return {'m': m, 'learn': learn, 'nd': draw(st.sampled_from([2, 3])),
            'vmap': draw(st.integers(0, 1)) if m['m'] != 'el' else 0,
            'norm': draw(st.booleans()), 'b': b, 's': draw(seeds()),
            'h': [draw(M.history(n_min=n, n_max=n, big=4.0))
                  for _ in range(max(b, 1))],
            'start': draw(st.booleans())}


def base_value(p, name):
    d, key = slot(p, name)
    if name == 'friction_angle':
        return math.asin(p['yield_pressure_parameter']/math.sqrt(3))
    return d[key]


def setup(c, r):
    """Values of the learnable parameters, bounds and stale base values."""
    p = M.parameters(c['m'])
    vals, lp, stale = {}, {}, {}
    for k in c['learn']:
        x = base_value(p, k)
        vals[k] = x
        w = abs(x) + 0.1
        lo, hi = x - w*r.uniform(0.05, 2), x + w*r.uniform(0.05, 2)
        lp[k] = {'initial_value': x, 'bounds': (lo, hi)}
        stale[k] = x*0.9
    return p, vals, lp, with_values(p, stale) if r.random() < 0.7 else p


def strain_paths(c, r):
    q = len(M.ORDER[c['nd']])
    paths, incs = [], []
    for h in c['h']:
        d = M.increments(c['m'], h, c['nd'])
        e = np.zeros((len(d) + 1, q))
        for t, x in enumerate(d):
            e[t + 1] = e[t] + [x[int(k[0]) - 1, int(k[1]) - 1]
                               for k in M.ORDER[c['nd']]]
        if c['start']:
            e = e + r.standard_normal(q)*M.yield_strain(c['m'])
        paths.append(e)
        incs.append(d)
    x = np.stack(paths, 1)
    return (x[:, 0] if c['b'] == 0 else x), incs


def manual(c, p, incs, feats):
    """Response obtained by stepping the material model by hand."""
    m = M.CLASSES[(c['m']['m'], c['vmap'])](
        'infinitesimal', {2: 1, 3: 4}[c['nd']], copy.deepcopy(p))
    q = M.ORDER[c['nd']]
    out = [np.zeros(len(q) + sum(feats.values()))]
    plastic = False
    for sv, _ in M.run_history(m, incs):
        if M.failed(sv):
            return None, plastic
        s = M.from_kelvin(sv['stress_mf'], c['nd'])
        row = [s[int(k[0]) - 1, int(k[1]) - 1] for k in q]
        for f in feats:
            if f.endswith('strain_mf'):
                s = M.from_kelvin(sv[f], c['nd'])
                row += [s[int(k[0]) - 1, int(k[1]) - 1] for k in q]
            else:
                row.append(M.scal(sv[f]))
        out.append(np.array(row))
        plastic |= bool(M.scal(sv.get('is_plastic', 0.0)))
    return np.stack(out), plastic


def choose_features(c, r):
    m = M.CLASSES[(c['m']['m'], c['vmap'])](
        'infinitesimal', {2: 1, 3: 4}[c['nd']], M.parameters(c['m']))
    names = [k for k in ('strain_mf', 'e_strain_mf', 'p_strain_mf',
                         'acc_p_strain', 'e_strain_33', 'stress_33')
             if k in m.state_init()]
    names = [names[i] for i in r.permutation(len(names))]
    names = names[:int(r.integers(0, 4))]
    q = len(M.ORDER[c['nd']])
    return {k: q if k.endswith('strain_mf') else 1 for k in names}


def construct(c, p, lp, feats, d, **kw):
    q = len(M.ORDER[c['nd']])
    return RecurrentConstitutiveModel(
        q, q + sum(feats.values()), copy.deepcopy(lp), 'infinitesimal',
        {2: 1, 3: 4}[c['nd']],
        M.FULL_NAME[c['m']['m']] + ('_vmap' if c['vmap'] else ''),
        copy.deepcopy(p), d, model_name='rc', state_features_out=feats,
        is_normalized_parameters=c['norm'],
        is_save_model_init_file=False, **kw)


@sub('response', case, quick=180, thorough=4000, shards=4)
def _response(c, ctx):
    r = rng(c['s'])
    p, vals, lp, base = setup(c, r)
    feats = choose_features(c, r)
    d = ctx.scratch()
    model = construct(c, base, lp, feats, d)
    x, incs = strain_paths(c, r)
    refs = [manual(c, with_values(p, vals), k, feats) for k in incs]
    ctx.nontrivial(any(k[1] for k in refs) or len(feats) > 1 or c['b'] > 1)
    ctx.label(c['m']['m'] + ('v' if c['vmap'] else ''))
    tx = torch.tensor(x)
    if any(k[0] is None for k in refs):
        ctx.label('not converged')
        if not c['vmap']:
            try:
                model(tx)
            except RuntimeError:
                return
            ctx.check(False, 'failed state update not reported')
        return
    ref = np.stack([k[0] for k in refs], 1)
    ref = ref[:, 0] if c['b'] == 0 else ref
    y = model(tx)
    q = len(M.ORDER[c['nd']])
    tol = np.ones(ref.shape[-1])
    tol[:q] = 1e-6*(np.abs(ref[..., :q]).max() + 1e-3)
    eps = M.yield_strain(c['m'])
    i = q
    for f, n in feats.items():
        tol[i:i + n] = tol[0] if 'stress' in f else 1e-6*(
            eps + np.abs(ref[..., i:i + n]).max())
        i += n

    def same(a, b, msg):
        a = a.detach().numpy() if hasattr(a, 'detach') else a
        b = b.detach().numpy() if hasattr(b, 'detach') else b
        ctx.check(a.shape == b.shape, f'{msg}: shape {a.shape} {b.shape}')
        ctx.close(a/tol, b/tol, 0.0, 1.0, msg + ' (scaled by tolerance)')
    same(y, ref, 'response against stepping by hand')
    ctx.check(np.array_equal(tx.numpy(), x), 'strain paths modified')
    # prediction does not depend on earlier predictions
    other = tx.flip(0)*0.3
    model(other - other[:1])
    same(model(tx), ref, 'response after other predictions')
    # causality
    k = int(r.integers(1, x.shape[0] + 1))
    same(model(tx[:k].clone()), ref[:k], 'response of a shortened path')
    # batching
    if c['b'] == 0:
        same(model(tx[:, None, :])[:, 0], ref, 'batch of one')
    else:
        perm = r.permutation(c['b'])
        same(model(tx[:, perm]), ref[:, perm], 'permuted batch')
        j = int(r.integers(c['b']))
        same(model(tx[:, j]), ref[:, j], 'single path of the batch')
    # reported parameters
    got = model.get_detached_model_parameters()
    ctx.check(set(got) == set(vals), 'reported parameters')
    for n, v in vals.items():
        ctx.close(got[n], v, 1e-6, 1e-9, f'reported {n}')
    # changed parameters take effect
    new = {}
    for n, v in vals.items():
        new[n] = v*(1 + 0.02*r.uniform(-1, 1))
        t = model.transform_parameter(n, new[n]) if c['norm'] else new[n]
        with torch.no_grad():
            model.get_model_parameters()[n].fill_(t)
    refs = [manual(c, with_values(p, new), k, feats) for k in incs]
    if all(k[0] is not None for k in refs):
        ref2 = np.stack([k[0] for k in refs], 1)
        ref2 = ref2[:, 0] if c['b'] == 0 else ref2
        same(model(tx), ref2, 'response after a parameter update')
        # restored from file
        model.save_model_init_file()
        f = os.path.join(d, 's.pt')
        torch.save(model.state_dict(), f)
        m2 = RecurrentConstitutiveModel.init_model_from_file(
            model_directory=d)
        m2.load_state_dict(torch.load(f))
        same(m2(tx), ref2, 'response of the restored model')
        for n, v in m2.get_detached_model_parameters().items():
            ctx.close(v, new[n], 1e-6, 1e-9, f'restored {n}')
