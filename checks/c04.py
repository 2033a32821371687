"""C04: consistent tangents and autodiff gradients are true derivatives."""
import math
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import fixed, seeds, rng, sym
import materials as M
from simulators.fetorch.material.models.standard.hardening import \
    get_hardening_law

PROPERTY = 'C04'
RULE = ('Random material parameters and strain histories (as C02); the '
        'derivative is taken at the last step (tangent) or through the whole '
        'history (gradients); steps whose perturbations cross an '
        'elastic/plastic, cone/apex or hardening breakpoint switch are '
        'skipped; a case is non-trivial if the differentiated step (or at '
        'least one step of the differentiated history) is plastic.')


def kelvin_dirs(n):
    """Symmetric tensors whose Kelvin vector is a unit vector."""
    out = []
    for comp in M.ORDER[n]:
        i, j = int(comp[0]) - 1, int(comp[1]) - 1
        e = np.zeros((n, n))
        if i == j:
            e[i, i] = 1.0
        else:
            e[i, j] = e[j, i] = 1/math.sqrt(2)
        out.append(e)
    return out


def bracket(m, acc):
    out = []
    for h in (m.get('hard'), m.get('kin')):
        if h and h['k'] == 'piecewise_linear':
            out.append(int(np.searchsorted([p[0] for p in h['pts']], acc)))
    return tuple(out)


def mode(m, sv, n):
    """Which branch of the state update was taken."""
    if m['m'] == 'el':
        return ('el',)
    pl = bool(M.scal(sv['is_plast']))
    s = M.s3(sv, 'stress', n)
    acc = M.scal(sv['acc_p_strain'])
    apex = pl and np.linalg.norm(M.dev(s)) < 1e-9*max(np.max(np.abs(s)), 1)
    return (pl, apex, bracket(m, acc) if pl else 0)


def smooth(m):
    return all(h is None or h['k'] != 'nadai_ludwik'
               for h in (m.get('hard'), m.get('kin')))


def tangent_case(c, ctx):
    m, n = c['m'], c['n']
    v = 0 if m['m'] == 'el' else c['v']
    mod = M.build(m, n, v)
    incs = M.increments(m, c['h'], n)
    sv = mod.state_init()
    for d in incs[:-1]:
        sv, _ = mod.state_update(M.T(d), sv)
        if M.failed(sv):
            return
    d = incs[-1]
    new, ct = mod.state_update(M.T(d), sv)
    if M.failed(new):
        return
    nc = len(M.ORDER[n])
    ctx.check(ct is not None and tuple(ct.shape) == (nc, nc),
              'consistent tangent has the wrong shape')
    y = M.yield_strain(m)
    h = (1e-4 if smooth(m) else 5e-3)*y
    tol = 1e-4 if smooth(m) else 3e-3
    ref = mode(m, new, n)
    # curvature of the response grows as the deviator of the trial state (or
    # the hardening strain scale) shrinks
    fd = np.zeros((nc, nc))
    bend = 0.0
    for k, e in enumerate(kelvin_dirs(n)):
        p, _ = mod.state_update(M.T(d + h*e), sv)
        q, _ = mod.state_update(M.T(d - h*e), sv)
        if M.failed(p) or M.failed(q) or mode(m, p, n) != ref \
                or mode(m, q, n) != ref:
            ctx.label('switch')
            return
        p2, _ = mod.state_update(M.T(d + 2*h*e), sv)
        q2, _ = mod.state_update(M.T(d - 2*h*e), sv)
        if M.failed(p2) or M.failed(q2) or mode(m, p2, n) != ref \
                or mode(m, q2, n) != ref:
            ctx.label('switch')
            return
        g1 = (M.to_np(p['stress_mf']) - M.to_np(q['stress_mf']))/(2*h)
        g2 = (M.to_np(p2['stress_mf']) - M.to_np(q2['stress_mf']))/(4*h)
        # Richardson; a large disagreement means the step is too curved
        bend = max(bend, np.max(np.abs(g1 - g2)))
        if bend > 3e-2*m['E']:
            ctx.label('curved')
            return
        fd[:, k] = (4*g1 - g2)/3
    scale = max(np.max(np.abs(fd)), m['E'])
    if v and ref[0] is True and not ref[1]:
        # the vectorised updates shift the deviator by 1e-8 before its norm
        dn = np.linalg.norm(M.dev(M.s3(new, 'stress', n)))*(1 + m['v'])/m['E']
        tol += min(6e-8/dn, 1e-2)
    # what the extrapolation leaves is of the order of the square
    ctx.close(ct, fd, 0, (tol + 5*(bend/scale)**2)*scale, 'consistent tangent '
              'is not the derivative of the updated stress')
    ctx.label('plastic' if ref[0] is True else 'elastic')
    ctx.nontrivial(ref[0] is True or m['m'] == 'el')


def case(names, v=(0, 1), kinds=('linear', 'nadai_ludwik',
                                 'piecewise_linear'), n_max=4):
    return lambda: fixed(m=M.model(names=names, kinds=kinds),
                         n=st.sampled_from([2, 3]),
                         v=st.sampled_from(list(v)),
                         h=M.history(n_max=n_max, big=4.0))


@sub('tangent_von_mises', case(('vm',)), quick=250, shards=2)
def _(c, ctx):
    tangent_case(c, ctx)


@sub('tangent_von_mises_mixed', case(('vmm',)), quick=250, shards=2)
def _(c, ctx):
    tangent_case(c, ctx)


@sub('tangent_drucker_prager', case(('dp',)), quick=250, shards=2)
def _(c, ctx):
    tangent_case(c, ctx)


@sub('tangent_elastic', case(('el',)), quick=60)
def _(c, ctx):
    tangent_case(c, ctx)


# ---------------------------------------------------------------------------
def names_of(m):
    """Differentiable parameters of the model (documented names)."""
    out = ['E', 'v']
    h = m['hard']
    out += [('hardening_parameters', k) for k in ('s0', 'a', 'b', 'ep0')
            if k in h and h['k'] != 'piecewise_linear']
    if m['m'] == 'vmm':
        out += [('kinematic_hardening_parameters', k) for k in ('a', 'b')
                if k in m['kin'] and m['kin']['k'] != 'piecewise_linear']
    if m['m'] == 'dp':
        out += ['yield_cohesion_parameter', 'yield_pressure_parameter',
                'flow_pressure_parameter']
    if m['m'] == 'lou':
        out += [(f'{k}_hardening_parameters', 's0') for k in 'abcd']
    return out


def get(p, name):
    return p[name] if isinstance(name, str) else p[name[0]][name[1]]


def put(p, name, val):
    if isinstance(name, str):
        p[name] = val
    else:
        p[name[0]][name[1]] = val


def objective(c, theta, incs, w):
    """Weighted sum of all stresses of the history; returns modes too."""
    m, n = c['m'], c['n']
    p = M.parameters(dict(m, moduli=False))
    for k, val in theta.items():
        put(p, k, val)
    mod = M.CLASSES[(m['m'], c['v'])]('infinitesimal', {2: 1, 3: 4}[n], p)
    sv = mod.state_init()
    tot = 0.0
    modes = []
    for k, d in enumerate(incs):
        sv, _ = mod.state_update(d, sv)
        if M.failed(sv):
            return None, None
        tot = tot + torch.sum(w[k]*sv['stress_mf'])
        modes.append(mode(m, sv, n))
    return tot, modes


def grad_case(c, ctx):
    m, n = c['m'], c['n']
    # One Newton iteration is exact for linear hardening; otherwise the
    # derivative of the last iterate lags the solver (convergence 1e-6 on the
    # residual), which bounds how well it can match the true sensitivity
    linear = m['m'] != 'lou' and all(
        h is None or h['k'] == 'linear' for h in (m['hard'], m.get('kin')))
    tol = 2e-3 if linear else 0.15
    r = rng(c['s'])
    incs = [M.T(d) for d in M.increments(m, c['h'], n)]
    w = [torch.tensor(r.standard_normal(len(M.ORDER[n]))) for _ in incs]
    p0 = M.parameters(dict(m, moduli=False))
    theta0 = {k: float(get(p0, k)) for k in names_of(m)}
    val0, modes0 = objective(c, {k: torch.tensor(v)
                                 for k, v in theta0.items()}, incs, w)
    if val0 is None:
        return
    # parameters
    theta = {k: torch.tensor(v, requires_grad=True)
             for k, v in theta0.items()}
    xs = [d.clone().requires_grad_(True) for d in incs]
    val, modes = objective(c, theta, xs, w)
    ctx.close(val, val0, 1e-12, 0, 'objective depends on gradient tracking')
    grads = torch.autograd.grad(val, list(theta.values()) + xs,
                                allow_unused=True)
    ctx.check(all(g is None or bool(torch.all(torch.isfinite(g)))
                  for g in grads), 'gradient through the history is not '
              'finite')
    plastic = any(x[0] for x in modes)
    scale_s = max(abs(float(val0)), M.yield_strain(m)*m['E'])
    for k, g in zip(theta, grads):
        t = theta0[k]
        h = 1e-4*max(abs(t), {'v': 0.1, 'E': 1.0}.get(k, 1e-2))
        if k == 'v' and t < 2*h:
            continue
        if k[1:] == ('b',) and t > 0.95 and m['m'] != 'lou':
            continue
        vals = []
        for f in (1, -1, 2, -2):
            tt = {q: torch.tensor(x) for q, x in theta0.items()}
            tt[k] = torch.tensor(t + f*h)
            o, mo = objective(c, tt, incs, w)
            if o is None or mo != modes0:
                break
            vals.append(float(o))
        if len(vals) < 4:
            ctx.label('switch')
            continue
        g1 = (vals[0] - vals[1])/(2*h)
        g2 = (vals[2] - vals[3])/(4*h)
        gs = max(abs(g1), scale_s/max(abs(t), 1e-2)*0.1)
        if abs(g1 - g2) > 0.1*tol*gs:
            ctx.label('noisy')
            continue
        gv = 0.0 if g is None else float(g)
        ctx.close(gv, g1, 0, tol*gs, f'gradient with respect to {k}')
        ctx.label('param')
        ctx.nontrivial(plastic)
    # strains: one random direction over the whole history
    ds = [torch.tensor(sym(r.standard_normal((n, n)))) for _ in incs]
    hh = 1e-4*M.yield_strain(m)
    vals = []
    for f in (1, -1, 2, -2):
        o, mo = objective(c, {k: torch.tensor(x) for k, x in theta0.items()},
                          [a + f*hh*b for a, b in zip(incs, ds)], w)
        if o is None or mo != modes0:
            return
        vals.append(float(o))
    g1, g2 = (vals[0] - vals[1])/(2*hh), (vals[2] - vals[3])/(4*hh)
    scale = max(abs(g1), m['E'])
    if m['m'] == 'lou':
        # The lag shows in the components along the flow, which may cancel
        # in the directional derivative: compare with the size of the terms
        scale = max(scale, 2.0*m['E']*sum(
            float(torch.linalg.norm(d)*torch.linalg.norm(x))
            for d, x in zip(ds, w)))
    if abs(g1 - g2) > 0.1*tol*max(abs(g1), m['E']):
        return
    ga = sum(float(torch.sum(g*d)) for g, d in zip(grads[len(theta):], ds)
             if g is not None)
    ctx.close(ga, g1, 0, tol*scale,
              'gradient with respect to the strain history')


def gcase(names, v, kinds, n_max=3):
    return lambda: fixed(m=M.model(names=names, kinds=kinds),
                         n=st.sampled_from([2, 3]),
                         v=st.sampled_from(list(v)), s=seeds(),
                         h=M.history(n_max=n_max, big=3.0,
                                     kinds=('rnd', 'prev', 'rev', 'hyd',
                                            'comp', 'shear', 'diag')))


@sub('gradients_von_mises', gcase(('vm',), (0, 1), ('linear',
                                                    'nadai_ludwik')),
     quick=60, shards=2)
def _(c, ctx):
    grad_case(c, ctx)


@sub('gradients_von_mises_mixed', gcase(('vmm',), (0, 1), ('linear',
                                                           'nadai_ludwik')),
     quick=60, shards=2)
def _(c, ctx):
    grad_case(c, ctx)


@sub('gradients_drucker_prager', gcase(('dp',), (0, 1), ('linear',)),
     quick=60, shards=2)
def _(c, ctx):
    grad_case(c, ctx)


@sub('gradients_lou', gcase(('lou',), (0, 1), ('linear',), 2), quick=40,
     shards=3)
def _(c, ctx):
    grad_case(c, ctx)
