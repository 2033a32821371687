"""Material model cases: factories, strain histories and numpy oracles."""
import math
import numpy as np
from harness import to_np
import torch
from hypothesis import strategies as st
from gen import fl, seeds, rng, sym, random_rotation
from simulators.fetorch.material.models.standard.elastic import Elastic
from simulators.fetorch.material.models.standard.von_mises import VonMises
from simulators.fetorch.material.models.standard.von_mises_mixed import \
    VonMisesMixed
from simulators.fetorch.material.models.standard.drucker_prager import \
    DruckerPrager
from simulators.fetorch.material.models.standard.lou import LouZhangYoon
from simulators.fetorch.material.models.standard.hardening import \
    get_hardening_law
from simulators.fetorch.material.models.vmap.von_mises import VonMisesVMAP
from simulators.fetorch.material.models.vmap.von_mises_mixed import \
    VonMisesMixedVMAP
from simulators.fetorch.material.models.vmap.drucker_prager import \
    DruckerPragerVMAP
from simulators.fetorch.material.models.vmap.lou import LouZhangYoonVMAP

ORDER = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
NSYM = {2: ('11', '21', '12', '22'),
        3: ('11', '21', '31', '12', '22', '32', '13', '23', '33')}
CLASSES = {('el', 0): Elastic, ('vm', 0): VonMises, ('vm', 1): VonMisesVMAP,
           ('vmm', 0): VonMisesMixed, ('vmm', 1): VonMisesMixedVMAP,
           ('dp', 0): DruckerPrager, ('dp', 1): DruckerPragerVMAP,
           ('lou', 0): LouZhangYoon, ('lou', 1): LouZhangYoonVMAP}
FULL_NAME = {'el': 'elastic', 'vm': 'von_mises', 'vmm': 'von_mises_mixed',
             'dp': 'drucker_prager', 'lou': 'lou_zhang_yoon'}
TOL = 1e-6          # advertised convergence tolerance of the state updates


# ------------------------------------------------------------------ hardening
@st.composite
def hardening(draw, scale=1.0, kinds=('linear', 'nadai_ludwik',
                                      'piecewise_linear'), rough=False):
    k = draw(st.sampled_from(list(kinds)))
    s0 = draw(fl(50.0, 1000.0))*scale
    if k == 'linear':
        return {'k': k, 's0': s0,
                'a': draw(st.one_of(st.just(0.0), fl(1.0, 5000.0)))*scale}
    if k == 'nadai_ludwik':
        return {'k': k, 's0': s0, 'a': draw(fl(1.0, 2000.0))*scale,
                'b': draw(fl(0.3, 1.0)), 'ep0': draw(fl(1e-3, 5e-2))}
    n = draw(st.integers(2, 5))
    dx = draw(st.lists(fl(0.003, 0.1), min_size=n, max_size=n))
    slopes = sorted(draw(st.lists(fl(0.0, 5000.0), min_size=n, max_size=n)),
                    reverse=True)
    if rough and draw(st.booleans()):
        # flat and very steep parts in any order: Newton may not converge
        slopes = draw(st.lists(st.one_of(fl(0.0, 5000.0), fl(1e6, 1e7)),
                               min_size=n, max_size=n))
        dx = [x*(0.02 if s > 5000 else 0.3) for x, s in zip(dx, slopes)]
    x, y = [0.0], [s0]
    for d, s in zip(dx, slopes):
        x.append(x[-1] + d)
        y.append(y[-1] + d*s*scale)
    return {'k': k, 'pts': [list(p) for p in zip(x, y)]}


def hard_params(h):
    if h['k'] == 'piecewise_linear':
        return {'hardening_points': torch.tensor(h['pts'])}
    return {k: v for k, v in h.items() if k != 'k'}


def hard_ref(h, x):
    """Documented yield stress of the hardening law."""
    x = max(float(x), 0.0)
    if h['k'] == 'linear':
        return h['s0'] + h['a']*x
    if h['k'] == 'nadai_ludwik':
        return h['s0'] + h['a']*(h['ep0'] + x)**h['b']
    p = np.array(h['pts'])
    return float(np.interp(x, p[:, 0], p[:, 1]))


def hard_slope_ref(h, x):
    x = max(float(x), 0.0)
    if h['k'] == 'linear':
        return h['a']
    if h['k'] == 'nadai_ludwik':
        return h['a']*h['b']*(h['ep0'] + x)**(h['b'] - 1)
    p = np.array(h['pts'])
    i = int(np.clip(np.searchsorted(p[:, 0], x, side='right') - 1, 0,
                    len(p) - 2))
    if x >= p[-1, 0] or x <= p[0, 0]:
        return 0.0
    return (p[i+1, 1] - p[i, 1])/(p[i+1, 0] - p[i, 0])


# -------------------------------------------------------------------- models
@st.composite
def model(draw, names=('vm', 'vmm', 'dp'), kinds=('linear', 'nadai_ludwik',
                                                  'piecewise_linear'),
          scales=(1.0,), rough=False, evolve=False):
    m = draw(st.sampled_from(list(names)))
    sc = draw(st.sampled_from(list(scales)))    # units of stress
    c = {'m': m, 'E': draw(fl(1e3, 3e5))*sc, 'v': draw(st.one_of(
        fl(0.0, 0.45), fl(0.0, 0.45), fl(-0.4, 0.0))),
         'moduli': draw(st.sampled_from([False, False, True, 'sym']))}
    if m == 'el':
        return c
    c['hard'] = draw(hardening(sc, kinds=kinds, rough=rough))
    if m == 'vmm':
        c['kin'] = draw(st.one_of(
            st.fixed_dictionaries({'k': st.just('linear'),
                                   's0': st.just(0.0),
                                   'a': fl(0.0, 5000.0).map(
                                       lambda x: x*sc)}),
            hardening(sc, kinds=kinds)))
    if m == 'dp':
        phi = math.radians(draw(fl(3.0, 40.0)))
        psi = phi*draw(st.one_of(st.just(1.0), fl(0.3, 1.0)))
        c['xi'] = 2.0/math.sqrt(3)*math.cos(phi)
        c['etay'] = 3.0/math.sqrt(3)*math.sin(phi)
        c['etaf'] = 3.0/math.sqrt(3)*math.sin(psi)
    if m == 'lou':
        c['a'] = draw(fl(0.8, 1.5))
        c['b'] = draw(st.one_of(st.just(0.0), fl(0.005, 0.1)))
        c['cd'] = draw(st.sampled_from(LOU_CD))
        c['assoc'] = draw(st.booleans())
        if evolve and draw(st.booleans()):
            # yield parameters change with the plastic strain
            y = yield_strain(c)
            c['sl'] = [x/y for x in draw(st.tuples(
                fl(-0.02, 0.02), fl(0.0, 0.003), fl(-0.05, 0.05),
                fl(-0.02, 0.02)))]
    return c


# (c, d) pairs well inside the convexity domain of the yield surface
LOU_CD = [[0.0, 0.0], [1.0, 0.5], [1.0, -0.5], [-1.0, 0.3], [0.5, 0.0],
          [-2.0, 0.0], [1.5, 0.2], [0.0, 0.6], [0.0, -0.6]]


def parameters(c):
    p = {'elastic_symmetry': 'isotropic', 'euler_angles': (0.0, 0.0, 0.0)}
    E, v = c['E'], c['v']
    if c.get('moduli'):
        lam = E*v/((1 + v)*(1 - 2*v))
        G = E/(2*(1 + v))
        p['E1111'] = lam + 2*G
        p['E1122' if c['moduli'] != 'sym' else 'E2211'] = lam
    else:
        p['E'], p['v'] = E, v
    if c['m'] == 'el':
        return p
    p['hardening_law'] = get_hardening_law(c['hard']['k'])
    p['hardening_parameters'] = hard_params(c['hard'])
    if c['m'] == 'vmm':
        p['kinematic_hardening_law'] = get_hardening_law(c['kin']['k'])
        p['kinematic_hardening_parameters'] = hard_params(c['kin'])
    if c['m'] == 'dp':
        p['yield_cohesion_parameter'] = c['xi']
        p['yield_pressure_parameter'] = c['etay']
        p['flow_pressure_parameter'] = c['etaf']
    if c['m'] == 'lou':
        for k, val, sl in zip('abcd', (c['a'], c['b'], *c['cd']),
                              c.get('sl', [0.0]*4)):
            p[f'{k}_hardening_law'] = get_hardening_law('linear')
            p[f'{k}_hardening_parameters'] = {'s0': val, 'a': sl}
        p['is_associative_hardening'] = c['assoc']
    return p


def build(c, n_dim, vmap=0, **kw):
    p = parameters(c)
    return CLASSES[(c['m'], vmap)]('infinitesimal', {2: 1, 3: 4}[n_dim], p,
                                   **kw)


def lame(c):
    E, v = c['E'], c['v']
    return E*v/((1 + v)*(1 - 2*v)), E/(2*(1 + v))


def yield_strain(c):
    """A strain magnitude comparable to first yield."""
    _, G = lame(c)
    s = hard_ref(c['hard'], 0.0) if 'hard' in c else 1e-3*c['E']
    return s/(2*G)*math.sqrt(2/3)


# ----------------------------------------------------------------- histories
KINDS = ('rnd', 'prev', 'rev', 'hyd', 'comp', 'shear', 'zero', 'diag')


@st.composite
def history(draw, n_min=1, n_max=7, big=6.0, kinds=KINDS, small=0.05):
    n = draw(st.integers(n_min, n_max))
    return [{'k': draw(st.sampled_from(list(kinds))),
             'f': draw(fl(small, big)), 's': draw(st.integers(0, 10**6))}
            for _ in range(n)]


def increments(c, hist, n_dim):
    """List of strain increments (n_dim x n_dim symmetric arrays)."""
    y = yield_strain(c)
    out = []
    prev = np.eye(n_dim)/math.sqrt(n_dim)
    for h in hist:
        r = rng(h['s'])
        if h['k'] == 'rnd':
            d = sym(r.standard_normal((n_dim, n_dim)))
        elif h['k'] == 'prev':
            d = prev
        elif h['k'] == 'rev':
            d = -prev
        elif h['k'] == 'hyd':
            d = np.eye(n_dim) + 0.05*sym(r.standard_normal((n_dim, n_dim)))
        elif h['k'] == 'comp':
            d = -np.eye(n_dim) + 0.3*sym(r.standard_normal((n_dim, n_dim)))
        elif h['k'] == 'shear':
            d = np.zeros((n_dim, n_dim))
            i, j = [(0, 1), (0, 1), (0, 1)][0] if n_dim == 2 else \
                [(0, 1), (1, 2), (0, 2)][h['s'] % 3]
            d[i, j] = d[j, i] = 1.0
        elif h['k'] == 'diag':
            d = np.diag(r.standard_normal(n_dim))
        else:
            d = np.zeros((n_dim, n_dim))
        nrm = np.linalg.norm(d)
        if nrm > 0:
            d = d/nrm
            prev = d
        out.append(y*h['f']*d)
    return out


def T(x):
    return torch.tensor(np.asarray(x), dtype=torch.float64)


def from_kelvin(v, n_dim):
    v = np.asarray(v.detach() if hasattr(v, 'detach') else v).reshape(-1)
    a = np.zeros((n_dim, n_dim))
    for k, comp in enumerate(ORDER[n_dim]):
        i, j = int(comp[0]) - 1, int(comp[1]) - 1
        if i == j:
            a[i, i] = v[k]
        else:
            a[i, j] = a[j, i] = v[k]/math.sqrt(2)
    return a


def to_kelvin(a):
    n = a.shape[0]
    return np.array([a[int(c[0])-1, int(c[1])-1]
                     * (math.sqrt(2) if c[0] != c[1] else 1.0)
                     for c in ORDER[n]])


def s3(sv, name, n_dim):
    """3D tensor of a state variable (plane strain embedded)."""
    a = from_kelvin(sv[name + '_mf'], n_dim)
    if n_dim == 3:
        return a
    b = np.zeros((3, 3))
    b[:2, :2] = a
    if name + '_33' in sv:
        b[2, 2] = scal(sv[name + '_33'])
    return b


def scal(x):
    return float(np.asarray(x.detach() if hasattr(x, 'detach') else x
                            ).reshape(-1)[0])


def failed(sv):
    return bool(scal(sv['is_su_fail']))


def dev(a):
    return a - np.trace(a)/3*np.eye(3)


def vm_eq(a):
    return math.sqrt(1.5)*np.linalg.norm(dev(a))


def lou_par(c, acc):
    """Yield parameters a, b, c, d at a given accumulated plastic strain."""
    return [x + s*acc for x, s in zip((c['a'], c['b'], *c['cd']),
                                      c.get('sl', [0.0]*4))]


def lou_apex(c, acc):
    a, b, _, _ = lou_par(c, acc)
    return hard_ref(c['hard'], acc)/(3*a*max(b, 1e-6))


def lou_eff(c, s, acc):
    i1 = np.trace(s)
    d = dev(s)
    j2 = 0.5*np.sum(d*d)
    j3 = np.linalg.det(d)
    a, b, cc, dd = lou_par(c, acc)
    return a*(b*i1 + np.cbrt(math.sqrt(max(j2**3 - cc*j3**2, 0.0)) - dd*j3))


def lou_grad(c, s, acc, h=None):
    """Flow direction by central differences of the documented yield fn."""
    h = h or 1e-5*max(np.max(np.abs(s)), 1.0)
    g = np.zeros((3, 3))
    for i in range(3):
        for j in range(i, 3):
            e = np.zeros((3, 3))
            if i == j:
                e[i, i] = 1.0
            else:
                e[i, j] = e[j, i] = 0.5
            g[i, j] = (lou_eff(c, s + h*e, acc)
                       - lou_eff(c, s - h*e, acc))/(2*h)
            g[j, i] = g[i, j]
    return g


def yield_excess(c, s, acc, back=None):
    """Yield function divided by the current flow stress (<= 0 admissible)."""
    h = hard_ref(c['hard'], acc)
    if c['m'] == 'vm':
        return (vm_eq(s) - h)/h
    if c['m'] == 'vmm':
        return (vm_eq(s - back) - h)/h
    if c['m'] == 'dp':
        p = np.trace(s)/3
        j2 = math.sqrt(0.5)*np.linalg.norm(dev(s))
        return (j2 + c['etay']*p - c['xi']*h)/h
    return (lou_eff(c, s, acc) - h)/h


def hooke(c, e):
    lam, G = lame(c)
    return lam*np.trace(e)*np.eye(3) + 2*G*e


def trial_excess(c, old, inc, n_dim):
    inc3 = np.zeros((3, 3))
    inc3[:n_dim, :n_dim] = inc
    return yield_excess(c, hooke(c, s3(old, 'e_strain', n_dim) + inc3),
                        scal(old['acc_p_strain']),
                        s3(old, 'back_stress', n_dim)
                        if c['m'] == 'vmm' else None)


def switch_ok(c, states, incs, n_dim, margin=1e-2):
    """Number of leading steps away from the apex/cone switch (Lou).

    The model selects the return mapping by comparing trial and apex
    pressure, the response is discontinuous there.
    """
    if c['m'] != 'lou':
        return len(incs)
    for k, d in enumerate(incs):
        if k >= len(states):
            return k
        old = states[k]
        inc3 = np.zeros((3, 3))
        inc3[:n_dim, :n_dim] = d
        p = np.trace(hooke(c, s3(old, 'e_strain', n_dim) + inc3))/3
        apex = lou_apex(c, scal(old['acc_p_strain']))
        if abs(p/apex - 1) < margin:
            return k
    return len(incs)


def check_step(ctx, c, old, new, inc, total, n_dim, tag):
    """Karush-Kuhn-Tucker check of one backward-Euler step."""
    lam, G = lame(c)
    K = lam + 2*G/3
    inc3 = np.zeros((3, 3))
    inc3[:n_dim, :n_dim] = inc
    tot3 = np.zeros((3, 3))
    tot3[:n_dim, :n_dim] = total
    e0, e1 = s3(old, 'e_strain', n_dim), s3(new, 'e_strain', n_dim)
    sg = s3(new, 'stress', n_dim)
    strain = np.zeros((3, 3))
    strain[:n_dim, :n_dim] = from_kelvin(new['strain_mf'], n_dim)
    scale = max(np.max(np.abs(e0)), np.max(np.abs(inc3)),
                np.max(np.abs(tot3)), 1e-3*yield_strain(c))
    ctx.close(strain, tot3, 0, 1e-9*scale, f'{tag}: total strain')
    ss = max(np.max(np.abs(sg)), c['E']*1e-9)
    ctx.close(sg, hooke(c, e1), 0, 1e-7*ss + 1e-9*c['E']*scale,
              f'{tag}: stress is not the elastic response of the elastic '
              f'strain')
    if c['m'] == 'el':
        ctx.close(e1, e0 + inc3, 0, 1e-9*scale, f'{tag}: elastic strain')
        return 'elastic'
    a0, a1 = scal(old['acc_p_strain']), scal(new['acc_p_strain'])
    back = s3(new, 'back_stress', n_dim) if c['m'] == 'vmm' else None
    dp = (e0 + inc3) - e1
    tol_acc = 1e-9*max(abs(a0), scale)
    ctx.check(a1 >= a0 - tol_acc, lambda: f'{tag}: accumulated plastic strain '
              f'decreased from {a0} to {a1}')
    f = yield_excess(c, sg, a1, back)
    tol_f = 5*TOL + 1e-9
    if c['m'] == 'lou':
        # residuals of the coupled system are averaged: wider band
        tol_f = 2e-5*hard_ref(c['hard'], 0)/hard_ref(c['hard'], a1) + 1e-5
    ctx.check(f <= tol_f, lambda: f'{tag}: stress outside the yield surface '
              f'(relative excess {f:.3e})')
    ftrial = trial_excess(c, old, inc, n_dim)
    if np.max(np.abs(dp)) <= 1e-9*scale:
        ctx.check(ftrial <= 1e-4, lambda: f'{tag}: no plastic flow although '
                  f'the trial state exceeds yield by {ftrial:.3e}')
        ctx.check(abs(a1 - a0) <= tol_acc + 1e-7*scale,
                  f'{tag}: accumulated plastic strain changed in an elastic '
                  f'step')
        if c['m'] == 'vmm':
            ctx.close(back, s3(old, 'back_stress', n_dim), 0, 1e-7*ss,
                      f'{tag}: back-stress changed in an elastic step')
        return 'elastic'
    # plastic step
    ctx.check(ftrial >= -1e-6, lambda: f'{tag}: plastic flow although the '
              f'trial state is elastic ({ftrial:.3e})')
    ctx.check(abs(f) <= tol_f, lambda: f'{tag}: plastic step not on the yield '
              f'surface ({f:.3e})')
    da = a1 - a0
    kind = 'plastic'
    if c['m'] in ('vm', 'vmm'):
        rel = dev(sg) - (back if back is not None else 0.0)
        n = math.sqrt(1.5)*rel/max(np.linalg.norm(rel), 1e-300)
        ctx.close(dp, da*n, 0, 1e-6*np.max(np.abs(dp)) + 1e-8*scale,
                  f'{tag}: plastic strain does not follow the flow rule')
        if c['m'] == 'vmm':
            b0 = s3(old, 'back_stress', n_dim)
            dk = hard_ref(c['kin'], a1) - hard_ref(c['kin'], a0)
            # documented direction; the amount follows from consistency
            ctx.close(back, b0 + 2/3*dk*n, 0, 1e-6*ss,
                      f'{tag}: back-stress evolution')
    elif c['m'] == 'dp':
        d = dev(sg)
        nd = np.linalg.norm(d)
        p = np.trace(sg)/3
        apex = c['xi']*hard_ref(c['hard'], a1)/c['etay']
        if nd < 1e-6*abs(apex):
            kind = 'apex'
            ctx.close(p, apex, 0, 1e-5*abs(apex) + 1e-8*ss,
                      f'{tag}: apex pressure')
            ctx.close(da, c['xi']/c['etaf']*np.trace(dp), 0,
                      1e-6*abs(da) + 1e-8*scale,
                      f'{tag}: apex hardening variable')
            # the plastic strain lies in the normal cone of the apex
            ctx.check(np.linalg.norm(dev(dp))*math.sqrt(0.5)*2
                      <= np.trace(dp)/c['etaf']*(1 + 1e-4) + 1e-8*scale,
                      f'{tag}: apex flow outside the admissible cone')
        else:
            dg = da/c['xi']
            n = d/(math.sqrt(2)*nd) + c['etaf']/3*np.eye(3)
            ctx.close(dp, dg*n, 0, 2e-6*np.max(np.abs(dp)) + 1e-8*scale,
                      f'{tag}: plastic strain does not follow the flow rule')
    elif c['m'] == 'lou':
        d = dev(sg)
        apex = lou_apex(c, a1)
        if np.linalg.norm(d) < 1e-6*hard_ref(c['hard'], 0):
            kind = 'apex'
            ctx.close(np.trace(sg)/3, apex, 0, 1e-4*abs(apex),
                      f'{tag}: apex pressure')
        else:
            n = lou_grad(c, sg, a1)
            dg = np.sum(dp*n)/np.sum(n*n)
            dpn = np.max(np.abs(dp))
            ctx.close(dp, dg*n, 0, 2e-4*dpn + 1e-5*scale,
                      f'{tag}: plastic strain does not follow the flow rule')
            exp = dg if c['assoc'] else dg*math.sqrt(2/3)*np.linalg.norm(n)
            ctx.close(da, exp, 0, 2e-4*abs(da) + 1e-5*max(scale, a0),
                      f'{tag}: hardening variable')
    diss = np.sum((sg - (back if back is not None else 0.0))*dp)
    ctx.check(diss >= -1e-6*ss*scale, lambda: f'{tag}: negative plastic '
              f'dissipation {diss:.3e}')
    return kind


def run_history(m, incs):
    """Plain stepping; returns list of (state, tangent)."""
    sv = m.state_init()
    out = []
    for d in incs:
        sv, ct = m.state_update(T(d), sv)
        out.append((sv, ct))
        if failed(sv):
            break
    return out
