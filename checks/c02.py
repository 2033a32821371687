"""C02: every constitutive state update is admissible along any history."""
import math
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import fl, fixed, seeds, rng, random_rotation
import materials as M
from simulators.fetorch.material.material_su import material_state_update

PROPERTY = 'C02'
RULE = ('Random material parameters (elastic constants, linear/Nadai-Ludwik/'
        'piecewise hardening, cohesion and pressure parameters, Lou '
        'parameters), 2D plane strain and 3D, random multi-step strain '
        'histories with continuation, reversal, hydrostatic, shear and null '
        'increments; a case is non-trivial if at least one step is plastic '
        'and the history has at least two increments.')


def case(names, vmap=(0,), kinds=('linear', 'nadai_ludwik',
                                  'piecewise_linear'), scales=(1.0,),
         rough=False, evolve=False, **h):
    return lambda: fixed(m=M.model(names=names, kinds=kinds, scales=scales,
                                   rough=rough, evolve=evolve),
                         n=st.sampled_from([2, 3]),
                         v=st.sampled_from(list(vmap)),
                         h=M.history(**h))


UNITS = dict(scales=(1.0, 1.0, 1e-4, 1e4), rough=True)


def concave(h):
    if h['k'] == 'linear':
        return True
    if h['k'] == 'nadai_ludwik':
        return h['b'] <= 1
    p = np.array(h['pts'])
    s = np.diff(p[:, 1])/np.diff(p[:, 0])
    return p[0, 0] == 0 and bool(np.all(np.diff(s) <= 1e-9*max(s)))


def may_fail(c):
    """With concave hardening Newton approaches the solution from one side
    and cannot fail."""
    return not all(concave(c[k]) for k in ('hard', 'kin') if k in c)


def run(ctx, c, lou=False):
    m = M.build(c['m'], c['n'], c['v'])
    incs = M.increments(c['m'], c['h'], c['n'])
    sv = m.state_init()
    tot = np.zeros((c['n'], c['n']))
    kinds = []
    for k, d in enumerate(incs):
        inc = M.T(d)
        inc0 = inc.clone()
        keep = {a: (b.clone() if torch.is_tensor(b) else b)
                for a, b in sv.items()}
        new, ct = m.state_update(inc, sv)
        tot = tot + d
        ctx.check(torch.equal(inc, inc0), 'strain increment was mutated')
        for a, b in keep.items():
            if torch.is_tensor(b):
                ctx.check(torch.equal(sv[a], b), f'old state variable {a} '
                          f'was mutated by the state update')
        if M.failed(new):
            ctx.label('failed')
            ctx.check(lou or may_fail(c['m']),
                      f'step {k}: state update did not converge')
            for a in ('stress_mf', 'e_strain_mf', 'acc_p_strain'):
                ctx.check(bool(torch.all(torch.isnan(new[a]))),
                          f'failed step {k}: {a} is not NaN')
            break
        kinds.append(M.check_step(ctx, c['m'], sv, new, d, tot, c['n'],
                                  f'step {k}'))
        if 'is_plast' in new and c['m']['m'] != 'el':
            f = M.trial_excess(c['m'], sv, d, c['n'])
            flag = bool(M.scal(new['is_plast']))
            ctx.check(flag or f <= 1e-4, f'step {k}: plastic step (trial '
                      f'excess {f:.2e}) not flagged as plastic')
            ctx.check(not flag or f >= -1e-6, f'step {k}: elastic step '
                      f'(trial excess {f:.2e}) flagged as plastic')
        sv = new
    for k in set(kinds):
        ctx.label(k)
    ctx.nontrivial(len(kinds) >= 2 and any(k != 'elastic' for k in kinds))


@sub('von_mises', case(('vm',), **UNITS), quick=900, shards=2)
def _(c, ctx):
    run(ctx, c)


@sub('von_mises_mixed', case(('vmm',), **UNITS), quick=900, shards=2)
def _(c, ctx):
    run(ctx, c)


@sub('drucker_prager', case(('dp',), **UNITS), quick=1200, shards=2)
def _(c, ctx):
    run(ctx, c)


@sub('elastic', lambda: fixed(m=M.model(names=('el',)),
                              n=st.sampled_from([2, 3]), v=st.just(0),
                              h=M.history()), quick=150)
def _(c, ctx):
    run(ctx, c)
    ctx.nontrivial(len(c['h']) >= 2)


@sub('vmap_models', case(('vm', 'vmm', 'dp'), vmap=(1,), rough=True,
                        scales=(1.0, 1.0, 1e-2, 1e4)), quick=600,
     shards=3)
def _(c, ctx):
    run(ctx, c)


@sub('lou', case(('lou',), kinds=('linear', 'nadai_ludwik'), n_max=4,
                 small=0.5, big=4.0, evolve=True, vmap=(0, 1)), quick=500,
     shards=4)
def _(c, ctx):
    run(ctx, c, lou=True)


# ---------------------------------------------------------------------------
def path(m, incs):
    """States until the first failure (exclusive)."""
    out = []
    for sv, ct in M.run_history(m, incs):
        if M.failed(sv):
            break
        out.append(sv)
    return out


ALL = ('vm', 'vmm', 'dp', 'lou')


@sub('plane_strain_is_3d',
     lambda: fixed(m=M.model(names=ALL + ('el',), evolve=True),
                   v=st.sampled_from([0, 0, 1]), h=M.history(n_max=5, big=4)),
     quick=600, shards=2)
def _(c, ctx):
    v = 0 if c['m']['m'] == 'el' else c['v']
    i2 = M.increments(c['m'], c['h'], 2)
    i3 = []
    for d in i2:
        e = np.zeros((3, 3))
        e[:2, :2] = d
        i3.append(e)
    m2 = M.build(c['m'], 2, v)
    p2 = path(m2, i2)
    ok = M.switch_ok(c['m'], [m2.state_init()] + p2, i2, 2)
    p2 = p2[:ok]
    i3 = i3[:ok]
    p3 = path(M.build(c['m'], 3, v), i3)
    ctx.check(len(p2) == min(len(p3), ok), f'plane strain analysis completed {len(p2)} '
              f'steps, the equivalent 3D analysis {len(p3)}')
    for k, (a, b) in enumerate(zip(p2, p3)):
        for name in ('stress', 'e_strain'):
            x, y = M.s3(a, name, 2), M.s3(b, name, 3)
            ctx.close_norm(x, y, 1e-7, 1e-12, f'step {k}: {name} of the plane '
                           f'strain and 3D analyses')
        if 'acc_p_strain' in a:
            ctx.close(M.scal(a['acc_p_strain']), M.scal(b['acc_p_strain']),
                      1e-7, 1e-12, f'step {k}: acc_p_strain')
        if 'back_stress_mf' in a:
            ctx.close_norm(M.s3(a, 'back_stress', 2),
                           M.s3(b, 'back_stress', 3), 1e-6, 1e-8,
                           f'step {k}: back-stress')
    ctx.nontrivial(any(M.scal(a.get('acc_p_strain', 1.0)) > 0 for a in p2))


@sub('frame_indifference',
     lambda: fixed(m=M.model(names=ALL + ('el',), evolve=True), n=st.sampled_from([2, 3]),
                   v=st.sampled_from([0, 0, 1]), h=M.history(n_max=5, big=4),
                   q=seeds()), quick=600, shards=2)
def _(c, ctx):
    n = c['n']
    v = 0 if c['m']['m'] == 'el' else c['v']
    Q = random_rotation(rng(c['q']), n)
    Q3 = np.eye(3)
    Q3[:n, :n] = Q
    incs = M.increments(c['m'], c['h'], n)
    ma = M.build(c['m'], n, v)
    pa = path(ma, incs)
    ok = M.switch_ok(c['m'], [ma.state_init()] + pa, incs, n)
    pa, incs = pa[:ok], incs[:ok]
    pb = path(M.build(c['m'], n, v), [Q @ d @ Q.T for d in incs])
    ctx.label(c['m']['m'])
    lim = min(len(pa), len(pb))
    ctx.check(len(pa) == len(pb) or c['m']['m'] == 'lou'
              or may_fail(c['m']), 'rotated history fails elsewhere')
    tol = 2e-5
    for k in range(lim):
        for name in ('stress', 'e_strain'):
            x, y = M.s3(pa[k], name, n), M.s3(pb[k], name, n)
            s = max(np.max(np.abs(x)), np.max(np.abs(y)))
            floor = M.yield_strain(c['m'])*(c['m']['E'] if name == 'stress'
                                            else 1.0)
            ctx.close(Q3 @ x @ Q3.T, y, 0, tol*max(s, floor),
                      f'step {k}: {name} does not rotate with the axes')
        if 'acc_p_strain' in pa[k]:
            x = M.scal(pa[k]['acc_p_strain'])
            ctx.close(x, M.scal(pb[k]['acc_p_strain']), tol,
                      tol*M.yield_strain(c['m']),
                      f'step {k}: acc_p_strain depends on the axes')
    ctx.nontrivial(lim >= 1 and any(
        M.scal(a.get('acc_p_strain', 1.0)) > 0 for a in pa))


@sub('unchanged_strain',
     lambda: fixed(m=M.model(names=ALL + ('el',), evolve=True), n=st.sampled_from([2, 3]),
                   v=st.sampled_from([0, 0, 1]), h=M.history(n_max=4, big=4)),
     quick=400, shards=2)
def _(c, ctx):
    """A null increment leaves every state variable where it was."""
    n = c['n']
    v = 0 if c['m']['m'] == 'el' else c['v']
    m = M.build(c['m'], n, v)
    incs = M.increments(c['m'], c['h'], n)
    states = [m.state_init()] + path(m, incs)
    for k, sv in enumerate(states):
        new, _ = m.state_update(M.T(np.zeros((n, n))), sv)
        ctx.check(not M.failed(new), f'step {k}: null increment failed')
        for name in ('strain', 'stress', 'e_strain'):
            x, y = M.s3(sv, name, n), M.s3(new, name, n)
            floor = M.yield_strain(c['m'])*(c['m']['E'] if name == 'stress'
                                            else 1.0)
            ctx.close(x, y, 1e-5, 1e-5*floor,
                      f'step {k}: {name} changed under a null increment')
        if 'acc_p_strain' in sv:
            ctx.close(M.scal(sv['acc_p_strain']),
                      M.scal(new['acc_p_strain']), 1e-5,
                      1e-5*M.yield_strain(c['m']),
                      f'step {k}: acc_p_strain changed')
    ctx.nontrivial(len(states) > 1 and any(
        M.scal(a.get('acc_p_strain', 1.0)) > 0 for a in states))


@sub('dispatcher_and_precision',
     lambda: fixed(m=M.model(names=ALL, evolve=True), n=st.sampled_from([2, 3]),
                   v=st.sampled_from([0, 1]), h=M.history(n_max=4, big=3)),
     quick=300, shards=2)
def _(c, ctx):
    """material_state_update == state_update, and single precision callers
    get the double precision result rounded."""
    n = c['n']
    pt = {2: 1, 3: 4}[n]
    m = M.build(c['m'], n, c['v'])
    incs = M.increments(c['m'], c['h'], n)
    ref = M.run_history(m, incs)
    ok = M.switch_ok(c['m'], [m.state_init()] + [a for a, _ in ref
                                                 if not M.failed(a)], incs, n)
    ref, incs = ref[:ok], incs[:ok]
    sv = m.state_init()
    for k, d in enumerate(incs[:len(ref)]):
        sv, ct = material_state_update('infinitesimal', pt, m, M.T(d), sv)
        for a in sv:
            ctx.close(sv[a], ref[k][0][a], 0, 0, f'dispatched {a}')
    torch.set_default_dtype(torch.float32)
    try:
        m32 = M.build(c['m'], n, c['v'])
        sv = m32.state_init()
        ok = True
        for k, d in enumerate(incs[:len(ref)]):
            old = sv
            keep = {a: b.clone() for a, b in sv.items() if torch.is_tensor(b)}
            inc = torch.tensor(d, dtype=torch.float32)
            inc0 = inc.clone()
            sv, ct = m32.state_update(inc, sv)
            ctx.check(inc.dtype == inc0.dtype and torch.equal(inc, inc0),
                      'single precision strain increment was mutated')
            for a, b in keep.items():
                ctx.check(old[a].dtype == b.dtype and torch.equal(old[a], b),
                          f'old single precision state variable {a} was '
                          f'mutated: {old[a].dtype}')
            ctx.check(ct is None or ct.dtype == torch.float32,
                      'tangent not in single precision')
            ctx.check(torch.get_default_dtype() == torch.float32,
                      'default precision was not restored')
            for a, b in sv.items():
                if torch.is_tensor(b) and b.is_floating_point():
                    ctx.check(b.dtype == torch.float32,
                              f'{a} returned as {b.dtype}')
            if M.failed(sv) or M.failed(ref[k][0]):
                ok = False
                break
    finally:
        torch.set_default_dtype(torch.float64)
    if ok and ref:
        x, y = M.s3(sv, 'stress', n), M.s3(ref[-1][0], 'stress', n)
        s = max(np.max(np.abs(x)), np.max(np.abs(y)),
                M.yield_strain(c['m'])*c['m']['E'])
        lim = 2e-3 if c['m']['m'] == 'lou' else 5e-4
        ctx.close(x, y, 0, lim*s, 'single precision stress')
        ctx.nontrivial(M.scal(sv['acc_p_strain']) > 0)


@st.composite
def group(draw):
    """A material and many random histories, expanded from seeds."""
    m = draw(M.model(names=ALL, evolve=True))
    return {'m': m, 'v': draw(st.sampled_from([0, 1])),
            'n': draw(st.sampled_from([2, 3])), 's': draw(seeds())}


@sub('convergence', group, quick=96, shards=8)
def _(c, ctx):
    """Failures are exceptional: at most 3 in 100 plastic steps of ordinary
    size (one in a thousand observed for the Lou model, none for others)."""
    r = rng(c['s'])
    n = c['n']
    plastic = fails = 0
    for _ in range(12):
        hist = [{'k': str(r.choice(M.KINDS)), 'f': float(r.uniform(0.5, 4.0)),
                 's': int(r.integers(10**6))} for _ in range(4)]
        m = M.build(c['m'], n, c['v'])
        sv = m.state_init()
        for d in M.increments(c['m'], hist, n):
            new, _ = m.state_update(M.T(d), sv)
            plastic += M.trial_excess(c['m'], sv, d, n) > 1e-4
            if M.failed(new):
                fails += 1
                break
            sv = new
    ctx.label(c['m']['m'])
    ctx.nontrivial(plastic >= 5)
    ctx.check(fails <= (3 + 0.03*plastic if c['m']['m'] == 'lou' else 0),
              f'{fails} of {plastic} plastic steps failed')
