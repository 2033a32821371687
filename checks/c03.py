"""C03: plain and batch-mappable constitutive models are interchangeable."""
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import fixed
import materials as M

PROPERTY = 'C03'
RULE = ('Random material parameters and strain histories (as C02) run through '
        'the plain and the vmap implementation, and random batches of '
        'histories mapped with torch.vmap; a case is non-trivial if at least '
        'one compared step is plastic (and, for batches, histories differ).')

NAMES = ('vm', 'vmm', 'dp', 'lou')
STATE = ('strain', 'e_strain', 'stress', 'back_stress')


def flt(c, name):
    y = M.yield_strain(c)
    return y*c['E'] if 'stress' in name else y


def compare(ctx, c, a, b, n, tol, tag):
    ctx.check(set(a) == set(b) or
              set(a) ^ set(b) <= {'is_apex_return'},
              f'{tag}: state variables {sorted(a)} vs {sorted(b)}')
    for name in STATE:
        if name + '_mf' in a:
            x, y = M.s3(a, name, n), M.s3(b, name, n)
            s = max(np.max(np.abs(x)), np.max(np.abs(y)), flt(c, name))
            ctx.close(x, y, 0, tol*s, f'{tag}: {name}')
    ctx.close(M.scal(a['acc_p_strain']), M.scal(b['acc_p_strain']), tol,
              tol*M.yield_strain(c), f'{tag}: acc_p_strain')


def sharp(c, old, inc, n):
    """Step not decided by rounding at the elastic/plastic switch."""
    f = M.trial_excess(c, old, inc, n)
    return not (-1e-5 < f < 1e-4)


def run(c, ctx, tol):
    m, n = c['m'], c['n']
    a, b = M.build(m, n, 0), M.build(m, n, 1)
    incs = M.increments(m, c['h'], n)
    sa, sb = a.state_init(), b.state_init()
    compare(ctx, m, sa, sb, n, 0.0, 'initial state')
    plast = 0
    for k, d in enumerate(incs):
        if M.switch_ok(m, [sa], [d], n) == 0:
            break
        na, ta = a.state_update(M.T(d), sa)
        nb, tb = b.state_update(M.T(d), sb)
        if M.failed(na) or M.failed(nb):
            ctx.label('failed')
            soft = m['hard']['k'] != 'linear' or m['m'] == 'lou' \
                or m.get('kin', {'k': 'linear'})['k'] != 'linear'
            ctx.check(soft or M.failed(na) == M.failed(nb),
                      f'step {k}: only one implementation failed')
            break
        compare(ctx, m, na, nb, n, tol, f'step {k}')
        if sharp(m, sa, d, n):
            ctx.check(bool(M.scal(na['is_plast'])) ==
                      bool(M.scal(nb['is_plast'])), f'step {k}: is_plast')
            ctx.check((ta is None) == (tb is None),
                      f'step {k}: only one implementation gives a tangent')
            if ta is not None and not near_kink(m, na, n):
                ctx.check(tuple(ta.shape) == tuple(tb.shape),
                          f'step {k}: tangent shape')
                ctx.close(ta, tb, 0, max(tol, 2e-4)*m['E'],
                          f'step {k}: consistent tangent')
        plast += bool(M.scal(na['is_plast']))
        sa, sb = na, nb
    ctx.nontrivial(plast > 0)


def near_kink(m, sv, n):
    """Plastic strain at a breakpoint of a piecewise hardening law, or state
    next to the apex of the cone: the tangent jumps there."""
    acc = M.scal(sv['acc_p_strain'])
    for h in (m['hard'], m.get('kin')):
        if h and h['k'] == 'piecewise_linear':
            if min(abs(acc - p[0]) for p in h['pts']) < 1e-5:
                return True
    if m['m'] == 'dp':
        s = M.s3(sv, 'stress', n)
        apex = m['xi']*M.hard_ref(m['hard'], acc)/m['etay']
        nd = np.linalg.norm(M.dev(s))
        # cone states with tiny deviators amplify the 1e-8 regularisation
        return nd < 1e-2*abs(apex) and nd > 1e-9*abs(apex)
    return False


def case(names, n_max=6, big=5.0):
    return lambda: fixed(m=M.model(names=names, evolve=True,
                                   scales=(1.0, 1.0, 1e-2)),
                         n=st.sampled_from([2, 3]),
                         h=M.history(n_max=n_max, big=big))


@sub('von_mises', case(('vm',)), quick=500, shards=2)
def _(c, ctx):
    run(c, ctx, 1e-5)


@sub('von_mises_mixed', case(('vmm',)), quick=500, shards=2)
def _(c, ctx):
    run(c, ctx, 1e-5)


@sub('drucker_prager', case(('dp',)), quick=500, shards=2)
def _(c, ctx):
    run(c, ctx, 1e-5)


@sub('lou', case(('lou',), 4, 4.0), quick=250, shards=2)
def _(c, ctx):
    run(c, ctx, 2e-5)


@sub('batched',
     lambda: fixed(m=M.model(names=NAMES, evolve=True),
                   n=st.sampled_from([2, 3]),
                   hs=st.lists(M.history(n_min=3, n_max=3, big=4.0),
                               min_size=1, max_size=5)), quick=120, shards=2)
def _(c, ctx):
    """torch.vmap over histories == each history alone."""
    m, n = c['m'], c['n']
    b = M.build(m, n, 1)
    incs = [M.increments(m, h, n) for h in c['hs']]
    alone = []
    for i in incs:
        sv = b.state_init()
        out = []
        for d in i:
            sv, ct = b.state_update(M.T(d), sv)
            out.append((sv, ct))
        alone.append(out)
    nb = len(incs)
    sv = {k: v.expand((nb,) + tuple(v.shape)).clone()
          for k, v in b.state_init().items()}
    f = torch.vmap(b.state_update, in_dims=(0, 0), out_dims=(0, 0)) \
        if m['m'] != 'lou' else torch.vmap(
            lambda x, s: b.state_update(x, s)[0])
    plast = False
    for k in range(3):
        inc = M.T(np.stack([i[k] for i in incs]))
        if m['m'] == 'lou':
            sv, ct = f(inc, sv), None
        else:
            sv, ct = f(inc, sv)
        for j in range(nb):
            ref, rct = alone[j][k]
            for name, v in ref.items():
                x = sv[name][j]
                if not v.is_floating_point():
                    ctx.check(bool(torch.all(x == v)),
                              f'history {j} step {k}: {name} {x} vs {v}')
                    continue
                s = flt(m, name)
                ctx.close(x, v, 1e-7, 1e-8*s, f'history {j} of {nb}, step '
                          f'{k}: {name} differs from the unbatched result')
            if ct is not None and not near_kink(m, ref, n):
                ctx.close(ct[j], rct, 1e-5, 1e-5*m['E'],
                          f'history {j} step {k}: tangent')
            plast |= bool(M.scal(ref['is_plast']))
    ctx.nontrivial(plast and nb > 1)
