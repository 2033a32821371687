"""C22: hardening laws."""
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import fl
from materials import hardening, hard_params, hard_ref, hard_slope_ref
from simulators.fetorch.material.models.standard import hardening as hd

PROPERTY = 'C22'
RULE = ('Random hardening law and parameters (all three laws, perfectly '
        'plastic and multi-segment curves), plastic strains from zero to '
        'beyond the last curve point, including curve points; non-trivial if '
        'the plastic strain is positive and the law is not perfectly plastic.')


@st.composite
def case(draw):
    h = draw(hardening())
    if h['k'] == 'nadai_ludwik' and draw(st.booleans()):
        # steep onset of hardening
        h['ep0'] = 10.0**draw(st.integers(-9, -4))
    if h['k'] == 'piecewise_linear':
        # Curves starting at a positive plastic strain
        d = draw(st.sampled_from([0.0, 0.0, 0.02]))
        h['pts'] = [[p[0] + d, p[1]] for p in h['pts']]
        hi = h['pts'][-1][0]*1.5
        x = draw(st.one_of(fl(0.0, hi), st.sampled_from(
            [p[0] for p in h['pts']])))
    else:
        x = draw(st.one_of(st.just(0.0), fl(0.0, 2.0), fl(0.0, 1e-3),
                           fl(0.0, 1e-7)))
    return {'h': h, 'x': x}


@sub('law', case, quick=1500)
def _law(c, ctx):
    h, x = c['h'], c['x']
    law = hd.get_hardening_law(h['k'])
    ctx.check(h['k'] in hd.get_available_hardening_types(),
              'law not listed as available')
    y, s = law(hard_params(h), torch.tensor(x))
    y = float(torch.as_tensor(y).reshape(-1)[0])
    s = float(torch.as_tensor(s).reshape(-1)[0])
    ctx.nontrivial(x > 0 and h.get('a', 1.0) != 0)
    ctx.close(y, hard_ref(h, x), 1e-9, 1e-9, f'{h["k"]}: yield stress')
    pts = [p[0] for p in h.get('pts', [])]
    if not any(abs(x - p) < 1e-9 for p in pts):
        ctx.close(s, hard_slope_ref(h, x), 1e-8, 1e-8, f'{h["k"]}: slope')
        d = 1e-6*max(x, 1e-3)
        if x > 100*d and not any(abs(x - p) <= 2*d for p in pts):
            yp, _ = law(hard_params(h), torch.tensor(x + d))
            ym, _ = law(hard_params(h), torch.tensor(x - d))
            fd = (float(torch.as_tensor(yp).reshape(-1)[0])
                  - float(torch.as_tensor(ym).reshape(-1)[0]))/(2*d)
            ctx.close(s, fd, 1e-4, 1e-3 + 1e-10*abs(y)/d,
                      f'{h["k"]}: slope is not the derivative')
    else:
        # at a point of the curve: one of the slopes at its sides
        side = [hard_slope_ref(h, x - 1e-7), hard_slope_ref(h, x + 1e-7)]
        ctx.check(min(abs(s - q) for q in side) <= 1e-8*(1 + max(side)),
                  f'{h["k"]}: slope {s} at a point, not one of {side}')
    # negative plastic strains are treated as zero
    y0, _ = law(hard_params(h), torch.tensor(-abs(x)))
    ctx.close(float(torch.as_tensor(y0).reshape(-1)[0]), hard_ref(h, 0.0),
              1e-9, 1e-9, f'{h["k"]}: yield stress below zero strain')
    # autodiff of the yield stress is the slope
    if not any(abs(x - p) < 1e-9 for p in pts) and x > 0:
        xt = torch.tensor(x, requires_grad=True)
        yt, _ = law(hard_params(h), xt)
        g, = torch.autograd.grad(torch.as_tensor(yt).reshape(-1)[0], xt)
        ctx.close(g, hard_slope_ref(h, x), 1e-8, 1e-8,
                  f'{h["k"]}: differentiated yield stress')
    # the law can be mapped over a batch of plastic strains
    xs = torch.tensor([x, 0.5*x, 2.0*x])
    ys, _ = torch.vmap(lambda q: law(hard_params(h), q))(xs) \
        if h['k'] != 'linear' else (law(hard_params(h), xs)[0], None)
    ctx.close(ys.reshape(-1), [hard_ref(h, float(q)) for q in xs], 1e-9,
              1e-9, f'{h["k"]}: batched yield stress')


@st.composite
def icase(draw):
    n = draw(st.integers(2, 6))
    x = sorted(draw(st.lists(fl(-5.0, 5.0), min_size=n, max_size=n,
                             unique=True)))
    for i in range(1, n):
        x[i] = max(x[i], x[i-1] + 1e-3)
    y = draw(st.lists(fl(-10.0, 10.0), min_size=n, max_size=n))
    q = draw(st.lists(st.one_of(fl(-6.0, 6.0), st.sampled_from(x)),
                      min_size=1, max_size=6))
    return {'x': x, 'y': y, 'q': q}


@sub('interpolation', icase, quick=500)
def _interp(c, ctx):
    x, y = np.array(c['x']), np.array(c['y'])
    q = np.array(c['q'])
    got = hd.torch_interp(torch.tensor(q), torch.tensor(x), torch.tensor(y))
    ctx.nontrivial(np.any((q > x[0]) & (q < x[-1])))
    ctx.close(got, np.interp(q, x, y), 0, 1e-9*(1 + np.max(np.abs(y))
              + np.max(np.abs(np.diff(y)/np.diff(x)))*10), 'interpolation')
    got = hd.torch_interp(torch.tensor(q), torch.tensor(x), torch.tensor(y),
                          left=torch.tensor(-77.0), right=torch.tensor(99.0))
    ctx.close(got, np.interp(q, x, y, left=-77.0, right=99.0), 0,
              1e-9*(1 + np.max(np.abs(y))
                    + np.max(np.abs(np.diff(y)/np.diff(x)))*10),
              'interpolation with end values')


@sub('refused', case, quick=300)
def _refused(c, ctx):
    """On request, invalid data are refused and valid ones are not."""
    h, x = c['h'], c['x']
    law = hd.get_hardening_law(h['k'])
    a = law(hard_params(h), torch.tensor(x), is_check_data=True)
    b = law(hard_params(h), torch.tensor(x))
    for p, q in zip(a, b):
        ctx.close(torch.as_tensor(p), torch.as_tensor(q), 0, 0, 'checked')
    bad = [(h, -1e-6 - x)]
    if h['k'] == 'piecewise_linear':
        pts = [list(p) for p in h['pts']]
        bad.append(({**h, 'pts': pts[::-1]}, x))
        bad.append(({**h, 'pts': [pts[0]] + pts}, x))
        bad.append(({**h, 'pts': [[-0.01, pts[0][1]]] + pts[1:]}, x))
    for g, z in bad:
        try:
            law(hard_params(g), torch.tensor(z), is_check_data=True)
        except RuntimeError:
            continue
        ctx.check(False, f'{h["k"]}: accepted {g} at {z}')
    ctx.nontrivial(len(bad) > 1)
