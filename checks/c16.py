"""C16: strain path generators."""
import itertools
import random
import warnings
import numpy as np
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
from data_generation.strain_paths.interface import StrainPathGenerator
from data_generation.strain_paths.proportional_path import \
    ProportionalStrainPathGenerator
from data_generation.strain_paths.random_path import RandomStrainPathGenerator

PROPERTY = 'C16'
RULE = ('Random bounds (symmetric, asymmetric, one-sided, coincident, all '
        'containing zero), dimensions, formulations, 1-60 steps, time spans, '
        'control points, cycles, increment sizes, noise levels and seeds, '
        'for proportional, polynomial and Gaussian process paths; '
        'non-trivial if there are at least three steps and two varying '
        'components.')
warnings.filterwarnings('ignore')
ORDER = {('infinitesimal', 2): ('11', '22', '12'),
         ('infinitesimal', 3): ('11', '22', '33', '12', '23', '13'),
         ('finite', 2): ('11', '21', '12', '22'),
         ('finite', 3): ('11', '21', '31', '12', '22', '32', '13', '23',
                         '33')}


@st.composite
def case(draw, kinds=('prop', 'poly'), n_max=60, inc=True, vary=9):
    form = draw(st.sampled_from(['infinitesimal', 'infinitesimal',
                                 'finite']))
    dim = draw(st.sampled_from([2, 3]))
    order = ORDER[form, dim]
    scale = 10.0**draw(st.integers(-4, 0))
    bounds, n = [], 0
    for _ in order:
        k = draw(st.sampled_from(['sym', 'asym', 'asym', 'pos', 'neg',
                                  'zero', 'const']))
        if n >= vary and k not in ('zero', 'const'):
            k = 'zero'
        a = scale*draw(st.floats(0.1, 1.0))
        b = scale*draw(st.floats(0.02, 1.0))
        n += k not in ('zero', 'const')
        bounds.append({'sym': (-a, a), 'asym': (-a, b), 'pos': (0.0, a),
                       'neg': (-a, 0.0), 'zero': (0.0, 0.0),
                       'const': (a, a)}[k])
    cyc = draw(st.sampled_from([None, None, 0, 1, 2, 3]))
    lo = 2*cyc + 1 if cyc else 1
    nt = draw(st.integers(lo, max(lo, n_max)))
    nc = draw(st.one_of(st.integers(1, 8), st.tuples(
        st.integers(1, 5), st.integers(0, 4))))
    return {'k': draw(st.sampled_from(list(kinds))), 'form': form,
            'dim': dim, 'b': [list(x) for x in bounds], 'cyc': cyc,
            'nt': nt, 'nc': list(nc) if isinstance(nc, tuple) else nc,
            't0': draw(st.sampled_from([0.0, -1.0, 2.5])),
            'dt': draw(st.sampled_from([1.0, 0.01, 300.0])),
            'inc': (scale*draw(st.sampled_from([1e-3, 0.05, 0.4, 3.0]))
                    if inc and form == 'infinitesimal' and draw(
                        st.booleans()) else None),
            'noise': scale*draw(st.sampled_from([0.0, 1e-3, 0.5])),
            's': draw(st.integers(0, 2**31 - 1))}


def make(c, inc=None, noise=None, seed=None, junk=0, order=None):
    o = ORDER[c['form'], c['dim']]
    keys = list(range(len(o)))
    if order is not None:
        rng(order).shuffle(keys)
    b = {o[j]: tuple(c['b'][j]) for j in keys}
    random.seed(junk)
    np.random.seed(junk)
    kw = dict(time_init=c['t0'], time_end=c['t0'] + c['dt'],
              inc_strain_norm=inc, strain_noise_std=noise,
              n_cycle=c['cyc'], random_seed=c['s'] if seed is None else seed)
    if c['k'] == 'prop':
        g = ProportionalStrainPathGenerator(c['form'], c['dim'])
        out = g.generate_strain_path(b, c['nt'], **kw)
    else:
        nc = c['nc']
        if isinstance(nc, list):
            nc = (nc[0], nc[0] + nc[1])
        g = RandomStrainPathGenerator(c['form'], c['dim'])
        out = g.generate_strain_path(
            nc, b, c['nt'], generative_type={
                'poly': 'polynomial', 'gp': 'gaussian_process'}[c['k']], **kw)
    return out


def n_forward(c):
    return (c['nt'] - 1)//(2*c['cyc']) + 1 if c['cyc'] else c['nt']


def frob(c, d):
    """Tensor norm of component differences."""
    if c['form'] == 'finite':
        return np.sqrt((d**2).sum(-1))
    w = np.array([1.0 if k[0] == k[1] else 2.0
                  for k in ORDER[c['form'], c['dim']]])
    return np.sqrt((w*d**2).sum(-1))


def shape(ctx, c, out):
    order, t, p = out
    p = np.asarray(p)
    ctx.check(tuple(order) == ORDER[c['form'], c['dim']],
              f'components {order}')
    ctx.check(p.shape == (c['nt'], len(order)), f'path of shape {p.shape} '
              f'for {c["nt"]} steps')
    ctx.check(np.isfinite(p).all(), 'path is not finite')
    tt = np.asarray(t).ravel()
    ctx.check(len(tt) == c['nt'], 'number of time points')
    ctx.close(tt, c['t0'] + c['dt']*np.arange(c['nt'])/max(c['nt'] - 1, 1),
              1e-12, 1e-12*c['dt'], 'time points')
    return p


def cycles(ctx, c, p):
    """Structure of the loading cycles."""
    if not c['cyc']:
        return
    f = n_forward(c)
    per = 2*(f - 1)
    for k in range(c['nt']):
        if k < per*c['cyc']:
            j = k % per
            j = j if j < f else per - j
        else:
            j = 0
        ctx.check(np.array_equal(p[k], p[j]), f'step {k} of the cyclic path '
                  f'should equal step {j}')


def varying(c):
    b = np.array(c['b'])
    return b[:, 1] - b[:, 0] > 1e-6


def clean(ctx, c, p, start):
    b = np.array(c['b'])
    w = np.maximum(b[:, 1] - b[:, 0], np.abs(b).max(1))
    v = varying(c)
    for j in range(len(b)):
        if v[j]:
            ctx.check(abs(p[0, j]) <= start*w[j], f'component {j} starts at '
                      f'{p[0, j]}')
        else:
            ctx.close(p[:, j], np.full(len(p), b[j, 0]), 1e-6, 1e-7,
                      'component with coincident bounds')
        ctx.check((p[:, j] >= b[j, 0] - 1e-9*w[j]).all()
                  and (p[:, j] <= b[j, 1] + 1e-9*w[j]).all(),
                  f'component {j} spans [{p[:, j].min()}, {p[:, j].max()}], '
                  f'bounds {list(b[j])}')
    cycles(ctx, c, p)


def degree_max(c):
    nc = c['nc']
    return (nc if not isinstance(nc, list) else sum(nc)) - 1


@sub('path', case, quick=700, thorough=30000, shards=3)
def _path(c, ctx):
    v = varying(c)
    ctx.nontrivial(c['nt'] > 2 and v.sum() > 1)
    ctx.label(c['k'])
    p = shape(ctx, c, make(c))
    clean(ctx, c, p, 1e-12 if c['k'] == 'prop' else 1e-6)
    f = n_forward(c)
    if c['k'] == 'prop' and f > 1:
        x = np.arange(f)[:, None]/(f - 1)
        ctx.close(p[:f, v], x*p[f - 1, v], 1e-9, 1e-12*np.abs(
            np.array(c['b'])).max(), 'proportional path is not proportional')
        ctx.check(all(p[f - 1, j] != 0 for j in np.where(v)[0]),
                  'a varying component does not vary')
    if c['k'] == 'poly' and f > 1:
        t = np.linspace(-1, 1, f)
        A = np.polynomial.legendre.legvander(t, degree_max(c))
        for j in np.where(v)[0]:
            if 0.0 in c['b'][j]:
                # a null bound is met by clipping
                continue
            z = np.linalg.lstsq(A, p[:f, j], rcond=None)[0]
            ctx.close(A @ z, p[:f, j], 0, 1e-7*(1e-30 + np.abs(
                p[:f, j]).max()), f'component {j} is no polynomial of '
                f'degree {degree_max(c)}')
    # reproducible, whatever the generator state and the order of the bounds
    q = shape(ctx, c, make(c, junk=3, order=c['s']))
    ctx.check(np.array_equal(p, q), 'same seed, other path')
    if v.any() and f > 1 and c['k'] == 'prop':
        q = make(c, seed=c['s'] + 1)[2]
        ctx.check(not np.array_equal(p, q), 'other seed, same path')


@sub('increments', lambda: case(inc=True), quick=500, thorough=20000,
     shards=2)
def _inc(c, ctx):
    if c['form'] != 'infinitesimal' or not varying(c).any():
        return
    h = c['inc'] or 0.01
    f = n_forward(c)
    p0 = shape(ctx, c, make(c))
    d0 = frob(c, np.diff(p0[:f], axis=0))
    if f < 2 or d0.max() < 1e-9:
        return
    out = make(c, inc=h)
    order, t, p = out
    p = np.asarray(p)
    if c['k'] == 'poly' and not np.isfinite(p).all():
        # a sampled path that stands still has no direction to follow
        ctx.check(d0.min() == 0, 'path is not finite')
        return
    p = shape(ctx, c, out)
    ctx.nontrivial(f > 2)
    ctx.label(c['k'])
    big = np.abs(p).max()
    ctx.close(frob(c, np.diff(p[:f], axis=0)), np.full(f - 1, h), 1e-9,
              1e-13*big, 'size of the strain increments')
    cycles(ctx, c, p)
    ctx.close(p[0], p0[0], 0, 0, 'initial strain')
    if c['k'] == 'prop':
        d = (p0[f - 1] - p0[0])/frob(c, p0[f - 1] - p0[0])
        want = p0[0] + h*np.arange(f)[:, None]*d
        ctx.close(p[:f], want, 1e-8, 1e-10*np.abs(want).max(),
                  'proportional path with prescribed increments')
    else:
        # each increment points to the sampled path
        for i in range(1, f):
            u, w = p[i] - p[i - 1], p0[i] - p[i - 1]
            n = frob(c, w)
            if n > 1e-6*h:
                ctx.close(u/h, w/n, 0, 1e-5, f'direction of increment {i}')


@sub('noise', lambda: case(inc=False, n_max=40), quick=300, thorough=8000)
def _noise(c, ctx):
    p0 = shape(ctx, c, make(c))
    p = shape(ctx, c, make(c, noise=c['noise']))
    ctx.nontrivial(c['nt'] > 2 and c['noise'] > 0)
    f = n_forward(c)
    e = p[:f] - p0[:f]
    big = np.abs(p0).max()
    ctx.check(np.abs(e[0]).max() <= 1e-14*big, 'noise at the initial state')
    cycles(ctx, c, p)
    e = e[1:].ravel()
    n = len(e)
    if n == 0:
        return
    if c['noise'] == 0.0:
        ctx.check(np.abs(e).max() <= 1e-14*big, 'noise of no amplitude')
        return
    z = e/c['noise']
    ctx.check(np.abs(z).max() < 8, f'noise of {np.abs(z).max()} deviations')
    ctx.check(abs(z.mean()) < 7/np.sqrt(n), f'noise of mean {z.mean()}')
    if n >= 20:
        s = (z**2).mean()
        ctx.check(abs(s - 1) < 7*np.sqrt(2/n) + 20/n, f'noise of variance '
                  f'{s} (unit: {n} samples)')
        ctx.check(len(np.unique(e)) == n, 'noise is repeated')
    q = make(c, noise=c['noise'], junk=8)[2]
    ctx.check(np.array_equal(p, q), 'same seed, other noise')


@sub('gaussian_process', lambda: case(kinds=('gp',), n_max=20, inc=False,
                                      vary=1), quick=24, thorough=400,
     shards=4)
def _gp(c, ctx):
    c = dict(c, nc=c['nc'] if isinstance(c['nc'], list) else min(c['nc'], 5))
    v = varying(c)
    ctx.nontrivial(c['nt'] > 2 and v.any())
    p = shape(ctx, c, make(c))
    # the regression interpolates up to its noise level
    clean(ctx, c, p, 0.02)
    q = make(c, junk=5)[2]
    ctx.check(np.array_equal(p, q), 'same seed, other path')


# ---- sampling -------------------------------------------------------------
@st.composite
def scase(draw):
    a, b = draw(st.floats(0.01, 1.0)), draw(st.floats(0.01, 1.0))
    return {'a': a, 'b': b, 's': draw(seeds()), 'n': draw(
        st.integers(2, 4)), 'm': draw(st.integers(1, 2)),
        'j': draw(st.integers(0, 2))}


@sub('sampling', scase, quick=30, thorough=400)
def _sampling(c, ctx):
    """Sampled values fill the bounds; control points fill their range."""
    N = 250
    bounds = {'11': (-c['a'], c['b']), '22': (-c['b'], c['a']),
              '12': (-c['a'], c['a'])}
    lo, hi = list(bounds.values())[c['j']]
    g = ProportionalStrainPathGenerator('infinitesimal', 2)
    x = np.array([g.generate_strain_path(bounds, 3, random_seed=c['s'] % 10**6
                                         + i)[2][-1, c['j']]
                  for i in range(N)])
    u = np.sort((x - lo)/(hi - lo))
    ks = max(np.abs(u - np.arange(N)/N).max(),
             np.abs(u - np.arange(1, N + 1)/N).max())
    ctx.nontrivial(True)
    ctx.check(ks < 3.2/np.sqrt(N), f'sampled strains are not uniform within '
              f'their bounds: distance {ks}')
    g = RandomStrainPathGenerator('infinitesimal', 2)
    n, m = c['n'], c['m']
    t = np.linspace(-1, 1, 12)
    seen = set()
    for i in range(60):
        p = g.generate_strain_path((n, n + m), bounds, 12,
                                   random_seed=c['s'] % 10**6 + i)[2]
        for j in range(3):
            for d in range(0, n + m + 2):
                z = np.polynomial.legendre.legfit(t, p[:, j], d)
                e = np.abs(np.polynomial.legendre.legval(t, z) - p[:, j])
                if e.max() < 1e-8*np.abs(p[:, j]).max():
                    break
            seen.add(d + 1)
    ctx.check(seen == set(range(n, n + m + 1)), f'control points {seen} for '
              f'the range {n} to {n + m}')


# ---- refusals and tensors -------------------------------------------------
@st.composite
def tcase(draw):
    form = draw(st.sampled_from(['infinitesimal', 'finite']))
    dim = draw(st.sampled_from([2, 3]))
    return {'form': form, 'dim': dim, 's': draw(seeds()),
            'bad': draw(st.sampled_from([None, None, 'missing', 'swap',
                                         'cycle', 'dup', 'index', 'shape']))}


@sub('tensor', tcase, quick=200, thorough=5000)
def _tensor(c, ctx):
    r = rng(c['s'])
    o = list(ORDER[c['form'], c['dim']])
    r.shuffle(o)
    n = c['dim']
    sym = c['form'] == 'infinitesimal'
    if sym:
        o = [k if r.random() < 0.5 else k[::-1] for k in o]
    x = r.standard_normal(len(o))
    ctx.nontrivial(c['bad'] is not None or len(o) > 3)

    def refused(f):
        try:
            f()
        except RuntimeError:
            return True
        return False
    t = StrainPathGenerator.build_strain_tensor
    if c['bad'] in ('missing', 'dup', 'index', 'shape'):
        if c['bad'] == 'missing':
            o, x = o[:-1], x[:-1]
        elif c['bad'] == 'dup':
            o[0] = o[1]
        elif c['bad'] == 'index':
            o[0] = '1' + str(n + 1)
        else:
            x = x[None]
        ctx.check(refused(lambda: t(n, x, tuple(o), is_symmetric=sym)),
                  f'strain with {c["bad"]} components accepted')
        return
    a = t(n, x, tuple(o), is_symmetric=sym)
    want = np.zeros((n, n))
    for k, v in zip(o, x):
        want[int(k[0]) - 1, int(k[1]) - 1] = v
        if sym:
            want[int(k[1]) - 1, int(k[0]) - 1] = v
    ctx.check(np.array_equal(a, want), 'strain tensor')
    if c['bad'] is None:
        return
    base = {k: (-1.0, 1.0) for k in ORDER[c['form'], n]}
    nt, cyc = 5, None
    if c['bad'] == 'swap':
        base[sorted(base)[0]] = (1.0, -1.0)
    else:
        nt, cyc = 6, 3
    for f in (lambda: ProportionalStrainPathGenerator(
            c['form'], n).generate_strain_path(base, nt, n_cycle=cyc),
            lambda: RandomStrainPathGenerator(
                c['form'], n).generate_strain_path(3, base, nt,
                                                   n_cycle=cyc)):
        ctx.check(refused(f), f'{c["bad"]} accepted')
