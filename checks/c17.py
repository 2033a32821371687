"""C17: noise generator and denoisers."""
import numpy as np
import torch
from scipy.special import ndtr
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds
from data_generation.strain_paths.noise_generator import NoiseGenerator
from utilities.data_denoisers import Denoiser

PROPERTY = 'C17'
RULE = ('Random signals (1-60 steps, 1-5 features, noisy, polynomial, '
        'harmonic, constant), windows, polynomial orders, cutoffs, repeated '
        'application, both precisions; random noise laws, parameters and '
        'weights over 500-3000 samples; non-trivial if the signal has at '
        'least three steps and the filter acts on it.')


@st.composite
def signal(draw):
    m = draw(st.sampled_from(['moving_average', 'savitzky_golay',
                              'frequency_low_pass']))
    c = {'m': m, 'T': draw(st.integers(1, 60)), 'F': draw(st.integers(1, 5)),
         's': draw(seeds()), 'n': draw(st.sampled_from([1, 1, 1, 2, 3, 0])),
         'w': draw(st.integers(1, 15)), 'p': draw(st.integers(0, 5)),
         'cut': draw(st.floats(0.0, 0.6)), 'f32': draw(st.booleans()),
         'k': draw(st.sampled_from(['noise', 'poly', 'wave', 'const'])),
         'scale': 10.0**draw(st.integers(-5, 4)),
         'off': draw(st.sampled_from([0.0, 0.0, 100.0]))}
    if m == 'savitzky_golay':
        c['p'] = min(c['p'], c['w'] - 1)
    if m == 'frequency_low_pass' and draw(st.integers(0, 2)) == 0:
        # cutoff exactly on a frequency of the spectrum (representable)
        c['T'] = 2**draw(st.integers(1, 5))
        c['cut'] = draw(st.integers(0, c['T']//2))/c['T']
    return c


def make(c, r):
    t = np.arange(c['T'])
    if c['k'] == 'noise':
        x = r.standard_normal((c['T'], c['F']))
    elif c['k'] == 'poly':
        x = np.stack([np.polynomial.chebyshev.chebval(
            2*t/max(c['T'] - 1, 1) - 1, r.standard_normal(
                int(r.integers(1, 6)))) for _ in range(c['F'])], 1)
    elif c['k'] == 'wave':
        x = np.stack([np.cos(2*np.pi*int(r.integers(0, c['T'] + 1))*t/c['T']
                             + r.uniform(0, 6)) for _ in range(c['F'])], 1)
    else:
        x = np.broadcast_to(r.standard_normal(c['F']),
                            (c['T'], c['F'])).copy()
    return c['scale']*(x + c['off'])


def params(c):
    return {'moving_average': {'window_size': c['w']}, 'savitzky_golay': {
        'window_size': c['w'], 'poly_order': c['p']},
        'frequency_low_pass': {'cutoff_frequency': c['cut']}}[c['m']]


def window(x, w, i):
    k = np.arange(i - w//2, i - w//2 + w)
    return x[np.clip(k, 0, len(x) - 1)]


def reference(c, x):
    T = len(x)
    if c['m'] == 'moving_average':
        return np.stack([window(x, c['w'], i).mean(0) for i in range(T)])
    if c['m'] == 'savitzky_golay':
        # value of the fitted polynomial at the middle of the window
        w, u = c['w'], np.arange(c['w']) - (c['w'] - 1)/2
        A = np.polynomial.legendre.legvander(u/max(w/2, 1), c['p'])
        a = np.polynomial.legendre.legvander(np.zeros(1), c['p'])
        h = a @ np.linalg.pinv(A)
        return np.stack([(h @ window(x, w, i))[0] for i in range(T)])
    # real Fourier series truncated at the cutoff
    t = np.arange(T)
    out = np.zeros_like(x)
    for k in range(T//2 + 1):
        if k/T > c['cut'] + 1e-12:
            break
        cs, sn = np.cos(2*np.pi*k*t/T), np.sin(2*np.pi*k*t/T)
        m = 1.0 if k == 0 or 2*k == T else 2.0
        out += m/T*(np.outer(cs, cs @ x) + np.outer(sn, sn @ x))
    return out


def near_cut(c):
    """The cutoff falls on a discrete frequency up to round-off."""
    if c['m'] != 'frequency_low_pass':
        return False
    k = c['cut']*c['T']
    if k == round(k) and c['T'] & (c['T'] - 1) == 0:
        return False
    return abs(k - round(k)) < (1e-4 if c['f32'] else 1e-9)


def run(c, x, n=None):
    t = torch.tensor(x, dtype=torch.float32 if c['f32'] else torch.float64)
    keep = t.clone()
    y = Denoiser().denoise(t, c['m'], denoise_parameters=params(c),
                           n_denoise_cycle=c['n'] if n is None else n)
    return t, keep, y


@sub('filter', signal, quick=1500, thorough=60000, shards=3)
def _filter(c, ctx):
    if near_cut(c):
        return
    r = rng(c['s'])
    x = make(c, r)
    t, keep, y = run(c, x)
    x = to_np(t).astype(float)
    ctx.check(torch.equal(t, keep), 'the data were modified')
    ctx.check(y.shape == t.shape, f'shape {tuple(y.shape)}')
    ctx.check(y.dtype == t.dtype, f'precision {y.dtype}')
    ctx.label(c['m'])
    want = x
    for _ in range(c['n']):
        want = reference(c, want)
    a = np.abs(x).max() + 1e-300
    ctx.nontrivial(c['T'] > 2 and c['n'] > 0 and np.abs(want - x).max()
                   > 1e-6*a)
    g = 1.0
    if c['m'] == 'savitzky_golay':
        g = 3.0**c['n']
    tol = (2e-5 if c['f32'] else 1e-10)*a*g
    ctx.close(y, want, 0, tol, f'{c["m"]} of {c["T"]} steps')
    # features are independent
    for j in range(c['F']):
        ctx.close(run(c, x[:, j:j + 1])[2][:, 0], y[:, j], 0, tol,
                  'a feature alone')
    if c['f32']:
        return
    # linear
    z = rng(c['s'], 1).standard_normal(x.shape)*c['scale']
    u = run(c, 2.0*x - 3.0*z)[2]
    b = a + np.abs(z).max()
    ctx.close(u, 2*to_np(y) - 3*to_np(run(c, z)[2]), 0, 1e-9*b*g,
              'superposition')
    # constant signals stay
    k = np.full_like(x, c['scale'])
    ctx.close(run(c, k)[2], k, 1e-9, 0, 'constant signal')
    # repeated application
    if c['n'] == 2:
        ctx.close(run(c, to_np(run(c, x, 1)[2]), 1)[2], y, 0, tol,
                  'two applications')
    # what each filter keeps
    if c['m'] == 'savitzky_golay' and c['n'] == 1 and c['w'] % 2:
        s = np.linspace(-1, 1, c['T'])[:, None]
        q = (s**np.arange(c['p'] + 1)) @ r.standard_normal(
            (c['p'] + 1, c['F']))
        v = to_np(run(c, q)[2])
        h = c['w']//2
        if c['T'] > 2*h:
            ctx.close(v[h:c['T'] - h], q[h:c['T'] - h], 0, 1e-8*(
                1 + np.abs(q).max()), f'polynomial of order {c["p"]}')
    if c['m'] == 'frequency_low_pass' and c['n'] == 1:
        ctx.close(run(c, to_np(y))[2], y, 0, tol, 'filtering again')


@st.composite
def bad(draw):
    return {'k': draw(st.sampled_from(['method', 'type', 'dim', 'law',
                                       'par'])), 's': draw(seeds())}


@sub('refused', bad, quick=40, thorough=200)
def _bad(c, ctx):
    x = torch.rand(5, 2)
    ctx.nontrivial(True)
    g = NoiseGenerator()
    g.set_noise_distribution(['uniform', 'gaussian', 'spiked_gaussian'][
        c['s'] % 3])
    f = {'method': lambda: Denoiser().denoise(x, 'median'),
         'type': lambda: Denoiser().denoise(x.numpy(), 'moving_average', {
             'window_size': 3}),
         'dim': lambda: Denoiser().denoise(x[0], 'moving_average', {
             'window_size': 3}),
         'law': lambda: NoiseGenerator().set_noise_distribution('poisson'),
         'par': lambda: g.set_noise_parameters({'p_spike': 0.1})}[c['k']]
    try:
        f()
    except RuntimeError:
        return
    ctx.check(False, f'{c["k"]} not refused')


# ---- noise ----------------------------------------------------------------
@st.composite
def noise(draw):
    return {'law': draw(st.sampled_from(['uniform', 'gaussian',
                                         'spiked_gaussian'])),
            'het': draw(st.sampled_from(['hom', 'het', 'ones', 'none'])),
            'T': draw(st.integers(200, 600)), 'F': draw(st.integers(1, 5)),
            'a': 10.0**draw(st.integers(-6, 3))*draw(st.floats(0.5, 2)),
            'neg': draw(st.booleans()),
            'p': draw(st.floats(0.0, 1.0)),
            's': draw(st.integers(0, 2**31 - 1))}


def trapezoid(x, a, b):
    """Distribution of a sum of uniforms of half-widths a >= b."""
    a, b = np.maximum(a, b), np.minimum(a, b)
    x = np.asarray(x)
    b = np.where(b < 1e-9*a, 1e-9*a, b)
    ramp = lambda z: np.where(z > 0, z, 0.0)**2
    return (ramp(x + a + b) - ramp(x + a - b) - ramp(x - a + b)
            + ramp(x - a - b))/(8*a*b)


@sub('noise', noise, quick=250, thorough=8000, shards=2)
def _noise(c, ctx):
    T, F, a = c['T'], c['F'], c['a']
    r = rng(c['s'])
    path = r.standard_normal((T, F))
    keep = path.copy()
    g = NoiseGenerator()
    g.set_noise_distribution(c['law'])
    p = {'uniform': {'amp': -a if c['neg'] else a}, 'gaussian': {'std': a},
         'spiked_gaussian': {'std': a, 'spike': (-100 if c['neg'] else 100)
                             * a, 'p_spike': c['p']}}[c['law']]
    g.set_noise_parameters(p)
    ctx.check(all(k in p for k in g.get_required_parameters(c['law'])),
              'required parameters')
    w = None
    if c['het'] == 'het':
        w = np.exp(r.uniform(-3, 1.5, T))
        w[r.integers(T)] = 0.0
    elif c['het'] == 'ones':
        w = np.ones(T)
    np.random.seed(c['s'])
    kw = {} if c['het'] == 'hom' else {
        'noise_variability': 'heteroscedastic', 'heteroscedastic_weights': w}
    x = g.generate_noise_path(path, **kw)
    np.random.seed(c['s'])
    y = g.generate_noise_path(path, **kw)
    ctx.check(np.array_equal(x, y), 'same seed, other noise')
    ctx.check(np.array_equal(path, keep), 'the signal was modified')
    ctx.check(x.shape == path.shape, f'shape {x.shape}')
    ctx.nontrivial(c['het'] != 'hom' or c['law'] == 'spiked_gaussian')
    ctx.label(c['law'] + '-' + c['het'])
    v = np.zeros(T) if c['het'] == 'hom' else (
        np.ones(T) if w is None else w)
    n = x.size
    if c['law'] == 'spiked_gaussian':
        sg = np.sign(p['spike'])
        hit = sg*x > 50*a
        ctx.check(abs(hit.sum() - n*c['p']) <= 7*np.sqrt(
            n*c['p']*(1 - c['p'])) + 3, f'{hit.sum()} spikes of {n} at '
            f'probability {c["p"]}')
        x = x - hit*p['spike']
    if c['law'] == 'uniform':
        u = trapezoid(x, a/2*np.ones((T, F)), (a/2*v)[:, None]) if (
            c['het'] != 'hom') else x/a + 0.5
        lim = a/2*(1 + v)[:, None]
        ctx.check((np.abs(x) <= lim*(1 + 1e-12)).all(), 'amplitude')
    else:
        u = ndtr(x/(a*np.sqrt(1 + v**2))[:, None])
    s = np.sort(u.ravel())
    ks = max(np.abs(s - np.arange(n)/n).max(),
             np.abs(s - np.arange(1, n + 1)/n).max())
    ctx.check(ks < 3.4/np.sqrt(n), f'{c["law"]} noise does not follow its '
              f'law: distance {ks:.4f} of {n} samples')
    if c['het'] == 'het':
        # ... for weak and strong weights alike
        for m in (v < np.median(v), v >= np.median(v)):
            s = np.sort(u[m].ravel())
            k = len(s)
            ks = np.abs(s - np.arange(k)/k).max()
            ctx.check(ks < 3.6/np.sqrt(k), f'noise at '
                      f'{"weak" if m[np.argmin(v)] else "strong"} weights: '
                      f'distance {ks:.4f}')
    # steps and features are independent
    z = u - 0.5
    z = z/np.sqrt(1/12)
    for j in range(F):
        c1 = (z[1:, j]*z[:-1, j]).mean()
        ctx.check(abs(c1) < 7/np.sqrt(T), f'successive noise correlated: '
                  f'{c1:.3f}')
        for k in range(j):
            c2 = (z[:, j]*z[:, k]).mean()
            ctx.check(abs(c2) < 7/np.sqrt(T), f'noise of features {k}, {j} '
                      f'correlated: {c2:.3f}')
