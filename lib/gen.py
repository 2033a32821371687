"""Generators shared by the checks (plain JSON-able cases only)."""
import numpy as np
from hypothesis import strategies as st


def rng(seed, *more):
    return np.random.default_rng([int(seed)] + [int(m) for m in more])


def seeds():
    return st.integers(0, 2**31 - 1)


def fl(lo, hi):
    """Bounded finite floats without subnormals."""
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False,
                     allow_subnormal=False)


def magn(lo_exp, hi_exp):
    """Signed magnitudes spread over decades, including zero."""
    return st.one_of(
        st.just(0.0),
        st.builds(lambda s, m, e: s*m*10.0**e, st.sampled_from([-1, 1]),
                  fl(1.0, 9.99), st.integers(lo_exp, hi_exp)))


def vec(n, lo=-3, hi=3):
    return st.lists(magn(lo, hi), min_size=n, max_size=n)


def fixed(**kw):
    return st.fixed_dictionaries(kw)


def random_rotation(r, n_dim):
    q, rr = np.linalg.qr(r.standard_normal((n_dim, n_dim)))
    q = q*np.sign(np.diag(rr))
    if np.linalg.det(q) < 0:
        q[:, 0] = -q[:, 0]
    return q


def sym(a):
    return 0.5*(a + a.T)
