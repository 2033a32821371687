"""Finite element oracles: node tables, Vandermonde bases, meshes.

The shape functions of the oracle are not written out: they are the unique
functions of the element's polynomial space that equal one at their own node
and zero at the others, found by inverting the Vandermonde matrix.
"""
import itertools
import numpy as np

_H8 = [[-1, -1, -1], [1, -1, -1], [1, 1, -1], [-1, 1, -1],
       [-1, -1, 1], [1, -1, 1], [1, 1, 1], [-1, 1, 1]]
NODES = {
    'tri3': [[0, 0], [1, 0], [0, 1]],
    'tri6': [[0, 0], [1, 0], [0, 1], [.5, 0], [.5, .5], [0, .5]],
    'quad4': [[-1, -1], [1, -1], [1, 1], [-1, 1]],
    'quad8': [[-1, -1], [1, -1], [1, 1], [-1, 1], [0, -1], [1, 0], [0, 1],
              [-1, 0]],
    'tetra4': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1]],
    'tetra10': [[0, 0, 0], [1, 0, 0], [0, 1, 0], [0, 0, 1], [.5, 0, 0],
                [.5, .5, 0], [0, .5, 0], [0, 0, .5], [.5, 0, .5],
                [0, .5, .5]],
    'hexa8': _H8,
    'hexa20': _H8 + [[0, -1, -1], [1, 0, -1], [0, 1, -1], [-1, 0, -1],
                     [-1, -1, 0], [1, -1, 0], [1, 1, 0], [-1, 1, 0],
                     [0, -1, 1], [1, 0, 1], [0, 1, 1], [-1, 0, 1]]}
NODES = {k: np.array(v, dtype=float) for k, v in NODES.items()}
GAUSS = {'tri3': (1,), 'tri6': (1, 3), 'quad4': (1, 4), 'quad8': (4, 9),
         'tetra4': (1, 4), 'tetra10': (4,), 'hexa8': (1, 8),
         'hexa20': (8, 27)}
CORNERS = {'tri3': 3, 'tri6': 3, 'quad4': 4, 'quad8': 4, 'tetra4': 4,
           'tetra10': 4, 'hexa8': 8, 'hexa20': 8}
ORDER = {'tri3': 1, 'quad4': 1, 'tetra4': 1, 'hexa8': 1, 'tri6': 2,
         'quad8': 2, 'tetra10': 2, 'hexa20': 2}
NAMES = list(NODES)
# Rules that integrate the shape function gradients of a straight-sided but
# otherwise arbitrary element exactly (patch test on distorted meshes)
EXACT_GRAD = {('tri3', 1), ('tri6', 1), ('tri6', 3), ('quad4', 1),
              ('quad4', 4), ('quad8', 4), ('quad8', 9), ('tetra4', 1),
              ('tetra4', 4), ('tetra10', 4), ('hexa8', 8), ('hexa20', 27)}


def dim(name):
    return NODES[name].shape[1]


def is_simplex(name):
    return name.startswith('t')


def domain(name):
    return {'tri': 'triangular', 'qua': 'quadrilateral', 'tet': 'tetrahedral',
            'hex': 'hexahedral'}[name[:3]]


def exponents(name):
    d, o = dim(name), ORDER[name]
    out = []
    for e in itertools.product(range(3), repeat=d):
        if is_simplex(name):
            ok = sum(e) <= o
        elif o == 1:
            ok = max(e) <= 1
        else:   # serendipity: superlinear degree at most two
            ok = sum(k for k in e if k > 1) <= 2
        if ok:
            out.append(e)
    assert len(out) == len(NODES[name]), name
    return np.array(out)


def _mono(e, x):
    return np.prod(x[None, :]**e, axis=1)


def _dmono(e, x):
    g = np.zeros((len(e), len(x)))
    for i in range(len(x)):
        f = e.copy()
        c = f[:, i].astype(float)
        f[:, i] = np.maximum(f[:, i] - 1, 0)
        g[:, i] = c*_mono(f, x)
    return g


_CACHE = {}


def basis(name):
    if name not in _CACHE:
        e = exponents(name)
        v = np.array([_mono(e, x) for x in NODES[name]])
        _CACHE[name] = (e, np.linalg.inv(v))
    return _CACHE[name]


def shape(name, x):
    e, c = basis(name)
    return _mono(e, np.asarray(x, float)) @ c


def dshape(name, x):
    """(n_node, n_dim)"""
    e, c = basis(name)
    return (_dmono(e, np.asarray(x, float)).T @ c).T


def fine_rule(name, n=5):
    """High order quadrature of the oracle."""
    g, w = np.polynomial.legendre.leggauss(n)
    d = dim(name)
    if not is_simplex(name):
        p = np.array(list(itertools.product(g, repeat=d)))
        q = np.array([np.prod(a) for a in itertools.product(w, repeat=d)])
        return p, q
    g, w = 0.5*(g + 1), 0.5*w
    p, q = [], []
    for idx in itertools.product(range(n), repeat=d):
        u = [g[i] for i in idx]
        ww = np.prod([w[i] for i in idx])
        if d == 2:
            p.append([u[0], u[1]*(1 - u[0])])
            q.append(ww*(1 - u[0]))
        else:
            p.append([u[0], u[1]*(1 - u[0]), u[2]*(1 - u[0])*(1 - u[1])])
            q.append(ww*(1 - u[0])**2*(1 - u[1]))
    return np.array(p), np.array(q)


def jac(name, X, x):
    return dshape(name, x).T @ X


def volume(name, X):
    p, w = fine_rule(name)
    return sum(wi*np.linalg.det(jac(name, X, pi)) for pi, wi in zip(p, w))


def edges(name):
    """Corner pairs of the mid-side nodes."""
    n = NODES[name]
    k = CORNERS[name]
    out = []
    for m in n[k:]:
        for a, b in itertools.combinations(range(k), 2):
            if np.allclose(0.5*(n[a] + n[b]), m):
                out.append((a, b))
    return out


def local_point(name, u):
    """Map u in [0,1]^d to a point inside the element."""
    u = np.asarray(u, float)
    if not is_simplex(name):
        return 2.0*u - 1.0
    s = np.sort(u)
    return np.diff(np.concatenate([[0.0], s]))


def straight(name, C):
    """Add mid-side nodes to corner coordinates."""
    C = np.asarray(C)
    mids = [0.5*(C[a] + C[b]) for a, b in edges(name)]
    return np.vstack([C, np.array(mids)]) if mids else C


def distorted(name, r, amount, curved=0.0, affine=None):
    """Random admissible element (nodes table), possibly curved."""
    d = dim(name)
    C = NODES[name][:CORNERS[name]].copy()
    C = C + amount*r.uniform(-1, 1, C.shape)*(1.0 if not is_simplex(name)
                                              else 0.5)
    X = straight(name, C)
    if curved and len(X) > len(C):
        X[len(C):] += curved*r.uniform(-1, 1, (len(X) - len(C), d))
    if affine is not None:
        A, b = affine
        X = X @ A.T + b
    return X


def rand_affine(r, d, lo=0.3, hi=3.0):
    q1, _ = np.linalg.qr(r.standard_normal((d, d)))
    q2, _ = np.linalg.qr(r.standard_normal((d, d)))
    A = q1 @ np.diag(np.exp(r.uniform(np.log(lo), np.log(hi), d))) @ q2
    if np.linalg.det(A) < 0:
        A[:, 0] = -A[:, 0]
    return A, r.uniform(-5, 5, d)


# ------------------------------------------------------------------- meshes
_KUHN = list(itertools.permutations(range(3)))


def grid_mesh(name, n, r, jitter=0.0, affine=None, renumber=True):
    """Structured mesh of one element type.

    Returns coords (n_node, d), connectivities (list of 0-based lists), and
    the boolean array of boundary nodes.
    """
    d = dim(name)
    n = list(n)[:d]
    shp = [k + 1 for k in n]
    pts = np.array(list(itertools.product(*[range(k) for k in shp])), float)
    idx = {tuple(int(v) for v in p): i for i, p in enumerate(pts)}
    cells = []
    for o in itertools.product(*[range(k) for k in n]):
        if d == 2:
            c = [idx[o[0] + a, o[1] + b]
                 for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))]
            if is_simplex(name):
                if r.integers(2):
                    cells += [[c[0], c[1], c[2]], [c[0], c[2], c[3]]]
                else:
                    cells += [[c[0], c[1], c[3]], [c[1], c[2], c[3]]]
            else:
                cells.append(c)
        else:
            if is_simplex(name):
                for perm in _KUHN:
                    v = [np.array(o)]
                    for a in perm:
                        e = v[-1].copy()
                        e[a] += 1
                        v.append(e)
                    t = [idx[tuple(int(q) for q in w)] for w in v]
                    m = np.array([pts[t[k]] - pts[t[0]] for k in (1, 2, 3)])
                    if np.linalg.det(m) < 0:
                        t[2], t[3] = t[3], t[2]
                    cells.append(t)
            else:
                cells.append([idx[o[0] + a, o[1] + b, o[2] + c] for a, b, c in
                              ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
                               (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))])
    lo, hi = pts.min(0), pts.max(0)
    inner = np.all((pts > lo) & (pts < hi), axis=1)
    X = pts.copy()
    if jitter:
        X[inner] += jitter*r.uniform(-1, 1, (int(inner.sum()), d))
    bnd = list(~inner)
    X = list(X)
    ed = edges(name)
    if ed:
        made = {}
        out = []
        for c in cells:
            e2 = list(c)
            for a, b in ed:
                key = tuple(sorted((c[a], c[b])))
                if key not in made:
                    made[key] = len(X)
                    X.append(0.5*(X[c[a]] + X[c[b]]))
                    p = 0.5*(pts[c[a]] + pts[c[b]])
                    bnd.append(bool(np.any((p <= lo) | (p >= hi))))
                e2.append(made[key])
            out.append(e2)
        cells = out
    X = np.array(X)
    bnd = np.array(bnd)
    if affine is not None:
        A, b = affine
        X = X @ A.T + b
    if renumber:
        p = r.permutation(len(X))       # old -> new
        Y = np.empty_like(X)
        Y[p] = X
        B = np.empty_like(bnd)
        B[p] = bnd
        cells = [[int(p[k]) for k in c] for c in cells]
        q = r.permutation(len(cells))
        cells = [cells[k] for k in q]
        X, bnd = Y, B
    return X, cells, bnd


def make_element(name, n_gauss=None):
    import importlib
    m = importlib.import_module('simulators.fetorch.element.type.' + name)
    cls = getattr(m, 'FE' + name.capitalize())
    return cls() if n_gauss is None else cls(n_gauss=n_gauss)
