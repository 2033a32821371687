"""C18: deformed specimen patches."""
import contextlib
import io
import itertools
import numpy as np
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
from data_generation.spdg.patch_generator import FiniteElementPatchGenerator
from data_generation.spdg import patch_generator as pg
from data_generation.spdg import patch as pm

PROPERTY = 'C18'
RULE = ('Random 2D and 3D patches: sizes, element types, divisions, corner '
        'constraints and displacement ranges, edge orders (common or per '
        'edge) and ranges, rigid motions, noise, seeds; non-trivial if some '
        'corner or edge can move and there are at least two elements.')
KIND = {'SQUAD4': (2, 2, 's'), 'SQUAD8': (2, 3, 's'), 'SQUAD12': (2, 4, 's'),
        'LQUAD4': (2, 2, 'l'), 'LQUAD9': (2, 3, 'l'), 'LQUAD16': (2, 4, 'l'),
        'SHEXA8': (3, 2, 's'), 'SHEXA20': (3, 3, 's')}
CORNER = {2: [(0, 0), (1, 0), (1, 1), (0, 1)],
          3: [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0),
              (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1)]}
# (start corner, end corner, corner across the patch next to the start)
EDGE2 = {'1': (0, 1, 3), '2': (3, 2, 0), '3': (0, 3, 1), '4': (1, 2, 0)}
EDGE3 = {'1': (0, 1, 3), '2': (3, 2, 0), '3': (0, 3, 1), '4': (1, 2, 0),
         '5': (4, 5, 7), '6': (7, 6, 4), '7': (4, 7, 5), '8': (5, 6, 4),
         '9': (0, 3, 4), '10': (4, 7, 0), '11': (0, 4, 3), '12': (3, 7, 0),
         '13': (1, 2, 5), '14': (5, 6, 1), '15': (1, 5, 2), '16': (2, 6, 1),
         '17': (0, 1, 4), '18': (4, 5, 0), '19': (0, 4, 1), '20': (1, 5, 0),
         '21': (3, 2, 7), '22': (7, 6, 3), '23': (3, 7, 2), '24': (2, 6, 3)}
EDGE = {2: EDGE2, 3: EDGE3}


@st.composite
def case(draw, dims=(2,), moving=True, orders=True, rigid=False, noise=False,
         amp=0.12):
    dim = draw(st.sampled_from(list(dims)))
    elem = draw(st.sampled_from([k for k in KIND if KIND[k][0] == dim]))
    ne = [draw(st.integers(1, 4 if dim == 2 else 2)) for _ in range(dim)]
    if dim == 3 and elem == 'SHEXA8' and draw(st.booleans()):
        ne[draw(st.integers(0, 2))] = 4
    size = [draw(st.sampled_from([1.0, 0.4, 2.5])) for _ in range(dim)]
    unit = 10.0**draw(st.integers(-1, 2))
    size = [round(unit*s*draw(st.sampled_from([1.0, 1.0, 1.37])), 9)
            for s in size]
    nc = 2**dim
    low = min(size)
    f = st.floats(-amp, amp).map(lambda x: round(x, 4)*low)
    corners = None
    if moving and draw(st.integers(0, 4)) > 0:
        corners = {}
        for i in range(nc):
            if draw(st.integers(0, 5)) == 0:
                continue
            corners[str(i + 1)] = [sorted([draw(f), draw(f)]) if draw(
                st.integers(0, 4)) else [0.0, 0.0] for _ in range(dim)]
    bc = None
    if draw(st.booleans()):
        bc = {str(i + 1): [draw(st.sampled_from([0, 0, 1]))
                           for _ in range(dim)]
              for i in range(nc) if draw(st.booleans())}
    labels = list(EDGE[dim])
    order = None
    if orders:
        k = draw(st.sampled_from(['none', 'int', 'dict', 'dict']))
        if k == 'int':
            order = draw(st.integers(-1, 4))
        elif k == 'dict':
            order = {m: draw(st.integers(-1, 4)) for m in labels if draw(
                st.integers(0, 4))}
    span = None
    if orders and draw(st.integers(0, 3)):
        span = {m: sorted([draw(f), draw(f)]) for m in labels if draw(
            st.integers(0, 4))}
    tr = rot = None
    if rigid:
        if draw(st.integers(0, 3)):
            tr = {str(i + 1): sorted([draw(f), draw(f)])
                  for i in range(dim) if draw(st.integers(0, 3))}
        if draw(st.integers(0, 3)):
            rot = {a: sorted([draw(st.floats(-180, 180)),
                              draw(st.floats(-180, 180))])
                   for a in ('alpha', 'beta', 'gamma')
                   if draw(st.integers(0, 3))}
    return {'dim': dim, 'elem': elem, 'ne': ne, 'size': size, 'c': corners,
            'bc': bc, 'o': order, 'e': span, 't': tr, 'r': rot,
            'n': draw(st.sampled_from([0.01, 0.03])) if noise else 0.0,
            's': draw(st.integers(0, 2**31 - 1))}


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def build(c, gen=None, seed=True, **over):
    c = dict(c, **over)
    if gen is None:
        gen = FiniteElementPatchGenerator(c['dim'], tuple(c['size']))
    if seed:
        np.random.seed(c['s'])
    kw = {}
    if c['c'] is not None:
        kw['corners_lab_disp_range'] = {k: tup(v) for k, v in c['c'].items()}
    if c['bc'] is not None:
        kw['corners_lab_bc'] = {k: tuple(v) for k, v in c['bc'].items()}
    if c['o'] is not None:
        kw['edges_lab_def_order'] = (dict(c['o']) if isinstance(c['o'], dict)
                                     else c['o'])
    if c['e'] is not None:
        kw['edges_lab_disp_range'] = {k: tuple(v) for k, v in c['e'].items()}
    if c['t'] is not None:
        kw['translation_range'] = {k: tuple(v) for k, v in c['t'].items()}
    if c['r'] is not None:
        kw['rotation_angles_range'] = {k: tuple(v)
                                       for k, v in c['r'].items()}
    if c['n']:
        kw['deformation_noise'] = c['n']
    if 'it' in c:
        kw['max_iter'] = c['it']
    return gen.generate_deformed_patch(c['elem'], tuple(c['ne']), **kw)


def grid_exists(kind, idx):
    _, k, fam = KIND[kind]
    return fam == 'l' or sum(i % (k - 1) != 0 for i in idx) <= 1


def mesh(ctx, c, p):
    """Check the mesh; returns node index -> label and coordinates."""
    dim, k, _ = KIND[c['elem']]
    n = [e*(k - 1) + 1 for e in c['ne']]
    a = p.get_patch_attributes()
    ctx.check(p.get_n_dim() == dim and a['n_dim'] == dim, 'dimension')
    ctx.check(tuple(a['patch_dims']) == tuple(c['size']), 'patch size')
    ctx.check(p.get_elem_type() == c['elem'], 'element type')
    ctx.check(tuple(p.get_n_elems_per_dim()) == tuple(c['ne']), 'divisions')
    ctx.check(tuple(p.get_n_edge_nodes_per_dim()) == tuple(n),
              'nodes per edge')
    M = np.asarray(p.get_mesh_nodes_matrix())
    X = p.get_mesh_nodes_coords_ref()
    ctx.check(M.shape == tuple(n), f'nodes matrix of shape {M.shape}')
    for i in np.ndindex(*n):
        ctx.check((M[i] != 0) == grid_exists(c['elem'], i),
                  f'existence of the node at {i}')
        if M[i]:
            ctx.close(X[str(M[i])], [i[d]*c['size'][d]/(n[d] - 1)
                                     for d in range(dim)], 1e-12,
                      1e-12*max(c['size']), f'position of the node at {i}')
    labels = sorted(int(x) for x in M.ravel() if x)
    ctx.check(labels == list(range(1, len(labels) + 1)),
              'nodes are not labelled from 1 without gaps')
    ctx.check(set(X) == {str(x) for x in labels}, 'labels of the positions')
    edge, face = set(), set()
    for i in np.ndindex(*n):
        b = sum(i[d] in (0, n[d] - 1) for d in range(dim))
        if M[i] and b:
            face.add(int(M[i]))
            if dim == 2 or b >= 2:
                edge.add(int(M[i]))
    ctx.check(set(int(x) for x in p.get_boundary_nodes_labels()) == face,
              'boundary nodes')
    ctx.check(set(int(x) for x in p.get_boundary_edges_nodes_labels())
              == edge, 'boundary edges nodes')
    if dim == 2:
        got = {frozenset(map(int, q))
               for q in p.get_mesh_connected_nodes()}
        want = set()
        for i in np.ndindex(*n):
            for d in range(2):
                j = tuple(i[m] + (m == d) for m in range(2))
                if j[d] < n[d] and M[i] and M[j]:
                    want.add(frozenset((int(M[i]), int(M[j]))))
        ctx.check(got == want, 'connected nodes')
    U = p.get_mesh_boundary_nodes_disps()
    ctx.check(set(U) == {str(x) for x in face}, f'displacements prescribed '
              f'on {len(U)} nodes, boundary of {len(face)} nodes')
    ctx.check(all(np.isfinite(np.asarray(u, float)).all()
                  and len(u) == dim for u in U.values()),
              'displacements are not finite')
    return M, X, U, n


def corner_index(c, n, i):
    return tuple(b*(n[d] - 1) for d, b in enumerate(CORNER[c['dim']][i]))


def edge_nodes(c, M, n, lab):
    a, b, q = EDGE[c['dim']][lab]
    i, j = np.array(corner_index(c, n, a)), np.array(corner_index(c, n, b))
    k = np.abs(j - i).max()
    return [str(M[tuple(i + (j - i)//k*m)]) for m in range(k + 1)]


def orders(c):
    o = c['o']
    # negative orders mean none
    out = {m: max(0, 0 if o is None else o if not isinstance(o, dict)
                  else o.get(m, 0)) for m in EDGE[c['dim']]}
    # an edge prescribed twice is straight if it is straight for either plane
    for m, k in itertools.product(out, out):
        if EDGE[c['dim']][m][:2] == EDGE[c['dim']][k][:2] and not out[k]:
            out[m] = 0
    return out


def ranges(c):
    r = np.zeros((2**c['dim'], c['dim'], 2))
    for k, v in (c['c'] or {}).items():
        r[int(k) - 1] = v
    for k, v in (c['bc'] or {}).items():
        for d in range(c['dim']):
            if v[d]:
                r[int(k) - 1, d] = 0
    return r


def simple(P):
    """Counterclockwise polygon without self-intersections."""
    x, y = P.T
    area = 0.5*np.sum(x*np.roll(y, -1) - y*np.roll(x, -1))
    Q = np.roll(P, -1, 0)
    n = len(P)

    def side(a, b, q):
        return ((b[0] - a[0])*(q[..., 1] - a[1])
                - (b[1] - a[1])*(q[..., 0] - a[0]))
    worst = True
    for i in range(n):
        for j in range(i + 2, n):
            if i == 0 and j == n - 1:
                continue
            a, b = side(P[i], Q[i], P[j]), side(P[i], Q[i], Q[j])
            d, e = side(P[j], Q[j], P[i]), side(P[j], Q[j], Q[i])
            tol = 1e-9*abs(area)
            if a*b < 0 and d*e < 0 and min(map(abs, (a, b, d, e))) > tol:
                worst = False
    return area, worst


def outline(c, M, X, U, n):
    path = ([(i, 0) for i in range(n[0] - 1)]
            + [(n[0] - 1, j) for j in range(n[1] - 1)]
            + [(i, n[1] - 1) for i in range(n[0] - 1, 0, -1)]
            + [(0, j) for j in range(n[1] - 1, 0, -1)])
    return np.array([X[str(M[i])] + U[str(M[i])] for i in path])


def corners_ok(ctx, c, M, X, U, n):
    r, o = ranges(c), orders(c)
    u = np.array([U[str(M[corner_index(c, n, i)])]
                  for i in range(2**c['dim'])])
    big = max(c['size'])
    tol = 1e-10*big
    free = np.ones_like(u, bool)
    for m, (a, b, _) in EDGE[c['dim']].items():
        if o[m]:
            continue
        ax = int(np.argmax(np.abs(np.subtract(CORNER[c['dim']][a],
                                              CORNER[c['dim']][b]))))
        for d in range(c['dim']):
            if d == ax:
                continue
            lo = max(r[a, d, 0], r[b, d, 0])
            hi = min(r[a, d, 1], r[b, d, 1])
            if hi < lo:
                # a straight edge between incompatible corners
                free[a, d] = free[b, d] = False
            if c['dim'] == 2:
                ctx.check(abs(u[a, d] - u[b, d]) <= tol,
                          f'edge {m} of order zero tilts')
                if hi >= lo:
                    ctx.check(lo - tol <= u[a, d] <= hi + tol, f'corner '
                              f'{a + 1} moves {u[a, d]} along {d}, common '
                              f'range {lo} to {hi}')
    for i, d in np.ndindex(*u.shape):
        if free[i, d]:
            ctx.check(r[i, d, 0] - tol <= u[i, d] <= r[i, d, 1] + tol,
                      f'corner {i + 1} moves {u[i, d]} along {d}, range '
                      f'{list(r[i, d])}')
    return u


def diagonal(c, lab):
    """Corner opposite to the start of an edge in its face."""
    a, b, q = EDGE[c['dim']][lab]
    C = np.array(CORNER[c['dim']])
    t = tuple(C[b] + C[q] - C[a])
    return [tuple(x) for x in C].index(t)


def edges_ok(ctx, c, M, X, U, n, u):
    """Edges are the prescribed polynomials between their corners."""
    dim = c['dim']
    P = np.array(CORNER[dim])*np.array(c['size']) + u
    o = orders(c)
    pairs = {}
    for m, (a, b, _) in EDGE[dim].items():
        pairs.setdefault((a, b), []).append(m)
    for (a, b), labs in pairs.items():
        nodes = edge_nodes(c, M, n, labs[0])
        x = np.array([X[k] + U[k] for k in nodes])
        N = len(nodes)
        e = P[b] - P[a]
        L = np.linalg.norm(e)
        e = e/L
        t = (x - P[a]) @ e
        w = (x - P[a]) - np.outer(t, e)
        span = [((c['e'] or {}).get(m, (0.0, 0.0))) for m in labs]
        straight = [o[m] <= 1 or tuple(s) == (0.0, 0.0)
                    for m, s in zip(labs, span)]
        if all(straight):
            ctx.check(np.abs(w).max() <= 1e-7*L, f'straight edge {labs} '
                      f'deviates {np.abs(w).max()/L}')
            ctx.close(t, L*np.arange(N)/(N - 1), 0, 1e-7*L,
                      f'spacing of the nodes of edge {labs}')
            continue
        ctx.label('curved')
        # outward normal within the plane of the edge and its face diagonal
        nor = []
        for m in labs:
            g = P[diagonal(c, m)] - P[EDGE[dim][m][0]]
            g = g - (g @ e)*e
            nor.append(-g/np.linalg.norm(g))
        if dim == 2:
            k, (lo, hi) = o[labs[0]], span[0]
            h = w @ nor[0]
            ctx.check(abs(t[0]) + abs(t[-1] - L) < 1e-9*L
                      and (np.diff(t) > 0).all(), 'nodes out of order')
            if N > k:
                B = np.polynomial.legendre.legvander(2*t/L - 1, k)
                z = np.linalg.lstsq(B, h, rcond=None)[0]
                if N > k + 1:
                    ctx.close(B @ z, h, 0, 1e-6*L, f'edge {labs} is no '
                              f'polynomial of order {k}')
                s = 2*np.arange(1, k)/k - 1
                v = np.polynomial.legendre.legvander(s, k) @ z
                tol = 1e-6*L*max(1.0, np.linalg.cond(B))
                ctx.check((v >= lo - tol).all() and (v <= hi + tol).all(),
                          f'edge {labs} passes {v}, range {lo} to {hi}')
                # nodes at equal distances along the curve
                tt = np.linspace(0, L, 4001)
                y = np.polynomial.legendre.legvander(2*tt/L - 1, k) @ z
                s = np.append(0, np.cumsum(np.hypot(np.diff(tt),
                                                    np.diff(y))))
                ctx.close(np.interp(t, tt, s)/s[-1], np.arange(N)/(N - 1),
                          0, 2e-4, f'spacing along edge {labs}')
        else:
            # the two planes' curves are averaged
            if all(o[m] <= 2 for m in labs) and N % 2 \
                    and all(s[0] == s[1] for s in span):
                want = 0.5*sum(s[0]*v*(o[m] == 2)
                               for m, s, v in zip(labs, span, nor))
                ctx.close(w[N//2], want, 0, 1e-6*L, f'bulge of edge {labs}')
                ctx.label('bulge 3d')


def faces_ok(ctx, c, M, U, n):
    """Displacements within faces interpolate those of their edges."""
    A = np.full(M.shape + (3,), np.nan)
    for i in np.ndindex(*M.shape):
        if str(M[i]) in U:
            A[i] = U[str(M[i])]
    big = np.nanmax(np.abs(A)) + 1e-300
    for d in range(3):
        for side in (0, -1):
            F = np.take(A, side, axis=d)
            n1, n2 = F.shape[:2]
            for i in range(1, n1 - 1):
                for j in range(1, n2 - 1):
                    if np.isnan(F[i, j]).any():
                        continue
                    s, t = i/(n1 - 1), j/(n2 - 1)
                    want = 0.5*((1 - s)*F[0, j] + s*F[-1, j]
                                + (1 - t)*F[i, 0] + t*F[i, -1])
                    ctx.label('face')
                    ctx.close(F[i, j], want, 0, 1e-10*big,
                              f'node ({i}, {j}) of face {d}/{side}')


def moves(c):
    r = ranges(c)
    return bool(np.abs(r).max() > 0 or (c['e'] and c['o']))


def whole(c, ctx, p):
    M, X, U, n = mesh(ctx, c, p)
    if c['dim'] == 2:
        area, ok = simple(outline(c, M, X, U, n))
        ctx.check(area > 0 and ok, f'deformed boundary is not simple '
                  f'(area {area})')
    if c['dim'] == 3:
        faces_ok(ctx, c, M, U, n)
    return M, X, U, n


def run(c, ctx):
    ok, p = build(c)
    ctx.nontrivial(moves(c) and np.prod(c['ne']) > 1)
    ctx.label(f"{c['dim']}d")
    ctx.check(bool(ok) == (p is not None), f'admissible {ok}, patch {p}')
    if p is None:
        ctx.label('inadmissible')
        return
    M, X, U, n = whole(c, ctx, p)
    u = corners_ok(ctx, c, M, X, U, n)
    if not c['n']:
        edges_ok(ctx, c, M, X, U, n, u)
    # reproducible
    ok, q = build(c)
    V = q.get_mesh_boundary_nodes_disps()
    ctx.check(set(U) == set(V) and all(np.array_equal(U[k], V[k])
                                       for k in U), 'same seed, other patch')


@sub('plane', lambda: case(dims=(2,)), quick=160, thorough=4000, shards=8)
def _plane(c, ctx):
    run(c, ctx)


@sub('solid', lambda: case(dims=(3,)), quick=48, thorough=1200, shards=8)
def _solid(c, ctx):
    run(c, ctx)


@sub('wild', lambda: case(dims=(2,), amp=0.45), quick=80, thorough=2000,
     shards=8)
def _wild(c, ctx):
    run(c, ctx)


@sub('sampling', lambda: case(dims=(2,), orders=False, moving=False),
     quick=8, thorough=60, shards=2)
def _sampling(c, ctx):
    """Sampled displacements spread over their ranges."""
    low = 0.1*min(c['size'])
    c = dict(c, bc=None, o=2, ne=[2, 2], elem='SQUAD4',
             c={str(i): [[-low, 0.5*low], [0.2*low, low]]
                for i in range(1, 5)},
             e={k: [-0.5*low, low] for k in EDGE2})
    ctx.nontrivial(True)
    np.random.seed(c['s'])
    got = []
    for _ in range(14):
        ok, p = build(c, seed=False)
        U = p.get_mesh_boundary_nodes_disps()
        M = p.get_mesh_nodes_matrix()
        X = p.get_mesh_nodes_coords_ref()
        n = (3, 3)
        x = {i: X[str(M[i])] + U[str(M[i])] for i in np.ndindex(3, 3)
             if i != (1, 1)}
        row = []
        for i in range(4):
            u = U[str(M[corner_index(c, n, i)])]
            row += [(u[0] + low)/(1.5*low), (u[1] - 0.2*low)/(0.8*low)]
        for a, b, m in (((0, 0), (2, 0), (1, 0)), ((0, 2), (2, 2), (1, 2)),
                        ((0, 0), (0, 2), (0, 1)), ((2, 0), (2, 2), (2, 1))):
            h = np.linalg.norm(x[m] - 0.5*(x[a] + x[b]))
            row.append(h/low)
        got.append(row)
    got = np.array(got)
    ctx.check((np.ptp(got, axis=0) > 0.15).all(), f'sampled values spread '
              f'{np.ptp(got, axis=0)} of their ranges')


@sub('rigid_edges', lambda: st.tuples(
    case(dims=(2,), orders=False, moving=False),
    st.sampled_from(['same', 'first', 'last'])),
     quick=8, thorough=60, shards=2)
def _rigid_edges(z, ctx):
    """So do those that undeformed edges give both of their corners."""
    c, k = z
    low = 0.1*min(c['size'])
    # Ranges of both corners overlap, or one of them is a single value
    a, b = {'same': ((-1.0, 1.0), (-1.0, 1.0)),
            'first': ((-1.0, 0.2), (0.5, 0.5)),
            'last': ((0.5, 0.5), (-1.0, 0.2))}[k]
    one, two = ([low*x for x in v] for v in (a, b))
    cid = {lab: corner_index(c, (2, 2), int(lab) - 1) for lab in '1234'}
    c = dict(c, bc=None, o=0, ne=[1, 1], elem='SQUAD4', e=None,
             c={lab: [two if i[1] else one, two if i[0] else one]
                for lab, i in cid.items()})
    np.random.seed(c['s'])
    got = []
    for _ in range(14):
        ok, p = build(c, seed=False)
        U = p.get_mesh_boundary_nodes_disps()
        M = p.get_mesh_nodes_matrix()
        got.append([U[str(M[i])][k]/low for i in np.ndindex(2, 2)
                    for k in range(2)])
    got = np.array(got)
    ctx.nontrivial(True)
    ctx.check((np.ptp(got, axis=0) > 0.1).all(), f'sampled values spread '
              f'{np.ptp(got, axis=0)}')


# ---- curved edges of prescribed size --------------------------------------
@st.composite
def bulge(draw, dim):
    c = draw(case(dims=(dim,), amp=0.08))
    c['o'] = {m: draw(st.sampled_from([1, 2, 2])) for m in EDGE[dim]}
    low = min(c['size'])
    c['e'] = {m: [z, z] for m in EDGE[dim] for z in [
        low*draw(st.sampled_from([-0.1, 0.05, 0.1, 0.0]))]}
    c['ne'] = [2]*dim if draw(st.booleans()) else c['ne']
    return c


@sub('bulge', lambda: st.one_of(bulge(2), bulge(3)), quick=40, thorough=800,
     shards=8)
def _bulge(c, ctx):
    run(c, ctx)


# ---- rigid motions --------------------------------------------------------
def euler(a):
    a, b, g = np.radians(a)

    def rz(x):
        return np.array([[np.cos(x), -np.sin(x), 0],
                         [np.sin(x), np.cos(x), 0], [0, 0, 1.0]])
    rx = np.array([[1, 0, 0], [0, np.cos(b), -np.sin(b)],
                   [0, np.sin(b), np.cos(b)]])
    return rz(a) @ rx @ rz(g)


def centroid(P):
    x, y = P.T
    w = x*np.roll(y, -1) - np.roll(x, -1)*y
    return np.array([((x + np.roll(x, -1))*w).sum(),
                     ((y + np.roll(y, -1))*w).sum()])/(3*w.sum())


@sub('rigid', lambda: st.one_of(
    case(dims=(2,), rigid=True), case(dims=(2,), rigid=True),
    case(dims=(3,), rigid=True, orders=False)), quick=100, thorough=2000,
    shards=8)
def _rigid(c, ctx):
    base = dict(c, t=None, r=None)
    ok0, p0 = build(base, it=1)
    ok1, p1 = build(c, it=1)
    ctx.check(bool(ok0) == bool(ok1), 'a rigid motion changes admissibility')
    if not ok0:
        return
    ctx.nontrivial(c['t'] is not None or c['r'] is not None)
    M, X, U0, n = whole(base, ctx, p0)
    _, _, U1, _ = mesh(ctx, c, p1)
    keys = [k for k in U0]
    if c['dim'] == 3:
        # rigid motions are applied to the edges
        keys = [str(k) for k in p0.get_boundary_edges_nodes_labels()]
    x0 = np.array([X[k] + U0[k] for k in keys])
    x1 = np.array([X[k] + U1[k] for k in keys])
    if c['dim'] == 2:
        cen = centroid(outline(base, M, X, U0, n))
    else:
        cen = np.mean([X[k] + U0[k] for k in (
            str(M[corner_index(c, n, i)]) for i in range(8))], axis=0)
    big = max(c['size'])
    # best rotation and translation of the nodes about the centroid
    A, B = x0 - x0.mean(0), x1 - x1.mean(0)
    W, _, V = np.linalg.svd(B.T @ A)
    D = np.eye(c['dim'])
    D[-1, -1] = np.sign(np.linalg.det(W @ V))
    R = W @ D @ V
    t = x1.mean(0) - (cen + R @ (x0.mean(0) - cen))
    ctx.close(x1, cen + (x0 - cen) @ R.T + t, 0, 1e-8*big, 'motion is not '
              'rigid')
    if c['t'] is None:
        ctx.check(np.abs(t).max() <= 1e-8*big, f'translation {t} without '
                  'a range')
    else:
        for d in range(c['dim']):
            lo, hi = c['t'].get(str(d + 1), (0.0, 0.0))
            ctx.check(lo - 1e-8*big <= t[d] <= hi + 1e-8*big, f'translation '
                      f'{t[d]} along {d}, range {lo} to {hi}')
    if c['r'] is None:
        ctx.check(np.abs(R - np.eye(c['dim'])).max() < 1e-7, 'rotation '
                  'without a range')
    elif c['dim'] == 2:
        lo, hi = c['r'].get('alpha', (0.0, 0.0))
        a = np.degrees(np.arctan2(R[1, 0], R[0, 0]))
        d = min(abs(a + 360*k - np.clip(a + 360*k, lo, hi))
                for k in (-1, 0, 1))
        ctx.check(d < 1e-5, f'rotation {a}, range {lo} to {hi}')


@sub('rigid_exact', lambda: st.one_of(
    case(dims=(2,), rigid=True), case(dims=(3,), rigid=True, orders=False)),
    quick=40, thorough=800, shards=8)
def _exact(c, ctx):
    """Prescribed motions (coincident bounds)."""
    g = rng(c['s'])
    low = min(c['size'])
    t = g.uniform(-1, 1, c['dim'])*low
    a = g.uniform(-170, 170, 3)
    if c['dim'] == 2:
        a[1:] = 0
    c = dict(c, t={str(i + 1): [v, v] for i, v in enumerate(t)},
             r={k: [v, v] for k, v in zip(('alpha', 'beta', 'gamma'), a)})
    ok0, p0 = build(dict(c, t=None, r=None), it=1)
    ok1, p1 = build(c, it=1)
    if not ok0:
        return
    ctx.nontrivial(True)
    M, X, U0, n = mesh(ctx, c, p0)
    U1 = p1.get_mesh_boundary_nodes_disps()
    keys = [str(k) for k in p0.get_boundary_edges_nodes_labels()]
    x0 = np.array([X[k] + U0[k] for k in keys])
    x1 = np.array([X[k] + U1[k] for k in keys])
    if c['dim'] == 2:
        cen = centroid(outline(c, M, X, U0, n))
    else:
        cen = np.mean([X[k] + U0[k] for k in (
            str(M[corner_index(c, n, i)]) for i in range(8))], axis=0)
    R = euler(a)[:c['dim'], :c['dim']]
    ctx.close(x1, cen + (x0 - cen) @ R.T + t, 0, 1e-8*max(c['size']),
              'prescribed rigid motion')
    ctx.close(pg.rotation_tensor_from_euler_angles(tuple(a)), euler(a), 0,
              1e-12, 'rotation tensor')


# ---- noise ----------------------------------------------------------------
@sub('noise', lambda: case(dims=(2,), noise=True, amp=0.05), quick=60,
     thorough=1000, shards=8)
def _noise(c, ctx):
    k = KIND[c['elem']][1]
    c = dict(c, ne=[min(e, 12//(k - 1)) for e in (8, 8)])
    ok0, p0 = build(dict(c, n=0.0, o=None, e=None), it=1)
    ok1, p1 = build(dict(c, o=None, e=None), it=1)
    if not (ok0 and ok1):
        return
    M, X, U0, n = mesh(ctx, c, p0)
    _, _, U1, _ = mesh(ctx, c, p1)
    ctx.nontrivial(True)
    area, ok = simple(outline(c, M, X, U1, n))
    ctx.check(area > 0 and ok, 'deformed boundary is not simple')
    z = []
    for i in np.ndindex(*n):
        s = str(M[i])
        if s not in U0:
            continue
        d = U1[s] - U0[s]
        if all(i[m] in (0, n[m] - 1) for m in range(2)):
            ctx.check(np.abs(d).max() <= 1e-9*max(c['size']),
                      'noise moves a corner')
        else:
            z.append(d/c['n'])
    z = np.ravel(z)
    N = len(z)
    v = np.sqrt((z**2).mean())
    ctx.check(min(c['size'])*(1 - 5/np.sqrt(N)) < v
              < max(c['size'])*(1 + 5/np.sqrt(N)),
              f'noise of deviation {v} (sizes {c["size"]})')
    ctx.check(abs(z.mean()) < 6*max(c['size'])/np.sqrt(N), 'noise mean')


# ---- admissibility, reuse, corners ----------------------------------------
@st.composite
def bad(draw):
    c = draw(case(dims=(2,), moving=False, orders=False))
    w, h = c['size']
    k = draw(st.sampled_from(['invert', 'cross', 'loop']))
    z = 1.0 + draw(st.floats(0.1, 1.0))
    c['bc'], c['o'], c['e'] = None, 1, None
    r = {str(i): [[0.0, 0.0], [0.0, 0.0]] for i in range(1, 5)}
    if k == 'invert':
        for i in ('2', '3'):
            r[i][0] = [-z*w, -z*w]
    elif k == 'cross':
        r['2'][0] = [-z*w, -z*w]
    else:
        # the two long edges bulge through each other
        c['o'] = 2
        c['ne'] = [4, 4]
        r['1'][1] = r['2'][1] = [0.0, 0.0]
        c['e'] = {'1': [-z*h, -z*h]}
    c['c'] = r
    c['k'] = k
    return c


@sub('inadmissible', bad, quick=30, thorough=400, shards=4)
def _bad(c, ctx):
    ctx.nontrivial(True)
    ctx.label(c['k'])
    ok, p = build(c, it=2)
    ctx.check(not ok and p is None, f'patch folded onto itself ({c["k"]}) '
              f'is reported as admissible')
    gen = FiniteElementPatchGenerator(2, tuple(c['size']))
    build(c, gen=gen, it=1)
    good = dict(c, c=None, o=None, e=None)
    ok, p = build(good, gen=gen)
    ctx.check(ok, 'undeformed patch is inadmissible')
    U = p.get_mesh_boundary_nodes_disps()
    ctx.check(all(np.abs(u).max() <= 1e-9*max(c['size'])
                  for u in U.values()), 'undeformed patch has displacements')


@sub('reuse', lambda: st.tuples(case(dims=(2,), amp=0.08),
                                case(dims=(2,), amp=0.08)),
     quick=30, thorough=400, shards=4)
def _reuse(c, ctx):
    """A generator and its arguments are not changed by previous patches."""
    a, b = c
    b = dict(b, size=a['size'])
    s = min(b['size'])/max(1e-9, max(
        [abs(x) for k in ('c', 'e') for x in np.ravel(
            list((b[k] or {}).values()))] + [s0*0.08 for s0 in b['size']]))
    s = 0.08*min(1.0, s)
    for k in ('c', 'e'):
        if b[k]:
            b[k] = {m: (np.array(v)*s).tolist() for m, v in b[k].items()}
    gen = FiniteElementPatchGenerator(2, tuple(a['size']))
    build(a, gen=gen)
    ok1, p = build(b, gen=gen)
    ok2, q = build(b)
    ctx.check(bool(ok1) == bool(ok2), 'admissibility depends on history')
    if not ok1:
        return
    ctx.nontrivial(moves(b))
    U, V = p.get_mesh_boundary_nodes_disps(), q.get_mesh_boundary_nodes_disps()
    ctx.check(all(np.array_equal(U[k], V[k]) for k in V) and set(U) == set(V),
              'patch depends on the patches generated before')


@sub('refusals', lambda: st.tuples(st.sampled_from(
    ['corner', 'dims', 'range', 'edge', 'order', 'bc', 'ndim', 'elem']),
    case(dims=(2, 3))), quick=40, thorough=200)
def _refuse(c, ctx):
    k, d = c
    ctx.nontrivial(True)
    gen = FiniteElementPatchGenerator(d['dim'], tuple(d['size']))
    kw = {'corner': dict(corners_lab_disp_range={'1': [(0, 1)]*d['dim']}),
          'dims': dict(corners_lab_disp_range={'1': ((0, 1),)}),
          'range': dict(corners_lab_disp_range={
              '1': ((0, 1, 2),)*d['dim']}),
          'edge': dict(edges_lab_disp_range={'1': [0, 1]},
                       edges_lab_def_order=2),
          'order': dict(edges_lab_def_order={'1': 2.5}),
          'bc': dict(corners_lab_bc={'1': (1,)}),
          'elem': {}, 'ndim': {}}[k]
    try:
        if k == 'ndim':
            FiniteElementPatchGenerator(4, (1.0,)*4)
        else:
            gen.generate_deformed_patch(
                d['elem'] if k != 'elem' else 'TRI3', tuple(d['ne']), **kw)
    except RuntimeError:
        return
    ctx.check(False, f'invalid argument accepted: {k}')


# ---- rotation angles ------------------------------------------------------
@sub('angles', lambda: st.tuples(st.integers(1, 6), seeds()), quick=100,
     thorough=2000)
def _angles(c, ctx):
    n, s = c
    g = rng(s)
    x = g.normal(size=(n, 2))
    a = g.uniform(-179, 179, n)
    f = g.uniform(0.1, 5, n)
    R = [euler((v, 0, 0))[:2, :2] for v in a]
    y = np.array([f[i]*R[i] @ x[i] for i in range(n)])
    ctx.nontrivial(n > 1)
    for i in range(n):
        ctx.close(pm.rotation_angle_2d(x[i], y[i]), a[i], 0, 1e-8, 'angle')
    ctx.close(pm.mean_rotation_angle_2d(x, y), a.mean(), 0, 1e-8,
              'mean angle')
