"""C07: finite element interpolation and quadrature."""
import contextlib
import io
import itertools
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds, fl, fixed
import fe
from simulators.fetorch.element.type.quadratures import gauss_quadrature
from simulators.fetorch.element.derivatives.jacobian import eval_jacobian
from simulators.fetorch.element.derivatives.gradients import (
    eval_shapefun_deriv, build_discrete_sym_gradient,
    vbuild_discrete_sym_gradient, build_discrete_gradient,
    vbuild_discrete_gradient, vexpand_grad_operator_sym_2d_to_3d,
    vreduce_grad_operator_sym_3d_to_2d)
from simulators.fetorch.element.integrations.internal_forces import (
    compute_infinitesimal_inc_strain, compute_infinitesimal_strain)

PROPERTY = 'C07'
RULE = ('Every element type and quadrature size with random local points '
        '(inside, on faces, at nodes), random distorted (also curved) nodal '
        'coordinates under random affine maps, random permuted component '
        'orders and random polynomial integrands; non-trivial if the local '
        'point is not a node and the element is not the reference element.')
T = torch.tensor


def names():
    return st.sampled_from(fe.NAMES)


def point(draw, name):
    d = fe.dim(name)
    u = draw(st.lists(st.one_of(fl(0.0, 1.0), st.sampled_from([0.0, 0.5, 1.0])
                                ), min_size=d, max_size=d))
    return fe.local_point(name, u).tolist()


@st.composite
def pcase(draw):
    name = draw(names())
    g = draw(st.sampled_from(fe.GAUSS[name]))
    return {'e': name, 'g': g, 'x': point(draw, name),
            'h': draw(st.integers(1, 4)), 's': draw(seeds())}


@sub('shape_functions', pcase, quick=800)
def _shape(c, ctx):
    name, x = c['e'], np.array(c['x'])
    el = fe.make_element(name, c['g'])
    n, d = fe.NODES[name].shape
    ctx.check(el.get_n_node() == n and el.get_n_dof_node() == d,
              f'{name}: number of nodes or degrees of freedom')
    ctx.nontrivial(np.abs(fe.NODES[name] - x).max(1).min() > 1e-9)
    N = el.eval_shapefun(T(x))
    dN = el.eval_shapefun_local_deriv(T(x))
    ctx.close(N, fe.shape(name, x), 1e-10, 1e-12, f'{name}: shape functions')
    ctx.close(dN, fe.dshape(name, x), 1e-10, 1e-11,
              f'{name}: shape function local derivatives')
    # complete polynomial reproduction
    r = rng(c['s'])
    P = [e for e in itertools.product(range(3), repeat=d)
         if sum(e) <= fe.ORDER[name]]
    co = r.standard_normal(len(P))
    f = lambda y: sum(a*np.prod(y**np.array(e)) for a, e in zip(co, P))
    ctx.close(float(to_np(N) @ np.array([f(y) for y in fe.NODES[name]])),
              f(x), 1e-10, 1e-10, f'{name}: polynomial not reproduced')
    # at nodes
    k = int(r.integers(n))
    ctx.close(el.eval_shapefun(T(fe.NODES[name][k])), np.eye(n)[k], 0,
              1e-12, f'{name}: nodal values')
    # the element's own check agrees
    with contextlib.redirect_stdout(io.StringIO()):
        el.check_shape_functions_properties()
    # batch mapping over local points and differentiation through them
    xs = torch.stack([T(x), T(fe.local_point(name, r.uniform(size=d)))])
    vN = torch.vmap(el.eval_shapefun)(xs)
    vd = torch.vmap(el.eval_shapefun_local_deriv)(xs)
    for i in range(2):
        ctx.close(vN[i], fe.shape(name, to_np(xs[i])), 1e-10, 1e-12,
                  f'{name}: batched shape functions')
        ctx.close(vd[i], fe.dshape(name, to_np(xs[i])), 1e-10, 1e-11,
                  f'{name}: batched local derivatives')
    J = torch.autograd.functional.jacobian(el.eval_shapefun, T(x))
    ctx.close(J, fe.dshape(name, x), 1e-10, 1e-11,
              f'{name}: differentiated shape functions')


@st.composite
def qcase(draw):
    dom = draw(st.sampled_from(['linear', 'quadrilateral', 'triangular',
                                'hexahedral', 'tetrahedral']))
    n = draw(st.sampled_from({'linear': [1, 2, 3],
                              'quadrilateral': [1, 4, 9],
                              'triangular': [1, 3],
                              'hexahedral': [1, 8, 27],
                              'tetrahedral': [1, 4]}[dom]))
    return {'dom': dom, 'n': n, 's': draw(seeds())}


@sub('quadrature', qcase, quick=400)
def _quad(c, ctx):
    dom, n = c['dom'], c['n']
    d = {'linear': 1, 'quadrilateral': 2, 'triangular': 2, 'hexahedral': 3,
         'tetrahedral': 3}[dom]
    simplex = dom in ('triangular', 'tetrahedral')
    xs, ws = gauss_quadrature(n, dom)
    for bad in ((n, 'octagonal'), ({'linear': 5, 'triangular': 2,
                                    'tetrahedral': 3}.get(dom, 2), dom)):
        try:
            gauss_quadrature(*bad)
        except RuntimeError:
            continue
        ctx.check(False, f'quadrature {bad} accepted')
    ctx.check(set(xs) == set(ws) == {str(i + 1) for i in range(n)},
              'Gauss point labels')
    P = np.array([to_np(xs[str(i + 1)]) for i in range(n)])
    W = np.array([float(ws[str(i + 1)]) for i in range(n)])
    ctx.check(P.shape == (n, d), 'Gauss points shape')
    ctx.check(np.all(W > 0), 'non-positive weight')
    inside = np.all(P > 0) and np.all(P.sum(1) < 1) if simplex \
        else np.all(np.abs(P) < 1)
    ctx.check(inside, 'Gauss point outside the element')
    r = rng(c['s'])
    if simplex:
        order = {1: 1, 3: 2, 4: 2}[n]
        E = [e for e in itertools.product(range(order + 1), repeat=d)
             if sum(e) <= order]
        fact = lambda k: float(np.prod(np.arange(1, k + 1))) if k else 1.0
        exact = [np.prod([fact(k) for k in e])/fact(sum(e) + d) for e in E]
    else:
        m = round(n**(1.0/d))
        order = 2*m - 1
        E = list(itertools.product(range(order + 1), repeat=d))
        exact = [np.prod([0.0 if k % 2 else 2.0/(k + 1) for k in e])
                 for e in E]
    a = r.standard_normal(len(E))
    ctx.nontrivial(order >= 1)
    ctx.label(f'{dom}-{n}')
    num = sum(w*sum(ai*np.prod(p**np.array(e)) for ai, e in zip(a, E))
              for p, w in zip(P, W))
    ctx.close(num, float(np.dot(a, exact)), 1e-10, 1e-10,
              f'{dom} {n}-point rule is not exact at order {order}')
    # every monomial alone, to localise
    for e, x in zip(E, exact):
        ctx.close(float(np.sum(W*np.prod(P**np.array(e), axis=1))), x, 1e-10,
                  1e-12, f'{dom} {n}-point rule, monomial {e}')


def order_sym(r, d):
    o = ['11', '22', '12'] if d == 2 else ['11', '22', '33', '12', '23', '13']
    o = [x if r.integers(2) else x[::-1] for x in o]
    return tuple(o[i] for i in r.permutation(len(o)))


@st.composite
def ecase(draw):
    name = draw(names())
    return {'e': name, 'g': draw(st.sampled_from(fe.GAUSS[name])),
            'x': point(draw, name), 'amount': draw(st.sampled_from(
                [0.0, 0.1, 0.25])), 'curved': draw(st.sampled_from(
                    [0.0, 0.0, 0.08])), 's': draw(seeds()),
            'perm': draw(st.booleans())}


@sub('distorted_element', ecase, quick=700, shards=2)
def _elem(c, ctx):
    name, x, g = c['e'], np.array(c['x']), c['g']
    el = fe.make_element(name, g)
    d = fe.dim(name)
    r = rng(c['s'])
    A = fe.rand_affine(r, d)
    X = fe.distorted(name, r, c['amount'], c['curved'], A)
    ctx.nontrivial(c['amount'] > 0)
    ctx.label(name)
    sc = np.abs(A[0]).max()
    J0 = fe.jac(name, X, x)
    J, det, dNl = eval_jacobian(el, T(X), T(x))
    ctx.close(J, J0, 1e-9, 1e-10, f'{name}: Jacobian')
    ctx.close(det, np.linalg.det(J0), 1e-9, 1e-9, f'{name}: determinant')
    ctx.close(dNl, fe.dshape(name, x), 1e-10, 1e-11, f'{name}: derivatives')
    dN, J2, det2 = eval_shapefun_deriv(el, T(X), T(x))
    ctx.close(J2, J0, 1e-9, 1e-10, f'{name}: Jacobian')
    ctx.close(det2, np.linalg.det(J0), 1e-9, 1e-9, f'{name}: determinant')
    dN0 = np.linalg.solve(J0, fe.dshape(name, x).T).T
    ctx.close_norm(dN, dN0, 1e-8, 0.0, f'{name}: global derivatives')
    # the gradient of every linear field is exact
    G = r.standard_normal((d, d))
    u = X @ G.T + r.standard_normal(d)
    ctx.close(to_np(dN).T @ u, G.T, 1e-7, 1e-7,
              f'{name}: gradient of a linear field')
    o = order_sym(r, d) if c['perm'] else (
        ('11', '22', '12') if d == 2 else ('11', '22', '33', '12', '23',
                                           '13'))
    eps = 0.5*(G + G.T)
    ref = [(2 - (a == b))*eps[int(a) - 1, int(b) - 1] for a, b in o]
    for f in (build_discrete_sym_gradient, vbuild_discrete_sym_gradient):
        B = f(dN, o)
        ctx.close(to_np(B) @ u.reshape(-1), ref, 1e-7, 1e-7,
                  f'{name}: {f.__name__}: strain of a linear field')
        for h in (compute_infinitesimal_inc_strain,
                  compute_infinitesimal_strain):
            ctx.close(h(B, T(u)), ref, 1e-7, 1e-7,
                      f'{name}: {h.__name__}')
        w = r.standard_normal(u.shape)
        gw = w.T @ dN0
        ctx.close_norm(to_np(B) @ w.reshape(-1),
                       [gw[int(a) - 1, int(b) - 1]*(1 if a == b else 1)
                        + (0 if a == b else gw[int(b) - 1, int(a) - 1])
                        for a, b in o], 1e-8, 1e-10,
                       f'{name}: {f.__name__}: strain of a nodal field')
    on = [f'{i}{j}' for j in range(1, d + 1) for i in range(1, d + 1)]
    onp = tuple(on[i] for i in r.permutation(len(on)))
    for f in (build_discrete_gradient, vbuild_discrete_gradient):
        for oo in (onp, None):
            B = f(dN, oo)
            ctx.close(to_np(B) @ u.reshape(-1),
                      [G[int(a) - 1, int(b) - 1] for a, b in (oo or on)],
                      1e-7, 1e-7, f'{name}: {f.__name__}')
    # 2D operator embedded in space and back
    if d == 2:
        B = vbuild_discrete_sym_gradient(dN, ('11', '22', '12'))
        B3 = vexpand_grad_operator_sym_2d_to_3d(B)
        u3 = np.hstack([u, r.standard_normal((len(u), 1))])
        ctx.close(to_np(B3) @ u3.reshape(-1),
                  [eps[0, 0], eps[1, 1], 0.0, 2*eps[0, 1], 0.0, 0.0], 1e-7,
                  1e-7, f'{name}: expanded gradient operator')
        ctx.close(vreduce_grad_operator_sym_3d_to_2d(B3), B, 0, 0,
                  f'{name}: reduced gradient operator')
    # element volume
    exact = name in ('tri3', 'quad4', 'tetra4') or (name, g) in (
        ('tri6', 3), ('quad8', 4), ('quad8', 9), ('hexa8', 8),
        ('hexa20', 27))
    if not exact:
        exact = c['curved'] == 0.0 and (name, g) in (
            ('tri6', 1), ('tetra10', 4), ('hexa20', 8))
    if not exact:
        exact = c['curved'] == 0.0 and c['amount'] == 0.0
    V = fe.volume(name, X)
    if exact and V > 0:
        xs, ws = el.get_gauss_integration_points()
        ctx.check(len(xs) == len(ws) == g == el.get_n_gauss(),
                  'number of Gauss points')
        v = sum(float(ws[k])*float(eval_jacobian(el, T(X), xs[k])[1])
                for k in xs)
        ctx.close(v, V, 1e-8, 0.0, f'{name} ({g} points): element volume')
        xb, wb = el.get_batched_gauss_integration_points()
        dets = torch.vmap(lambda q: eval_jacobian(el, T(X), q)[1])(xb)
        ctx.close(float((wb*dets).sum()), V, 1e-8, 0.0,
                  f'{name} ({g} points): batched element volume')
        for i in range(g):
            ctx.close(xb[i], xs[str(i + 1)], 0, 0, 'batched Gauss points')
            ctx.close(wb[i], ws[str(i + 1)], 0, 0, 'batched Gauss weights')
        # what is handed out is a copy
        k0 = list(xs)[0]
        xs[k0] += 7.0
        ws.clear()
        ctx.close(el.get_gauss_integration_points()[0][k0], xb[int(k0) - 1],
                  0, 0, 'Gauss points handed out by reference')


@st.composite
def detcase(draw):
    name = draw(names())
    return {'e': name, 's': draw(seeds()), 'x': point(draw, name),
            'flip': draw(st.booleans())}


@sub('inverted_element_refused', detcase, quick=150)
def _det(c, ctx):
    """With the check requested, an inverted element is never accepted."""
    name = c['e']
    d = fe.dim(name)
    r = rng(c['s'])
    A = fe.rand_affine(r, d)
    X = fe.distorted(name, r, 0.1, 0.0, A)
    if c['flip']:
        X[:, 0] = -X[:, 0]
    el = fe.make_element(name)
    det0 = np.linalg.det(fe.jac(name, X, np.array(c['x'])))
    if abs(det0) < 1e-6:
        return
    ctx.nontrivial(c['flip'])
    try:
        eval_jacobian(el, T(X), T(c['x']), is_check_det=True)
        ok = True
    except RuntimeError:
        ok = False
    ctx.check(ok == (det0 > 0), f'{name}: det(J)={det0}, accepted={ok}')
