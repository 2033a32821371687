"""C08: mesh assembly, configuration and internal forces."""
import copy
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds, fl
import fe
import materials as M
from simulators.fetorch.structure.structure_mesh import StructureMesh
from simulators.fetorch.structure.structure_state import \
    StructureMaterialState
from simulators.fetorch.element.integrations.internal_forces import \
    compute_element_internal_forces

PROPERTY = 'C08'
RULE = ('Random meshes of every element type (distorted, randomly numbered, '
        'also mixed tri3/quad4 and meshes of up to hundreds of elements), random '
        'nodal fields, random sequences of configuration updates and random '
        'displacement histories with elastic and elastoplastic materials; '
        'non-trivial if the mesh has at least two elements sharing a node '
        '(assembly, forces) or at least two updates (configuration).')
T = torch.tensor


def mesh_case(draw, names=fe.NAMES, nmax2=4, nmax3=2):
    name = draw(st.sampled_from(list(names)))
    d = fe.dim(name)
    hi = nmax2 if d == 2 else nmax3
    return {'e': name, 'g': draw(st.sampled_from(fe.GAUSS[name])),
            'n': [draw(st.integers(1, hi)) for _ in range(d)],
            'jit': draw(st.sampled_from([0.0, 0.2])),
            'aff': draw(st.booleans()), 's': draw(seeds())}


def build_mesh(c, r):
    d = fe.dim(c['e'])
    A = fe.rand_affine(r, d, 0.5, 2.0) if c['aff'] else None
    X, cells, bnd = fe.grid_mesh(c['e'], c['n'], r, c['jit'], A)
    keys = [str(i + 1) for i in range(len(cells))]
    if c.get('shuffle', True):      # insertion order is not label order
        r.shuffle(keys)
    types = {k: fe.make_element(c['e'], c['g']) for k in keys}
    conn = {k: tuple(n + 1 for n in cells[int(k) - 1]) for k in keys}
    dirichlet = r.integers(0, 2, X.shape)
    return X, cells, bnd, types, conn, dirichlet


@st.composite
def acase(draw):
    c = mesh_case(draw, nmax2=4, nmax3=2)
    c['k'] = draw(st.integers(1, 3))
    c['mixed'] = draw(st.booleans())
    c['drop'] = draw(st.booleans())
    if draw(st.integers(0, 11)) == 7:   # hundreds of nodes
        d = fe.dim(c['e'])
        c['n'] = [draw(st.integers(15, 20)) for _ in range(2)] if d == 2 \
            else [draw(st.integers(2, 8)), draw(st.integers(2, 8)), 6]
    return c


@sub('assembly', acase, quick=250)
def _asm(c, ctx):
    r = rng(c['s'])
    X, cells, bnd, types, conn, dirb = build_mesh(c, r)
    if c['mixed'] and c['e'] == 'quad4':
        # split some quadrilaterals into triangles
        newc = []
        for q in cells:
            if r.integers(2):
                newc.append(q)
            else:
                newc += [[q[0], q[1], q[2]], [q[0], q[2], q[3]]]
        cells = newc
        conn = {str(i + 1): tuple(n + 1 for n in q)
                for i, q in enumerate(cells)}
        types = {k: fe.make_element('quad4' if len(v) == 4 else 'tri3')
                 for k, v in conn.items()}
    m = StructureMesh(T(X), types, conn, T(dirb))
    N, k = len(X), c['k']
    ctx.check((m.get_n_node_mesh(), m.get_n_elem(), m.get_n_dim())
              == (N, len(cells), X.shape[1]), 'mesh sizes')
    ctx.check(int(m.get_n_dirichlet_dof()) == int(dirb.sum()),
              'number of constrained degrees of freedom')
    ctx.close(m.get_dirichlet_bool_mesh(), dirb, 0, 0, 'Dirichlet array')
    ctx.check(m.get_n_element_type() == len({len(v) for v in conn.values()}),
              'number of element types')
    ctx.check(m.get_connectivities() == conn, 'connectivities')
    ctx.nontrivial(len(cells) > 1)
    # what is handed out is a copy
    m.get_dirichlet_bool_mesh().fill_(1 - int(dirb.flat[0]))
    m.get_connectivities().clear()
    m.get_elements_type().clear()
    ctx.close(m.get_dirichlet_bool_mesh(), dirb, 0, 0,
              'Dirichlet array changed through a copy')
    ctx.check(m.get_connectivities() == conn,
              'connectivities changed through a copy')
    ctx.check({e: type(x) for e, x in m.get_elements_type().items()}
              == {e: type(x) for e, x in types.items()}, 'element types')
    # inconsistent meshes are refused
    e = list(conn)[int(r.integers(len(conn)))]
    for what, a in (
            ('missing nodes', (T(X), types, {**conn, e: conn[e][:-1]})),
            ('missing element', (T(X), types, {
                q: v for q, v in conn.items() if q != e})),
            ('missing element type', (T(X), {
                q: v for q, v in types.items() if q != e}, conn)),
            ('element labels', (T(X), {(q if q != e else 'x'): v for q, v in
                                       types.items()}, conn)),
            ('element type', (T(X), {**types, e: 'quad4'}, conn)),
            ('coordinates', (X, types, conn)),
            ('coordinates shape', (T(X).reshape(-1), types, conn))):
        try:
            StructureMesh(*a, T(dirb))
        except RuntimeError:
            continue
        ctx.check(False, f'mesh with wrong {what} accepted')
    ev = {e: r.standard_normal(len(conn[e])*k) for e in conn}
    if c['drop'] and len(ev) > 1:
        ev.pop(list(ev)[0])
    ref = np.zeros((N, k))
    for e, v in ev.items():
        np.add.at(ref, np.array(conn[e]) - 1, v.reshape(-1, k))
    args = {e: T(v) for e, v in ev.items()}
    out = m.element_assembler(args)
    ctx.close(out, ref.reshape(-1), 1e-12, 1e-12, 'assembled values')
    for e, v in ev.items():
        ctx.close(args[e], v, 0, 0, 'assembly changed the element arrays')
    # order of the elements does not matter
    rev = dict(reversed(list(args.items())))
    ctx.close(m.element_assembler(rev), out, 1e-12, 1e-12,
              'assembly depends on the element order')
    # extraction and adjointness
    w = r.standard_normal((N, k))
    tw = T(w.reshape(-1))
    tot = 0.0
    for e in conn:
        x = m.element_extractor(tw, int(e))
        ctx.close(x, w[np.array(conn[e]) - 1].reshape(-1), 0, 0,
                  'extracted values')
        if e in ev:
            tot += float(to_np(x) @ ev[e])
    ctx.close(tot, float(to_np(out) @ w.reshape(-1)), 1e-10, 1e-10,
              'assembly and extraction are not adjoint')
    ctx.close(tw, w.reshape(-1), 0, 0, 'extraction changed the mesh array')
    # vectorised indexing selects the same entries in label order
    if len({len(v) for v in conn.values()}) == 1:
        idx = m.build_elements_mesh_indexing(k)
        ct = m.get_connectivities_tensor()
        for i in range(len(cells)):
            e = str(i + 1)
            ctx.close(ct[i], conn[e], 0, 0, 'connectivities tensor')
            ctx.close(tw[idx[i].long()], w[np.array(conn[e]) - 1].reshape(-1),
                      0, 0, 'element mesh indexing')


@st.composite
def ccase(draw):
    c = mesh_case(draw, nmax2=2, nmax3=1)
    c['ops'] = draw(st.lists(st.fixed_dictionaries({
        't': st.sampled_from(['last', 'current', 'default']),
        'up': st.booleans(), 's': seeds()}), min_size=1, max_size=6))
    return c


@sub('configuration', ccase, quick=250)
def _conf(c, ctx):
    r = rng(c['s'])
    X, cells, bnd, types, conn, dirb = build_mesh(c, r)
    X0 = X.copy()
    m = StructureMesh(T(X), types, conn, T(dirb))
    coords = {'init': X0, 'last': X0, 'current': X0}
    disps = {k: np.zeros_like(X0) for k in coords}
    ctx.nontrivial(len(c['ops']) > 1)

    def verify(when):
        for t in ('init', 'last', 'current'):
            a, b = m.get_mesh_configuration(time=t)
            ctx.close(a, coords[t], 1e-14, 1e-14, f'{when}: {t} coordinates')
            ctx.close(b, disps[t], 0, 0, f'{when}: {t} displacements')
            for e in conn:
                i = np.array(conn[e]) - 1
                ea, eb = m.get_element_configuration(int(e), time=t)
                ctx.close(ea, coords[t][i], 1e-14, 1e-14,
                          f'{when}: element {e} {t} coordinates')
                ctx.close(eb, disps[t][i], 0, 0,
                          f'{when}: element {e} {t} displacements')
            a += 3.0        # what is handed out is a copy
            b += 3.0
    verify('initial')
    for k, op in enumerate(c['ops']):
        u = rng(op['s']).standard_normal(X0.shape)
        tu = T(u)
        kw = {} if op['t'] == 'default' else {'time': op['t']}
        m.update_mesh_configuration(tu, is_update_coords=op['up'], **kw)
        t = 'current' if op['t'] == 'default' else op['t']
        disps[t] = u
        if op['up']:
            coords[t] = X0 + u
        tu += 5.0           # the mesh keeps its own copy
        verify(f'after update {k}')


@st.composite
def scase(draw):
    op = st.fixed_dictionaries({
        'op': st.sampled_from(['set', 'set', 'get', 'converge', 'spoil']),
        'e': st.integers(0, 3), 'old': st.booleans(),
        'dflt': st.booleans(), 's': seeds()})
    return {'n': draw(st.integers(1, 4)), 's': draw(seeds()),
            'ops': draw(st.lists(op, min_size=2, max_size=14))}


@sub('material_state', scase, quick=250)
def _state(c, ctx):
    """History of element states: last and current kept apart."""
    m = StructureMaterialState('infinitesimal', 4, c['n'])
    r = rng(c['s'])

    def value(r):
        return {str(g): {'stress_mf': torch.tensor(r.normal(size=6)),
                         'acc': torch.tensor(float(r.normal()))}
                for g in range(1, 1 + int(r.integers(1, 4)))}

    def plain(v):
        return {g: {k: to_np(x).copy() for k, x in q.items()}
                for g, q in v.items()}
    ref = {'last': {}, 'current': {}}
    for e in range(1, c['n'] + 1):
        v = value(r)
        for t in ref:
            m.update_element_state(e, v, time=t)
            ref[t][e] = plain(v)
    n = 0
    for op in c['ops']:
        e = op['e'] % c['n'] + 1
        t = 'last' if op['old'] else 'current'
        kw = {} if t == 'current' and op['dflt'] else {'time': t}
        if op['op'] == 'set':
            v = value(rng(op['s']))
            m.update_element_state(e, v, **kw)
            ref[t][e] = plain(v)
            for q in v.values():        # the structure keeps its own copy
                q['stress_mf'] += 1.0
                q.pop('acc')
            n += 1
        elif op['op'] == 'converge':
            m.update_converged_elements_state()
            ref['last'] = {k: plain(v) for k, v in ref['current'].items()}
            n += 1
        elif op['op'] == 'spoil':
            v = m.get_element_state(e, **kw)
            for q in v.values():
                q['stress_mf'] *= 2.0
            v.pop('1')
        else:
            v = m.get_element_state(e, is_copy=False, **kw)
            ctx.check(set(v) == set(ref[t][e]), 'points of a state')
        for t in ref:
            for e in ref[t]:
                got = m.get_element_state(e, time=t)
                ctx.check(set(got) == set(ref[t][e]), f'{t} state of '
                          f'element {e}: points')
                for g in got:
                    ctx.check(set(got[g]) == set(ref[t][e][g]),
                              'state variables')
                    for k in got[g]:
                        ctx.close(got[g][k], ref[t][e][g][k], 0, 0,
                                  f'{t} state of element {e} after '
                                  f'{op["op"]}')
    ctx.nontrivial(n > 1)


@st.composite
def fcase(draw):
    c = mesh_case(draw, nmax2=2, nmax3=1)
    c['mat'] = draw(M.model(names=('el', 'vm', 'vmm', 'dp'),
                            kinds=('linear',)))
    c['steps'] = draw(st.integers(1, 3))
    c['field'] = draw(st.sampled_from(['random', 'linear', 'translation']))
    c['f'] = draw(fl(0.2, 3.0))
    return c


@sub('internal_forces', fcase, quick=160, shards=4)
def _forces(c, ctx):
    r = rng(c['s'])
    X, cells, bnd, types, conn, dirb = build_mesh(c, r)
    name, g, d = c['e'], c['g'], fe.dim(c['e'])
    if any(np.linalg.det(fe.jac(name, X[q], p)) <= 0 for q in cells
           for p in fe.NODES[name]):
        return
    m = StructureMesh(T(X), types, conn, T(dirb))
    mat = M.build(c['mat'], d)
    ref = M.build(c['mat'], d)
    pt = {2: 1, 3: 4}[d]
    el = types['1']
    xs, ws = el.get_gauss_integration_points()
    old = {e: {k: mat.state_init() for k in xs} for e in conn}
    rold = {e: {k: ref.state_init() for k in xs} for e in conn}
    ctx.nontrivial(len(cells) > 1)
    ctx.label(name)
    y = M.yield_strain(c['mat'])*c['f']
    size = np.ptp(X, axis=0).max()
    u_old = np.zeros_like(X)
    homog = c['field'] != 'random'
    for step in range(c['steps']):
        if c['field'] == 'random':
            du = y*size*0.3*r.standard_normal(X.shape)
        elif c['field'] == 'translation':
            du = np.ones_like(X)*r.standard_normal(d)*size
        else:
            du = X @ (y*r.standard_normal((d, d))).T + r.standard_normal(d)
        u = u_old + du
        parts = {}
        new = {}
        rparts = {}
        smax = 0.0
        for e in conn:
            i = np.array(conn[e]) - 1
            before = copy.deepcopy(old[e])
            f, s = compute_element_internal_forces(
                'infinitesimal', pt, types[e], mat, old[e], T(X[i]), T(u[i]),
                T(du[i]))
            parts[e], new[e] = f, s
            for k in before:
                for q in before[k]:
                    ctx.close(old[e][k][q], before[k][q], 0, 0,
                              'the old element state was changed')
            ctx.check(set(s) == set(xs), 'Gauss point states')
            # oracle: integrate the oracle's own operators
            F = np.zeros((len(i), d))
            for k in xs:
                x = to_np(xs[k])
                J = fe.jac(name, X[i], x)
                dN = np.linalg.solve(J, fe.dshape(name, x).T).T
                G = du[i].T @ dN
                inc = 0.5*(G + G.T)
                sv, _ = ref.state_update(T(inc), copy.deepcopy(rold[e][k]))
                if M.failed(sv):
                    return
                rold[e][k] = sv
                sig = M.from_kelvin(sv['stress_mf'], d)
                smax = max(smax, np.abs(sig).max())
                F += float(ws[k])*np.linalg.det(J)*dN @ sig
                ctx.close_norm(s[k]['stress_mf'], sv['stress_mf'], 1e-5,
                               1e-6*c['mat']['E']*y,
                               'Gauss point stress')
            rparts[e] = F.reshape(-1)
        # round-off of the displacement differences
        area = smax*size**(d - 1) + 1e-7*c['mat']['E']*max(
            1e-2*y*size, np.abs(u).max())*size**(d - 2)
        for e in conn:
            ctx.close(parts[e], rparts[e], 0, 2e-5*area,
                      f'element {e}: internal forces are not the work '
                      f'conjugate of the stresses')
        Fm = to_np(m.element_assembler(parts)).reshape(-1, d)
        ctx.close(Fm.sum(0), np.zeros(d), 0, 1e-7*area*len(cells),
                  'global force equilibrium')
        Mo = Fm.T @ X
        ctx.close(Mo - Mo.T, np.zeros((d, d)), 0, 1e-7*area*np.abs(X).max()
                  * len(cells), 'global moment equilibrium')
        if c['field'] == 'translation':
            ctx.close(Fm, np.zeros_like(Fm), 0, 1e-9*c['mat']['E']*np.abs(
                u).max()*size**(d - 2), 'forces of a rigid translation')
        if homog and ((name, g) in fe.EXACT_GRAD or not c['jit']):
            ctx.close(Fm[~bnd], np.zeros_like(Fm[~bnd]), 0,
                      2e-5*area, 'interior forces of a homogeneous '
                      'deformation (patch test)')
            if np.any(~bnd):
                ctx.label('patch')
        old, u_old = new, u
