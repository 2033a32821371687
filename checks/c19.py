"""C19: translation to and from the finite element simulator (Links)."""
import contextlib
import copy
import io
import itertools
import os
import re
import stat
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
from data_generation.spdg.patch import FiniteElementPatch
from data_generation.spdg.patch_generator import FiniteElementPatchGenerator
from simulators.links.links import LinksSimulator
from simulators.links.utilities import links_dat_to_inp as conv
from simulators.links.utilities import links_specimen_dirichlet as dbc
from simulators.links.utilities import links_out_to_dataset as lout
from simulators.links.utilities import links_nodedata_to_csv as ncsv
from simulators.links.utilities import links_plot_tfact as tfact
from simulators.links.utilities import links_data_to_adimu as adimu

PROPERTY = 'C19'
RULE = ('Random patches (2D/3D, linear/quadratic), material phases and '
        'descriptors, free/prescribed boundary freedoms, removed elements, '
        'result histories with more than ten steps in shuffled files, mesh '
        'files; non-trivial if there are several elements, steps or phases.')

# Position of the nodes of an element in terms of its half edges
L2 = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
Q2 = [(-1, -1), (0, -1), (1, -1), (1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0)]
L3 = [p + (-1,) for p in L2] + [p + (1,) for p in L2]
M2 = [(0, -1), (1, 0), (0, 1), (-1, 0)]
Q3 = (L3 + [p + (-1,) for p in M2] + [p + (0,) for p in L2]
      + [p + (1,) for p in M2])
KIND = {'SQUAD4': (2, L2, 'QUAD4', 4), 'SQUAD8': (2, Q2, 'QUAD8', 4),
        'SHEXA8': (3, L3, 'HEXA8', 8), 'SHEXA20': (3, Q3, 'HEXA20', 8)}
TYPE = {'plane_stress': '1', 'plane_strain': '2', 'axisymmetric': '3',
        'tridimensional': '6'}
NAME = st.sampled_from(['sim', 'patch_3', 'a.b', 'x+y', 'run(2)', 'Elem_1'])


# --------------------------------------------------------------- own parser
KEYS = ('TITLE', 'ANALYSIS_TYPE', 'LARGE_STRAIN_FORMULATION',
        'SOLUTION_ALGORITHM', 'INCREMENTS', 'SOLVER', 'PARALLEL_SOLVER',
        'VTK_OUTPUT', 'NODE_DATA_OUTPUT', 'GLOBAL_DATA_OUTPUT',
        'ELEMENT_GROUPS', 'ELEMENT_TYPES', 'MATERIALS', 'ELEMENTS',
        'NODE_COORDINATES', 'NODES_WITH_PRESCRIBED_DISPLACEMENTS',
        'NODE_GROUPS', 'CONVERGENCE_TOLERANCE', 'NUMBER_OF_INCREMENTS')


def parse(path):
    """Sections of a Links data file: keyword -> (arguments, rows)."""
    out = {}
    rows = None
    with open(path) as f:
        for line in f.read().split('\n'):
            t = line.split()
            if not t:
                continue
            if t[0].upper() in KEYS and not (rows is not None
                                             and rows is out.get(
                                                 'TITLE', (0, None))[1]
                                             and not rows):
                rows = []
                out[t[0].upper()] = (t[1:], rows)
            elif rows is not None:
                rows.append(t)
    return out


def mesh_of(ctx, d, dim):
    n = int(d['NODE_COORDINATES'][0][0])
    rows = d['NODE_COORDINATES'][1]
    ctx.check(len(rows) == n, 'number of nodes')
    xyz = {int(r[0]): np.array([float(x) for x in r[1:]]) for r in rows}
    ctx.check(sorted(xyz) == list(range(1, n + 1)), 'node labels')
    ctx.check(all(len(x) == dim for x in xyz.values()), 'coordinates size')
    n = int(d['ELEMENTS'][0][0])
    rows = d['ELEMENTS'][1]
    ctx.check(len(rows) == n, 'number of elements')
    el = {int(r[0]): [int(x) for x in r[2:]] for r in rows}
    grp = {int(r[0]): int(r[1]) for r in rows}
    ctx.check(sorted(el) == list(range(1, n + 1)), 'element labels')
    return xyz, el, grp


def bcs_of(ctx, d):
    n = int(d['NODES_WITH_PRESCRIBED_DISPLACEMENTS'][0][0])
    rows = d['NODES_WITH_PRESCRIBED_DISPLACEMENTS'][1]
    ctx.check(len(rows) == n, 'number of constrained nodes')
    out = {}
    for r in rows:
        ctx.check(len(r) == 5 and len(r[1]) == 3, f'constraint line {r}')
        out[int(r[0])] = (r[1], [float(x) for x in r[2:]])
    ctx.check(len(out) == n, 'constrained node repeated')
    return out


# ----------------------------------------------------------- input data file
def hard(par, x):
    return par['s'] + par['h']*x**par['n'], par['h']*par['n']


@st.composite
def material(draw):
    name = draw(st.sampled_from(['ELASTIC', 'VON_MISES', 'DRUCKER_PRAGER',
                                 'LOU']))
    f = st.floats(-1, 1).map(lambda x: round(x, 6))
    m = {'name': name, 'density': abs(draw(f)), 'young': 10.0**draw(
        st.floats(0, 6)), 'poisson': round(draw(st.floats(-0.5, 0.49)), 6)}
    if name != 'ELASTIC':
        m['n_hard_point'] = draw(st.integers(2, 30))
        m['hardening_parameters'] = {'s': 10.0**draw(st.floats(-1, 3)),
                                     'h': 10.0**draw(st.floats(-1, 3)),
                                     'n': draw(st.sampled_from([1.0, 0.5]))}
    if name == 'DRUCKER_PRAGER':
        m['friction_angle_deg'] = round(draw(st.floats(0, 60)), 6)
        m['dilatancy_angle_deg'] = round(draw(st.floats(0, 60)), 6)
    if name == 'LOU':
        for k in 'abcd':
            m[f'yield_{k}_init'] = draw(f)*3
            m[f'{k}_hard_slope'] = draw(f)
    return m


@st.composite
def case(draw, remove=False):
    elem = draw(st.sampled_from(list(KIND)))
    dim = KIND[elem][0]
    lo, hi = (3, 5) if remove else (1, 4)
    if dim == 3:
        hi = 4 if remove and elem == 'SHEXA8' else 3
    ne = [draw(st.integers(lo, hi)) for _ in range(dim)]
    phases = draw(st.lists(st.integers(1, 12), min_size=1, max_size=3,
                           unique=True))
    return {'elem': elem, 'ne': ne,
            'size': [draw(st.sampled_from([1.0, 0.4, 25.0, 3.7]))
                     for _ in range(dim)],
            'ph': phases, 'mat': [draw(material()) for _ in phases],
            'extra': draw(st.booleans()),
            'free': draw(st.sampled_from([0.0, 0.0, 0.3, 0.7])),
            'an': ('tridimensional' if dim == 3 else draw(st.sampled_from(
                ['plane_stress', 'plane_strain', 'axisymmetric']))),
            'sf': draw(st.sampled_from(['infinitesimal', 'finite'])),
            'name': draw(NAME), 'par': draw(st.booleans()),
            'inc': draw(st.booleans()), 'nr': draw(st.integers(1, 6)),
            's': draw(seeds())}


def build(c):
    """Patch with a regular mesh and random (partly free) displacements."""
    r = rng(c['s'])
    dim = KIND[c['elem']][0]
    with contextlib.redirect_stdout(io.StringIO()):
        p = FiniteElementPatchGenerator(
            dim, tuple(c['size'])).generate_deformed_patch(
                c['elem'], tuple(c['ne']))[1]
    a = p.get_patch_attributes() if hasattr(p, 'get_patch_attributes') else {}
    disps = {}
    low = 0.1*min(c['size'])
    for k in p.get_mesh_boundary_nodes_disps():
        u = [float(x) for x in r.uniform(-low, low, size=dim)]
        if r.random() < 0.2:
            u[int(r.integers(dim))] = 0.0
        free = r.random(dim) < c['free']
        disps[k] = np.array([None if g else x for x, g in zip(u, free)],
                            dtype=object if free.any() else float)
    q = FiniteElementPatch(
        dim, p.get_patch_dims() if hasattr(p, 'get_patch_dims')
        else a['patch_dims'], c['elem'], tuple(c['ne']),
        p.get_mesh_nodes_matrix(), p.get_mesh_nodes_coords_ref(), disps)
    m = r.choice(c['ph'], size=c['ne'])
    for i, k in enumerate(c['ph']):
        if i < m.size:
            m.flat[i] = k
    des = {}
    for k, d in zip(c['ph'], c['mat']):
        d = dict(d)
        if d['name'] != 'ELASTIC':
            d['hardening_law'] = hard
        des[str(k)] = d
    if c['extra']:
        des['77'] = dict(des[str(c['ph'][0])])
    return q, disps, {'mesh_elem_material': m, 'mat_phases_descriptors': des}


def write(c, q, data, where, **kw):
    sim = LinksSimulator('links', c['sf'], c['an'])
    par = None
    if c['par']:
        par = {'title': 'ELEMENTS of a test 12', 'solver': 'MA41',
               'vtk_output': 'ASCII', 'parallel_solver': 4, 'other': 'x'}
    np.random.seed(c['s'] % 2**31)
    with contextlib.redirect_stdout(io.StringIO()):
        return sim.generate_input_data_file(
            c['name'], where, q, data, links_input_params=par, **kw)


def cells(ctx, c, xyz, el, grp, m):
    """Every cell of the regular grid is one element with its material."""
    dim, pat, _, _ = KIND[c['elem']]
    h = np.array(c['size'])/np.array(c['ne'])
    out = {}
    for e, nodes in el.items():
        ctx.check(len(nodes) == len(pat), f'element {e}: number of nodes')
        x = np.array([xyz[k] for k in nodes])
        mid = 0.5*(x.min(0) + x.max(0))
        want = mid + 0.5*h*np.array(pat)
        ctx.close(x, want, 1e-6, 1e-6*max(c['size']),
                  f'element {e}: local node positions')
        key = tuple(int(k) for k in np.floor(mid/h))
        ctx.check(key not in out and all(0 <= k < n for k, n in zip(
            key, c['ne'])), f'element {e}: cell {key}')
        ctx.check(grp[e] == int(m[key]), f'element {e}: material phase')
        out[key] = e
    return out


def constraints(ctx, got, disps, dim, relabel=None):
    ctx.check(len(got) == len(disps), 'number of prescribed nodes')
    for k, u in disps.items():
        k = int(k)
        k = k if relabel is None else relabel[k]
        ctx.check(k in got, f'node {k} not constrained')
        code, val = got[k]
        if dim == 2:
            ctx.check(val[2] == 0, f'node {k}: rotated freedoms')
        for i in range(dim):
            if u[i] is None:
                ctx.check(code[i] == '0', f'node {k}: freedom {i} not free')
            else:
                ctx.check(code[i] == '1', f'node {k}: freedom {i} free')
                ctx.close(val[i], float(u[i]), 1e-7, 1e-12,
                          f'node {k}: displacement {i}')


def materials(ctx, d, c, phases):
    used = set(phases)
    ctx.check(int(d['MATERIALS'][0][0]) == len(used), 'number of materials')
    g = {int(r[0]): r for r in d['ELEMENT_GROUPS'][1]}
    ctx.check(set(g) == used and int(d['ELEMENT_GROUPS'][0][0]) == len(used)
              and all(int(r[2]) == k and r[1] == '1' for k, r in g.items()),
              f'element groups {g}')
    rows = copy.deepcopy(d['MATERIALS'][1])
    seen = set()
    while rows:
        k, name = rows.pop(0)
        k = int(k)
        ctx.check(k in used and k not in seen, f'material {k}')
        seen.add(k)
        m = c['mat'][c['ph'].index(k)]
        ctx.check(name == m['name'], 'material model')

        def line(want, msg):
            got = [float(x) for x in rows.pop(0)]
            ctx.close(got[:len(want)], want, 1e-7, 1e-12, f'{k}: {msg}')
            return got[len(want):]
        line([m['density']], 'density')
        el = [m['young'], m['poisson']]
        if name == 'DRUCKER_PRAGER':
            el += [m['friction_angle_deg'], m['dilatancy_angle_deg']]
        line(el, 'elastic (and angle) parameters')
        if name == 'LOU':
            for a in 'abcd':
                line([m[f'yield_{a}_init'], m[f'{a}_hard_slope']], a)
        if name != 'ELASTIC':
            n = int(rows.pop(0)[0])
            ctx.check(n == m['n_hard_point'], 'hardening points')
            pts = np.array([[float(x) for x in rows.pop(0)]
                            for _ in range(n)])
            ctx.check(pts[0, 0] == 0.0 and np.all(np.diff(pts[:, 0]) > 0),
                      'hardening points increase from zero')
            par = m['hardening_parameters']
            s = np.array([float(hard(par, x)[0]) for x in pts[:, 0]])
            ctx.close(pts[:, 1], s, 1e-6, 1e-12, 'hardening curve')
    ctx.check(seen == used, 'materials of all phases')


def increments(ctx, d):
    n = int(d['INCREMENTS'][0][0])
    rows = d['INCREMENTS'][1]
    ctx.check(len(rows) == n, 'number of load increments')
    f = np.array([float(r[1]) for r in rows])
    t = np.cumsum(f)
    ctx.check(np.all(np.abs(t) <= 1 + 1e-6),
              f'total load factor {np.abs(t).max()}')
    ctx.check(np.any(f != 0), 'no loading')
    return rows


@sub('input', lambda: case(), quick=500, shards=4)
def _(c, ctx):
    dim, pat, et, gp = KIND[c['elem']]
    q, disps, data = build(c)
    m = data['mesh_elem_material']
    keep = (m.copy(), copy.deepcopy(disps),
            {k: dict(v) for k, v in data['mat_phases_descriptors'].items()})
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        where = os.path.join(tmp, 'new')
        path = write(c, q, data, where, is_save_increm_file=c['inc'])
        ctx.check(path == os.path.join(where, c['name'] + '.dat')
                  and os.path.isfile(path), f'file path {path}')
        text = open(path).read()
        d = parse(path)
        if c['inc']:
            i = parse(os.path.join(where, 'loading_incrementation.dat'))
            ctx.check(i['INCREMENTS'] == d['INCREMENTS'], 'saved increments')
        else:
            ctx.check(os.listdir(where) == [c['name'] + '.dat'],
                      'unrequested files')
        again = write(c, q, data, where)
        ctx.check(again != path and os.path.isfile(again)
                  and open(path).read() == text, 'file overwritten')
        ctx.check(open(again).read() == text, 'not reproducible')
        with open(path, 'w') as f:
            f.write('old')
        over = write(c, q, data, where, is_overwrite_file=True)
        ctx.check(over == path and open(path).read() == text,
                  'file not overwritten')
    ctx.check(np.array_equal(m, keep[0]) and all(
        list(keep[1][k]) == list(disps[k]) for k in disps)
        and keep[2] == data['mat_phases_descriptors'], 'arguments modified')
    title = ' '.join(d['TITLE'][1][0])
    ctx.check((title == 'ELEMENTS of a test 12') == c['par'], 'title')
    ctx.check(d['ANALYSIS_TYPE'][0] == [TYPE[c['an']]], 'analysis type')
    ctx.check(d['LARGE_STRAIN_FORMULATION'][0] == [
        'OFF' if c['sf'] == 'infinitesimal' else 'ON'], 'strain formulation')
    if c['par']:
        ctx.check(d['SOLVER'][0] == ['MA41'] and d['PARALLEL_SOLVER'][0]
                  == ['4'] and d['VTK_OUTPUT'][0] == ['ASCII'],
                  'input parameters')
    ctx.check('NODE_DATA_OUTPUT' in d and 'GLOBAL_DATA_OUTPUT' in d,
              'output options')
    ctx.check(d['ELEMENT_TYPES'][0] == ['1']
              and d['ELEMENT_TYPES'][1][0] == ['1', et]
              and d['ELEMENT_TYPES'][1][1] == [str(gp), 'GP'],
              f'element type {d["ELEMENT_TYPES"]}')
    increments(ctx, d)
    xyz, el, grp = mesh_of(ctx, d, dim)
    ref = q.get_mesh_nodes_coords_ref()
    ctx.check(len(ref) == len(xyz), 'mesh size')
    for k, x in ref.items():
        ctx.close(xyz[int(k)], x, 1e-7, 1e-12, f'coordinates of node {k}')
    got = cells(ctx, c, xyz, el, grp, m)
    ctx.check(len(got) == int(np.prod(c['ne'])), 'cells without element')
    constraints(ctx, bcs_of(ctx, d), disps, dim)
    materials(ctx, d, c, [int(x) for x in set(m.flatten())])
    ctx.nontrivial(len(got) > 1 and len(c['ph']) > 1)


@sub('refuse', lambda: case(), quick=120)
def _(c, ctx):
    q, _, data = build(c)
    r = rng(c['s'] + 1)
    des = data['mat_phases_descriptors']
    used = sorted({int(x) for x in data['mesh_elem_material'].flatten()})
    k = str(used[int(r.integers(len(used)))])
    bad = ['phase', 'name', 'missing'][int(r.integers(3))]
    if bad == 'phase':
        del des[k]
    elif bad == 'name':
        des[k] = dict(des[k], name='UNKNOWN')
    else:
        f = sorted(x for x in des[k] if x != 'name')
        del des[k][f[int(r.integers(len(f)))]]
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        try:
            write(c, q, data, tmp)
            ok = True
        except (RuntimeError, KeyError):
            ok = False
    ctx.check(not ok, f'incomplete materials accepted ({bad})')
    ctx.nontrivial(len(used) > 1)


# ----------------------------------------------------------- element removal
@sub('remove', lambda: case(remove=True), quick=250, shards=2)
def _(c, ctx):
    dim, pat, _, _ = KIND[c['elem']]
    q, disps, data = build(c)
    m = data['mesh_elem_material']
    r = rng(c['s'] + 2)
    ne = c['ne']
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        d0 = parse(write(c, q, data, os.path.join(tmp, 'a')))
        xyz0, el0, grp0 = mesh_of(ctx, d0, dim)
        where = cells(ctx, c, xyz0, el0, grp0, m)
        mode = int(r.integers(3))
        if mode < 2:
            # Block of interior elements or scattered elements
            inner = [k for k in where if all(0 < i < n - 1 for i, n in zip(
                k, ne))]
            if mode == 1:
                inner = list(where)
            pick = [inner[i] for i in r.permutation(len(inner))[:c['nr']]]
            if mode == 0 and r.random() < 0.5:
                pick = inner
        else:
            # A corner element: its corner node would vanish
            pick = [tuple(0 if r.random() < 0.5 else n - 1 for n in ne)]
        gone = [where[k] for k in pick]
        left = {e: v for e, v in el0.items() if e not in gone}
        nodes = {k for v in left.values() for k in v}
        legal = bool(left) and all(int(k) in nodes for k in disps)
        kw = {'remove_elements_labels': (tuple(gone) if c['nr'] % 2
                                         else list(gone))}
        try:
            path = write(c, q, data, os.path.join(tmp, 'b'), **kw)
            ok = True
        except RuntimeError:
            ok = False
        ctx.check(ok == legal, f'removal of boundary nodes (legal {legal})')
        if not ok:
            ctx.label('refused')
            return
        d = parse(path)
    xyz, el, grp = mesh_of(ctx, d, dim)
    ctx.check(len(el) == len(left) and len(xyz) == len(nodes), 'mesh size')
    # Nodes are matched by position
    key = {tuple(np.round(x, 9)): k for k, x in xyz.items()}
    relabel = {}
    for k in nodes:
        ctx.check(tuple(np.round(xyz0[k], 9)) in key, f'node {k} lost')
        relabel[k] = key[tuple(np.round(xyz0[k], 9))]
    ctx.check(len(set(relabel.values())) == len(nodes), 'nodes merged')
    got = cells(ctx, c, xyz, el, grp, m)
    ctx.check(set(got) == {k for k in where if where[k] not in gone},
              'elements left')
    constraints(ctx, bcs_of(ctx, d), disps, dim, relabel)
    ctx.label('nodes removed' if len(nodes) < len(xyz0) else 'nodes kept')
    ctx.nontrivial(len(nodes) < len(xyz0))


@sub('remove_mesh', lambda: case(remove=True), quick=200)
def _(c, ctx):
    """Direct removal from an arbitrary (relabelled) mesh."""
    dim = KIND[c['elem']][0]
    r = rng(c['s'])
    n = int(r.integers(3, 30))
    k = int(r.integers(2, 7))
    ne = int(r.integers(2, 12))
    el = {str(i + 1): tuple(int(x) + 1 for x in r.permutation(n)[:min(k, n)])
          for i in range(ne)}
    used = sorted({x for v in el.values() for x in v})
    lab = {x: i + 1 for i, x in enumerate(used)}
    el = {a: tuple(lab[x] for x in v) for a, v in el.items()}
    n = len(used)
    xyz = {str(i + 1): r.normal(size=dim) for i in range(n)}
    ph = {a: int(r.integers(1, 5)) for a in el}
    gone = [int(x) + 1 for x in r.permutation(ne)[:int(r.integers(0, ne))]]
    left = [a for a in el if int(a) not in gone]
    nodes = sorted({x for a in left for x in el[a]})
    bd = {str(x): r.normal(size=dim) for x in nodes if r.random() < 0.5}
    give = r.random() < 0.7
    args = (copy.deepcopy(xyz), copy.deepcopy(el), copy.deepcopy(ph))
    lost = [x for x in range(1, n + 1) if x not in nodes]
    bnd = [int(x) for x in bd]
    illegal = bool(lost) and r.random() < 0.3
    if illegal:
        bnd.append(lost[int(r.integers(len(lost)))])
    try:
        x2, e2, p2, b2 = LinksSimulator.remove_mesh_elements(
            gone, xyz, el, ph, node_disps=bd if give else None,
            boundary_nodes_labels=tuple(bnd) if r.random() < 0.9 or illegal
            else None)
        ok = True
    except RuntimeError:
        ok = False
    ctx.check(ok == (not illegal), 'boundary node removal')
    if not ok:
        return
    ctx.check(all(np.array_equal(xyz[a], args[0][a]) for a in xyz)
              and el == args[1] and ph == args[2], 'arguments modified')
    ctx.check(sorted(int(a) for a in x2) == list(range(1, len(nodes) + 1)),
              'node labels')
    ctx.check(sorted(int(a) for a in e2) == list(range(1, len(left) + 1)),
              'element labels')
    pos = {tuple(v): int(a) for a, v in x2.items()}
    new = {x: pos.get(tuple(xyz[str(x)])) for x in nodes}
    ctx.check(None not in new.values(), 'node lost')
    want = sorted((tuple(new[x] for x in el[a]), ph[a]) for a in left)
    ctx.check(sorted((tuple(e2[a]), p2[a]) for a in e2) == want
              and set(p2) == set(e2), 'elements and their phases')
    if give:
        ctx.check({int(a) for a in b2} == {new[int(a)] for a in bd} and all(
            np.array_equal(b2[str(new[int(a)])], v) for a, v in bd.items()),
            'displacements')
    else:
        ctx.check(b2 is None, 'displacements')
    ctx.nontrivial(bool(lost) and len(left) > 1)


# ------------------------------------------------------------------- results
@st.composite
def results(draw):
    steps = draw(st.lists(st.integers(0, 130), min_size=1, max_size=14,
                          unique=True))
    return {'name': draw(NAME), 'steps': steps, 'n': draw(
        st.integers(2, 8)), 'f': draw(st.integers(2, 9)),
        'g': draw(st.integers(1, 6)), 'pad': draw(st.booleans()),
        'mid': draw(st.sampled_from(['', '_tstep', '_x_1'])),
        'kw': draw(st.sampled_from([('node_data', 'global_data'),
                                    ('node_data',), ('global_data',)])),
        's': draw(seeds())}


def rows(a):
    return '\n'.join(' '.join('%.17e' % x for x in r) for r in a) + '\n'


def put(c, top, sub_, ext, arrays):
    d = os.path.join(top, sub_)
    os.makedirs(d)
    for t, a in zip(c['steps'], arrays):
        # Numbers as they are, or padded, in the end not all alike
        tag = '%04d' % t if c['pad'] and (
            c['s'] % 2 or t % 3) else str(t)
        with open(os.path.join(d, f'{c["name"]}{c["mid"]}_{tag}{ext}'),
                  'w') as f:
            f.write(rows(a))
    for k in ('zz_1' + ext, c['name'] + '_3.other'):
        with open(os.path.join(d, k), 'w') as f:
            f.write('1 2 3\n')


@sub('results', results, quick=250, shards=2)
def _(c, ctx):
    r = rng(c['s'])
    node = [r.normal(size=(c['n'], c['f']))*10.0**int(r.integers(-6, 6))
            for _ in c['steps']]
    glob = [r.normal(size=(1, c['g'])) for _ in c['steps']]
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        top = os.path.join(tmp, c['name'])
        put(c, top, 'NODE_DATA', '.nodedata', node)
        put(c, top, 'GLOBAL_DATA', '.globaldata', glob)
        sim = LinksSimulator('links', 'infinitesimal', 'tridimensional')
        res = sim.read_links_simulation_results(top, c['kw'])
        try:
            sim.read_links_simulation_results(top + 'x', c['kw'])
            ok = True
        except RuntimeError:
            ok = False
    ctx.check(not ok, 'missing output directory accepted')
    ctx.check(set(res) == set(c['kw']), 'results keys')
    o = np.argsort(c['steps'])
    for key, src in (('node_data', node), ('global_data', glob)):
        if key in res:
            want = np.stack([src[i] for i in o], axis=-1)
            ctx.check(res[key] is not None
                      and res[key].shape == want.shape, f'{key} shape')
            ctx.close(res[key], want, 1e-10, 0, key)
    ctx.nontrivial(max(c['steps']) >= 10 and len(c['steps']) > 1)


COLS = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3']


def table(path):
    with open(path) as f:
        t = [x.split(',') for x in f.read().split('\n') if x]
    return t[0], np.array([[float(x) for x in y] for y in t[1:]])


@sub('csv', results, quick=120)
def _(c, ctx):
    r = rng(c['s'])
    bad = r.random() < 0.1
    node = [np.column_stack([np.arange(1, c['n'] + 1), r.normal(
        size=(c['n'], 16 if bad else 17))]) for _ in c['steps']]
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        top = os.path.join(tmp, c['name'])
        put(c, top, 'NODE_DATA', '.nodedata', node)
        old = os.path.join(top, 'NODE_DATA', 'specimen_history_data')
        if r.random() < 0.5:
            os.makedirs(old)
            open(os.path.join(old, 'stale.csv'), 'w').close()
        try:
            out = ncsv.links_node_output_to_csv(top)
            ok = True
        except RuntimeError:
            ok = False
        ctx.check(ok != bad, 'unexpected columns')
        if not ok:
            return
        files = os.listdir(out)
        ctx.check(len(files) == len(c['steps']), f'files {files}')
        stem = os.path.splitext(c['name'])[0]
        for i, k in enumerate(np.argsort(c['steps'])):
            h, v = table(os.path.join(out, f'{stem}_tstep_{i}.csv'))
            ctx.check(h == COLS, 'columns')
            ctx.close(v, node[k][:, [0, 3, 4, 5, 6, 7, 8, 15, 16, 17]],
                      1e-10, 0, f'step {i}')
    ctx.nontrivial(max(c['steps']) >= 10 and len(c['steps']) > 1)


@sub('run', lambda: st.fixed_dictionaries({
    'name': NAME, 'mode': st.sampled_from(
        ['ok', 'ok', 'fail', 'nodir', 'noscreen', 'empty']),
    'pre': st.integers(0, 4), 'post': st.integers(0, 3)}), quick=40)
def _(c, ctx):
    """A stand-in for the simulator binary."""
    msg = 'Program L I N K S successfully completed.'
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        data = os.path.join(tmp, c['name'] + '.dat')
        open(data, 'w').close()
        out = os.path.join(tmp, c['name'])
        lines = ['line']*c['pre']
        if c['mode'] == 'ok':
            lines += ['  ' + msg + ' bye']
        if c['mode'] == 'empty':
            lines = []
        lines += ['tail']*c['post']
        src = '#!/bin/sh\nset -f\nprintf "%s" "$1" > "' + tmp + '/arg"\n'
        if c['mode'] != 'nodir':
            src += f'mkdir -p "{out}"\n'
            if c['mode'] != 'noscreen':
                src += f'cat > "{out}/{c["name"]}.screen" <<"E"\n'
                src += ''.join(x + '\n' for x in lines) + 'E\n'
        if c['mode'] == 'fail':
            src += 'exit 3\n'
        exe = os.path.join(tmp, 'links')
        with open(exe, 'w') as f:
            f.write(src)
        os.chmod(exe, os.stat(exe).st_mode | stat.S_IXUSR)
        sim = LinksSimulator(exe, 'infinitesimal', 'tridimensional')
        try:
            ok, where = sim.run_links_simulation(data)
        except RuntimeError:
            ok = where = None
        ctx.check(open(os.path.join(tmp, 'arg')).read() == data,
                  'simulator called with another file')
    if c['mode'] in ('nodir', 'noscreen'):
        ctx.check(ok is None, 'missing output accepted')
    else:
        ctx.check(ok is (c['mode'] == 'ok'), f'status {ok} ({c["mode"]})')
        ctx.check(where == out, 'output directory')
    ctx.nontrivial(c['mode'] != 'nodir')


# --------------------------------------------------------- mesh translations
FORM = {'TRI3': (2, 3, 1, 'CPE3'), 'QUAD4': (2, 4, 4, 'CPE4'),
        'TETRA4': (3, 4, 4, 'C3D4'), 'HEXA8': (3, 8, 8, 'C3D8'),
        'HEXA20': (3, 20, 8, 'C3D20R')}


@st.composite
def meshfile(draw):
    return {'kind': draw(st.sampled_from(list(FORM))),
            'low': draw(st.booleans()), 'bar': draw(st.booleans()),
            'first': draw(st.booleans()), 'name': draw(NAME),
            'n': draw(st.integers(1, 15)), 'e': draw(st.integers(1, 12)),
            'steps': draw(st.lists(st.integers(0, 130), min_size=1,
                                   max_size=13, unique=True)),
            'mid': '_t', 'pad': False, 's': draw(seeds())}


def random_mesh(c):
    r = rng(c['s'])
    dim, k, gp, ab = FORM[c['kind']]
    n = k + c['n']
    el = [[int(x) + 1 for x in r.permutation(n)[:k]] for _ in range(c['e'])]
    used = {x for v in el for x in v}
    rest = [x for x in range(1, n + 1) if x not in used]
    while rest:
        take, rest = rest[:k], rest[k:]
        fill = [x for x in range(1, n + 1) if x not in take]
        take += [fill[i] for i in r.permutation(len(fill))[:k - len(take)]]
        el.append(take)
    xyz = r.normal(size=(n, dim))*10.0**int(r.integers(-3, 4))
    bc = {}
    for i in range(1, n + 1):
        if r.random() < 0.5:
            bc[i] = ([int(r.random() < 0.5) for _ in range(3)],
                     r.normal(size=3)*(r.random(3) < 0.7))
    return dim, xyz, el, bc, r


def put_dat(c, path, xyz, el, bc, r):
    gp = FORM[c['kind']][2]
    name = c['kind']
    if c['bar']:
        name = re.sub(r'(\d+)$', r'_\1', name)
    if c['low']:
        name = name.lower()
    t = ['', 'TITLE', 'test', '', 'INCREMENTS 2', '1.0 0.5 1e-6 20',
         '1.0 0.5 1e-6 20', '', 'ELEMENT_GROUPS 1', '1 1 1', '',
         'ELEMENT_TYPES 1', f'1 {name}', f'  {gp} GP', '', 'MATERIALS 1',
         '1 ELASTIC', '  1.0', '  2.0 0.3', '']
    a = [f'ELEMENTS {len(el)}'] + [
        f'{i + 1}  1  ' + ' '.join(map(str, v))
        for i, v in enumerate(el)] + ['']
    b = [f'NODE_COORDINATES {len(xyz)} CARTESIAN'] + [
        f'{i + 1} ' + ' '.join('%16.8e' % x for x in v)
        for i, v in enumerate(xyz)] + ['']
    d = [f'NODES_WITH_PRESCRIBED_DISPLACEMENTS {len(bc)}'] + [
        f'  {i} ' + ''.join(map(str, q)) + ' '
        + ' '.join('%16.8e' % x for x in u) for i, (q, u) in bc.items()]
    parts = [a, b, d + ['']] if c['first'] else [d + [''], b, a]
    with open(path, 'w') as f:
        f.write('\n'.join(t + sum(parts, [])) + '\n')


def parse_inp(path):
    nodes, el, bc, kind, mode = {}, {}, {}, None, None
    for line in open(path):
        s = line.strip()
        if not s:
            mode = None
        elif s.startswith('*'):
            mode = s[1:].split(',')[0].strip().lower()
            if mode == 'element':
                kind = s.split('=')[1].strip()
        elif mode == 'node':
            v = s.split(',')
            nodes[int(v[0])] = [float(x) for x in v[1:]]
        elif mode == 'element':
            v = [int(x) for x in s.split(',')]
            el[v[0]] = v[1:]
        elif mode == 'boundary':
            v = s.split(',')
            for j in range(int(v[1]), int(v[2]) + 1):
                bc[(int(v[0]), j)] = float(v[3])
    return nodes, el, bc, kind


def same_inp(ctx, c, path, xyz, el, bc):
    nodes, e2, b2, kind = parse_inp(path)
    ctx.check(kind == FORM[c['kind']][3], f'element type {kind}')
    ctx.check(sorted(nodes) == list(range(1, len(xyz) + 1)), 'node labels')
    ctx.close([nodes[i + 1] for i in range(len(xyz))], xyz, 1e-7, 1e-12,
              'node coordinates')
    ctx.check(e2 == {i + 1: v for i, v in enumerate(el)}, 'connectivities')
    want = {(i, j + 1): u[j] for i, (q, u) in bc.items() for j in range(3)
            if q[j]}
    ctx.check(set(b2) == set(want), 'constrained freedoms')
    for k in want:
        ctx.close(b2[k], want[k], 1e-7, 1e-12, f'displacement of {k}')
    return want


@sub('dat_inp', meshfile, quick=250, shards=2)
def _(c, ctx):
    dim, xyz, el, bc, r = random_mesh(c)
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        p = os.path.join(tmp, c['name'] + '.dat')
        put_dat(c, p, xyz, el, bc, r)
        x = dbc.read_links_nodes_coords_mesh(p)
        ctx.close(x, xyz, 1e-7, 1e-12, 'coordinates read')
        out = conv.links_dat_to_abaqus_inp(p)
        ctx.check(out == os.path.join(tmp, c['name'] + '.inp'), 'path')
        want = same_inp(ctx, c, out, xyz, el, bc)
        # And back
        if dim == 3:
            conv.abaqus_inp_to_links_dat(out, n_dim=dim)
            d = parse(os.path.join(tmp, c['name'] + '_links.dat'))
            x2, e2, _ = mesh_of(ctx, d, dim)
            ctx.close([x2[i + 1] for i in range(len(xyz))], xyz, 1e-7, 1e-12,
                      'coordinates, back')
            ctx.check(e2 == {i + 1: v for i, v in enumerate(el)},
                      'connectivities, back')
            got = bcs_of(ctx, d)
            flat = {(i, j + 1): u[j] for i, (q, u) in got.items()
                    for j in range(3) if q[j] == '1'}
            ctx.check(set(flat) == set(want), 'freedoms, back')
            for k in want:
                ctx.close(flat[k], want[k], 1e-7, 1e-12, f'{k}, back')
    ctx.nontrivial(len(el) > 1 and len(want) > 1)


@sub('inp_dat', meshfile, quick=200)
def _(c, ctx):
    """Free form of the mesh file: blocks, ranges of freedoms, order."""
    dim, xyz, el, bc, r = random_mesh(c)
    if dim == 2:
        return
    ab = FORM[c['kind']][3]
    case_ = (str.upper if c['low'] else str)
    lab = list(range(len(el)))
    r.shuffle(lab)
    cut = int(r.integers(0, len(lab)))
    t = ['** mesh' if c['bar'] else 'Heading', case_('*Node')]
    t += [f'{i + 1:d}, ' + ', '.join('%.10e' % x for x in v)
          for i, v in enumerate(xyz)]
    for part in (lab[:cut], lab[cut:]):
        if part:
            t += [case_('*Element, type=') + ab]
            t += [f'{i + 1}, ' + ', '.join(map(str, el[i])) for i in part]
    want = {}
    t += ['*BOUNDARY']
    for i, (q, u) in bc.items():
        lo, hi = sorted(int(x) for x in r.integers(1, 4, size=2))
        if r.random() < 0.5:
            lo = hi
        t += [f'{i}, {lo}, {hi}, {u[0]!r}']
        for j in range(lo, hi + 1):
            want[(i, j)] = u[0]
        if r.random() < 0.3:
            t += ['*BOUNDARY']
    t += ['*END']
    bad = r.random() < 0.15
    if bad:
        i = t.index(case_('*Node'))
        del t[i + len(xyz)]
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        p = os.path.join(tmp, c['name'] + '.inp')
        with open(p, 'w') as f:
            f.write('\n'.join(t) + '\n')
        try:
            conv.abaqus_inp_to_links_dat(p, n_dim=dim)
            ok = True
        except RuntimeError:
            ok = False
        ctx.check(ok != bad, 'element with an unknown node')
        if not ok:
            return
        d = parse(os.path.join(tmp, c['name'] + '_links.dat'))
    x2, e2, _ = mesh_of(ctx, d, dim)
    ctx.close([x2[i + 1] for i in range(len(xyz))], xyz, 1e-7, 1e-12,
              'coordinates')
    ctx.check(e2 == {i + 1: v for i, v in enumerate(el)}, 'connectivities')
    got = bcs_of(ctx, d)
    flat = {(i, j + 1): u[j] for i, (q, u) in got.items()
            for j in range(3) if q[j] == '1'}
    ctx.check(set(flat) == set(want), 'freedoms')
    for k in want:
        ctx.close(flat[k], want[k], 1e-7, 1e-12, f'{k}')
    ctx.nontrivial(len(el) > 1 and len(want) > 1)


@sub('adimu', meshfile, quick=200, shards=2)
def _(c, ctx):
    dim, xyz, el, bc, r = random_mesh(c)
    n = len(xyz)
    node = [np.column_stack([np.arange(1, n + 1), r.normal(size=(n, 17))])
            for _ in c['steps']]
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        p = os.path.join(tmp, c['name'] + '.dat')
        put_dat(c, p, xyz, el, bc, r)
        top = os.path.join(tmp, c['name'])
        put(c, top, 'NODE_DATA', '.nodedata', node)
        save = os.path.join(tmp, 'save')
        os.makedirs(save)
        if r.random() < 0.5:
            os.makedirs(os.path.join(save, 'specimen_history_data', 'old'))
        mesh, hist = adimu.gen_adimu_data_from_links(p, top, save)
        want = same_inp(ctx, c, mesh, xyz, el, bc)
        files = os.listdir(hist)
        ctx.check(len(files) == len(c['steps']), f'history files {files}')
        paths = []
        code = np.zeros((n, 3))
        for (i, j) in want:
            code[i - 1, j - 1] = 1
        for i, k in enumerate(np.argsort(c['steps'])):
            paths.append(os.path.join(hist, f'{c["name"]}_tstep_{i}.csv'))
            h, v = table(paths[-1])
            ctx.check(h == COLS + ['DBC1', 'DBC2', 'DBC3'], 'columns')
            ctx.close(v[:, :10], node[k][:, [0, 3, 4, 5, 6, 7, 8, 15, 16,
                                              17]], 1e-10, 0, f'step {i}')
            ctx.check(np.array_equal(v[:, 10:], code),
                      'constrained freedoms')
        # Replace the sets
        new = r.integers(0, 4, size=(n, 3))
        old = [table(q) for q in paths]
        adimu.update_adimu_mesh_hist_data_files_dirichlet(tuple(paths), new)
        for q, (h, v) in zip(paths, old):
            h2, v2 = table(q)
            ctx.check(h2 == h and np.array_equal(v2[:, 10:], new),
                      'updated sets')
            ctx.close(v2[:, :10], v[:, :10], 1e-10, 0, 'updated data')
    ctx.nontrivial(len(want) > 1 and len(c['steps']) > 1)


# ------------------------------------------------- boundary conditions, loads
@sub('specimen_bc', lambda: st.fixed_dictionaries({
    'top': st.sampled_from([12.0, 40.0, 1.0, 0.5]),
    'u': st.floats(-5, 5).map(lambda x: round(x, 3)), 's': seeds(),
    'k': st.sampled_from(['3d_tensile_double_notched',
                          '3d_tensile_dogbone']),
    'g': st.booleans(), 'n': st.integers(1, 40)}), quick=250)
def _(c, ctx):
    r = rng(c['s'])
    x = np.zeros((c['n'] + 1, 3))
    for i in range(c['n']):
        x[i] = r.uniform(0.1, 0.9, size=3)*c['top']
        x[i, 0] *= r.random() < 0.5
        x[i, 2] *= r.random() < 0.5
        x[i, 1] = [0.0, c['top'], x[i, 1]][int(r.integers(3))]
    x = x[r.permutation(len(x))]
    got = dbc.build_specimen_dbc(c['k'], c['top'], c['u'], x)
    want = {}
    for i, p in enumerate(x):
        top = p[1] == c['top']
        code = [int(p[0] == 0), int(p[1] == 0 or top), int(p[2] == 0)]
        if any(code):
            want[i + 1] = (code, [0.0, c['u'] if top else 0.0, 0.0])
    ctx.check(got.shape == (len(want), 7), 'constrained nodes')
    for row in got:
        k = int(row[0])
        ctx.check(k in want and list(row[1:4]) == want[k][0],
                  f'node {k}: constrained freedoms')
        ctx.close(row[4:], want[k][1], 0, 0, f'node {k}: displacements')
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        dbc.write_links_dirichlet_bc_file(tmp, got, is_reaction_group=c['g'])
        d = parse(os.path.join(tmp, 'specimen_dirichlet_bc.dat'))
    bc = bcs_of(ctx, d)
    ctx.check(set(bc) == set(want), 'constrained nodes written')
    for k, (code, u) in bc.items():
        ctx.check([int(q) for q in code] == want[k][0], f'node {k}: written')
        ctx.close(u, want[k][1], 1e-4, 1e-12, f'node {k}: written values')
    if c['g']:
        a = d['NODE_GROUPS']
        n = int(a[1][0][1])
        nodes = [int(q[0]) for q in a[1][1:]]
        ctx.check(a[0] == ['1'] and a[1][0][0] == '1' and len(nodes) == n,
                  'reaction group')
        if abs(c['u']) > 1e-6:
            ctx.check(sorted(nodes) == [k for k in want if want[k][1][1]],
                      'reaction group nodes')
    else:
        ctx.check('NODE_GROUPS' not in d, 'unrequested reaction group')
    ctx.nontrivial(len(want) > 1 and c['u'] != 0)


@sub('out_file', lambda: st.fixed_dictionaries({
    'n': st.lists(st.integers(1, 12), min_size=1, max_size=4),
    'extra': st.integers(0, 4), 's': seeds()}), quick=120)
def _(c, ctx):
    r = rng(c['s'])
    data = []
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        paths = []
        for i, n in enumerate(c['n']):
            a = r.normal(size=(n, 59 + c['extra']))*10.0**r.integers(
                -4, 4, size=59 + c['extra'])
            data.append(a)
            paths.append(os.path.join(tmp, f'x_ELEM_1_GP_{i}.out'))
            with open(paths[-1], 'w') as f:
                f.write('GAUSS POINT OUTPUT\n' + ' '.join(
                    f'C{k}' for k in range(a.shape[1])) + '\n' + rows(a))
        ds = lout.build_dataset(tuple(paths), 3)
    ctx.check(len(ds) == len(data), 'number of paths')
    order = ('11', '22', '33', '12', '23', '13')
    for i, a in enumerate(data):
        p = ds[i]
        ctx.check(tuple(p['strain_comps_order']) == order
                  and tuple(p['stress_comps_order']) == order, 'components')
        f = np.array([1, 1, 1, .5, .5, .5])
        ctx.check(tuple(p['strain_path'].shape) == (len(a), 6), 'shape')
        ctx.close(p['strain_path'], a[:, 53:59]*f, 1e-10, 0, 'strain')
        ctx.close(p['stress_path'], a[:, 11:17], 1e-10, 0, 'stress')
        ctx.close(p['time_hist'], a[:, :1], 1e-10, 0, 'time')
    ctx.nontrivial(len(data) > 1)


def no_plot():
    """Keep LaTeX away from the load factor plots."""
    saved = []

    @contextlib.contextmanager
    def patched():
        import ioput.plots as plots
        for mod in (tfact, plots):
            for k in ('plot_xy_data', 'save_figure'):
                if hasattr(mod, k):
                    saved.append((mod, k, getattr(mod, k)))
                    setattr(mod, k, lambda *a, **b: (None, None))
        try:
            yield
        finally:
            for mod, k, v in saved:
                setattr(mod, k, v)
    return patched()


@sub('load_factor', lambda: st.fixed_dictionaries({
    'mode': st.sampled_from(['n', 'list4', 'list3', 'gen']),
    'n': st.integers(1, 120), 's': seeds(), 'end': st.booleans(),
    'a': st.floats(-10, 10)}), quick=150)
def _(c, ctx):
    r = rng(c['s'])
    n = c['n']
    with contextlib.nullcontext(ctx.scratch()) as tmp:
        with no_plot():
            if c['mode'] == 'gen':
                np.random.seed(c['s'] % 2**31)
                tfact.gen_links_loading_incrementation_file(tmp)
                d = parse(os.path.join(tmp, 'loading_incrementation.dat'))
                f = [float(q[1]) for q in increments(ctx, d)]
                n = len(f)
            else:
                f = [float('%.8e' % x) for x in r.normal(size=n)]
                t = ['TITLE', 'x', '']
                if c['mode'] == 'n':
                    f = [1/n]*n
                    t += [f'Number_of_Increments {n}', '',
                          'CONVERGENCE_TOLERANCE', '1e-6']
                else:
                    pre = '1.0 ' if c['mode'] == 'list4' else ''
                    t += [f'INCREMENTS {n}'] + [
                        f'{pre}{x:16.8e} 1e-6 20' for x in f]
                if c['end']:
                    t += ['', 'SOLVER PARDISO', '', 'ELEMENTS 1',
                          '1 1 1 2 3 4']
                p = os.path.join(tmp, 'x.dat')
                with open(p, 'w') as g:
                    g.write('\n'.join(t) + '\n')
                tfact.plot_links_tfact_hist(p)
        text = open(os.path.join(tmp, 'tfact_hist.dat')).read().split('\n')
    tab = [[float(y) for y in x.split()] for x in text
           if re.fullmatch(r'\s*[-+0-9.e]+\s+[-+0-9.e]+\s*', x)]
    ctx.check(len(tab) == n + 1, 'load factor history size')
    tab = np.array(tab)
    ctx.close(tab[:, 0], np.arange(n + 1)/n, 1e-7, 1e-12, 'time')
    tot = np.concatenate([[0.0], np.cumsum(f)])
    ctx.close(tab[:, 1], tot, 1e-7, 1e-7*np.abs(f).sum(), 'load factor')
    acc = [float(x.split('=')[1]) for x in text if x.startswith('Total acc')]
    ctx.check(len(acc) == 1, 'accumulated load factor')
    ctx.close(acc[0], np.abs(f).sum(), 1e-7, 0, 'accumulated load factor')
    s = tfact.scale_tfact_hist(tab, c['a'])
    ctx.close(s[:, 1], c['a']*tab[:, 1], 1e-14, 0, 'scaled history')
    ctx.check(np.array_equal(s[:, 0], tab[:, 0]), 'scaled history time')
    ctx.nontrivial(n > 2)
