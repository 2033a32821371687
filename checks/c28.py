"""C28: local strain-stress paths extracted from simulated patches."""
import contextlib
import copy
import os
import shutil
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds, fl
import fe
import materials as M
import c09
import c19
from c09 import Specimen, plastic_response, learnable, rc_kwargs
import user_scripts.synthetic_data.build_local_paths_dataset as B
import user_scripts.synthetic_data.gen_random_specimen as R
import user_scripts.global_model_update.material_finder.gen_specimen_data \
    as G
from data_generation.spdg.patch import FiniteElementPatch
from simulators.links.links import LinksSimulator

PROPERTY = 'C28'
RULE = ('Random sets of simulated patches (directories numbered with gaps and '
        'beyond 9, decoys, earlier results left behind), each a random mesh '
        'written as solver input and per-step node output files in any '
        'numbering, every supported element type, elastoplastic '
        'materials; non-trivial if there are at least two patches or ten '
        'steps.')
KINDS = {'tri3': 'TRI3', 'quad4': 'QUAD4', 'tetra4': 'TETRA4',
         'hexa8': 'HEXA8', 'hexa20': 'HEXA20'}
NAMES = ['patch', 'random_specimen', 'm_2', 'a.b', 'x+y', 'p(1)']


@st.composite
def case(draw):
    m = draw(st.sampled_from(['vm', 'vmm', 'dp']))
    mat = draw(M.model(names=(m,), kinds=('linear', 'nadai_ludwik')))
    mat['moduli'] = False
    d = draw(st.sampled_from([2, 3, 3]))
    ids = draw(st.lists(st.integers(0, 130), min_size=1, max_size=3,
                        unique=True))
    parts = []
    for _ in ids:
        e = draw(st.sampled_from(
            ['tri3', 'quad4'] if d == 2 else
            ['tetra4', 'hexa8', 'hexa8', 'hexa20']))
        n = [draw(st.integers(1, 2 if d == 2 else 1)) for _ in range(d)]
        if e == 'hexa8':
            n[draw(st.integers(0, 2))] = draw(st.integers(1, 2))
        k = draw(st.integers(1, 4 if d == 3 else 12))
        parts.append({
            'e': e, 'g': {'tri3': 1, 'quad4': 4, 'tetra4': 4, 'hexa8': 8,
                          'hexa20': 8}[e], 'n': n,
            'jit': draw(st.sampled_from([0.0, 0.2])),
            'aff': draw(st.booleans()), 'nt': k,
            'f': draw(fl(0.2, 3.0)), 'start': draw(st.booleans()),
            'free': draw(st.sampled_from([0.0, 0.5, 0.5, 1.0])),
            'mat': mat, 's': draw(seeds()),
            'steps': draw(st.lists(st.integers(0, 130), min_size=k + 1,
                                   max_size=k + 1, unique=True))})
    ok = [k for k in c09.LEARN[m] if (lambda dd, key: key in dd)(
        *c09.slot(M.parameters(mat), k))]
    return {'d': d, 'ids': ids, 'parts': parts, 'mat': mat,
            'name': draw(st.sampled_from(NAMES)),
            'learn': draw(st.lists(st.sampled_from(ok), min_size=1,
                                   max_size=2, unique=True)),
            'man': draw(st.booleans()), 'pnorm': draw(st.booleans()),
            'vm': True,
            'bar': draw(st.booleans()), 'low': draw(st.booleans()),
            'first': draw(st.booleans()), 'pad': draw(st.booleans()),
            'mid': draw(st.sampled_from(['', '_tstep', '_x_1'])),
            'again': draw(st.booleans()), 's': draw(seeds())}


def eight(a):
    return np.array([float('%.8e' % x) for x in a.ravel()]).reshape(a.shape)


def write_patch(c, q, top, r):
    """Simulation files of a patch; returns the specimen, or None."""
    sp = Specimen(q, r)
    sp.X = eight(sp.X)
    if not sp.ok:
        return None
    d, n = sp.d, len(sp.X)
    bc = {}
    for i in range(n):
        code = [int(not sp.free[i, j]) if j < d else 0 for j in range(3)]
        if any(code):
            bc[i + 1] = (code, r.standard_normal(3)*np.array(code))
    if not bc:
        bc[1] = ([1, 0, 0], np.zeros(3))
    sim = os.path.join(top, 'simulations')
    os.makedirs(sim)
    dat = os.path.join(sim, c['name'] + '.dat')
    cc = dict(c, kind=KINDS[q['e']], steps=q['steps'])
    c19.put_dat(cc, dat, sp.X, [[k + 1 for k in v] for v in sp.cells], bc, r)
    order = np.argsort(q['steps'])
    out = [None]*len(order)
    for t, k in enumerate(order):
        a = r.standard_normal((n, 18))
        a[:, 0] = np.arange(1, n + 1)
        a[:, 6:9] = 0
        a[:, 6:6 + d] = sp.u[t]
        out[k] = a
    c19.put(cc, os.path.join(sim, c['name']), 'NODE_DATA', '.nodedata', out)
    return sp


@contextlib.contextmanager
def material(c, pt, d, p, kw):
    def given():
        return ('infinitesimal', pt, d, 'rc_' + kw['material_model_name'],
                copy.deepcopy(p), copy.deepcopy(kw))
    old = []
    for m in (B, G):
        if hasattr(m, 'set_material_model_parameters'):
            old.append((m, m.set_material_model_parameters))
            m.set_material_model_parameters = given
    try:
        yield
    finally:
        for m, f in old:
            m.set_material_model_parameters = f


@sub('patches', case, quick=180, thorough=2500, shards=6)
def _(c, ctx):
    """The local data set of simulated patches is that of the simulation."""
    r = rng(c['s'])
    d = c['d']
    tmp = ctx.scratch()
    top = os.path.join(tmp, 'patches')
    os.makedirs(top)
    sps = {}
    for i, q in zip(c['ids'], c['parts']):
        sp = write_patch(c, q, os.path.join(top, f'{c["name"]}_{i}'), r)
        if sp is None:
            return
        sps[i] = sp
    # not patches
    for k in (c['name'], c['name'] + '_', c['name'] + '_1x',
              'z' + c['name'] + '_1', c['name'] + '_1_old'):
        os.makedirs(os.path.join(top, k), exist_ok=True)
    got = [os.path.basename(os.path.normpath(x)) for x in
           B.get_patch_analysis_dirs(top, c['name'])]
    ctx.check(got == [f'{c["name"]}_{i}' for i in sorted(sps)],
              f'patch directories {got}')
    p, lp = learnable(c, c['mat'], c['learn'], r)
    kw = rc_kwargs(c, c['mat'], lp, None, d, c['vm'])
    resp = plastic_response(c['mat'], p, d, c['vm'])
    want, smax = [], 0.0
    for i in sorted(sps):
        sp = sps[i]
        for e in range(len(sp.cells)):
            for strain, _, _ in sp.strains(e):
                sig = resp(strain)
                if sig is None:
                    return
                want.append((strain, sig))
                smax = max(smax, np.abs(sig).max())
    ctx.nontrivial(len(sps) > 1 or max(len(q['steps'])
                                       for q in c['parts']) >= 10)
    ctx.label(c['parts'][0]['e'])
    ctx.label(f'patches: {len(sps)}')
    q = M.ORDER[d]
    for rep in range(2 if c['again'] else 1):
        with material(c, {2: 1, 3: 4}[d], d, p, kw):
            ds = B.build_local_paths_dataset(top, c['name'])
        ctx.check(len(ds) == len(want), f'{len(ds)} paths, {len(want)} '
                  'Gauss points')
        for k, (s, (e, sig)) in enumerate(zip(ds, want)):
            for key, a, t in (('strain', e, 1e-9*np.abs(e).max()),
                              ('stress', sig, 1e-5*smax
                               + 1e-12*c['mat']['E'])):
                o = s[key + '_comps_order']
                ref = np.stack([a[:, int(j[0]) - 1, int(j[1]) - 1]
                                for j in o], 1)
                ctx.check(sorted(o) == sorted(q), f'components {o}')
                ctx.close(s[key + '_path'], ref, 0, t + 1e-15,
                          f'{key} path {k}')
            th = to_np(s['time_hist']).reshape(-1)
            ctx.check(len(th) == len(e) and np.all(np.diff(th) > 0),
                      f'time history {th}')


# ------------------------------------------------- generation of the patches
@contextlib.contextmanager
def solver(mesh, fields, seen):
    """Stand-ins: a solver applying known displacements, and no figures."""
    def run(self, path, *a, **k):
        i = len(seen)
        seen.append(path)
        d = c19.parse(path)
        x = np.array([[float(v) for v in q[1:]]
                      for q in d['NODE_COORDINATES'][1]])
        name = os.path.splitext(os.path.basename(path))[0]
        out = os.path.join(os.path.dirname(path), name)
        os.makedirs(os.path.join(out, 'NODE_DATA'))
        H, ts = fields[i]
        for t, f in enumerate(ts):
            a = np.zeros((len(x), 18))
            a[:, 0] = np.arange(1, len(x) + 1)
            a[:, 6:9] = f*x @ H.T
            with open(os.path.join(out, 'NODE_DATA',
                                   f'{name}_tstep_{t}.nodedata'), 'w') as g:
                g.write(c19.rows(a))
        return True, out
    none = lambda *a, **k: None
    new = [(R, 'plot_links_tfact_hist', none),
           (R, 'set_patch_mesh_params', lambda n: dict(mesh)),
           (LinksSimulator, 'run_links_simulation', run),
           (FiniteElementPatch, 'plot_deformed_patch', none)]
    old = [(m, k, getattr(m, k)) for m, k, _ in new if hasattr(m, k)]
    for m, k, f in new:
        setattr(m, k, f)
    try:
        yield
    finally:
        for m, k, f in old:
            setattr(m, k, f)


def gcase():
    return st.fixed_dictionaries({
        'el': st.sampled_from(['SHEXA8', 'SHEXA20']),
        'n': st.tuples(*[st.integers(1, 2)]*3),
        'np': st.sampled_from([1, 2, 2, 3, 3, 11]),
        'name': st.sampled_from(NAMES), 'nt': st.integers(1, 3),
        'build': st.booleans(), 's': seeds()})


def tree(d):
    out = {}
    for a, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(a, f), 'rb') as g:
                out[os.path.relpath(os.path.join(a, f), d)] = g.read()
    return out


@sub('generate', gcase, quick=24, thorough=400, shards=6)
def _(c, ctx):
    """Generated patches: simulated, saved, loaded and simulated again."""
    r = rng(c['s'])
    n = c['np']
    if n > 3 or c['el'] == 'SHEXA20':
        c = dict(c, n=(1, 1, c['n'][2] if n <= 3 else 1))
    top = os.path.join(ctx.scratch(), 'patches')
    os.makedirs(top)
    name = 'random_specimen' if c['build'] else c['name']
    mesh = {'elem_type': c['el'], 'n_elems_per_dim': tuple(c['n'])}
    ts = np.linspace(0, 1, c['nt'] + 1)
    fields = [(1e-3*r.standard_normal((3, 3)), ts) for _ in range(n)]
    ctx.nontrivial(n > 1)
    ctx.label(f'patches: {n}')
    np.random.seed(c['s'] % 2**31)

    def go(**kw):
        seen = []
        with solver(mesh, fields, seen):
            a, b = R.generate_random_patches(top, patch_name=name, n_patch=n,
                                             **kw)
        ctx.check(list(a) == [str(i) for i in range(n)]
                  and list(b) == list(a), f'returned patches {list(a)}')
        ctx.check([a[k] for k in a] == seen, 'simulated files')
        ctx.check(len(set(seen)) == n, 'a patch was simulated twice')
        out = []
        for i in range(n):
            where = os.path.join(top, f'{name}_{i}' if n > 1 else name)
            ctx.check(os.path.dirname(os.path.dirname(a[str(i)])) == where,
                      f'patch {i} in {a[str(i)]}')
            ctx.check(os.path.isdir(b[str(i)]), 'output directory')
            d = c19.parse(a[str(i)])
            out.append((c19.mesh_of(ctx, d, 3), c19.bcs_of(ctx, d)))
        return out

    def saved():
        return {k: v for k, v in tree(top).items() if k.endswith('.pkl')}

    def same(a, b):
        return all(np.array_equal(a[0][0][k], b[0][0][k]) for k in a[0][0]) \
            and a[0][1] == b[0][1] and a[1] == b[1]
    first = go(is_save_material_patch=True)
    for i in range(n):
        for j in range(i):
            ctx.check(first[i][1] != first[j][1],
                      f'patches {i} and {j} have the same deformation')
    kept = saved()
    ctx.check(len(kept) == 2*n, f'saved patches {sorted(kept)}')
    stale = os.path.join(top, f'{name}_0' if n > 1 else name, 'simulations',
                         'stale')
    open(stale, 'w').close()
    again = go(is_load_material_patch=True)
    ctx.check(all(same(a, b) for a, b in zip(first, again)),
              'loaded patch is another one')
    ctx.check(saved() == kept, 'loading changed the saved patches')
    ctx.check(not os.path.exists(stale), 'earlier simulation kept')
    if c['build'] and n > 1:
        p = {'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.3,
             'euler_angles': (0.0, 0.0, 0.0),
             'hardening_law': M.get_hardening_law('linear'),
             'hardening_parameters': {'s0': 1e6, 'a': 1.0}}
        kw = rc_kwargs(dict(man=True, pnorm=False), {'m': 'vm'},
                       {'E': {'initial_value': 100.0,
                              'bounds': (50.0, 150.0)}}, None, 3, True)
        with material(c, 4, 3, p, kw):
            ds = B.build_local_paths_dataset(top, name)
        per = 8*int(np.prod(c['n']))
        ctx.check(len(ds) == n*per, f'{len(ds)} local paths')
        for k, s in enumerate(ds):
            H, f = fields[k//per]
            e = 0.5*(H + H.T)
            o = s['strain_comps_order']
            w = np.outer(f, [e[int(j[0]) - 1, int(j[1]) - 1] for j in o])
            ctx.close(s['strain_path'], w, 0, 1e-7*np.abs(e).max(),
                      f'strain path {k}')
            g = 100/1.3*(e + 0.3/0.4*np.trace(e)*np.eye(3))
            o = s['stress_comps_order']
            w = np.outer(f, [g[int(j[0]) - 1, int(j[1]) - 1] for j in o])
            ctx.close(s['stress_path'], w, 0, 1e-6*np.abs(g).max(),
                      f'stress path {k}')
    if n > 3:
        return
    other = go()
    ctx.check(not any(same(a, b) for a, b in zip(first, other)),
              'a new patch is the earlier one')
    ctx.check(not saved(), 'saved patches of an earlier run left')
