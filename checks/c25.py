"""C25: specimen data import and processing."""
import os
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import rng, seeds
from material_model_finder.data.specimen_data import SpecimenNumericalData
from user_scripts.global_model_update.material_finder import \
    gen_specimen_data as G
from user_scripts.global_model_update.utilities import \
    process_specimen_data as P
from miscellaneous.noisy_data.inject_disp_noise_csv import \
    inject_displacements_noise
from miscellaneous.noisy_data.denoise_disp_noise_csv import \
    denoise_displacements_noise
from utilities.data_denoisers import Denoiser

PROPERTY = 'C25'
RULE = ('Random meshes of every supported element type in mesh files with '
        'several blocks, histories of 1-13 steps among unrelated files, '
        'constraint sets; non-trivial if several elements or steps.')

# Mesh file type: dimension, nodes, integration points, nodes on the
# reference element (to identify the type by what it does)
KIND = {'CPE3': (2, 3, 1), 'CPE4': (2, 4, 4), 'C3D4': (3, 4, 4),
        'C3D8': (3, 8, 8), 'C3D8R': (3, 8, 1), 'C3D20R': (3, 20, 8)}
NAME = st.sampled_from(['spec', 'spec_2', 'Ti64(1)', 'a.b+c', 'tstep',
                        'cube_tstep_2', 'tstep_10_a'])


@st.composite
def case(draw, mixed=True, nt=13):
    dim = draw(st.sampled_from([2, 3]))
    kinds = [k for k in KIND if KIND[k][0] == dim]
    n = draw(st.integers(1, 3)) if mixed else 1
    return {'dim': dim, 'kinds': [draw(st.sampled_from(kinds))
                                  for _ in range(n)],
            'ne': draw(st.integers(1, 7)), 'p': draw(st.sampled_from(
                [0.0, 0.2, 0.8])), 'name': draw(NAME),
            'nt': draw(st.integers(1, nt)),
            'sp': draw(st.sampled_from([', ', ',', ' , ', ',  '])),
            'case': draw(st.sampled_from(['upper', 'title', 'lower'])),
            'gap': draw(st.booleans()), 'head': draw(st.booleans()),
            'sets': draw(st.booleans()), 'first': draw(st.booleans()),
            's': draw(seeds())}


def mesh(c, r):
    """Elements (type, nodes), coordinates, constrained freedoms."""
    most = max(KIND[k][1] for k in c['kinds'])
    typ = [c['kinds'][int(i)] for i in r.integers(len(c['kinds']),
                                                  size=c['ne'])]
    if c['first']:
        typ = sorted(typ)
    total = sum(KIND[k][1] for k in typ)
    n = int(r.integers(most, max(most, total) + 1))
    # Every node belongs to some element
    while True:
        el = [[int(x) + 1 for x in r.permutation(n)[:KIND[k][1]]]
              for k in typ]
        left = list(set(range(1, n + 1)) - {x for e in el for x in e})
        if not left:
            break
        n = n - 1 if n > most else n
        if n == most and typ:
            # One element of the largest type takes all the nodes
            i = max(range(len(typ)), key=lambda j: KIND[typ[j]][1])
            if KIND[typ[i]][1] == n:
                el = [[int(x) + 1 for x in r.permutation(n)[:KIND[k][1]]]
                      for k in typ]
                break
            n = KIND[typ[i]][1]
            most = n
    n = max(x for e in el for x in e)
    xyz = r.normal(size=(n, c['dim']))*10.0**int(r.integers(-3, 4))
    fix = r.random((n, c['dim'])) < c['p']
    return typ, el, xyz, fix


def write_inp(c, r, path, typ, el, xyz, fix):
    k = {'upper': str.upper, 'title': str.title, 'lower': str.lower}[c['case']]
    sp = c['sp']
    end = '\n' if c['gap'] else ''
    low = c['case'] == 'lower'       # only blank lines end lower case blocks
    sep = '\n' if low else end
    s = ''
    if c['head']:
        s += '*Heading\n** Job name: job Model name: Model-1\n'
        s += '*Preprint, echo=NO, model=NO, history=NO, contact=NO\n\n'
    s += k('*node') + '\n'
    for i, x in enumerate(xyz):
        x = list(x) + ([0.0] if c['dim'] == 2 and c['gap'] else [])
        s += f'{i + 1:>7d}' + sp + sp.join(f'{v:.10e}' for v in x) + '\n'
    s += sep
    order = list(range(len(el)))
    if c['sets']:
        order = [int(i) for i in r.permutation(len(el))]
    last = None
    for i in order:
        if typ[i] != last:
            s += (sep if last else '') + k('*element, type=') + typ[i] + '\n'
            last = typ[i]
        s += f'{i + 1}' + sp + sp.join(str(v) for v in el[i]) + '\n'
    s += sep
    if c['sets']:
        s += '*NSET, NSET=ALL, GENERATE\n1, 3, 1\n' + sep
        s += '*ELSET, ELSET=Boundary_face\n1, 2\n' + sep
    # Constraints as ranges of freedoms
    rows = []
    for i, f in enumerate(fix):
        j = 0
        while j < len(f):
            if not f[j]:
                j += 1
                continue
            e = j
            while e + 1 < len(f) and f[e + 1] and r.random() < 0.6:
                e += 1
            last = e + 1
            if e == len(f) - 1 and r.random() < 0.3:
                last = 6                       # rotations: not of this mesh
            u = [f'{r.normal():.4e}'] if r.random() < 0.5 else []
            rows.append(sp.join([str(i + 1), str(j + 1), str(last)] + u))
            j = e + 1
    if c['sets']:
        rows = [rows[int(i)] for i in r.permutation(len(rows))]
    cut = int(r.integers(0, len(rows) + 1))
    for part in (rows[:cut], rows[cut:]):
        if part:
            s += k('*boundary') + '\n' + '\n'.join(part) + '\n' + sep
    if c['head']:
        s += ('\n' if low else '') + '*STEP, NAME=S1\n1., 2.\n*END STEP\n'
    with open(path, 'w') as f:
        f.write(s)


def same_mesh(ctx, c, typ, el, xyz, fix, got):
    x, et, con, bd = got
    ctx.check(tuple(x.shape) == xyz.shape, 'shape of the coordinates')
    ctx.close(x, xyz, 1e-9, 0, 'coordinates')
    ctx.check({int(k) for k in con} == set(range(1, len(el) + 1))
              and set(et) == set(con), f'elements {sorted(con)}')
    for i, e in enumerate(el):
        ctx.check([int(v) for v in con[str(i + 1)]] == e,
                  f'nodes of element {i + 1}: {con[str(i + 1)]}, not {e}')
        t = et[str(i + 1)]
        dim, nn, ng = KIND[typ[i]]
        ctx.check((t.get_n_node(), t.get_n_gauss(), t.get_n_dof_node())
                  == (nn, ng, dim), f'element {i + 1} of type {typ[i]} became '
                  f'{type(t).__name__} with {t.get_n_gauss()} points')
    ctx.check(tuple(bd.shape) == fix.shape
              and np.array_equal(to_np(bd) != 0, fix)
              and set(np.unique(to_np(bd))) <= {0.0, 1.0},
              'constrained freedoms')


@sub('mesh', case, quick=700, thorough=20000, shards=2)
def _(c, ctx):
    r = rng(c['s'])
    typ, el, xyz, fix = mesh(c, r)
    p = os.path.join(ctx.scratch(), 'm.inp')
    write_inp(c, r, p, typ, el, xyz, fix)
    got = G.get_specimen_mesh_from_inp_file(p, c['dim'])
    same_mesh(ctx, c, typ, el, xyz, fix, got)
    ctx.nontrivial(len(el) > 1 and fix.any())
    ctx.label(f'types: {len(set(typ))}')


@sub('mesh_refused', case, quick=200, thorough=3000)
def _(c, ctx):
    """A mesh file that is not a mesh is refused."""
    r = rng(c['s'])
    typ, el, xyz, fix = mesh(c, r)
    p = os.path.join(ctx.scratch(), 'm.inp')
    bad = ['orphan', 'label', 'zero', 'type', 'nodes', 'elements'][
        int(r.integers(6))]
    el = [list(e) for e in el]
    if bad == 'orphan':
        xyz = np.vstack([xyz, r.normal(size=(1, c['dim']))])
    elif bad in ('label', 'zero'):
        e = el[int(r.integers(len(el)))]
        e[int(r.integers(len(e)))] = (len(xyz) + int(r.integers(1, 9))
                                      if bad == 'label' else 0)
    write_inp(c, r, p, typ, el, xyz, fix[:len(xyz)])
    s = open(p).read()
    low = s.lower()
    if bad == 'type':
        t = typ[int(r.integers(len(typ)))]
        s = s.replace('=' + t + '\n', '=' + ['CPS6', 'C3D10', 'B31', 'S4R'][
            int(r.integers(4))] + '\n')
    elif bad == 'nodes':
        i = low.index('*node')
        s = s[:i] + '*SURFACE' + s[i + 5:]
    elif bad == 'elements':
        i = low.index('*element')
        j = low.find('*boundary')
        s = s[:i] + (s[j:] if j > i else '')
    with open(p, 'w') as f:
        f.write(s)
    try:
        G.get_specimen_mesh_from_inp_file(p, c['dim'])
    except RuntimeError:
        ctx.nontrivial(True)
        ctx.label(f'bad: {bad}')
        return
    ctx.check(False, f'mesh file with invalid {bad} accepted')


# ------------------------------------------------------------------- history
COLS = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3',
        'DBC1', 'DBC2', 'DBC3']


def write_hist(c, r, root, n, steps, ncol=13, codes=None, decoys=True,
               name=None):
    """Time step files (shuffled on disk) among unrelated files."""
    name = c['name'] if name is None else name
    data = []
    for _ in steps:
        v = np.zeros((n, 13))
        v[:, 0] = np.arange(1, n + 1)
        v[:, 1:10] = r.normal(size=(n, 9))*10.0**int(r.integers(-6, 5))
        v[:, 10:] = (r.integers(0, 4, size=(n, 3))*int(r.choice(
            [1, 1, 1, 7, 100, 70000])) if codes is None else codes)
        data.append(v[:, :ncol])
    for i in r.permutation(len(steps)):
        with open(os.path.join(root, f'{name}_tstep_{steps[i]}.csv'),
                  'w') as f:
            f.write(','.join(COLS[:ncol]) + '\n')
            for row in data[i]:
                f.write(','.join([str(int(row[0]))] + [
                    repr(float(x)) for x in row[1:10]] + [
                    str(int(x)) for x in row[10:]]) + '\n')
    if decoys:
        for q in (f'x{name}_tstep_1.csv', f'{name}_other_tstep_2.csv',
                  f'{name}_tstep_.csv', f'{name}_tstep_4.txt', f'{name}_tstep_4.csv.bak',
                  f'{name}.csv', 'readme_7.md'):
            with open(os.path.join(root, q), 'w') as f:
                f.write('1,2\n3,4\n')
    return data


def numbering(c, r):
    """Increasing step numbers, from zero or not, with gaps or not."""
    k = int(r.integers(0, 3))
    if k == 0:
        return list(range(c['nt']))
    if k == 1:
        return list(range(1, c['nt'] + 1))
    return sorted(int(x) for x in r.permutation(150)[:c['nt']])


@sub('history', case, quick=350, thorough=8000, shards=2)
def _(c, ctx):
    r = rng(c['s'])
    n = int(r.integers(1, 12))
    dim = c['dim']
    steps = numbering(c, r)
    tmp = os.path.join(ctx.scratch(), str(r.choice(
        ['dir_9', 'plain', 'run_tstep_3', 'a.csv', 'tstep_4.csv_history'])))
    os.makedirs(tmp)
    data = write_hist(c, r, tmp, n, steps)
    paths = G.get_specimen_history_paths(tmp, c['name'])
    ctx.check([os.path.basename(q) for q in paths] == [
        f'{c["name"]}_tstep_{k}.csv' for k in steps],
        f'time step files {[os.path.basename(q) for q in paths]}')
    u, f, d, t = G.get_specimen_numerical_data(paths, dim, n)
    v = np.stack(data, axis=2)
    ctx.close(u, v[:, 4:4 + dim], 1e-12, 0, 'displacements')
    ctx.close(f, v[:, 7:7 + dim], 1e-12, 0, 'reactions')
    ctx.check(np.array_equal(to_np(d), v[:, 10:10 + dim]), 'constraints')
    ctx.close(t, np.arange(len(steps)), 0, 1e-12, 'time')
    # A mesh of another size is refused
    for m in (n - 1, n + 1):
        try:
            G.get_specimen_numerical_data(paths, dim, m)
        except RuntimeError:
            continue
        ctx.check(False, f'{n} nodes in the files, {m} in the mesh: accepted')
    # Sets of constrained freedoms
    R, lab, u2, nodes = P.build_dirichlet_sets_reaction_history(
        c['name'], tmp, dim)
    ctx.close(u2, v[:, 4:4 + dim], 1e-12, 0, 'displacements (sets)')
    want = {}
    for i in range(dim):
        for k in np.unique(data[0][:, 10 + i]).astype(int):
            who = np.where(data[0][:, 10 + i] == k)[0]
            want[f'dim_{i + 1}_label_{k}'] = (
                who + 1, v[who, 7 + i].sum(axis=0), np.abs(
                    v[who, 7 + i]).sum(axis=0))
    ctx.check(sorted(lab) == sorted(want) and len(nodes) == len(lab)
              and R.shape == (len(lab), 1, len(steps)), f'sets {lab}')
    for i, k in enumerate(lab):
        ctx.check(sorted(nodes[i]) == list(want[k][0]), f'nodes of {k}')
        for j in range(len(steps)):
            ctx.close(R[i, 0, j], want[k][1][j], 0,
                      1e-12*max(want[k][2][j], 1e-30),
                      f'reaction of {k} at step {j}')
    ctx.nontrivial(len(steps) > 1 and n > 1)
    ctx.label(f'steps: {len(steps)}')


@sub('labels', case, quick=120, thorough=3000)
def _(c, ctx):
    """Constraint labels move between histories; nothing else does."""
    r = rng(c['s'])
    n = int(r.integers(1, 12))
    a, b = (os.path.join(ctx.scratch(), q) for q in 'ab')
    os.makedirs(a)
    os.makedirs(b)
    src = write_hist(c, r, a, n, list(range(c['nt'])))
    more = int(r.random() < 0.2)
    dst = write_hist(c, r, b, n, list(range(3, 3 + c['nt'] + more)),
                     ncol=13 if r.random() < 0.7 else 10)
    old = {q: open(os.path.join(a, q), 'rb').read() for q in os.listdir(a)}
    try:
        P.copy_dbc_labels(c['name'], a, b)
    except RuntimeError:
        ctx.check(more, 'histories of the same length refused')
        return
    ctx.check(not more, 'histories of unequal lengths accepted')
    ctx.check(old == {q: open(os.path.join(a, q), 'rb').read()
                      for q in os.listdir(a)}, 'source files changed')
    paths = G.get_specimen_history_paths(b, c['name'])
    u, f, d, _ = G.get_specimen_numerical_data(paths, 3, n)
    ctx.check(np.array_equal(to_np(d), np.stack(src, axis=2)[:, 10:]),
              'copied labels')
    v = np.stack(dst, axis=2)
    ctx.close(u, v[:, 4:7], 1e-12, 0, 'displacements')
    ctx.close(f, v[:, 7:10], 1e-12, 0, 'reactions')
    ctx.nontrivial(c['nt'] > 1 and n > 1)


# ------------------------------------------------------------------ data set
@sub('dataset', lambda: case(mixed=False, nt=5), quick=150, thorough=3000,
     shards=2)
def _(c, ctx):
    """Imported specimen, saved and loaded, is the specimen of the files."""
    r = rng(c['s'])
    dim = c['dim']
    typ, el, xyz, fix = mesh(c, r)
    tmp = ctx.scratch()
    p = os.path.join(tmp, 'm.inp')
    write_inp(c, r, p, typ, el, xyz, fix)
    raw, out = os.path.join(tmp, 'raw'), os.path.join(tmp, 'out')
    os.makedirs(raw)
    os.makedirs(out)
    data = write_hist(c, r, raw, len(xyz), numbering(c, r))
    v = np.stack(data, axis=2)
    save = [bool(x) for x in r.random(2) < 0.75]
    pt = 4 if dim == 3 else 1
    E = float(10.0**r.uniform(0, 5))
    par = {'elastic_symmetry': 'isotropic', 'E': E, 'v': 0.3,
           'euler_angles': (0.0, 0.0, 0.0)}
    nf = 6 if dim == 3 else 3
    kw = {'n_features_in': nf, 'n_features_out': nf,
          'learnable_parameters': {}, 'material_model_name': 'elastic',
          'state_features_out': {}, 'is_auto_sync_parameters': True,
          'is_check_su_fail': False, 'model_directory': tmp,
          'is_normalized_parameters': False, 'is_model_in_normalized': False,
          'is_model_out_normalized': False, 'device_type': 'cpu'}
    got = G.gen_specimen_dataset(
        c['name'], raw, p, G.get_specimen_history_paths(raw, c['name']),
        'infinitesimal', pt, dim, 'rc_elastic', par, kw, out,
        is_save_specimen_data=save[0],
        is_save_specimen_material_state=save[1])
    ctx.check(len(os.listdir(out)) == sum(save), f'{save}: {os.listdir(out)}')
    ctx.label(f'save: {save}')
    ctx.nontrivial(c['ne'] > 1)
    if save[0]:
        s = torch.load(got[0])
        m = s.specimen_mesh
        same_mesh(ctx, c, typ, el, xyz, fix, (
            m.get_mesh_configuration(time='init')[0], m.get_elements_type(),
            m.get_connectivities(), m.get_dirichlet_bool_mesh()))
        ctx.check(m.get_n_elem() == len(el)
                  and m.get_n_node_mesh() == len(xyz)
                  and s.get_n_dim() == dim, 'sizes')
        ctx.close(s.nodes_disps_mesh_hist, v[:, 4:4 + dim], 1e-12, 0, 'disps')
        ctx.close(s.reaction_forces_mesh_hist, v[:, 7:7 + dim], 1e-12, 0,
                  'reactions')
        ctx.check(np.array_equal(to_np(s.dirichlet_bc_mesh_hist),
                                 v[:, 10:10 + dim]), 'constraints')
        ctx.close(s.time_hist, np.arange(len(data)), 0, 1e-12, 'time')
    if save[1]:
        q = torch.load(got[1])
        ctx.check(q.get_strain_formulation() == 'infinitesimal'
                  and q.get_problem_type() == pt, 'kind of problem')
        em = q.get_elements_material()
        ctx.check({int(k) for k in em} == set(range(1, len(el) + 1)),
                  f'elements with material {sorted(em)}')
        x = torch.zeros((2, nf))
        x[1, 0] = 1e-3
        w = E/(1.3*0.4)*0.7*1e-3
        for mod in em.values():
            ctx.close(mod(x)[1, 0], w, 1e-9, 0, 'material response')


# ------------------------------------------------------- displacements, noise
@sub('specimen', lambda: case(mixed=False), quick=250, thorough=6000)
def _(c, ctx):
    """Configuration at a time, batched configurations, admissible sets."""
    r = rng(c['s'])
    dim = c['dim']
    typ, el, xyz, fix = mesh(c, r)
    n, T = len(xyz), c['nt']
    s = SpecimenNumericalData()
    u = torch.tensor(r.normal(size=(n, dim, T)))
    f = torch.tensor(r.normal(size=(n, dim, T)))
    d = torch.tensor(r.integers(0, 3, size=(n, dim, T)))
    t = torch.arange(T, dtype=torch.get_default_dtype())
    try:
        s.set_specimen_data(u, f, d, t)
        ctx.check(False, 'data accepted before the mesh')
    except RuntimeError:
        pass
    s.set_specimen_mesh(
        torch.tensor(xyz),
        {str(i + 1): G.elem_type_abaqus_to_fetorch(k)
         for i, k in enumerate(typ)},
        {str(i + 1): tuple(e) for i, e in enumerate(el)},
        torch.tensor(fix.astype(int)))
    # Inconsistent data
    cut = {'n': lambda x: torch.cat([x, x[:1]]), 'dim': lambda x: x[:, :-1],
           't': lambda x: torch.cat([x, x[:, :, :1]], dim=2),
           '2d': lambda x: x[:, :, 0], 'np': lambda x: x.numpy()}
    k = list(cut)[int(r.integers(len(cut)))]
    i = int(r.integers(3))
    arg = [u, f, d]
    arg[i] = cut[k](arg[i])
    for bad in ((*arg, t), (u, f, d, t[:-1]), (u, f, d, t.numpy())):
        try:
            s.set_specimen_data(*bad)
        except RuntimeError:
            continue
        ctx.check(False, f'inconsistent data accepted ({k} of {i})')
    s.set_specimen_data(u, f, d, t)
    # Configurations, in any order of times
    upd = bool(r.random() < 0.6)
    for k in r.integers(0, T, size=3):
        k = int(k)
        s.update_specimen_mesh_configuration(k, is_update_coords=upd)
        for time, q in (('last', max(0, k - 1)), ('current', k)):
            x, w = s.specimen_mesh.get_mesh_configuration(time=time)
            ctx.close(w, u[:, :, q], 1e-13, 0, f'{time} displacements at {k}')
            ctx.close(x, xyz + upd*u[:, :, q].numpy(), 1e-12, 1e-12,
                      f'{time} coordinates at {k}')
        x, w = s.specimen_mesh.get_mesh_configuration(time='init')
        ctx.close(x, xyz, 1e-13, 0, 'initial coordinates')
    for k in (-1, T, T + 3):
        try:
            s.update_specimen_mesh_configuration(k)
        except RuntimeError:
            continue
        ctx.check(False, f'configuration of time {k} of {T}')
    upd = bool(r.random() < 0.6)
    X, U = s.get_batched_mesh_configuration_hist(is_update_coords=upd)
    idx = np.array(el) - 1
    ctx.close(U, u.numpy()[idx], 1e-13, 0, 'batched displacements')
    ctx.close(X, (xyz[:, :, None] + upd*u.numpy())[idx], 1e-12, 1e-12,
              'batched coordinates')
    # Admissible constraint sets
    mode = int(r.integers(4))
    if mode == 0:
        d = (d > 0).int()
    elif mode == 1:              # each label along a single dimension
        d = torch.where(d > 0, d + 3*torch.arange(dim)[None, :, None], 0)
    elif mode == 2:
        d[int(r.integers(n)), int(r.integers(dim)), int(r.integers(T))] = -1
    s.set_specimen_data(u, f, d, t)
    a = d.numpy()
    ok = {'pointwise': bool(np.isin(a, (0, 1)).all()),
          'dirichlet_sets': bool((a >= 0).all()) and all(
              sum((a[:, j] == k).any() for j in range(dim)) <= 1
              for k in np.unique(a) if k > 0), 'other': False}
    for k, w in ok.items():
        try:
            s.check_dirichlet_bc_mesh_hist(k)
            got = True
        except RuntimeError:
            got = False
        ctx.check(got == w, f'constraints admissible ({k}): {got}, not {w}')
    ctx.nontrivial(T > 1 and len(el) > 1)
    ctx.label(f'admissible: {[k for k in ok if ok[k]]}')


@sub('noise', lambda: case(nt=12), quick=150, thorough=3000, shards=2)
def _(c, ctx):
    """Noise and denoising act on displacements only."""
    r = rng(c['s'])
    n = int(r.integers(1, 9))
    tmp = os.path.join(ctx.scratch(), 'h')
    os.makedirs(tmp)
    steps = numbering(c, r)
    data = write_hist(c, r, tmp, n, steps, ncol=10, decoys=False)
    old = {q: open(os.path.join(tmp, q), 'rb').read()
           for q in os.listdir(tmp)}
    amp = float(10.0**r.uniform(-4, 1))
    if r.random() < 0.5:
        os.makedirs(os.path.join(tmp, 'noisy', 'old'))
    np.random.seed(c['s'] % 2**31)
    inject_displacements_noise(tmp, {'distribution': 'uniform', 'amp': amp,
                                     'dirname': 'noisy'})
    w = int(r.integers(1, 3))*2 + 1
    cyc = int(r.integers(1, 4))
    par = {'window_size': w}
    is_den = len(steps) >= w
    if is_den:
        denoise_displacements_noise(tmp, {
            'denoise_method': 'moving_average', 'denoiser_parameters': par,
            'n_denoise_cycle': cyc, 'denoise_dirname': 'clean'})
    ctx.check({q: open(os.path.join(tmp, q), 'rb').read()
               for q in os.listdir(tmp) if q.endswith('.csv')} == old,
              'original files changed')

    def read(sub):
        q = os.path.join(tmp, sub)
        ctx.check(sorted(os.listdir(q)) == sorted(old), f'files of {sub}')
        out = []
        for k in steps:
            rows = open(os.path.join(q, f'{c["name"]}_tstep_{k}.csv')
                        ).read().split('\n')
            ctx.check(rows[0] == ','.join(COLS[:10]), f'columns of {sub}')
            out.append(np.array([[float(x) for x in y.split(',')]
                                 for y in rows[1:] if y]))
        return np.stack(out)
    v = np.stack(data)
    rest = [0, 1, 2, 3, 7, 8, 9]
    x = read('noisy')
    ctx.check(x.shape == v.shape, 'shape')
    ctx.close(x[:, :, rest], v[:, :, rest], 1e-12, 0, 'other columns')
    ctx.close(x[0], v[0], 1e-12, 0, 'initial step')
    e = x[1:, :, 4:7] - v[1:, :, 4:7]
    # Round-off of the difference: proportional to the displacement
    tol = 1e-12*np.abs(v[1:, :, 4:7])
    ctx.check(np.all(np.abs(e) <= 0.5*amp + tol), 'noise amplitude')
    if e.size:
        ctx.check(np.all(np.any(e.reshape(len(e), -1) != 0, axis=1)
                         | (np.abs(v[1:, :, 4:7]).max(axis=(1, 2))*1e-10
                            > amp)), 'steps without noise')
    if is_den:
        y = read('clean')
        ctx.close(y[:, :, rest], v[:, :, rest], 1e-12, 0, 'other columns')
        for j in range(n):
            want = Denoiser().denoise(
                torch.tensor(v[:, j, 4:7]), 'moving_average',
                denoise_parameters=par, n_denoise_cycle=cyc).numpy().copy()
            want[0] = 0.0
            ctx.close(y[:, j, 4:7], want, 1e-9, 1e-10*np.abs(
                v[:, j, 4:7]).max(), f'denoised node {j + 1}')
    ctx.nontrivial(len(steps) > 1)
    ctx.label(f'denoised: {is_den}')
