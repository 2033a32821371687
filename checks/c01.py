"""C01: tensor storage (Voigt/Kelvin) and tensor algebra."""
import itertools as it
import math
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import vec, fixed, rng, seeds
import simulators.fetorch.math.matrixops as mo
import simulators.fetorch.math.voigt_notation as vn
import simulators.fetorch.math.tensorops as to

PROPERTY = 'C01'
RULE = ('Random 2D/3D tensors of order 2 and 4 (entries spread over decades), '
        'random permutations/orientations of the component order, Kelvin '
        'notation on and off; a case is non-trivial if the tensor has at '
        'least one non-zero off-diagonal component (order 2) or any non-zero '
        'component touching a shear index (order 4).')

SYM = {2: ['11', '22', '12'], 3: ['11', '22', '33', '12', '23', '13']}
NSYM = {2: ['11', '21', '12', '22'],
        3: ['11', '21', '31', '12', '22', '32', '13', '23', '33']}


@st.composite
def orders(draw, symmetric=None):
    n = draw(st.sampled_from([2, 3]))
    s = draw(st.booleans()) if symmetric is None else symmetric
    comps = draw(st.permutations(SYM[n] if s else NSYM[n]))
    if s:
        flips = draw(st.lists(st.booleans(), min_size=len(comps),
                              max_size=len(comps)))
        if not draw(st.booleans()):
            flips = [False]*len(comps)
        comps = [c[::-1] if f else c for c, f in zip(comps, flips)]
    return {'n': n, 'sym': s, 'order': list(comps)}


def T(x):
    return torch.tensor(np.asarray(x), dtype=torch.float64)


def ref_so(a, order, fac):
    return np.array([(fac if c[0] != c[1] else 1.0)
                     * a[int(c[0]) - 1, int(c[1]) - 1] for c in order])


def ref_fo(a, order, fac):
    m = np.zeros((len(order),)*2)
    for i, c in enumerate(order):
        for j, d in enumerate(order):
            f = (fac if c[0] != c[1] else 1.0)*(fac if d[0] != d[1] else 1.0)
            m[i, j] = f*a[int(c[0]) - 1, int(c[1]) - 1,
                          int(d[0]) - 1, int(d[1]) - 1]
    return m


@st.composite
def so_case(draw):
    o = draw(orders())
    return dict(o, v=draw(vec(o['n']**2)), w=draw(vec(o['n']**2)),
                kelvin=draw(st.booleans()))


@sub('mf_second_order', so_case, quick=400)
def _so(c, ctx):
    n, order = c['n'], tuple(c['order'])
    a = np.array(c['v']).reshape(n, n)
    b = np.array(c['w']).reshape(n, n)
    if c['sym']:
        a, b = 0.5*(a + a.T), 0.5*(b + b.T)
    k = c['kelvin']
    fac = math.sqrt(2) if (k and c['sym']) else 1.0
    ctx.nontrivial(np.any(a - np.diag(np.diag(a)) != 0))
    res = []
    for enc, dec in ((mo.get_tensor_mf, mo.get_tensor_from_mf),
                     (mo.vget_tensor_mf, mo.vget_tensor_from_mf)):
        A = T(a)
        mf = enc(A, n, order, is_kelvin_notation=k)
        ctx.close(A, a, 0, 0, 'input tensor modified by storage')
        ctx.close(mf, ref_so(a, order, fac), 1e-14, 0,
                  f'{enc.__name__}: stored components')
        mfc = mf.clone()
        back = dec(mf, n, order, is_kelvin_notation=k)
        ctx.close(mf, mfc, 0, 0, 'input matricial form modified')
        ctx.close(back, a, 1e-14, 1e-300, f'{dec.__name__}: round trip')
        res.append((mf, back))
        # double contraction is the plain inner product of stored vectors
        if k or not c['sym']:
            mfb = enc(T(b), n, order, is_kelvin_notation=k)
            ctx.close(torch.dot(mf, mfb), np.sum(a*b), 1e-12,
                      1e-13*np.sum(np.abs(a*b)),
                      f'{enc.__name__}: double contraction')
    # the stored form can be mapped over a batch
    A3 = torch.stack([T(a), T(b), T(a + b)])
    bm = torch.vmap(lambda x: mo.vget_tensor_mf(
        x, n, order, is_kelvin_notation=k))(A3)
    bt = torch.vmap(lambda x: mo.vget_tensor_from_mf(
        x, n, order, is_kelvin_notation=k))(bm)
    ctx.close(bt, A3, 1e-14, 1e-300, 'batched round trip')
    if c['sym'] and k:
        for i in range(len(order)):
            ctx.close(mo.kelvin_factor(i, order),
                      math.sqrt(2) if order[i][0] != order[i][1] else 1.0,
                      1e-15, 0, 'Kelvin coefficient')
            for j in range(len(order)):
                f = 1.0
                for q in (i, j):
                    f *= math.sqrt(2) if order[q][0] != order[q][1] else 1.0
                ctx.close(mo.kelvin_factor([i, j], order), f, 1e-15, 0,
                          'Kelvin coefficient pair')


@st.composite
def fo_case(draw):
    o = draw(orders())
    return dict(o, seed=draw(seeds()), v=draw(vec(o['n']**2)),
                zero=draw(st.booleans()), kelvin=draw(st.booleans()))


@sub('mf_fourth_order', fo_case, quick=200)
def _fo(c, ctx):
    n, order = c['n'], tuple(c['order'])
    r = rng(c['seed'])
    a = r.standard_normal((n,)*4)*10.0**r.integers(-3, 4)
    if c['zero']:
        a = a*(r.random((n,)*4) < 0.3)
    b = r.standard_normal((n,)*4)
    e = np.array(c['v']).reshape(n, n)
    if c['sym']:
        def minor(t):
            t = 0.5*(t + t.transpose(1, 0, 2, 3))
            return 0.5*(t + t.transpose(0, 1, 3, 2))
        a, b, e = minor(a), minor(b), 0.5*(e + e.T)
    k = c['kelvin']
    fac = math.sqrt(2) if (k and c['sym']) else 1.0
    ctx.nontrivial(any(a[i] != 0 for i in it.product(range(n), repeat=4)
                       if i[0] != i[1] or i[2] != i[3]))
    for enc, dec in ((mo.get_tensor_mf, mo.get_tensor_from_mf),
                     (mo.vget_tensor_mf, mo.vget_tensor_from_mf)):
        mf = enc(T(a), n, order, is_kelvin_notation=k)
        ctx.close(mf, ref_fo(a, order, fac), 1e-14, 0,
                  f'{enc.__name__}: stored components')
        back = dec(mf, n, order, is_kelvin_notation=k)
        ctx.close(back, a, 1e-14, 1e-300, f'{dec.__name__}: round trip')
        if k or not c['sym']:
            # products with tensors become matrix products
            emf = enc(T(e), n, order, is_kelvin_notation=k)
            ref = np.einsum('ijkl,kl->ij', a, e)
            got = dec(mf @ emf, n, order, is_kelvin_notation=k)
            ctx.close_norm(got, ref, 1e-12, 1e-13*np.sum(np.abs(a))
                           * np.max(np.abs(e), initial=0),
                           'matrix-vector product is A:e')
            bmf = enc(T(b), n, order, is_kelvin_notation=k)
            ref = np.einsum('ijmn,mnkl->ijkl', a, b)
            got = dec(mf @ bmf, n, order, is_kelvin_notation=k)
            ctx.close_norm(got, ref, 1e-12, 1e-300,
                           'matrix product is A:B')
    A2 = torch.stack([T(a), T(b)])
    bm = torch.vmap(lambda x: mo.vget_tensor_mf(
        x, n, order, is_kelvin_notation=k))(A2)
    bt = torch.vmap(lambda x: mo.vget_tensor_from_mf(
        x, n, order, is_kelvin_notation=k))(bm)
    ctx.close(bt, A2, 1e-14, 1e-300, 'batched round trip')


@st.composite
def voigt_case(draw):
    o = draw(orders(symmetric=True))
    return dict(o, v=draw(vec(o['n']**2)), w=draw(vec(o['n']**2)))


@sub('voigt', voigt_case, quick=400)
def _voigt(c, ctx):
    n, order = c['n'], tuple(c['order'])
    e = np.array(c['v']).reshape(n, n)
    s = np.array(c['w']).reshape(n, n)
    e, s = 0.5*(e + e.T), 0.5*(s + s.T)
    ctx.nontrivial(np.any(e - np.diag(np.diag(e)) != 0))
    evmf = T(ref_so(e, order, 2.0))
    out = []
    for f in (vn.get_strain_from_vmf, vn.vget_strain_from_vmf):
        ctx.close(f(evmf, n, order), e, 1e-14, 1e-300,
                  f'{f.__name__}: strain from Voigt (shear factor 2)')
    for f in (vn.get_stress_vmf, vn.vget_stress_vmf):
        sv = f(T(s), n, order)
        ctx.close(sv, ref_so(s, order, 1.0), 1e-14, 0,
                  f'{f.__name__}: stress Voigt components')
        # work conjugacy
        ctx.close(torch.dot(sv, evmf), np.sum(s*e), 1e-12,
                  1e-13*np.sum(np.abs(s*e)), f'{f.__name__}: work product')
    b = torch.vmap(lambda x: vn.vget_strain_from_vmf(x, n, order))(
        torch.stack([evmf, 2*evmf]))
    ctx.close(b, np.stack([e, 2*e]), 1e-14, 1e-300, 'batched Voigt strain')
    b = torch.vmap(lambda x: vn.vget_stress_vmf(x, n, order))(
        torch.stack([T(s), T(2*s)]))
    ctx.close(b, np.stack([ref_so(s, order, 1.0),
                           2*ref_so(s, order, 1.0)]), 1e-14, 0,
              'batched Voigt stress')
    # volumetric / deviatoric split of stored stress
    sv = ref_so(s, order, 1.0)
    res = vn.get_projection_tensors_vmf(n, order)
    vol, dev = (np.asarray(x) for x in res)
    m = np.trace(s)/n
    scale = np.max(np.abs(s), initial=0)
    ctx.close(vol @ sv, ref_so(m*np.eye(n), order, 1.0), 1e-12,
              1e-13*scale, 'volumetric projection')
    ctx.close(dev @ sv, ref_so(s - m*np.eye(n), order, 1.0), 1e-12,
              1e-13*scale, 'deviatoric projection')


@st.composite
def dim_case(draw):
    s = draw(st.booleans())
    return {'sym': s, 'v2': draw(vec(3 if s else 4)),
            'c33': draw(vec(1))[0], 'v3': draw(vec(6 if s else 9)),
            'seed': draw(seeds())}


@sub('plane_to_space', dim_case, quick=300)
def _dim(c, ctx):
    o2 = SYM[2] if c['sym'] else NSYM[2]
    o3 = SYM[3] if c['sym'] else NSYM[3]
    for p in (1, 4):
        n, a, b = mo.get_problem_type_parameters(p)
        ctx.check(n == {1: 2, 4: 3}[p] and list(a) == SYM[n]
                  and list(b) == NSYM[n],
                  'component order of the problem type')
    v2 = np.array(c['v2'])
    ctx.nontrivial(v2[-2] != 0 or v2[-1] != 0)
    ref3 = np.zeros(len(o3))
    for i, comp in enumerate(o2):
        ref3[o3.index(comp)] = v2[i]
    ref3[o3.index('33')] = c['c33']
    m3 = mo.get_state_3Dmf_from_2Dmf(1, T(v2), c['c33'])
    ctx.close(m3, ref3, 0, 0, '3D counterpart')
    m3v = mo.vget_state_3Dmf_from_2Dmf(T(v2), c['c33'])
    ctx.close(m3v, ref3, 0, 0, '3D counterpart (vectorized)')
    ctx.close(mo.get_state_2Dmf_from_3Dmf(1, m3), v2, 0, 0, '2D round trip')
    ctx.close(mo.vget_state_2Dmf_from_3Dmf(m3v), v2, 0, 0,
              '2D round trip (vectorized)')
    v3 = np.array(c['v3'])
    idx = [o3.index(x) for x in o2]
    ctx.close(mo.get_state_2Dmf_from_3Dmf(1, T(v3)), v3[idx], 0, 0,
              '2D counterpart')
    ctx.close(mo.vget_state_2Dmf_from_3Dmf(T(v3)), v3[idx], 0, 0,
              '2D counterpart (vectorized)')
    m = rng(c['seed']).standard_normal((len(o3),)*2)
    for f in (lambda x: mo.get_state_2Dmf_from_3Dmf(1, x),
              mo.vget_state_2Dmf_from_3Dmf):
        ctx.close(f(T(m)), m[np.ix_(idx, idx)], 0, 0,
                  '2D counterpart of fourth-order tensor')
    b = torch.vmap(lambda x, y: mo.vget_state_3Dmf_from_2Dmf(x, y))(
        torch.stack([T(v2), T(v2)]), T([c['c33'], 1.0]))
    ref3b = ref3.copy()
    ref3b[o3.index('33')] = 1.0
    ctx.close(b, np.stack([ref3, ref3b]), 0, 0, 'batched 3D counterpart')
    ctx.close(torch.vmap(mo.vget_state_2Dmf_from_3Dmf)(b),
              np.stack([v2, v2]), 0, 0, 'batched 2D counterpart')


def alg_case():
    return fixed(n=st.sampled_from([2, 3]), seed=seeds(),
                 sc=st.integers(-3, 3))


PRODUCTS = {
    'dyad11': ('i,j->ij', 1, 1), 'dyad22_1': ('ij,kl->ijkl', 2, 2),
    'dyad22_2': ('ik,jl->ijkl', 2, 2), 'dyad22_3': ('il,jk->ijkl', 2, 2),
    'dot21_1': ('ij,j->i', 2, 1), 'dot12_1': ('i,ij->j', 1, 2),
    'dot42_1': ('ijkm,lm->ijkl', 4, 2), 'dot42_2': ('ipkl,jp->ijkl', 4, 2),
    'dot42_3': ('ijkm,ml->ijkl', 4, 2), 'dot24_1': ('im,mjkl->ijkl', 2, 4),
    'dot24_2': ('jm,imkl->ijkl', 2, 4), 'dot24_3': ('km,ijml->ijkl', 2, 4),
    'dot24_4': ('lm,ijkm->ijkl', 2, 4), 'ddot22_1': ('ij,ij->', 2, 2),
    'ddot42_1': ('ijkl,kl->ij', 4, 2), 'ddot44_1': ('ijmn,mnkl->ijkl', 4, 4),
    'ddot24_1': ('kl,klij->ij', 2, 4)}


@sub('tensor_algebra', alg_case, quick=150)
def _alg(c, ctx):
    n = c['n']
    r = rng(c['seed'])
    ctx.nontrivial()
    s = 10.0**c['sc']
    for name, (spec, oa, ob) in PRODUCTS.items():
        a = s*r.standard_normal((n,)*oa)
        b = r.standard_normal((n,)*ob)
        got = getattr(to, name)(T(a), T(b))
        ctx.close_norm(got, np.einsum(spec, a, b), 1e-12, 1e-300, name)
    soid, foid, fotr, fosym, fodt, fodev, fodevs = to.get_id_operators(n)
    t = s*r.standard_normal((n, n))
    dd = to.ddot42_1
    ts = 0.5*(t + t.T)
    tr = np.trace(t)*np.eye(n)
    for op, ref, nm in ((foid, t, 'identity'), (fotr, t.T, 'transposition'),
                        (fosym, ts, 'symmetric projection'),
                        (fodt, tr, 'diagonal trace'),
                        (fodev, t - tr/3, 'deviatoric projection'),
                        (fodevs, ts - tr/3, 'sym. deviatoric projection')):
        ctx.close_norm(dd(op, T(t)), ref, 1e-12, 1e-12*s, nm)
    ctx.close(soid, np.eye(n), 0, 0, 'second-order identity')
    # derivative of the inverse of a symmetric tensor
    g = r.standard_normal((n, n))
    m = g @ g.T + 0.5*np.eye(n)
    inv = np.linalg.inv(m)
    d = to.fo_dinv_sym(T(inv))
    dm = r.standard_normal((n, n))
    dm = 0.5*(dm + dm.T)
    ref = -inv @ dm @ inv
    ctx.close_norm(dd(d, T(dm)), ref, 1e-10, 1e-300, 'derivative of inverse')


@sub('refusals', lambda: st.fixed_dictionaries({
    'o': orders(), 'four': st.booleans(), 'k': st.sampled_from(
        ['digit0', 'digit', 'twice', 'long', 'shape', 'order', 'count']),
    's': seeds()}), quick=150)
def _refusals(c, ctx):
    """Components and shapes that are no tensor are refused."""
    r = rng(c['s'])
    n, o = c['o']['n'], list(c['o']['order'])
    m = len(o)
    i = int(r.integers(m))
    a = T(r.normal(size=(n,)*(4 if c['four'] else 2)))
    b = T(r.normal(size=(m,)*(2 if c['four'] else 1)))
    k = c['k']
    if k == 'digit0':
        o[i] = '0' + o[i][1]
    elif k == 'digit':
        o[i] = o[i][0] + str(n + 1)
    elif k == 'twice':
        o[i] = o[i - 1]
    elif k == 'long':
        o[i] = o[i] + '1'
    elif k == 'order':
        a, b = T(r.normal(size=(n,)*3)), T(r.normal(size=(m,)*3))
    elif k == 'count':
        o = o[:-2 if len(o) == 4 else -1]
    else:
        a = T(r.normal(size=(n,)*(3 if c['four'] else 1) + (n + 1,)))
        b = T(r.normal(size=(m, m + 1) if c['four'] else 2*n + 1))
    for f, x in ((mo.get_tensor_mf, a), (mo.get_tensor_from_mf, b)):
        try:
            f(x, n, tuple(o))
        except RuntimeError:
            continue
        ctx.check(False, f'{f.__name__}: {k} accepted: {o}, shape '
                  f'{tuple(x.shape)}')
    ctx.nontrivial(True)
    ctx.label(k)
