"""C23: type conversion of data containers."""
import copy
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, fl
from utilities.type_conversion import (
    convert_dict_to_tensor, convert_dict_to_float32, convert_dict_to_float64,
    convert_tensor_to_float32, convert_tensor_to_float64)

PROPERTY = 'C23'
RULE = ('Random nested dictionaries (depth up to 4) of int/float/bool, '
        'tensors of several types and shapes, strings, None, lists, tuples '
        'and functions; non-trivial if the container is nested and holds at '
        'least one value that must be converted and one that must not.')
DT = {'f32': torch.float32, 'f64': torch.float64, 'i64': torch.int64,
      'bool': torch.bool, 'c64': torch.complex64, 'f16': torch.float16,
      'bf16': torch.bfloat16, 'i32': torch.int32, 'u8': torch.uint8,
      'c128': torch.complex128}


def leaf():
    return st.one_of(
        st.builds(lambda v: {'k': 'int', 'v': v}, st.integers(-10**6, 10**6)),
        st.builds(lambda v: {'k': 'float', 'v': v}, fl(-1e6, 1e6)),
        st.builds(lambda v: {'k': 'bool', 'v': v}, st.booleans()),
        st.builds(lambda d, s, r: {'k': 'tensor', 'd': d, 's': s, 'r': r},
                  st.sampled_from(sorted(DT)),
                  st.sampled_from([[], [1], [3], [2, 3], [0]]),
                  st.integers(0, 1000)),
        st.builds(lambda v: {'k': 'str', 'v': v}, st.text(max_size=5)),
        st.builds(lambda v: {'k': v}, st.sampled_from(
            ['none', 'list', 'tuple', 'func', 'array'])))


def tree():
    return st.dictionaries(
        st.text('abcdef', min_size=1, max_size=3),
        st.recursive(leaf(), lambda ch: st.builds(
            lambda d: {'k': 'dict', 'v': d}, st.dictionaries(
                st.text('abcdef', min_size=1, max_size=3), ch, max_size=4)),
            max_leaves=8), max_size=5)


def _fn(x):
    return x


def build(d):
    out = {}
    for k, v in d.items():
        t = v['k']
        if t == 'dict':
            out[k] = build(v['v'])
        elif t in ('int', 'float', 'bool', 'str'):
            out[k] = v['v']
        elif t == 'tensor':
            r = rng(v['r']).standard_normal(v['s'])
            out[k] = torch.tensor(abs(r*10) if v['d'] == 'u8' else r*10).to(
                DT[v['d']])
        else:
            out[k] = {'none': None, 'list': [1, 2.0], 'tuple': (1, 'a'),
                      'func': _fn, 'array': np.arange(3.0)}[t]
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, torch.Tensor):
        return a.dtype == b.dtype and a.shape == b.shape and bool(
            torch.equal(a, b))
    if isinstance(a, np.ndarray):
        return np.array_equal(a, b)
    return a == b


def convert_ref(d, leaf_fn):
    return {k: convert_ref(v, leaf_fn) if isinstance(v, dict) else leaf_fn(v)
            for k, v in d.items()}


def _to_tensor(v):
    return torch.tensor(v) if isinstance(v, (int, float, bool)) else v


def _to(dt):
    def f(v):
        if isinstance(v, torch.Tensor) and v.dtype in (
                torch.float16, torch.bfloat16, torch.float32, torch.float64):
            return v.to(dt)
        return v
    return f


@st.composite
def case(draw):
    return {'t': draw(tree()), 'inplace': draw(st.booleans()),
            'default': draw(st.booleans()),
            'f': draw(st.sampled_from(['tensor', 'float32', 'float64']))}


def stats(d, f, depth=0):
    conv = keep = nested = 0
    for v in d.values():
        if isinstance(v, dict):
            a, b, _ = stats(v, f)
            conv, keep, nested = conv + a, keep + b, 1
        elif same(f(v), v):
            keep += 1
        else:
            conv += 1
    return conv, keep, nested


@sub('dictionaries', case, quick=1500)
def _dict(c, ctx):
    d = build(c['t'])
    before = copy.deepcopy(d)
    f, leaf_fn = {'tensor': (convert_dict_to_tensor, _to_tensor),
                  'float32': (convert_dict_to_float32, _to(torch.float32)),
                  'float64': (convert_dict_to_float64, _to(torch.float64))}[
        c['f']]
    ref = convert_ref(before, leaf_fn)
    cv, kp, ne = stats(before, leaf_fn)
    ctx.nontrivial(cv and kp and ne)
    ctx.label(c['f'])
    out = f(d) if c['default'] else f(d, is_inplace=c['inplace'])
    ctx.check(same(out, ref), f'{f.__name__}: converted {out} != {ref}')
    if not c['default'] and not c['inplace']:
        ctx.check(same(d, before),
                  f'{f.__name__}: the original was changed: {d}')
    else:
        ctx.check(same(d, ref),
                  f'{f.__name__}: in-place conversion incomplete: {d}')
    # idempotent
    ctx.check(same(f(copy.deepcopy(ref)), ref),
              f'{f.__name__}: not idempotent')


@sub('tensors', lambda: leaf().filter(lambda v: v['k'] == 'tensor'),
     quick=300)
def _tensor(c, ctx):
    t = build({'x': c})['x']
    before = t.clone()
    ctx.nontrivial(c['d'] in ('f16', 'bf16', 'f32', 'f64'))
    for f, dt in ((convert_tensor_to_float32, torch.float32),
                  (convert_tensor_to_float64, torch.float64)):
        out = f(t)
        ctx.check(same(out, _to(dt)(before)), f'{f.__name__}: {out}')
        ctx.check(same(t, before), f'{f.__name__}: changed the original')
    if c['d'] == 'f32':
        ctx.check(same(convert_tensor_to_float32(
            convert_tensor_to_float64(t)), t), 'widening loses values')
    ctx.check(convert_tensor_to_float64(3) == 3, 'non-tensor changed')
