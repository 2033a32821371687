"""C11: time series data sets (model-based, in memory and on disk)."""
import copy
import os
import shutil
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
from time_series_data.time_dataset import (
    TimeSeriesDataset, TimeSeriesDatasetInMemory, split_dataset, save_dataset,
    load_dataset, change_dataset_features_labels, add_dataset_feature_init,
    concatenate_dataset_features, sum_dataset_features,
    get_time_series_data_loader, time_collator, get_parent_dataset_indices)

PROPERTY = 'C11'
RULE = ('Random operation sequences (2-8 of rename, add, concatenate, sum, '
        'split, nested subset, copy, save/load, relocate, add/remove samples,'
        ' load in batches) over data sets of 1-7 samples in memory and on '
        'disk, compared after every step with a list-of-dictionaries model; '
        'non-trivial if at least three operations or a subset is involved.')

OPS = ('rename', 'init', 'concat', 'sum', 'split', 'subset', 'saveload',
       'copy', 'move', 'addrem', 'loader', 'frommem')


@st.composite
def case(draw):
    return {'s': draw(seeds()), 'n': draw(st.integers(1, 7)),
            'disk': draw(st.booleans()), 'len': draw(st.integers(1, 4)),
            'odd': draw(st.booleans()),
            'ops': draw(st.lists(st.tuples(st.sampled_from(OPS), seeds()),
                                 min_size=1, max_size=8))}


def sample(r, length, nf, labels, odd):
    s = {lb: torch.tensor(r.standard_normal((length, k)))
         for lb, k in zip(labels, nf)}
    if odd:
        s['meta'] = torch.tensor(r.standard_normal(3))
        s['note'] = f'n{r.integers(1000)}'
        s['steps'] = torch.tensor(r.integers(0, 9, (length, 1)))
    return s


def clone(s):
    return {k: (v.clone() if isinstance(v, torch.Tensor) else v)
            for k, v in s.items()}


def same(ctx, got, exp, msg):
    ctx.check(set(got) == set(exp), f'{msg}: features {sorted(got)} instead '
              f'of {sorted(exp)}')
    for k, v in exp.items():
        if isinstance(v, torch.Tensor):
            ctx.check(isinstance(got[k], torch.Tensor)
                      and got[k].shape == v.shape
                      and got[k].dtype == v.dtype
                      and bool(torch.allclose(got[k], v, 1e-12, 1e-12)),
                      f'{msg}: value of feature {k} changed')
        else:
            ctx.check(got[k] == v, f'{msg}: entry {k} changed')


class View:
    """Data set under test, its model store and its sample indices."""

    def __init__(self, ds, store, idx, disk, label):
        self.ds, self.store, self.idx = ds, store, list(idx)
        self.disk, self.label = disk, label

    def model(self):
        return [self.store[i] for i in self.idx]


def verify(ctx, views, op):
    for v in views:
        exp = v.model()
        ctx.check(len(v.ds) == len(exp), f'{v.label} has {len(v.ds)} samples '
                  f'instead of {len(exp)} after {op}')
        for i, e in enumerate(exp):
            same(ctx, v.ds[i], e, f'{v.label}[{i}] after {op}')


@sub('history', case, quick=1500, thorough=30000, shards=4)
def _history(c, ctx):
    r = rng(c['s'])
    top = ctx.scratch()
    nf = [int(x) for x in r.integers(1, 4, 3)]
    nf[2] = nf[1]
    labels = ['a', 'b', 'c']
    store = [sample(r, c['len'], nf, labels, c['odd'])
             for _ in range(c['n'])]
    n_dir = [0]

    def new_dir():
        n_dir[0] += 1
        d = os.path.join(top, f'd{n_dir[0]}')
        os.mkdir(d)
        if n_dir[0] % 3:    # directories may share their name
            d = os.path.join(d, 'data')
            os.mkdir(d)
        return d

    inp = None
    if c['disk']:
        d = new_dir()
        files = []
        for i in r.permutation(c['n']):
            files.append((int(i), os.path.join(d, f's_{i}.pt')))
        files = [f for _, f in sorted(files)]
        for f, s in zip(files, store):
            torch.save(s, f)
        ds = TimeSeriesDataset(d, list(files))
    else:
        inp = [clone(s) for s in store]
        ds = TimeSeriesDatasetInMemory(inp)
    views = [View(ds, store, range(c['n']), c['disk'], 'data set')]
    first_list = inp
    verify(ctx, views, 'creation')
    ctx.nontrivial(len(c['ops']) > 2 or any(
        o in ('split', 'subset') for o, _ in c['ops']))
    for op, s in c['ops']:
        r = rng(s)
        v = views[int(r.integers(len(views)))]
        n = len(v.idx)
        if n == 0:
            continue
        d = v.ds
        first = v.model()[0]
        # features common to all samples of the view
        common = [k for k in first if all(k in m for m in v.model())]
        feats = sorted(k for k in common
                       if isinstance(first[k], torch.Tensor)
                       and first[k].dim() == 2)
        # same shape in every sample of the view
        even = [k for k in feats if all(m[k].shape == first[k].shape
                                        for m in v.model())]
        uni = all(set(m) == set(first) for m in v.model())
        distinct = []
        for i in v.idx:
            if i not in distinct:
                distinct.append(i)
        mod = [v.store[i] for i in distinct]
        ctx.label(op)
        if op == 'rename' and feats and uni:
            k = int(r.integers(1, len(feats) + 1))
            old = [feats[i] for i in r.permutation(len(feats))[:k]]
            if r.integers(2):
                new = [old[i] for i in r.permutation(k)]   # permute labels
            else:
                new = [f'{o}x{r.integers(10)}' for o in old]
                if any(x in first for x in new):
                    continue
            m = dict(zip(old, new))
            if r.integers(2):
                m['nonexistent'] = 'zzz'
            arg = dict(m)
            out = change_dataset_features_labels(d, m)
            ctx.check(m == arg, 'label map modified')
            ctx.check(len(out) == n, 'returned data set size')
            for q in mod:
                vals = {m[o]: q.pop(o) for o in old}
                q.update(vals)
        elif op == 'init':
            lb = ['h', 'a', 'init'][int(r.integers(3))]
            t = torch.tensor(r.standard_normal((int(r.integers(1, 3)),
                                                int(r.integers(1, 4)))))
            add_dataset_feature_init(d, lb, t)
            for q in mod:
                q[lb] = t.clone()
        elif op in ('concat', 'sum'):
            if op == 'sum':
                ref = first[even[0]].shape if even else None
                fs = [f for f in even if first[f].shape == ref]
            else:
                fs = [f for f in even if first[f].shape[0] == c['len']]
            if not fs:
                continue
            k = int(r.integers(1, len(fs) + 1))
            fs = [fs[i] for i in r.permutation(len(fs))[:k]]
            lb = ['new', 'a', 'cat'][int(r.integers(3))]
            rem = bool(r.integers(2)) and lb not in fs
            if op == 'concat':
                concatenate_dataset_features(d, lb, tuple(fs),
                                             is_remove_features=rem)
                vals = [torch.cat([q[f] for f in fs], 1) for q in mod]
            else:
                w = None
                if r.integers(2):
                    w = {f: float(r.choice([r.standard_normal(), 0.0, -1.0]))
                         for f in fs
                         if r.integers(2)}
                wc = copy.deepcopy(w)
                sum_dataset_features(d, lb, tuple(fs), features_weights=w,
                                     is_remove_features=rem)
                ctx.check(w == wc, 'weights modified')
                w = w or {}
                vals = [sum(w.get(f, 1.0)*q[f] for f in fs) for q in mod]
            for q, val in zip(mod, vals):
                q[lb] = val
                if rem and not v.disk:
                    for f in fs:
                        q.pop(f)
            if rem and v.disk:
                # features are kept on disk (documented); nothing to model
                pass
        elif op == 'split':
            k = int(r.integers(1, 4))
            w = r.dirichlet(np.ones(k)) if r.integers(2) else np.ones(k)/k
            names = [f'p{i}' for i in range(k)]
            sizes = {nm: float(x) for nm, x in zip(names, w)}
            sizes[names[-1]] = max(0.0, 1.0 - sum(list(sizes.values())[:-1]))
            seed = int(r.choice([0, 1, r.integers(1000)]))
            save = bool(r.integers(2))
            sd = new_dir() if save else None
            base = ['run', None][int(r.integers(2))]
            cp = bool(r.integers(2))
            arg = dict(sizes)
            try:
                out = split_dataset(d, sizes, is_copy_dataset=cp,
                                    is_save_subsets=save,
                                    subsets_directory=sd,
                                    subsets_basename=base, seed=seed)
            except RuntimeError:
                ctx.check(any(n*x < 1 for x in sizes.values()),
                          'split rejected although no subset is empty')
                continue
            ctx.check(sizes == arg, 'split sizes modified')
            ctx.check(list(out) == names, 'subset names')
            allidx = []
            cstore = copy.deepcopy(v.store) if cp else v.store
            new = []
            for nm in names:
                sb = out[nm]
                ctx.check(len(sb) > 0 and abs(len(sb) - n*sizes[nm]) <= 1
                          + 1e-9, f'subset {nm} has {len(sb)} of {n} samples,'
                          f' requested {sizes[nm]}')
                pidx = get_parent_dataset_indices(sb, list(range(len(sb))))
                allidx += [int(i) for i in pidx]
                some = [int(x) for x in r.integers(0, len(sb), 3)]
                ctx.check(get_parent_dataset_indices(sb, some)
                          == [pidx[i] for i in some], 'parent indices')
                new.append(View(sb, v.store if (v.disk or not cp) else cstore,
                                [v.idx[int(i)] for i in pidx], v.disk,
                                f'subset {nm} of {v.label}'))
            ctx.check(sorted(allidx) == list(range(n)), 'split does not '
                      f'contain every sample once: {sorted(allidx)}')
            again = split_dataset(d, sizes, seed=seed)
            for nm in names:
                ctx.check([int(i) for i in again[nm].indices]
                          == [int(i) for i in out[nm].indices],
                          'same seed, different split')
            if save:
                exp = sorted((f'{base}_' if base else '')
                             + f'{nm}_n{len(out[nm])}.pkl' for nm in names)
                ctx.check(sorted(os.listdir(sd)) == exp, 'subset files '
                          f'{sorted(os.listdir(sd))} instead of {exp}')
                for nm, nv in zip(names, new):
                    ld = load_dataset(os.path.join(
                        sd, (f'{base}_' if base else '')
                        + f'{nm}_n{len(out[nm])}.pkl'))
                    verify(ctx, [View(ld, nv.store, nv.idx, v.disk,
                                      'loaded subset')], op)
            views += new
        elif op == 'subset':
            idx = [int(i) for i in r.permutation(n)[:int(r.integers(1,
                                                                    n + 1))]]
            views.append(View(torch.utils.data.Subset(d, idx), v.store,
                              [v.idx[i] for i in idx], v.disk,
                              f'subset of {v.label}'))
        elif op == 'saveload':
            sd = new_dir()
            ap = bool(r.integers(2))
            nm = str(r.choice(['ds', 'ds.v1', 'data set', 'ds_n3', 'a.pkl']))
            p = save_dataset(d, nm, sd, is_append_n_sample=ap)
            ctx.check(p == os.path.join(sd, f'{nm}_n{n}.pkl' if ap
                                        else f'{nm}.pkl'), f'saved as {p}')
            ctx.check(os.listdir(sd) == [os.path.basename(p)], 'saved files')
            ld = load_dataset(p)
            views.append(View(ld, v.store if v.disk
                              else copy.deepcopy(v.store), v.idx, v.disk,
                              f'reloaded {v.label}'))
        elif op == 'copy' and not v.disk:
            if isinstance(d, TimeSeriesDatasetInMemory):
                sm = d.get_dataset_samples()
                cst = copy.deepcopy(v.store)
                views.append(View(TimeSeriesDatasetInMemory(sm), cst, v.idx,
                                  False, f'copy of {v.label}'))
        elif op == 'frommem':
            ld = TimeSeriesDatasetInMemory.from_dataset(d)
            ctx.check(isinstance(ld, TimeSeriesDatasetInMemory),
                      'conversion type')
            nv = View(ld, copy.deepcopy(v.store) if v.disk else v.store,
                      v.idx, False, f'in-memory {v.label}')
            if v.disk and len(set(v.idx)) == len(v.idx):
                views.append(nv)
            else:
                verify(ctx, [nv], op)
        elif op == 'move' and v.disk:
            parent = d
            while isinstance(parent, torch.utils.data.Subset):
                parent = parent.dataset
            ctx.check(isinstance(parent, TimeSeriesDataset), 'parent type')
            src = parent.get_dataset_directory()
            nd = new_dir()
            for f in parent.get_dataset_sample_files():
                ctx.check(os.path.dirname(f) == src, 'sample file directory')
                shutil.copy(f, nd)
            fd = new_dir()
            p = save_dataset(d, 'mv', fd)
            TimeSeriesDataset.update_dataset_file_internal_directory(p, nd)
            ld = load_dataset(p)
            lp = ld
            while isinstance(lp, torch.utils.data.Subset):
                lp = lp.dataset
            ctx.check(os.path.normpath(lp.get_dataset_directory()) == nd,
                      'internal directory not updated')
            ctx.check(os.path.normpath(parent.get_dataset_directory()) == src,
                      'directory of the original data set changed')
            views.append(View(ld, copy.deepcopy(v.store), v.idx, True,
                              f'moved {v.label}'))
        elif op == 'addrem' and isinstance(d, TimeSeriesDatasetInMemory):
            if any(x is not v and x.store is v.store for x in views):
                # other views index the same list positions
                continue
            if r.integers(2):
                extra = [sample(r, c['len'], nf, labels, c['odd'])
                         for _ in range(int(r.integers(1, 3)))]
                inp = [clone(e) for e in extra]
                k = len(inp)
                d.add_dataset_samples(inp)
                ctx.check(len(inp) == k, 'list of added samples modified')
                if views[0].ds is d and first_list is not None:
                    ctx.check(len(first_list) == c['n'], 'list the data set '
                              'was created with modified')
                for e in extra:
                    v.store.append(e)
                    v.idx.append(len(v.store) - 1)
            else:
                rem = sorted(int(i) for i in
                             r.permutation(n)[:int(r.integers(0, n + 1))])
                arg = [rem[i] for i in r.permutation(len(rem))]
                d.remove_dataset_samples(list(arg))
                v.idx = [x for i, x in enumerate(v.idx) if i not in rem]
        elif op == 'loader' and uni:
            if any(m[f].shape != first[f].shape for m in v.model()
                   for f in feats):
                continue
            bs = int(r.integers(1, n + 2))
            sh = bool(r.integers(2))
            got = []
            for b in get_time_series_data_loader(d, batch_size=bs,
                                                 is_shuffle=sh):
                ctx.check(set(b) == set(feats), f'batch features {sorted(b)}')
                k = {b[f].shape[1] for f in feats}
                ctx.check(len(k) <= 1, 'batch size')
                for j in range(max(k) if k else 0):
                    got.append({f: b[f][:, j, :] for f in feats})
            if not feats:
                continue
            exp = [{f: m[f] for f in feats} for m in v.model()]
            ctx.check(len(got) == n, f'{len(got)} samples loaded of {n}')
            if sh:
                for e in exp:
                    hit = [i for i, g in enumerate(got)
                           if all(bool(torch.equal(g[f], e[f]))
                                  for f in feats)]
                    ctx.check(hit, 'sample missing from shuffled batches')
                    got.pop(hit[0])
            else:
                for g, e in zip(got, exp):
                    same(ctx, g, e, 'batch sample')
        verify(ctx, views, op)


@st.composite
def bad(draw):
    return {'s': draw(seeds()), 'k': draw(st.integers(0, 4)),
            'n': draw(st.integers(2, 6))}


@sub('rejects', bad, quick=60)
def _rejects(c, ctx):
    """Ill-defined requests are refused and change nothing."""
    r = rng(c['s'])
    store = [sample(r, 3, [1, 2, 2], ['a', 'b', 'c'], False)
             for _ in range(c['n'])]
    ds = TimeSeriesDatasetInMemory([clone(s) for s in store])
    f = [lambda: split_dataset(ds, {'x': 0.5, 'y': 0.4}),
         lambda: split_dataset(ds, {'x': 1.5, 'y': -0.5}),
         lambda: concatenate_dataset_features(ds, 'n', ('a', 'q')),
         lambda: sum_dataset_features(ds, 'n', ('b', 'q')),
         lambda: split_dataset(ds, {'x': 1.0, 'y': 0.0})][c['k']]
    try:
        f()
    except RuntimeError:
        pass
    else:
        ctx.check(False, 'ill-defined request accepted')
    verify(ctx, [View(ds, store, range(c['n']), False, 'data set')],
           'rejected request')
    ctx.nontrivial(True)


@sub('fractions', lambda: st.fixed_dictionaries({
    's': seeds(), 'n': st.integers(20, 200), 'k': st.integers(2, 5)}),
     quick=80, thorough=2000)
def _fractions(c, ctx):
    """Small fractions of a large data set are respected."""
    r = rng(c['s'])
    n, k = c['n'], c['k']
    ds = TimeSeriesDatasetInMemory([{'a': torch.tensor([[float(i)]])}
                                    for i in range(n)])
    small = [float(x) for x in r.uniform(1.01/n, 0.12, k - 1)]
    small = [max(x, 1.01/n) for x in small]
    w = small + [1.0 - sum(small)]
    w = [w[i] for i in r.permutation(k)]
    sizes = {f'p{i}': x for i, x in enumerate(w)}
    try:
        out = split_dataset(ds, sizes, seed=int(r.integers(99)))
    except RuntimeError as e:
        ctx.check(False, f'split {w} of {n} refused: {e}')
    seen = []
    for nm, x in sizes.items():
        ctx.check(abs(len(out[nm]) - n*x) <= 1 + 1e-9,
                  f'{len(out[nm])} samples of {n} for {x}')
        seen += [int(out[nm][i]['a']) for i in range(len(out[nm]))]
    ctx.check(sorted(seen) == list(range(n)), 'samples lost or repeated')
    ctx.nontrivial(min(w) < 0.1)
