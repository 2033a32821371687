"""C26: data set pruning."""
import contextlib
import io
import os
import pickle
import re
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
from time_series_data.time_dataset import (
    TimeSeriesDataset, TimeSeriesDatasetInMemory, load_dataset, save_dataset)
from miscellaneous.pruning import pruning_dataset as PR

PROPERTY = 'C26'
RULE = ('Random data sets of 8-60 samples, pruning schedules, stopping '
        'rules and split sizes; training and prediction are stand-ins whose '
        'sample losses are an arbitrary function of the sample; non-trivial '
        'if at least one pruning step was performed.')


@st.composite
def case(draw):
    sched = draw(st.sampled_from(['constant', 'proportional']))
    a = draw(st.sampled_from([[0.7, 0.2, 0.1], [0.6, 0.2, 0.2],
                              [0.4, 0.3, 0.3], [0.34, 0.33, 0.33],
                              [0.2, 0.3, 0.5]]))
    b = draw(st.sampled_from([0.8, 0.5, 0.7]))
    return {'n': draw(st.integers(8, 60)), 'sched': sched,
            'ratio': draw(st.sampled_from([0.02, 0.05, 0.1, 0.2])),
            'k': draw(st.integers(1, 4)), 'it': draw(st.integers(0, 7)),
            'nmin': draw(st.sampled_from([1, 5, 10, 25])),
            'rmin': draw(st.sampled_from([0.0, 0.05, 0.5, 0.85])),
            'tmin': draw(st.sampled_from([1, 2, 4, 8])),
            'rmax': draw(st.sampled_from([0.3, 0.5, 1.0])),
            'a': a, 'b': b, 'mem': draw(st.booleans()),
            'types': draw(st.sampled_from([
                [], ['in_distribution'], ['unused_data'],
                ['in_distribution', 'unused_data'],
                ['out_distribution', 'in_distribution', 'unused_data']])),
            'rm': draw(st.booleans()), 's': draw(seeds())}


def ids(d):
    return [int(x['id'][0, 0]) for x in d]


def make(r, num, mem, tmp):
    out = []
    for i in num:
        out.append({'id': torch.full((2, 1), float(i)),
                    'strain_path': torch.tensor(r.normal(size=(2, 2)))})
    if mem:
        return TimeSeriesDatasetInMemory(out)
    os.makedirs(tmp)
    paths = []
    for i, x in enumerate(out):
        p = os.path.join(tmp, f'x_{i}.pt')
        torch.save(x, p)
        paths.append(p)
    return TimeSeriesDataset(tmp, paths)


class Stand:
    """Stand-ins for training and prediction."""

    def __init__(self, r, n, ctx):
        self.loss = r.permutation(10*n)[:3*n] + r.random(3*n)*0.5
        self.ctx, self.trained, self.steps, self.tests = ctx, None, [], []

    def train(self, train_dataset_file_path, model_directory,
              val_dataset_file_path=None, **kw):
        self.ctx.check(os.path.isdir(model_directory)
                       and not os.listdir(model_directory),
                       'model directory not empty')
        self.trained = (ids(load_dataset(train_dataset_file_path)),
                        ids(load_dataset(val_dataset_file_path)))
        with open(os.path.join(model_directory, 'model.pt'), 'w') as f:
            f.write('x')

    def predict(self, predict_directory, dataset_file_path, model_directory,
                is_remove_sample_prediction=False, **kw):
        ctx = self.ctx
        ctx.check(os.path.isfile(os.path.join(model_directory, 'model.pt')),
                  'prediction without model')
        d = ids(load_dataset(dataset_file_path))
        sub = os.path.join(predict_directory, 'prediction_set_0')
        os.makedirs(sub)
        if is_remove_sample_prediction:
            self.tests.append((os.path.basename(
                os.path.normpath(predict_directory)), d, self.trained))
        else:
            self.steps.append((d, self.trained))
            for i, k in enumerate(d):
                with open(os.path.join(
                        sub, f'prediction_sample_{i}.pkl'), 'wb') as f:
                    pickle.dump({'prediction_loss_data': (
                        'mse', 'x', float(self.loss[k]), False)}, f)
            with open(os.path.join(sub, 'summary.dat'), 'w') as f:
                f.write('-')
        return sub, float(np.mean(self.loss[d]))


def replaced(stand):
    """Training and prediction of the pruning module replaced."""
    @contextlib.contextmanager
    def go():
        old = (PR.perform_model_standard_training,
               PR.perform_model_prediction)
        PR.perform_model_standard_training = stand.train
        PR.perform_model_prediction = stand.predict
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                yield
        finally:
            (PR.perform_model_standard_training,
             PR.perform_model_prediction) = old
    return go()


def count(c, n):
    return c['k'] if c['sched'] == 'constant' else int(c['ratio']*n)


def sizes(frac, n):
    """Sizes of a random split (remainder dealt in turn)."""
    s = [int(np.floor(n*f)) for f in frac]
    for i in range(n - sum(s)):
        s[i % len(s)] += 1
    return s


def verdict(c, n):
    """True, False or None (boundary not specified) for a pruning step."""
    s = sizes(c['a'], n)
    if n == 0 or min(s) < 1:
        return None
    if abs(n/c['n'] - c['rmin']) < 1e-9:
        return None
    k = count(c, n)
    return not (n <= c['nmin'] or n/c['n'] < c['rmin'] or s[2] < c['tmin']
                or k/s[2] > c['rmax'])


@sub('prune', case, quick=260, thorough=6000, shards=4)
def _(c, ctx):
    r = rng(c['s'])
    n = c['n']
    tmp = os.path.join(ctx.scratch(), 'p')
    base = os.path.join(tmp, 'base_datasets')
    full = os.path.join(base, '1_training_dataset')
    os.makedirs(full)
    data = make(r, range(n), c['mem'], os.path.join(tmp, 'raw'))
    save_dataset(data, 'ss_paths_dataset', full)
    other = {'in_distribution': ('5_testing_id_dataset', n),
             'out_distribution': ('6_testing_od_dataset', 2*n)}
    for k, (q, start) in other.items():
        q = os.path.join(base, q)
        os.makedirs(os.path.join(q, 'plots'))
        save_dataset(make(r, range(start, start + 3), True, None),
                     'ss_paths_dataset', q)
        with open(os.path.join(q, 'note.txt'), 'w') as f:
            f.write('-')
    # What an earlier run left
    os.makedirs(os.path.join(tmp, 'pruned_datasets', 'n5', 'old'))
    par = {'n_iter_max': c['it'], 'prun_scheduler_type': c['sched'],
           'prun_scheduler_params': {'prun_ratio': c['ratio'],
                                     'n_prun_sample': c['k']},
           'n_dev_min': c['nmin'], 'ratio_dev_min': c['rmin'],
           'n_prun_test_min': c['tmin'], 'prun_test_ratio_max': c['rmax'],
           'pruning_step_sizes': dict(zip(
               ('training', 'validation', 'testing'), c['a'])),
           'pruning_iter_sizes': {'training': c['b'],
                                  'validation': 1 - c['b']}}
    # Steps with an empty subset are refused by the split
    m = n
    for i in range(c['it'] + 1):
        if min(sizes([c['b'], 1 - c['b']], m)) < 1 or (
                i < c['it'] and min(sizes(c['a'], m)) < 1):
            return
        v = verdict(c, m)
        if v is None:
            return
        if not v:
            break
        m -= count(c, m)
    stand = Stand(r, n, ctx)
    with replaced(stand):
        _, it = PR.prune_time_series_dataset(
            tmp, tuple(c['types']), pruning_params=par,
            is_remove_pruning_models=c['rm'])
    # Model of the history
    dev, unused = set(range(n)), []
    k_step = k_test = 0
    for i in range(len(it)):
        q = it[str(i)]
        if i > 0:
            ctx.check(verdict(c, len(dev)), f'pruning step {i} performed '
                      f'with {len(dev)} samples left')
            ctx.check(k_step < len(stand.steps), 'step without prediction')
            test, (tr, va) = stand.steps[k_step]
            k_step += 1
            ctx.check(sorted(tr + va + test) == sorted(dev),
                      f'step {i}: training {sorted(tr)}, validation '
                      f'{sorted(va)}, testing {sorted(test)} do not split '
                      f'the {len(dev)} samples in use')
            ctx.check([len(tr), len(va), len(test)] == sizes(
                c['a'], len(dev)), f'step {i}: sizes of the split')
            gone = sorted(test, key=lambda x: stand.loss[x])[
                :count(c, len(dev))]
            dev -= set(gone)
            unused += gone
        ctx.check(q['iter'] == i and q['n_full'] == n
                  and q['n_dev'] == len(dev) and q['n_unused'] == len(unused)
                  and [q['n_train'], q['n_valid']] == sizes(
                      [c['b'], 1 - c['b']], len(dev)),
                  f'iteration {i}: {q}')
        ctx.check(set(q['testing_types_loss']) == set(c['types']),
                  'kinds of testing')
        trained = None
        for t in c['types']:
            got = q['testing_types_loss'][t]
            if t == 'unused_data' and not unused:
                ctx.check(got is None, 'testing on unused data, none yet')
                continue
            ctx.check(k_test < len(stand.tests), 'loss without prediction')
            name, d, trained = stand.tests[k_test]
            k_test += 1
            want = unused if t == 'unused_data' else list(range(
                other[t][1], other[t][1] + 3))
            ctx.check(name == t and sorted(d) == sorted(want),
                      f'iteration {i}, {t}: tested on {sorted(d)}, not '
                      f'{sorted(want)}')
            ctx.close(got, np.mean(stand.loss[want]), 1e-12, 0, t)
            ctx.check(sorted(trained[0] + trained[1]) == sorted(dev),
                      f'iteration {i}: trained on {sorted(trained[0])} and '
                      f'{sorted(trained[1])}, samples in use {sorted(dev)}')
        # Files of the last iteration of this training size
        if all(it[str(j)]['n_train'] != q['n_train']
               for j in range(i + 1, len(it))):
            top = os.path.join(tmp, 'pruned_datasets', f'n{q["n_train"]}')
            a = os.path.join(top, '1_training_dataset',
                             f'ss_paths_dataset_n{q["n_train"]}.pkl')
            b = os.path.join(top, '2_validation_dataset',
                             f'ss_paths_dataset_n{q["n_valid"]}.pkl')
            got = ids(load_dataset(a)) + ids(load_dataset(b))
            ctx.check(sorted(got) == sorted(dev),
                      f'iteration {i}: saved samples')
            ctx.check(os.path.isdir(os.path.join(top, '3_model'))
                      != c['rm'], 'model kept or removed')
            for t in c['types']:
                if t in other:
                    ctx.check(len(os.listdir(os.path.join(
                        top, other[t][0]))) == 1, 'copied testing data')
    ctx.check(k_step == len(stand.steps) and k_test == len(stand.tests),
              'predictions beyond the reported iterations')
    last = len(it) - 1
    ctx.check(last == c['it'] or verdict(c, len(dev)) is False,
              f'stopped at iteration {last} of {c["it"]} with {len(dev)} '
              f'samples')
    ctx.check(not os.path.exists(os.path.join(
        tmp, 'pruned_datasets', 'pruning_step')), 'step directory left')
    ctx.check(not os.path.exists(os.path.join(
        tmp, 'pruned_datasets', 'n5', 'old')), 'files of an earlier run')
    # The full data set is untouched
    again = load_dataset(os.path.join(full, f'ss_paths_dataset_n{n}.pkl'))
    ctx.check(ids(again) == list(range(n)), 'full data set changed')
    with open(os.path.join(tmp, 'pruning_data.pkl'), 'rb') as f:
        saved = pickle.load(f)
    ctx.check(saved['pruning_iterative_data'] == it, 'saved history')
    with open(os.path.join(tmp, 'summary.dat')) as f:
        rows = [x.split() for x in f.read().split('\n')
                if re.match(r'^ *\d+ +\d+ ', x)]
    ctx.check(len(rows) == len(it), 'rows of the summary')
    for i, row in enumerate(rows):
        q = it[str(i)]
        want = [i, q['n_dev'], q['n_train'], q['n_valid'], q['n_unused']]
        ctx.check([int(row[j]) for j in (0, 1, 3, 5, 7)] == want,
                  f'summary row {row}')
        for j, w in zip((2, 4, 6, 8), want[1:]):
            ctx.close(float(row[j]), 100*w/n, 0, 0.0501, 'percentages')
    ctx.nontrivial(len(it) > 1)
    ctx.label(f'iterations: {len(it) - 1}')
    ctx.label('end: ' + ('count' if last == c['it'] else 'rule'))


@sub('read_loss', lambda: st.fixed_dictionaries({
    'n': st.integers(0, 25), 's': seeds(), 'bad': st.booleans(),
    'gap': st.booleans()}), quick=120, thorough=2000)
def _(c, ctx):
    """Losses come back by sample, whatever the number of files."""
    r = rng(c['s'])
    tmp = os.path.join(ctx.scratch(), 'prediction_set_3')
    os.makedirs(tmp)
    num = sorted(int(x) for x in r.permutation(120)[:c['n']]) \
        if c['gap'] else list(range(c['n']))
    loss = r.random(c['n'])
    for i in r.permutation(c['n']):
        d = {'prediction_loss_data': ('mse', None, float(loss[i]), True)}
        if c['bad'] and i == 0:
            d = {'features_out': 1}
        with open(os.path.join(tmp, f'prediction_sample_{num[i]}.pkl'),
                  'wb') as f:
            pickle.dump(d, f)
    for q in ('prediction_sample_.pkl', 'xprediction_sample_1.pkl',
              'prediction_sample_2.pkl.tmp', 'summary.dat'):
        with open(os.path.join(tmp, q), 'w') as f:
            f.write('-')
    try:
        a, b = PR.read_samples_loss_from_dir(tmp)
    except RuntimeError:
        ctx.check(c['n'] == 0 or c['bad'], 'refused')
        return
    ctx.check(c['n'] > 0 and not c['bad'], 'accepted')
    ctx.check(list(a) == num, f'samples {a}')
    ctx.close(b, loss, 0, 0, 'losses')
    ctx.nontrivial(c['n'] > 1)
