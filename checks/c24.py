"""C24: output directories, files and summaries."""
import os
import re
import shutil
import numpy as np
from hypothesis import strategies as st
from harness import sub
from gen import rng, seeds
import ioput.iostandard as io

PROPERTY = 'C24'
RULE = ('Random sequences of 1-10 requests for new directories, new files, '
        'file searches and summaries in a scratch tree that already contains '
        'files and directories with similar names; non-trivial if some '
        'requested name already exists.')

NAMES = ['out', 'out_1', 'out_2', 'out_1_1', 'run', 'run_10', 'a.b', 'res']


@st.composite
def case(draw):
    return {'s': draw(seeds()),
            'pre': draw(st.lists(st.tuples(st.sampled_from(NAMES),
                                           st.sampled_from('df')),
                                 max_size=8)),
            'chain': draw(st.lists(st.tuples(
                st.sampled_from(NAMES), st.sampled_from('df'),
                st.sampled_from([1, 9, 10, 11, 100])), max_size=1)),
            'ops': draw(st.lists(st.tuples(
                st.sampled_from(['dir', 'over', 'file', 'sum', 'find']),
                st.sampled_from(NAMES), seeds()), min_size=1, max_size=10))}


def snapshot(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root)] = None
        for x in fs:
            p = os.path.join(d, x)
            with open(p) as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


class Guard:
    """Directory removal restricted to the scratch tree."""

    def __init__(self, root, ctx):
        self.root, self.ctx = os.path.realpath(root) + os.sep, ctx

    def __enter__(self):
        self.old = shutil.rmtree

        def rmtree(path, *a, **k):
            p = os.path.realpath(path)
            self.ctx.check(p.startswith(self.root), f'removal of {p}')
            return self.old(path, *a, **k)
        shutil.rmtree = rmtree

    def __exit__(self, *a):
        shutil.rmtree = self.old


@sub('names', case, quick=600, thorough=15000)
def _names(c, ctx):
    root = os.path.join(ctx.scratch(), 'x', 'y')
    os.makedirs(root)
    for nm, k in c['pre']:
        p = os.path.join(root, nm)
        if os.path.exists(p) or os.path.exists(p + '.dat'):
            continue
        if k == 'd':
            os.mkdir(p)
            with open(os.path.join(p, 'keep.txt'), 'w') as f:
                f.write(nm)
        else:
            with open(p + '.dat', 'w') as f:
                f.write(nm)
    for nm, k, n in c['chain']:
        # a name taken together with its first n numbered successors
        for x in [nm] + [f'{nm}_{i}' for i in range(1, n + 1)]:
            p = os.path.join(root, x)
            if k == 'd':
                os.makedirs(p, exist_ok=True)
            else:
                for e in ('.dat', '.dat.txt'):
                    q = (os.path.join(root, nm + '.dat') + x[len(nm):]
                         + '.txt') if e == '.dat.txt' else p + e
                    if not os.path.exists(q):
                        with open(q, 'w') as f:
                            f.write(x)
    hit = False
    with Guard(root, ctx):
        for op, nm, s in c['ops']:
            r = rng(s)
            before = snapshot(root)
            p = os.path.join(root, nm)
            if op in ('dir', 'over'):
                if os.path.isfile(p):
                    continue
                had = os.path.isdir(p)
                hit |= had
                arg = p
                if r.integers(2):
                    arg = os.path.relpath(p)
                q = io.make_directory(arg, is_overwrite=op == 'over')
                after = snapshot(root)
                ctx.check(os.path.isabs(q) and os.path.isdir(q)
                          and os.listdir(q) == [], 'new directory is not an '
                          f'existing empty directory: {q}')
                rel = os.path.relpath(q, root)
                if op == 'over' or not had:
                    ctx.check(rel == nm, f'created {rel} instead of {nm}')
                else:
                    m = re.fullmatch(re.escape(nm) + r'_(\d+)', rel)
                    ctx.check(m, f'created {rel} for {nm}')
                    k = int(m.group(1))
                    ctx.check(k >= 1 and all(
                        before.get(f'{nm}_{i}', 0) is None
                        for i in range(1, k)), f'{rel} is not the first free '
                        'name')
                    ctx.check(rel not in before, f'{rel} existed')
                exp = {x: y for x, y in before.items() if not (
                    op == 'over' and (x == nm or x.startswith(nm + os.sep)))}
                exp[rel] = None
                ctx.check(after == exp, f'other content changed: '
                          f'{sorted(set(after) ^ set(exp))}')
                with open(os.path.join(q, 'mark.txt'), 'w') as f:
                    f.write(str(s))
            elif op == 'file':
                f0 = p + ('.dat' if r.integers(2) else '.dat.txt')
                if os.path.isdir(f0):
                    continue
                had = os.path.isfile(f0)
                hit |= had
                q = io.new_file_path_with_int(f0)
                ctx.check(snapshot(root) == before, 'file system changed')
                ctx.check(not os.path.exists(q), f'{q} exists already')
                ctx.check(os.path.dirname(q) == root
                          and os.path.splitext(q)[1]
                          == os.path.splitext(f0)[1], f'path {q} for {f0}')
                if not had:
                    ctx.check(q == f0, f'free path {f0} not used')
                else:
                    ro, ex = os.path.splitext(f0)
                    m = re.fullmatch(re.escape(ro) + r'_(\d+)'
                                     + re.escape(ex), q)
                    ctx.check(m and all(os.path.isfile(f'{ro}_{i}{ex}')
                                        for i in range(1, int(m.group(1)))),
                              f'{q} is not the first free path')
                with open(q, 'w') as f:
                    f.write(str(s))
            elif op == 'sum':
                data = {}
                for i in range(int(r.integers(0, 5))):
                    k = int(r.integers(5))
                    data[f'k{i}_{r.integers(9)}'] = [
                        [int(r.integers(1000)), None, 0, False][
                            int(r.integers(4))], float(r.standard_normal()),
                        {f'u{j}': float(r.standard_normal())
                         if r.integers(2) else
                         [{f'w{j}': int(r.integers(1000))}, None, [], 0, '',
                          {}, {f'w{j}': None, f'z{j}': 0}][
                             int(r.integers(7))]
                         for j in range(int(r.integers(1, 3)))},
                        np.arange(int(r.integers(1, 4)))*int(r.integers(50)),
                        f'line{r.integers(99)}\nend{r.integers(99)}'][k]
                ttl = f'T{r.integers(99)}' if r.integers(2) else None
                io.write_summary_file(root, filename=nm, summary_title=ttl,
                                      **data)
                after = snapshot(root)
                tx = after.get(nm + '.dat')
                ctx.check(tx is not None, 'summary not written')
                ctx.check({x: y for x, y in after.items()
                           if x != nm + '.dat'}
                          == {x: y for x, y in before.items()
                              if x != nm + '.dat'}, 'other files changed')
                pos = 0
                flat = [ttl] if ttl else []
                for k, v in data.items():
                    flat.append(f'"{k}":')
                    if isinstance(v, dict):
                        for k2, v2 in v.items():
                            flat.append(f'"{k2}":')
                            flat += [f'"{a}": {b}' for a, b in v2.items()] \
                                if isinstance(v2, dict) else [str(v2)]
                    else:
                        flat.append(str(v))
                for x in flat:
                    j = tx.find(x, pos)
                    ctx.check(j >= 0, f'{x!r} missing (or out of order) in '
                              'summary')
                    pos = j + len(x)
            else:
                pat = [r'^out', r'_\d+$', r'\.dat$', 'zzz', r'^res\.dat$',
                       r'^run_1']
                k = int(r.integers(1, 4))
                rg = [pat[i] for i in r.permutation(len(pat))[:k]]
                found, fp = io.find_unique_file_with_regex(
                    root, rg[0] if k == 1 and r.integers(2) else tuple(rg))
                ls = os.listdir(root)
                first = next((g for g in rg if any(re.search(g, x)
                                                   for x in ls)), None)
                ctx.check(bool(found) == (first is not None)
                          and (fp is not None) == bool(found),
                          f'search {rg} in {ls}: {found}, {fp}')
                if found:
                    ctx.check(os.path.dirname(fp) == root
                              and os.path.basename(fp) in ls
                              and re.search(first, os.path.basename(fp)),
                              f'search {rg} in {ls} gave {fp}')
                    hit = True
                ctx.check(snapshot(root) == before, 'search changed files')
    ctx.nontrivial(hit)
