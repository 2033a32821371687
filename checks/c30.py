"""C30: figures show the given and recorded data."""
import contextlib
import io
import os
import pickle
import warnings
import matplotlib
matplotlib.use('Agg')
import matplotlib.collections as mc
import matplotlib.figure
import matplotlib.lines as ml
import matplotlib.patches as mp
import matplotlib.pyplot as plt
import mpl_toolkits.mplot3d.axes3d as m3
import numpy as np
import torch
from hypothesis import strategies as st
from harness import sub, to_np
from gen import fl, rng, seeds
import ioput.plots as P
import model_architectures.procedures.convergence_plots as CP
import model_architectures.procedures.model_prediction as MP
import model_architectures.procedures.model_training as MT
import model_architectures.rnn_base_model.optimization.\
    hydra_optimization_plots as HO
import user_scripts.complete_pipelines.local_model_update as L
import user_scripts.convergence_analyses.plot_convergence_analysis as CA
import user_scripts.convergence_analyses.plot_noisy_convergence_analysis \
    as NA
import user_scripts.global_model_update.utilities.process_specimen_data \
    as PS
import user_scripts.local_model_update.hybrid_material_model.\
    uncertainty_quantification as U_HYB
import user_scripts.local_model_update.rc_material_model.\
    uncertainty_quantification as U_RC
import user_scripts.local_model_update.rnn_material_model.\
    uncertainty_quantification as U_RNN
import user_scripts.synthetic_data.gen_response_dataset as GR
from data_generation.strain_paths.interface import StrainPathGenerator
from time_series_data.time_dataset import (
    TimeSeriesDatasetInMemory, save_dataset)

PROPERTY = 'C30'
RULE = ('Random data sets (number, length, padding, labels, scales, '
        'magnitudes), prediction and training records, ensembles and '
        'convergence analyses on disk; non-trivial if the figure shows '
        'several points or data sets.')
warnings.filterwarnings('ignore')
COMPS = ('11', '22', '33', '12', '23', '13')


# ----------------------------------------------------------------------------
# Recorder
# ----------------------------------------------------------------------------
def ck(ctx, ok, msg, got=None, expected=None):
    if not ok:
        ctx.check(False, f'{msg} (got {str(got)[:600]}; '
                         f'expected {str(expected)[:600]})')


def num(x):
    """Float array where missing entries are NaN."""
    x = np.ma.filled(np.ma.asarray(x).astype(float), np.nan)
    return np.asarray(x, dtype=float)


def snap(figure):
    """Content of every axes of a figure."""
    out = []
    for ax in figure.get_axes():
        a = dict(lines=[], points=[], bands=[], segments=[], rects=[],
                 axlines=[], meshes=[])
        for ln in ax.lines:
            if isinstance(ln, ml.AxLine):
                a['axlines'].append((ln.get_xy1(), ln.get_slope()))
            elif hasattr(ln, 'get_data_3d'):
                a['lines'].append((np.stack([num(x) for x in
                                             ln.get_data_3d()], 1),
                                   ln.get_label()))
            else:
                a['lines'].append((np.stack([
                    num(ln.get_xdata(orig=False)),
                    num(ln.get_ydata(orig=False))], 1), ln.get_label()))
        for co in ax.collections:
            if isinstance(co, mc.PathCollection):
                o = getattr(co, '_offsets3d', None)
                o = num(co.get_offsets()) if o is None else \
                    np.stack([num(x).reshape(-1) for x in o], 1)
                a['points'].append((o, co.get_label()))
            elif isinstance(co, mc.LineCollection):
                a['segments'] += [num(s) for s in co.get_segments()]
            elif isinstance(co, mc.QuadMesh):
                a['meshes'].append((num(co.get_coordinates()),
                                    num(co.get_array())))
            elif isinstance(co, mc.PolyCollection):
                a['bands'] += [num(p.vertices) for p in co.get_paths()]
        for pa in ax.patches:
            if isinstance(pa, mp.Rectangle):
                a['rects'].append((pa.get_x(), pa.get_y(), pa.get_width(),
                                   pa.get_height()))
        lg = ax.get_legend()
        a['legend'] = None if lg is None else [
            t.get_text() for t in lg.get_texts()]
        a['texts'] = [t.get_text() for t in ax.texts]
        a['labels'] = [ax.get_title(), ax.get_xlabel(), ax.get_ylabel()]
        if hasattr(ax, 'get_zlabel'):
            a['labels'].append(ax.get_zlabel())
        a['scales'] = (ax.get_xscale(), ax.get_yscale())
        a['xlim'], a['ylim'] = ax.get_xlim(), ax.get_ylim()
        a['ticks'] = [t.get_text() for t in ax.get_xticklabels()] \
            if not hasattr(ax, 'get_zlabel') else []
        out.append(a)
    return out


class Recorder(dict):
    """Saved figures by file name (without extension)."""

    def __init__(self):
        self.dirs = set()
        self.surfaces = []


@contextlib.contextmanager
def recording():
    rec = Recorder()
    old = (matplotlib.figure.Figure.savefig,
           matplotlib.figure.Figure.tight_layout, m3.Axes3D.plot_surface)

    def savefig(self, fname, *a, **k):
        rec.dirs.add(os.path.dirname(os.path.abspath(str(fname))))
        base = os.path.basename(str(fname)).rsplit('.', 1)[0]
        assert base not in rec, 'figure saved twice: ' + base
        rec[base] = snap(self)

    def surface(self, x, y, z, *a, **k):
        rec.surfaces.append((num(x), num(y), num(z), k.get('cmap')))
        return old[2](self, x, y, z, *a, **k)
    matplotlib.figure.Figure.savefig = savefig
    matplotlib.figure.Figure.tight_layout = lambda self, *a, **k: None
    m3.Axes3D.plot_surface = surface
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield rec
    finally:
        (matplotlib.figure.Figure.savefig,
         matplotlib.figure.Figure.tight_layout, m3.Axes3D.plot_surface) = old
        plt.close('all')


def clean(d):
    d = num(d)
    return d[~np.isnan(d).any(axis=1)]


def same(a, b, rtol=1e-9):
    a, b = clean(a), clean(b)
    if a.shape != b.shape:
        return False
    if a.size == 0:
        return True
    s = np.maximum(np.abs(a).max(axis=0), np.abs(b).max(axis=0))
    return bool((np.abs(a - b) <= rtol*s + 1e-300).all())


def text(x):
    return None if x is None else x.strip('$')


def shows(ctx, items, data, label, msg):
    """One of the drawn items is the given data with the given label."""
    ok = any(same(d, data) and (label is None or lb == text(label))
             for d, lb in items)
    ck(ctx, ok, f'{msg}: data not shown', got=[
        (lb, d.tolist()) for d, lb in items][:4],
        expected=(label, clean(data).tolist()))


def has(ctx, items, data, msg):
    ck(ctx, any(same(d, data) for d in items), f'{msg}: not shown',
              got=[d.tolist() for d in items][:4],
              expected=clean(data).tolist())


def band(ctx, a, x, lo, hi, msg):
    """Shaded range between two curves."""
    v = set()
    for b in a['bands']:
        ok = True
        for xi, l, h in zip(x, lo, hi):
            s = 1e-9*max(abs(lo).max(), abs(hi).max(), 1e-300)
            at = b[np.abs(b[:, 0] - xi) <= 1e-9*max(np.abs(x).max(), 1e-300)]
            if (len(at) == 0 or (np.abs(at[:, 1] - l) > s).all()
                    or (np.abs(at[:, 1] - h) > s).all()
                    or at[:, 1].min() < l - s or at[:, 1].max() > h + s):
                ok = False
                break
        if ok:
            return
    ck(ctx, False, f'{msg}: range not shown', got=[
        b.tolist() for b in a['bands']][:3],
        expected=[list(x), list(lo), list(hi)])


def bars(ctx, a, x, lo, hi, msg):
    """Error bars."""
    for xi, l, h in zip(x, lo, hi):
        has(ctx, a['segments'], np.array([[xi, l], [xi, h]]), msg)


def refuses(ctx, f, msg):
    try:
        f()
    except Exception:
        return
    finally:
        plt.close('all')
    ck(ctx, False, f'{msg}: accepted')


LABELS = st.sampled_from(['data', 'b 2', 'N = 10', '$x$', 'Truth', 'a_1'])


def data_sets(r, n, lens, positive, pad):
    """Data array of sets of different lengths with missing entries."""
    sets, m = [], max(lens)
    arr = np.full((m, 2*n), None if pad == 'none' else np.nan,
                  dtype=object if pad == 'none' else float)
    for i in range(n):
        k = lens[i]
        s = 10.0**r.integers(-4, 5)
        x = np.sort(r.uniform(0.1, 9.0, k))
        y = s*(r.uniform(0.1, 4.0, k) if positive else r.normal(size=k))
        sets.append(np.stack((x, y), 1))
        arr[:k, 2*i], arr[:k, 2*i + 1] = x, y
    return arr, sets


@st.composite
def sets_case(draw, most=4, least=1):
    n = draw(st.integers(1, most))
    return {'n': n,
            'lens': [draw(st.integers(least, 9)) for _ in range(n)],
            'labels': draw(st.one_of(st.none(), st.lists(
                LABELS, min_size=n, max_size=n, unique=True))),
            'xs': draw(st.sampled_from(['linear', 'log'])),
            'ys': draw(st.sampled_from(['linear', 'log'])),
            'pad': draw(st.sampled_from(['none', 'nan'])),
            'lims': draw(st.booleans()), 'ref': draw(st.booleans()),
            'k': draw(st.integers(0, 9)), 's': draw(seeds())}


def frame(ctx, c, a, names):
    ck(ctx, a['labels'] == names, 'axes labels', got=a['labels'],
              expected=names)
    ck(ctx, a['scales'] == (c['xs'], c['ys']), 'scales', got=a['scales'])
    if c['labels'] is not None:
        ck(ctx, a['legend'] is not None and set(
            text(x) for x in c['labels']) <= set(a['legend']), 'legend',
            got=a['legend'], expected=c['labels'])
    if c['lims']:
        ctx.close(np.array(a['xlim']), np.array([0.05, 20.0]), 1e-9, 0,
                  'x limits')
        ctx.close(np.array(a['ylim']), np.array([0.001, 5.0]), 1e-9, 0,
                  'y limits')


def common(c):
    lims = dict(x_lims=(0.05, 20.0), y_lims=(0.001, 5.0)) if c['lims'] else {}
    return dict(data_labels=c['labels'], x_scale=c['xs'], y_scale=c['ys'],
                title='t', x_label='$u$', y_label='w', **lims)


@sub('curves', sets_case, quick=70, thorough=3000, shards=4)
def _(c, ctx):
    """Curves of several data sets."""
    r = rng(c['s'])
    arr, sets = data_sets(r, c['n'], c['lens'], c['ys'] == 'log', c['pad'])
    keep = arr.copy()
    with recording():
        f, ax = P.plot_xy_data(arr, is_reference_data=c['ref'],
                               marker=[None, 'o'][c['k'] % 2], **common(c))
        a = snap(f)[0]
        ck(ctx, str(arr.tolist()) == str(keep.tolist()), 'data changed')
        ck(ctx, len(a['lines']) == c['n'], 'number of curves')
        for i, d in enumerate(sets):
            shows(ctx, a['lines'], d, c['labels'] and c['labels'][i],
                  'curve')
        frame(ctx, c, a, ['t', 'u', 'w'])
        # Two vertical axes
        d1, d2 = sets[0], sets[-1]
        f, ax = P.plot_xy2_data(d1, d2, x_label='u', y1_label='v',
                                y2_label='w', x_scale=c['xs'],
                                y1_scale=c['ys'])
        a = snap(f)
        ck(ctx, len(a) == 2, 'two axes')
        lab = {x['labels'][2]: x for x in a}
        ck(ctx, set(lab) == {'v', 'w'}, 'labels of the vertical axes')
        for k, d in (('v', d1), ('w', d2)):
            ck(ctx, len(lab[k]['lines']) == 1, 'one curve per axis')
            shows(ctx, lab[k]['lines'], d, None, 'curve of axis ' + k)
        # Refusals
        if arr.shape[1] > 0:
            refuses(ctx, lambda: P.plot_xy_data(arr[:, :-1]), 'odd columns')
            refuses(ctx, lambda: P.plot_xy_data(
                arr, data_labels=['a']*(c['n'] + 1)), 'labels')
    ctx.nontrivial(c['n'] > 1)


@sub('space', sets_case, quick=40, thorough=1500, shards=4)
def _(c, ctx):
    """Curves and surfaces in space."""
    r = rng(c['s'])
    n, m = c['n'], max(c['lens'])
    arr = np.full((m, 3*n), np.nan)
    sets = []
    for i, k in enumerate(c['lens']):
        d = r.normal(size=(k, 3))*10.0**r.integers(-3, 4)
        arr[:k, 3*i:3*i + 3] = d
        sets.append(d)
    with recording() as rec:
        f, ax = P.plot_xyz_data(arr, data_labels=c['labels'], x_label='u',
                                y_label='v', z_label='w')
        a = snap(f)[0]
        ck(ctx, len(a['lines']) == n, 'number of curves')
        for i, d in enumerate(sets):
            shows(ctx, a['lines'], d, c['labels'] and c['labels'][i],
                  'curve in space')
        ck(ctx, a['labels'][1:] == ['u', 'v', 'w'], 'labels')
        refuses(ctx, lambda: P.plot_xyz_data(arr[:, :-1]), 'columns')
        refuses(ctx, lambda: P.plot_xyz_data(
            arr, data_labels=['a']*(n + 1)), 'labels')
        # Surface
        x, y = np.meshgrid(np.arange(2.0, 4.0 + c['k'] % 3),
                           np.arange(5.0, 7.0 + c['k'] % 4), indexing='ij')
        z = r.normal(size=x.shape)
        cm = ['viridis', 'plasma', None, 'jet'][c['k'] % 4]
        kw = {} if c['k'] == 2 else dict(colormap=cm)
        mk = [None, 'o'][c['k'] % 2]
        f, ax = P.plot_surface_xyz_data(x, y, z, marker=mk, x_label='u',
                                        y_label='v', z_label='w', **kw)
        ck(ctx, len(rec.surfaces) == 1, 'one surface')
        for g, e, t in zip(rec.surfaces[0], (x, y, z), 'xyz'):
            ctx.close(g, e, 0, 0, 'surface ' + t)
        got = rec.surfaces[0][3]
        got = getattr(got, 'name', got)
        ck(ctx, got == (cm if 'colormap' in kw and cm else 'viridis'),
                  'colormap', got=str(got), expected=cm)
        a = snap(f)[0]
        ck(ctx, a['labels'][1:] == ['u', 'v', 'w'], 'labels')
        if mk:
            p = np.stack([q.reshape(-1) for q in (x, y, z)], 1)
            ck(ctx, any(same(sorted_rows(d), sorted_rows(p))
                          for d, _ in a['points']), 'surface points')
        refuses(ctx, lambda: P.plot_surface_xyz_data(x, y, z[:-1]), 'shapes')
        refuses(ctx, lambda: P.plot_surface_xyz_data(
            x, y, z, colormap='no_such_map'), 'colormap')
    ctx.nontrivial(n > 1)


def sorted_rows(d):
    d = np.asarray(d, dtype=float)
    return d[np.lexsort(d.T[::-1])]


@st.composite
def range_case(draw):
    n = draw(st.integers(1, 3))
    return {'n': n, 'm': [draw(st.integers(2, 7)) for _ in range(n)],
            'p': [draw(st.integers(1, 5)) for _ in range(n)],
            'labels': draw(st.one_of(st.none(), st.lists(
                LABELS, min_size=n, max_size=n, unique=True))),
            'rt': draw(st.sampled_from(['min-max', 'mean-std', None])),
            'ref': draw(st.booleans()), 'bar': draw(st.booleans()),
            'shade': draw(st.booleans()), 's': draw(seeds())}


def bounds(y, rt):
    mean = y.mean(axis=1)
    if rt == 'min-max':
        return mean, y.min(axis=1), y.max(axis=1)
    sd = np.sqrt(((y - mean[:, None])**2).mean(axis=1))
    return mean, mean - 1.96*sd, mean + 1.96*sd


@sub('ranges', range_case, quick=70, thorough=3000, shards=4)
def _(c, ctx):
    """Mean and range of several predictions."""
    r = rng(c['s'])
    data = [np.hstack((np.cumsum(r.uniform(0.5, 2.0, m))[:, None],
                       10.0**r.integers(-3, 4)*r.normal(size=(m, p))))
            for m, p in zip(c['m'], c['p'])]
    lab = c['labels'] or [None]*c['n']
    with recording():
        f, _ = P.plot_xny_data(
            data, range_type=c['rt'], is_error_bar=c['bar'],
            is_error_shading=c['shade'], data_labels=c['labels'],
            is_reference_data=c['ref'], x_label='u', y_label='w')
        a = snap(f)[0]
        ck(ctx, a['labels'] == ['', 'u', 'w'], 'labels')
        n_band = 0
        for i, d in enumerate(data):
            if c['ref'] and i == 0:
                shows(ctx, a['lines'], d[:, :2], lab[i], 'reference')
                continue
            mean, lo, hi = bounds(d[:, 1:], c['rt'])
            curve = np.stack((d[:, 0], mean), 1)
            has(ctx, [x for x, _ in a['lines']], curve, 'mean')
            if c['rt'] is None:
                continue
            n_band += 1
            if c['shade']:
                band(ctx, a, d[:, 0], lo, hi, c['rt'])
            if c['bar']:
                bars(ctx, a, d[:, 0], lo, hi, c['rt'])
        if not c['shade']:
            n_band = 0
        ck(ctx, len(a['bands']) == n_band, 'number of ranges')
        if c['labels']:
            ck(ctx, a['legend'] is not None and sorted(a['legend'])
                      == sorted(text(x) for x in lab), 'legend',
                      got=a['legend'])
        # Scattered predictions
        f, _ = P.scatter_xny_data(data, data_labels=c['labels'],
                                  is_error_bar=c['bar'], range_type=c['rt'])
        a = snap(f)[0]
        for i, d in enumerate(data):
            if c['bar']:
                mean, lo, hi = bounds(d[:, 1:], c['rt'])
                has(ctx, [x for x, _ in a['lines']],
                    np.stack((d[:, 0], mean), 1), 'mean')
                if c['rt'] is not None:
                    bars(ctx, a, d[:, 0], lo, hi, c['rt'])
            else:
                pts = sorted_rows(np.concatenate([
                    d[:, [0, j]] for j in range(1, d.shape[1])]))
                ck(ctx, any(same(sorted_rows(x), pts) for x, _ in
                              a['points']), 'scattered predictions')
        for bad in (data[0], [x.tolist() for x in data],
                    [x[:, 0] for x in data]):
            refuses(ctx, lambda: P.plot_xny_data(bad), 'data type')
            refuses(ctx, lambda: P.scatter_xny_data(bad), 'data type')
    ctx.nontrivial(c['n'] > 1)


@sub('scatter', lambda: st.tuples(sets_case(most=3, least=2),
                                  st.fixed_dictionaries({
    'id': st.sampled_from([None, 0.1, 0.25, 'line']),
    'r2': st.booleans(), 'dle': st.booleans(), 'marg': st.booleans(),
    'bar': st.booleans(), 'rt': st.sampled_from(['min-max', 'mean-std']),
    'unit': st.sampled_from([1.0, 1e-5, 1e-2, 1e3])})),
    quick=70, thorough=3000, shards=4)
def _(cc, ctx):
    """Scattered data, identity line, correlation and marginals."""
    c, o = cc
    c = dict(c, lims=False, xs='linear', ys='linear')
    r = rng(c['s'])
    if o['bar'] or o['marg'] or o['r2'] or o['dle']:
        c['lens'] = [c['lens'][0]]*c['n']
        c['pad'] = 'nan'
    arr, sets = data_sets(r, c['n'], c['lens'], False, c['pad'])
    if c['pad'] == 'nan':
        arr, sets = arr*o['unit'], [d*o['unit'] for d in sets]
    if o['bar']:
        for i in range(1, c['n']):
            sets[i][:, 0] = sets[0][:, 0]
            arr[:, 2*i] = arr[:, 0]
    kw = common(c)
    if o['id'] is not None:
        kw.update(is_identity_line=True)
        if o['id'] != 'line':
            kw.update(identity_error=o['id'])
    with recording():
        f, ax = P.scatter_xy_data(
            arr, is_r2_coefficient=o['r2'], is_direct_loss_estimator=o['dle'],
            is_marginal_dists=o['marg'], is_error_bar=o['bar'],
            range_type=o['rt'], **kw)
        al = snap(f)
        a = [x for x in al if x['labels'] == ['t', 'u', 'w']]
        ck(ctx, len(a) == 1, 'axes labels')
        a = a[0]
        if o['bar']:
            y = np.stack([d[:, 1] for d in sets], 1)
            mean, lo, hi = bounds(y, o['rt'])
            has(ctx, [x for x, _ in a['lines']],
                np.stack((sets[0][:, 0], mean), 1), 'mean')
            bars(ctx, a, sets[0][:, 0], lo, hi, o['rt'])
        else:
            ck(ctx, len(a['points']) == c['n'], 'number of point sets')
            for i, d in enumerate(sets):
                shows(ctx, a['points'], d, c['labels'] and c['labels'][i],
                      'points')
            if c['labels']:
                ck(ctx, set(text(x) for x in c['labels'])
                          <= set(a['legend']), 'legend')
        ck(ctx, len(a['axlines']) == (o['id'] is not None),
                  'identity line')
        for p, s in a['axlines']:
            ck(ctx, p[0] == p[1] and s == 1, 'identity line')
        if o['id'] not in (None, 'line'):
            ck(ctx, f"{100*o['id']:.0f}% error" in a['legend'],
                      'error label')
            b = a['bands'][0]
            ratio = b[np.abs(b[:, 0]) > 1e-12]
            q = ratio[:, 1]/ratio[:, 0]
            ck(ctx, np.all(np.minimum(abs(q - 1 - o['id']),
                                        abs(q - 1 + o['id'])) < 1e-6)
                      and q.min() < 1 < q.max(), 'identity error band')
        elif not o['bar']:
            ck(ctx, not a['bands'], 'no error band')
        x, y = sets[0].T
        if c['n'] == 1 and len(x) > 1:
            clear = ((x - y)**2).sum() < 1e6*((x - x.mean())**2).sum()
            if o['r2'] and clear:
                r2 = 1 - ((x - y)**2).sum()/((x - x.mean())**2).sum()
                ok = [t for t in a['texts'] if '=' in t]
                ck(ctx, len(ok) == 1, 'coefficient of determination')
                got = float(ok[0].split('=')[1].strip('$ '))
                ck(ctx, abs(got - r2) <= 0.00501 + 1e-6*abs(r2),
                          'coefficient of determination', got=got,
                          expected=r2)
            elif not o['r2']:
                ck(ctx, not any('R^2' in t for t in a['texts']),
                          'no coefficient')
            if o['dle'] and np.ptp(x) > 1e-3:
                p = np.polyfit(x, y, 1)
                fit = np.polyval(p, x)
                e = np.polyval(np.polyfit(x, abs(y - fit), 1), x)
                s = max(abs(y).max(), 1e-300)
                for t in (fit, fit - e, fit + e):
                    ck(ctx, any(d.shape == (len(x), 2) and np.allclose(
                        d[:, 1], t, rtol=0, atol=1e-6*s) and np.allclose(
                            d[:, 0], x) for d, _ in a['lines']),
                        'direct loss estimator')
        if o['marg']:
            hist = [x for x in al if x is not a and x['rects']]
            ck(ctx, len(hist) == 2, 'two marginal distributions')
            for h in hist:
                q = np.array(h['rects'])
                area = (q[:, 2]*q[:, 3]).sum()
                ck(ctx, abs(area - 1) < 1e-9, 'marginal density')
                ck(ctx, len(q) == 20, 'marginal bins')
            lo = {round(float(np.array(h['rects'])[:, 0].min()), 9)
                  for h in hist} | {round(float(
                      np.array(h['rects'])[:, 1].min()), 9) for h in hist}
            for v in (min(d[:, 0].min() for d in sets),
                      min(d[:, 1].min() for d in sets)):
                ck(ctx, any(abs(v - w) < 1e-6*max(1, abs(v)) for w in lo),
                          'marginal start', got=sorted(lo), expected=v)
        refuses(ctx, lambda: P.scatter_xy_data(arr[:, :-1]), 'odd columns')
        refuses(ctx, lambda: P.scatter_xy_data(
            arr, data_labels=['a']*(c['n'] + 1)), 'labels')
    ctx.nontrivial(sum(c['lens']) > 3)


@sub('charts', lambda: st.fixed_dictionaries({
    'g': st.integers(1, 5), 'n': st.integers(1, 4), 'avg': st.booleans(),
    'w': st.sampled_from([None, 0.1, 0.2]), 'm': st.integers(3, 12),
    'mean': st.booleans(), 'multi': st.booleans(), 'bins': st.integers(1, 8),
    'dens': st.booleans(), 'lab': st.booleans(), 'rg': st.booleans(),
    's': seeds()}), quick=60, thorough=2500, shards=4)
def _(c, ctx):
    """Bar charts, box plots and histograms."""
    r = rng(c['s'])
    g, n = c['g'], c['n']
    names = tuple(f'G{i}' for i in range(g))
    vals = {f'D{j}': tuple(10.0**r.integers(-3, 4)*r.uniform(0.1, 1.0, g))
            for j in range(n)}
    with recording():
        f, _ = P.grouped_bar_chart(names, vals, bar_width=c['w'],
                                   is_avg_hline=c['avg'], x_label='u',
                                   y_label='w')
        f.canvas.draw()
        a = snap(f)[0]
        q = np.array(a['rects'])
        ck(ctx, len(q) == g*n, 'number of bars')
        left = 0
        for j, v in enumerate(vals.values()):
            hit = [i for i in range(len(q) - g + 1)
                   if np.allclose(q[i:i + g, 3], v, rtol=1e-12)]
            ck(ctx, len(hit) > 0, 'bar heights', got=q.tolist(),
                      expected=v)
            b = q[hit[0]:hit[0] + g]
            # Bars of a group next to its label, in the data set order
            x = b[:, 0] + 0.5*b[:, 2]
            ck(ctx, np.allclose(np.diff(x), 1.0), 'bar positions')
            ck(ctx, -0.5 < x[0] < 1.0 and (j == 0 or x[0] > left),
                      'bar group', got=x.tolist())
            left = x[0]
        # No overlapping bars (default width)
        if c['w'] is None or n*c['w'] < 1:
            o = q[np.argsort(q[:, 0])]
            ck(ctx, np.all(o[1:, 0] >= o[:-1, 0] + o[:-1, 2] - 1e-9),
                      'bars overlap')
        ck(ctx, [t for t in a['ticks'] if t] == list(names), 'group names',
                  got=a['ticks'])
        ck(ctx, set(vals) <= set(a['legend']), 'legend')
        if c['avg']:
            for v in vals.values():
                ck(ctx, any(np.allclose(d[:, 1], np.mean(v), rtol=1e-9)
                              for d, _ in a['lines'] if len(d) == 2),
                          'average line')
        refuses(ctx, lambda: P.grouped_bar_chart(list(names), vals), 'type')
        refuses(ctx, lambda: P.grouped_bar_chart(
            names + ('x',), vals), 'number of groups')
        # Box plots
        d = r.normal(size=(c['m'], n))*10.0**r.integers(-3, 4, n)
        lb = [f'B{j}' for j in range(n)] if c['lab'] else None
        f, _ = P.plot_boxplots(d, lb, is_mean_line=c['mean'],
                               is_multiple_subplots=c['multi'],
                               x_label='u', y_label='w')
        f.canvas.draw()
        al = snap(f)
        ck(ctx, len(al) == (n if c['multi'] else 1), 'number of axes')
        for j in range(n):
            a = al[j if c['multi'] else 0]
            x = 1.0 if c['multi'] else j + 1.0
            near = [p for p, _ in a['lines'] if len(p) == 2
                    and p[:, 0].min() < x < p[:, 0].max()
                    and np.ptp(p[:, 0]) < 0.95]
            ys = [p[0, 1] for p in near if p[0, 1] == p[1, 1]]
            s = 1e-9*abs(d[:, j]).max()
            ck(ctx, any(abs(y - np.median(d[:, j])) <= s for y in ys),
                      'median', got=ys, expected=float(np.median(d[:, j])))
            got = any(abs(y - d[:, j].mean()) <= s for y in ys)
            ck(ctx, got or not c['mean'], 'mean line', got=ys,
                      expected=float(d[:, j].mean()))
            if c['lab']:
                ck(ctx, [t for t in a['ticks'] if t] == (
                    [lb[j]] if c['multi'] else lb), 'box names',
                    got=a['ticks'])
        refuses(ctx, lambda: P.plot_boxplots(d, ['a']*(n + 1)), 'labels')
        # Histogram
        data = tuple(r.normal(size=r.integers(1, 15)) for _ in range(n))
        if c['rg'] and n > 1:
            data = data[:1]
        rg = (-1.0, 1.0) if c['rg'] else None
        lb = [f'H{j}' for j in range(len(data))] if c['lab'] else None
        f, _ = P.plot_histogram(data, lb, bins=c['bins'], bins_range=rg,
                                density=c['dens'], x_label='u', y_label='w')
        a = snap(f)[0]
        q = np.array(a['rects'])
        allv = np.concatenate(data)
        edges = np.histogram_bin_edges(allv, c['bins'], rg)
        ck(ctx, len(q) == c['bins']*len(data), 'number of bins')
        for j, v in enumerate(data):
            h = np.array([((v >= edges[i]) & (
                (v < edges[i + 1]) | (i == c['bins'] - 1) & (
                    v <= edges[i + 1]))).sum() for i in range(c['bins'])],
                dtype=float)
            if c['dens']:
                if h.sum() == 0:
                    continue
                h = h/h.sum()/np.diff(edges)
            ctx.close(q[j*c['bins']:(j + 1)*c['bins'], 3], h, 1e-9, 1e-12,
                      'bin heights')
            mid = q[j*c['bins']:(j + 1)*c['bins'], 0] + \
                0.5*q[j*c['bins']:(j + 1)*c['bins'], 2]
            ck(ctx, np.all((mid > edges[:-1]) & (mid < edges[1:])),
                      'bin positions')
        if lb:
            ck(ctx, a['legend'] is not None
                      and set(a['legend']) == set(lb), 'histogram legend',
                      got=a['legend'])
        refuses(ctx, lambda: P.plot_histogram(list(data)), 'type')
        # Two dimensions
        p = r.normal(size=(c['m'], 2))
        f, _ = P.plot_histogram_2d(p, bins=c['bins'], density=False,
                                   x_label='u', y_label='w')
        a = [x for x in snap(f) if x['labels'][1:] == ['u', 'w']][0]
        co, z = a['meshes'][0]
        z = z.reshape(c['bins'], c['bins'])
        h = np.zeros((c['bins'], c['bins']))
        ex = np.linspace(p[:, 0].min(), p[:, 0].max(), c['bins'] + 1)
        ey = np.linspace(p[:, 1].min(), p[:, 1].max(), c['bins'] + 1)
        for u, v in p:
            i = min(max(np.searchsorted(ex, u, 'right') - 1, 0),
                    c['bins'] - 1)
            j = min(max(np.searchsorted(ey, v, 'right') - 1, 0),
                    c['bins'] - 1)
            h[j, i] += 1
        ctx.close(z, h, 0, 0, 'frequencies')
        ctx.close(co[0, :, 0], ex, 1e-9, 1e-12, 'x edges')
        ctx.close(co[:, 0, 1], ey, 1e-9, 1e-12, 'y edges')
    ctx.nontrivial(g*n > 2)


# ----------------------------------------------------------------------------
# Predictions and training histories
# ----------------------------------------------------------------------------
@st.composite
def prediction_case(draw):
    n = draw(st.integers(1, 4))
    return {'n': n, 'm': [draw(st.integers(2, 8)) for _ in range(n)],
            'p': [draw(st.integers(1, 4)) for _ in range(n)],
            'labels': draw(st.lists(LABELS, min_size=n, max_size=n,
                                    unique=True)),
            'ref': draw(st.booleans()), 'norm': draw(st.booleans()),
            'rt': draw(st.sampled_from(['min-max', 'mean-std', None])),
            'eb': draw(st.sampled_from([None, 0.1, 0.3])),
            's': draw(seeds())}


@sub('predictions', prediction_case, quick=60, thorough=2500, shards=4)
def _(c, ctx):
    """Predicted time series and predictions against the truth."""
    r = rng(c['s'])
    d = ctx.scratch()
    sets = {lb: np.hstack((np.cumsum(r.uniform(0.5, 2.0, m))[:, None],
                           100*r.normal(size=(m, p))))
            for lb, m, p in zip(c['labels'], c['m'], c['p'])}
    keep = {k: v.copy() for k, v in sets.items()}
    with recording() as rec:
        MP.plot_time_series_prediction(
            sets, is_reference_data=c['ref'], x_label='u', y_label='w',
            is_normalize_data=c['norm'], filename='a', save_dir=d,
            is_save_fig=True)
        MP.plot_time_series_prediction(
            sets, is_reference_data=c['ref'], x_label='u', y_label='w',
            is_uncertainty_quantification=True, range_type=c['rt'],
            filename='b', save_dir=d, is_save_fig=True)
        pairs = {k: v[:, :2] for k, v in sets.items()}
        MP.plot_truth_vs_prediction(
            pairs, error_bound=c['eb'], filename='c', save_dir=d,
            is_save_fig=True, is_normalize_data=c['norm'])
    ck(ctx, set(rec) == {'a', 'b', 'c'} and rec.dirs
       == {os.path.abspath(d)}, 'saved figures', got=sorted(rec))
    ck(ctx, all(np.array_equal(sets[k], keep[k]) for k in keep),
       'predictions changed')
    a = rec['a'][0]
    ck(ctx, len(a['lines']) == c['n'], 'number of time series')
    lo = min(v[:, 1].min() for v in sets.values())
    hi = max(v[:, 1].max() for v in sets.values())
    for k, v in sets.items():
        e = v[:, :2].copy()
        if c['norm']:
            e[:, 0] = np.linspace(0, 1, len(e))
            e[:, 1] = (e[:, 1] - lo)/(hi - lo)
        shows(ctx, a['lines'], e, k, 'time series')
    u, w = a['labels'][1:]
    ck(ctx, u.startswith('u') and w.startswith('w')
       and ('ormalized' in u) == c['norm'], 'labels', got=a['labels'])
    a = rec['b'][0]
    for i, (k, v) in enumerate(sets.items()):
        if i == 0 and c['ref']:
            shows(ctx, a['lines'], v[:, :2], k, 'reference')
            continue
        mean, l, h = bounds(v[:, 1:], c['rt'])
        has(ctx, [x for x, _ in a['lines']], np.stack((v[:, 0], mean), 1),
            'mean time series')
        if c['rt'] is not None:
            band(ctx, a, v[:, 0], l, h, 'range of time series')
    ck(ctx, sorted(a['legend']) == sorted(text(x) for x in sets), 'legend')
    a = rec['c'][0]
    ck(ctx, len(a['points']) == c['n'], 'number of prediction processes')
    for k, v in pairs.items():
        if c['norm']:
            v = (v - v.min())/(v.max() - v.min())
        shows(ctx, a['points'], v, k, 'truth and prediction')
    ck(ctx, len(a['axlines']) == (c['eb'] is not None), 'identity line')
    if c['eb'] is not None:
        ck(ctx, f"{100*c['eb']:.0f}% error" in a['legend'], 'error bound')
    for f in (MP.plot_time_series_prediction, MP.plot_truth_vs_prediction):
        refuses(ctx, lambda: f([x for x in pairs.values()]), 'type')
        refuses(ctx, lambda: f({'a': np.zeros((3, 1))}), 'shape')
    ctx.nontrivial(c['n'] > 1)


@st.composite
def history_case(draw):
    n = draw(st.integers(1, 3))
    return {'n': n, 'm': [draw(st.integers(1, 9)) for _ in range(n)],
            'log': draw(st.booleans()), 'sc': draw(st.sampled_from(
                ['linear', 'log'])), 'lt': draw(st.sampled_from(
                    [None, 'MSE'])), 's': draw(seeds())}


@sub('histories', history_case, quick=50, thorough=2000, shards=2)
def _(c, ctx):
    """Training loss, learning rate and parameter histories."""
    r = rng(c['s'])
    d = ctx.scratch()
    if c['log']:
        c = dict(c, sc='linear')
    hist = {f'h{i}': [float(x) for x in 10.0**r.uniform(-6, 3, m)]
            for i, m in enumerate(c['m'])}
    lr = [float(x) for x in 10.0**r.uniform(-6, 0, c['m'][0])]
    par = {f'p{i}': [float(x) for x in r.normal(size=m)]
           for i, m in enumerate(c['m'])}
    bnd = {k: tuple(sorted(r.normal(size=2))) for k in par}
    with recording() as rec:
        MT.plot_training_loss_history(
            hist, loss_type=c['lt'], is_log_loss=c['log'],
            loss_scale=c['sc'], filename='a', save_dir=d, is_save_fig=True)
        MT.plot_training_loss_and_lr_history(
            hist['h0'], lr, loss_type=c['lt'], is_log_loss=c['log'],
            loss_scale=c['sc'], filename='b', save_dir=d, is_save_fig=True)
        MT.plot_model_parameters_history(par, bnd, filename='p', save_dir=d,
                                         is_save_fig=True)
    ck(ctx, set(rec) == {'a', 'b'} | {f'p_{k}' for k in par}, 'figures',
       got=sorted(rec))

    def loss(v):
        return np.stack((np.arange(len(v)),
                         np.log(v) if c['log'] else np.array(v)), 1)
    a = rec['a'][0]
    ck(ctx, len(a['lines']) == c['n'], 'number of loss histories')
    for k, v in hist.items():
        shows(ctx, a['lines'], loss(v), k, 'loss history')
    ck(ctx, a['scales'][1] == c['sc'], 'loss scale')
    ck(ctx, ('log' in a['labels'][2]) == c['log'] and (
        c['lt'] is None or c['lt'] in a['labels'][2]), 'loss label')
    lab = {('lr' if 'earning' in x['labels'][2] else 'loss'): x
           for x in rec['b']}
    ck(ctx, set(lab) == {'lr', 'loss'}, 'loss and learning rate')
    shows(ctx, lab['loss']['lines'], loss(hist['h0']), None, 'loss')
    shows(ctx, lab['lr']['lines'], np.stack((np.arange(len(lr)), lr), 1),
          None, 'learning rate')
    for k, v in par.items():
        a = rec[f'p_{k}'][0]
        shows(ctx, a['lines'], np.stack((np.arange(len(v)), v), 1), None,
              'parameter history')
        ck(ctx, k in a['labels'][2], 'parameter name')
        ys = [s[0, 1] for s in a['segments'] if s[0, 1] == s[1, 1]]
        for b in bnd[k]:
            ck(ctx, any(abs(y - b) <= 1e-12 for y in ys),
               'parameter bounds', got=ys, expected=b)
    refuses(ctx, lambda: MT.plot_training_loss_history([1.0]), 'type')
    refuses(ctx, lambda: MT.plot_training_loss_and_lr_history(
        hist['h0'], lr + [1.0]), 'lengths')
    refuses(ctx, lambda: MT.plot_training_loss_history({'a': (1.0,)}),
            'type')
    ctx.nontrivial(max(c['m']) > 1)


@st.composite
def path_case(draw):
    n = draw(st.integers(1, 4))
    return {'n': n, 'm': [draw(st.integers(2, 6)) for _ in range(n)],
            'dim': draw(st.sampled_from([2, 3])),
            'single': draw(st.booleans()), 't0': draw(st.booleans()),
            's': draw(seeds())}


def tensor(v, order, dim):
    t = np.zeros((dim, dim))
    for x, k in zip(v, order):
        i, j = int(k[0]) - 1, int(k[1]) - 1
        t[i, j] = t[j, i] = x
    return t


def density(ctx, a, values, bins, msg):
    """Histogram of the given values."""
    v = np.asarray(values).reshape(-1)
    q = np.array(a['rects'])
    ck(ctx, len(q) == bins, msg + ': bins')
    s = max(abs(v).max(), 1e-12)
    if np.ptp(v) < 1e-9*s:
        return
    ck(ctx, abs(q[:, 0].min() - v.min()) < 1e-6*s and abs(
        (q[:, 0] + q[:, 2]).max() - v.max()) < 1e-6*s, msg + ': range',
        got=[q[:, 0].min(), (q[:, 0] + q[:, 2]).max()],
        expected=[v.min(), v.max()])
    n = q[:, 3]*q[:, 2]*len(v)
    ck(ctx, abs(n - np.round(n)).max() < 1e-6 and round(n.sum()) == len(v),
       msg + ': number of values', got=n.sum(), expected=len(v))
    # Counts, values on a bin edge to either side
    for x, h in zip(q, n):
        e = 1e-9*s
        lo = ((v > x[0] + e) & (v < x[0] + x[2] - e)).sum()
        hi = ((v > x[0] - e) & (v < x[0] + x[2] + e)).sum()
        ck(ctx, lo <= round(h) <= hi, msg + ': counts', got=h,
           expected=(lo, hi))


def medians(ctx, a, data, names, msg):
    for j in range(data.shape[1]):
        ys = [p[0, 1] for p, _ in a['lines'] if len(p) == 2
              and p[0, 1] == p[1, 1] and p[:, 0].min() < j + 1 <
              p[:, 0].max() and np.ptp(p[:, 0]) < 0.95]
        e = float(np.median(data[:, j]))
        ck(ctx, any(abs(y - e) <= 1e-9*max(abs(data[:, j]).max(), 1e-300)
                    for y in ys), msg + ': median', got=ys, expected=e)
    ck(ctx, [t for t in a['ticks'] if t] == list(names), msg + ': names',
       got=a['ticks'])


@sub('paths', path_case, quick=50, thorough=2000, shards=6)
def _(c, ctx):
    """Strain and stress paths of any length."""
    r = rng(c['s'])
    d = ctx.scratch()
    dim = c['dim']
    order = ('11', '22', '12') if dim == 2 else COMPS
    n = 1 if c['single'] else c['n']
    ts = [np.cumsum(r.uniform(0.5, 1.5, m)) - (0.0 if c['t0'] else 0.4)
          for m in c['m'][:n]]
    es = [r.normal(size=(m, len(order))) for m in c['m'][:n]]
    st6 = [50*r.normal(size=(m, 6)) for m in c['m'][:n]]
    one = c['single']
    with recording() as rec:
        StrainPathGenerator.plot_strain_path(
            'infinitesimal', dim, order, ts[0] if one else ts,
            es[0] if one else es, is_plot_strain_path=True,
            is_plot_strain_comp_hist=True, is_plot_strain_norm=True,
            is_plot_strain_norm_hist=True, is_plot_inc_strain_norm=True,
            is_plot_inc_strain_norm_hist=True,
            is_plot_strain_path_pairs=True, is_plot_strain_pairs_hist=True,
            is_plot_strain_pairs_marginals=True,
            is_plot_strain_comp_box=True, filename='e', save_dir=d,
            is_save_fig=True)
    for k in range(min(n, 3)):
        a = rec['e' if n == 1 else f'e_sample_{k}'][0]
        for j, o in enumerate(order):
            shows(ctx, a['lines'], np.stack((ts[k], es[k][:, j]), 1),
                  f'Strain {o}', 'strain path')
    norm = [np.array([np.linalg.norm(tensor(v, order, dim)) for v in e])
            for e in es]
    inc = [np.array([0.0] + [np.linalg.norm(tensor(x, order, dim))
                             for x in np.diff(e, axis=0)]) for e in es]
    for k in range(n):
        shows(ctx, rec['e_norm'][0]['lines'], np.stack((ts[k], norm[k]), 1),
              None, 'strain norm')
        # The initial step has no increment
        e = np.stack((ts[k], inc[k]), 1)
        ck(ctx, any(same(x, e) or same(x, e[1:]) for x, _ in
                    rec['e_inc_norm'][0]['lines']), 'strain increment norm',
           expected=e.tolist())
    density(ctx, rec['e_norm_hist'][0], np.concatenate(norm), 50,
            'strain norm distribution')
    cat = np.concatenate(es)
    for j, o in enumerate(order):
        density(ctx, rec[f'e_hist_{o}'][0], cat[:, j], 50,
                'strain distribution')
    pairs = [(x, y) for i, x in enumerate(order) for y in order[i + 1:]
             if f'e_{x}v{y}' in rec]
    ck(ctx, len(pairs) >= 3, 'pairs of components')
    for x, y in pairs:
        i, j = order.index(x), order.index(y)
        a = rec[f'e_{x}v{y}'][0]
        m = [q for q in rec[f'e_marginals_{x}v{y}'] if q['points']][0]
        for q in (a, m):
            ck(ctx, x in q['labels'][1] and y in q['labels'][2],
               'component names')
        for k in range(n):
            shows(ctx, a['lines'], es[k][:, [i, j]], None, 'strain pair')
            shows(ctx, m['points'], es[k][:, [i, j]], None,
                  'strain pair points')
        z = [q for q in rec[f'e_hist_{x}v{y}'] if q['meshes']
             and x in q['labels'][1]][0]['meshes'][0][1]
        ck(ctx, z.sum() == len(cat), 'strain pair counts')
    medians(ctx, rec['e_boxplot'][0], cat, order, 'strain components')
    # Stress space
    with recording() as rec:
        GR.MaterialResponseDatasetGenerator.plot_stress_space_metrics(
            'infinitesimal', COMPS, st6[0] if one else st6,
            ts[0] if one else ts, is_plot_principal_stress_path=True,
            is_plot_pi_stress_path_pairs=True,
            is_plot_stress_invar_hist=True, is_plot_stress_invar_box=True,
            is_plot_stress_path_triax_lode=True,
            is_plot_stress_triax_lode_space=True,
            is_plot_stress_triax_lode_hist=True,
            is_plot_stress_triax_lode_box=True, filename='s', save_dir=d,
            is_save_fig=True)
    pr, iv, tx, ld = [], [], [], []
    for s in st6:
        w = np.array([np.sort(np.linalg.eigvalsh(tensor(v, COMPS, 3)))[::-1]
                      for v in s])
        pr.append(w)
        i1, i2 = w.sum(1), w[:, 0]*w[:, 1] + w[:, 0]*w[:, 2] + w[:, 1]*w[:, 2]
        dv = w - i1[:, None]/3
        j2, j3 = 0.5*(dv**2).sum(1), dv.prod(1)
        iv.append(np.stack((i1, i2, w.prod(1), 0*i1, j2, j3), 1))
        tx.append(i1/3/np.sqrt(3*j2))
        ld.append(1.5*np.sqrt(3.0)*j3/j2**1.5)
    ic = np.concatenate(iv)
    for k in range(n):
        ck(ctx, any(same(x, pr[k], 1e-6) for x, _ in
                    rec['s_principal'][0]['lines']), 'principal stresses')
        for nm, v in (('triaxiality', tx[k]), ('lode_parameter', ld[k])):
            ck(ctx, any(same(x, np.stack((ts[k], v), 1), 1e-6) for x, _ in
                        rec['s_' + nm][0]['lines']), nm)
        # Pi plane: norms are those of the principal stresses
        z = [rec[f's_pi_stress_{i}v{j}'][0]['lines'][k][0]
             for i, j in ('12', '13', '23')]
        p = clean(np.stack((z[0][:, 0], z[0][:, 1], z[1][:, 1]), 1))
        ck(ctx, len(p) == len(pr[k]), 'pi-stress path length')
        ctx.close(np.linalg.norm(p, axis=1), np.linalg.norm(pr[k], axis=1),
                  1e-6, 0, 'pi-stress norm')
        ctx.close(p[:, 2]*np.sqrt(3.0), pr[k].sum(1), 1e-6,
                  1e-6*abs(pr[k]).max(), 'hydrostatic pi-stress')
        ck(ctx, same(z[2], p[:, 1:], 1e-9), 'pi-stress pairs')
    for j, nm in enumerate(('I1', 'I2', 'I3', 'J2', 'J3')):
        v = ic[:, [0, 1, 2, 4, 5][j]]
        h = rec[f's_invariant_{nm}_hist'][0]
        q = np.array(h['rects'])
        s = abs(v).max()
        ck(ctx, abs(q[:, 0].min() - v.min()) < 1e-6*s and abs(
            (q[:, 0] + q[:, 2]).max() - v.max()) < 1e-6*s,
           'invariant distribution ' + nm)
        cnt = q[:, 3]*q[:, 2]*len(v)
        ck(ctx, abs(cnt - np.round(cnt)).max() < 1e-6, 'invariant counts')
    bx = rec['sinvariants_boxplot' if 'sinvariants_boxplot' in rec
             else 's_invariants_boxplot'][0]
    for j in range(6):
        ys = [p[0, 1] for p, _ in bx['lines'] if len(p) == 2
              and p[0, 1] == p[1, 1]]
        e = np.median(ic[:, j])
        ck(ctx, any(abs(y - e) <= 1e-6*max(abs(ic[:, j]).max(), 1e-6)
                    for y in ys), 'invariant median')
    m = [q for q in rec['s_triaxiality_lode_marginals'] if q['points']][0]
    ck(ctx, any(same(x, np.stack((np.concatenate(ld), np.concatenate(tx)),
                                 1), 1e-6) for x, _ in m['points']),
       'triaxiality and Lode parameter space')
    ctx.nontrivial(n > 1 and len(set(c['m'][:n])) > 1)


@sub('dataset', path_case, quick=20, thorough=800, shards=4)
def _(c, ctx):
    """Plots of a data set of strain-stress paths."""
    r = rng(c['s'])
    d = ctx.scratch()
    dim = c['dim']
    order = ('11', '22', '12') if dim == 2 else COMPS
    data = []
    for m in c['m']:
        data.append({
            'strain_comps_order': order, 'stress_comps_order': order,
            'strain_path': torch.tensor(r.normal(size=(m, len(order)))),
            'stress_path': torch.tensor(r.normal(size=(m, len(order)))),
            'time_hist': torch.tensor(np.cumsum(r.uniform(
                0.5, 1.5, m)).reshape(-1, 1)),
            'acc_p_strain': torch.tensor(np.cumsum(r.uniform(
                0, 1, m)).reshape(-1, 1))})
    with recording() as rec:
        GR.generate_dataset_plots('infinitesimal', dim,
                                  TimeSeriesDatasetInMemory(data),
                                  save_dir=d, is_save_fig=True)
    ck(ctx, rec.dirs == {os.path.abspath(d)}, 'directory')
    for k, x in enumerate(data):
        t = to_np(x['time_hist']).reshape(-1)
        for nm in ('strain', 'stress'):
            f = f'{nm}_path' + ('' if c['n'] == 1 else f'_sample_{k}')
            if k < 3:
                for j, o in enumerate(order):
                    shows(ctx, rec[f][0]['lines'], np.stack(
                        (t, to_np(x[nm + '_path'])[:, j]), 1),
                        f'{nm.capitalize()} {o}', nm + ' path')
        shows(ctx, rec['acc_p_strain_path'][0]['lines'], np.stack(
            (t, to_np(x['acc_p_strain']).reshape(-1)), 1), None,
            'state variable')
    for nm in ('strain', 'stress'):
        medians(ctx, rec[f'{nm}_path_boxplot'][0], np.concatenate(
            [to_np(x[nm + '_path']) for x in data]), order, nm)
    density(ctx, rec['acc_p_strain_path_hist'][0], np.concatenate(
        [to_np(x['acc_p_strain']) for x in data]), 50, 'state variable')
    ctx.nontrivial(c['n'] > 1)


@sub('material', lambda: st.fixed_dictionaries({
    't': st.lists(st.one_of(fl(25.0, 625.0), st.integers(25, 625)),
                  min_size=2, max_size=4, unique=True),
    'c': st.lists(fl(0.0, 1.0), min_size=2, max_size=3, unique=True),
    's': seeds()}), quick=15, thorough=500, shards=2)
def _(c, ctx):
    """Material parameters over temperature and composition."""
    d = ctx.scratch()
    with recording() as rec:
        L.plot_model_parameters('von_mises', temperatures=list(c['t']),
                                compositions=list(c['c']), save_dir=d,
                                is_save_fig=True)
    ck(ctx, len(rec) == 4 and len(rec.surfaces) == 4, 'figures',
       got=sorted(rec))
    for p in ('E', 'v', 's0', 's1'):
        f = [k for k in rec if f'_{p}_' in k]
        ck(ctx, len(f) == 1, 'figure of ' + p)
        x, y, z, _ = rec.surfaces[list(rec).index(f[0])]
        seen = set()
        for i in np.ndindex(z.shape):
            seen.add((x[i], y[i]))
            m = L.get_model_parameters('von_mises', x[i], y[i])
            h = m['hardening_law']
            hp = m['hardening_parameters']
            e = {'E': lambda: float(m['E'])/1000,
                 'v': lambda: float(m['v']),
                 's0': lambda: float(h(dict(hp), torch.tensor(
                     0.0, dtype=torch.float64))[0]),
                 's1': lambda: float(h(dict(hp), torch.tensor(
                     0.5, dtype=torch.float64))[1])}[p]()
            ck(ctx, abs(z[i] - e) <= 1e-6*abs(e), 'value of ' + p,
               got=z[i], expected=e)
        ck(ctx, seen == {(float(t), float(k)) for t in c['t']
                         for k in c['c']}, 'grid')
    refuses(ctx, lambda: L.plot_model_parameters('von_mises', [], [0.5]),
            'no temperature')
    refuses(ctx, lambda: L.plot_model_parameters('other', [25.0], [0.5]),
            'unknown model')
    ctx.nontrivial(True)


# ----------------------------------------------------------------------------
# Convergence analyses, ensembles, optimisations
# ----------------------------------------------------------------------------
LOSS = st.floats(-6, 6).map(lambda x: float(f'{10.0**x:.8e}'))


def write_summary(where, loss, r):
    os.makedirs(where, exist_ok=True)
    MP.write_prediction_summary_file(
        where, 'cpu', None, '/m', 'best', 'mse', None, False, None, [1, 2],
        loss, 3, float(r.uniform(1, 5)))


def write_predictions(where, truth, r, comps=6, extra=1):
    """Predictions of every sample."""
    out = []
    for i, y in enumerate(truth):
        p = 100*r.normal(size=(len(y), comps + extra))
        t = np.hstack((y, r.normal(size=(len(y), extra))))
        os.makedirs(where, exist_ok=True)
        MP.save_sample_predictions(where, i, {
            'features_out': torch.tensor(p), 'targets': torch.tensor(t)})
        out.append(p)
    return out


def write_data(where, sizes, r, times=None, extra=0):
    """Data set file of given sample lengths among other files."""
    os.makedirs(where)
    data = [{'time_hist': torch.tensor((np.cumsum(r.uniform(0.5, 2, m))
                                        if times is None else times[i]
                                        ).reshape(-1, 1)),
             'x': torch.zeros(m, 1)} for i, m in enumerate(sizes)]
    with contextlib.redirect_stdout(io.StringIO()):
        save_dataset(TimeSeriesDatasetInMemory(data), 'ss_paths_dataset',
                     where, is_append_n_sample=True)
    if extra:
        with open(os.path.join(where, 'parameters.dat'), 'w') as f:
            f.write('x')


@st.composite
def convergence_case(draw):
    n = draw(st.integers(1, 3))
    return {'n': n, 'sizes': draw(st.lists(st.integers(1, 12), min_size=n,
                                           max_size=n, unique=True)),
            'loss': draw(st.lists(LOSS, min_size=n, max_size=n)),
            'k': draw(st.integers(2, 3)), 'm': draw(st.integers(2, 11)),
            'all': draw(st.booleans()), 'ids': draw(st.lists(
                st.integers(0, 1), min_size=1, max_size=2, unique=True)),
            'uq': draw(st.booleans()), 'params': draw(st.integers(1, 2)),
            'comps': draw(st.integers(1, 2)),
            'type': draw(st.sampled_from(['stress_comps',
                                          'p_strain_comps'])),
            's': draw(seeds())}


@sub('convergence', convergence_case, quick=50, thorough=2000, shards=6)
def _(c, ctx):
    """Convergence analyses over training data set sizes."""
    r = rng(c['s'])
    d = ctx.scratch()
    n, nc = c['n'], c['comps']
    lens = [int(x) for x in r.integers(2, 5, c['k'])]
    times = [np.cumsum(r.uniform(0.5, 2, m)) for m in lens]
    truth = [100*r.normal(size=(m, nc)) for m in lens]
    base, train, test, pdir = [], [], [], []
    pred, loss, par, upred = [], [], [], []
    n_uq = c['m'] if c['uq'] else 0
    names = [f'p{j}' for j in range(c['params'])]
    for i in range(n):
        b = os.path.join(d, f'n{c["sizes"][i]}')
        base.append(b)
        train.append(os.path.join(b, '1_training_dataset'))
        test.append(os.path.join(b, '5_testing_id_dataset'))
        pdir.append(os.path.join(b, '7_prediction', 'in_distribution',
                                 'prediction_set_0'))
        write_data(train[-1], [2]*c['sizes'][i], r, extra=1)
        write_data(test[-1], lens, r, times)
        pred.append(write_predictions(pdir[-1], truth, r, nc))
        write_summary(pdir[-1], c['loss'][i], r)
        md = os.path.join(b, '3_model')
        os.makedirs(md)
        v = {x: float(r.normal()) for x in names}
        par.append(v)
        with open(os.path.join(md, 'parameters_best.pkl'), 'wb') as f:
            pickle.dump({'best_model_parameters': v,
                         'model_parameters_bounds': {}}, f)
        loss.append([float(f'{10.0**r.uniform(-3, 5):.8e}')
                     for _ in range(n_uq)])
        up = []
        for j in range(n_uq):
            w = os.path.join(b, 'uncertainty_quantification', f'model_{j}',
                             '7_prediction', 'in_distribution')
            up.append(write_predictions(w, truth, r, nc))
            write_summary(w, loss[-1][j], r)
        upred.append(up)
        if n_uq:
            w = os.path.join(b, 'uncertainty_quantification', 'plots',
                             'data')
            os.makedirs(w)
            q = r.normal(size=(n_uq, len(names)))
            upred[-1].append(q)
            with open(os.path.join(
                    w, 'model_uq_best_parameters_data.pkl'), 'wb') as f:
                pickle.dump({'model_parameters_names': tuple(names),
                             'samples_parameters_data': q}, f)
    out = os.path.join(d, 'plots')
    os.makedirs(out)
    lab = tuple(f'c{j}' for j in range(nc))
    ids = 'all' if c['all'] else list(c['ids'])
    kw = dict(save_dir=out, is_save_fig=True)
    tk = dict(kw, samples_ids=ids)
    with recording() as rec:
        CP.plot_prediction_loss_convergence(
            base, train, pdir, filename='loss', is_save_plot_data=True, **kw)
        CP.plot_best_parameters_convergence(base, train, filename='par',
                                            **kw)
        CP.plot_time_series_convergence(
            base, train, test, pdir, {c['type']: lab}, filename='sc',
            plot_type='time_series_scatter', **tk)
        CP.plot_time_series_convergence(
            base, train, test, pdir, {c['type']: lab}, filename='ts',
            plot_type='time_series_path', **tk)
        if n_uq:
            CP.plot_prediction_loss_convergence_uq(
                base, train, pdir, filename='uloss', is_save_plot_data=True,
                **kw)
            CP.plot_best_parameters_convergence_uq(base, train,
                                                   filename='upar', **kw)
            CP.plot_time_series_convergence_uq(
                base, train, test, pdir, {c['type']: lab}, filename='uts',
                plot_type='time_series_path', **tk)
    sz = np.array(c['sizes'], dtype=float)
    e = np.stack((sz, c['loss']), 1)
    shows(ctx, rec['loss'][0]['points'], e, None, 'loss convergence')
    ck(ctx, rec['loss'][0]['scales'] == ('log', 'log'), 'loss scales')
    with open(os.path.join(out, 'plot_data', 'loss_data.pkl'), 'rb') as f:
        p = pickle.load(f)
    ctx.close(num(p['data_xy']), e, 1e-9, 0, 'saved loss convergence')
    ck(ctx, p['n_models'] == n, 'saved number of models')
    for x in names:
        shows(ctx, rec['par_' + x][0]['points'], np.stack(
            (sz, [v[x] for v in par]), 1), None, 'parameter convergence')
        ck(ctx, rec['par_' + x][0]['labels'][2] == x, 'parameter name')
    use = list(range(c['k'])) if c['all'] else c['ids']
    for j in range(nc):
        a = rec[f'sc_c{j}_scatter'][0]
        ck(ctx, len(a['points']) == n, 'scattered models')
        for i in range(n):
            got = [x for x, lb in a['points'] if lb == f'N = {c["sizes"][i]}']
            ck(ctx, len(got) == 1, 'label of training size')
            q = np.concatenate([np.stack((truth[k][:, j],
                                          pred[i][k][:, j]), 1)
                                for k in use])
            ck(ctx, same(sorted_rows(got[0]), sorted_rows(q)),
               'scattered predictions', got=got[0].tolist(),
               expected=q.tolist())
        for k in use:
            a = rec[f'ts_c{j}_path_sample_{k}'][0]
            shows(ctx, a['lines'], np.stack((times[k], truth[k][:, j]), 1),
                  None, 'ground truth')
            for i in range(n):
                shows(ctx, a['lines'], np.stack((
                    times[k], pred[i][k][:, j]), 1),
                    f'N = {c["sizes"][i]}', 'predicted path')
    ck(ctx, sum(x.startswith('ts_') for x in rec) == nc*len(use),
       'number of path figures')
    if n_uq:
        y = np.array(loss)
        mean, lo, hi = bounds(y, 'min-max')
        a = rec['uloss'][0]
        has(ctx, [x for x, _ in a['lines']], np.stack((sz, mean), 1),
            'mean loss of the ensembles')
        bars(ctx, a, sz, lo, hi, 'loss range of the ensembles')
        with open(os.path.join(out, 'plot_data', 'uloss_data.pkl'),
                  'rb') as f:
            p = pickle.load(f)
        g = num(p['data_xy'])
        ctx.close(g[:, 1::2], y, 1e-9, 0, 'saved ensemble losses')
        ctx.close(g[:, 0::2], np.repeat(sz[:, None], n_uq, 1), 0, 0,
                  'saved training sizes')
        ck(ctx, p['n_model_sample'] == n_uq and p['n_models'] == n,
           'saved numbers')
        for jj, x in enumerate(names):
            medians(ctx, rec['upar_' + x][0], np.stack(
                [u[-1][:, jj] for u in upred], 1),
                [str(z) for z in c['sizes']], 'ensemble parameters')
        for j in range(nc):
            for k in use:
                a = rec[f'uts_c{j}_path_sample_{k}'][0]
                shows(ctx, a['lines'], np.stack((
                    times[k], truth[k][:, j]), 1), None, 'ground truth')
                for i in range(n):
                    y = np.stack([u[k][:, j] for u in upred[i][:-1]], 1)
                    mean, lo, hi = bounds(y, 'min-max')
                    has(ctx, [x for x, _ in a['lines']], np.stack(
                        (times[k], mean), 1), 'mean path')
                    band(ctx, a, times[k], lo, hi, 'range of paths')
    # Missing records are refused
    os.remove(os.path.join(pdir[-1], 'summary.dat'))
    refuses(ctx, lambda: CP.plot_prediction_loss_convergence(
        base, train, pdir), 'missing summary')
    refuses(ctx, lambda: CP.plot_time_series_convergence(
        base, train, test, pdir, {c['type']: lab}, plot_type='other'),
        'plot type')
    ctx.nontrivial(n > 1 or n_uq > 1)


@st.composite
def ensemble_case(draw):
    return {'m': draw(st.integers(1, 12)), 'more': draw(st.integers(0, 2)),
            'mod': draw(st.sampled_from(['rnn', 'rc', 'hybrid'])),
            'type': draw(st.sampled_from(['in_distribution', 'training'])),
            'k': draw(st.integers(1, 6)), 'params': draw(st.integers(1, 3)),
            's': draw(seeds())}


@sub('ensembles', ensemble_case, quick=24, thorough=800, shards=8)
def _(c, ctx):
    """Ensemble plots of every model sample and prediction."""
    r = rng(c['s'])
    d = ctx.scratch()
    mod = {'rnn': U_RNN, 'rc': U_RC, 'hybrid': U_HYB}[c['mod']]
    uq = os.path.join(d, 'uncertainty_quantification')
    lens = [int(x) for x in r.integers(2, 4, c['k'])]
    times = [np.cumsum(r.uniform(0.5, 2, m)) for m in lens]
    truth = [100*r.normal(size=(m, 6)) for m in lens]
    test = os.path.join(d, 'test')
    write_data(test, lens, r, times)
    loss, pred = [], []
    names = [f'p{j}' for j in range(c['params'])]
    par = r.normal(size=(c['m'] + c['more'], c['params']))
    for j in range(c['m'] + c['more']):
        b = os.path.join(uq, f'model_{j}')
        w = os.path.join(b, '7_prediction', c['type'])
        pred.append(write_predictions(w, truth, r, 6))
        loss.append(float(f'{10.0**r.uniform(-3, 5):.8e}'))
        write_summary(w, loss[-1], r)
        os.makedirs(os.path.join(b, '3_model'))
        with open(os.path.join(b, '3_model', 'parameters_best.pkl'),
                  'wb') as f:
            pickle.dump({'best_model_parameters': {
                x: float(par[j, i]) for i, x in enumerate(names)},
                'model_parameters_bounds': {}}, f)
    with recording() as rec:
        mod.gen_model_uq_plots(uq, c['m'], test, c['type'], filename='u',
                               is_save_fig=True)
    m = c['m']
    a = [v for k, v in rec.items() if 'loss' in k]
    ck(ctx, len(a) == 1, 'loss figure', got=sorted(rec))
    a = a[0][0]
    ck(ctx, any(str(m) in t for t in a['ticks']), 'number of realizations',
       got=a['ticks'])
    ys = [p[0, 1] for p, _ in a['lines'] if len(p) == 2
          and p[0, 1] == p[1, 1]]
    for e in (np.median(loss[:m]), np.mean(loss[:m])):
        ck(ctx, any(abs(y - e) <= 1e-9*e for y in ys), 'ensemble losses',
           got=ys, expected=e)
    n_fig = 0
    for j, o in enumerate(COMPS):
        for k in range(c['k']):
            f = [v for q, v in rec.items()
                 if q.endswith(f'stress_{o}_path_sample_{k}')]
            if not f:
                ck(ctx, k >= 3, 'figure of component and sample')
                continue
            n_fig += 1
            a = f[0][0]
            shows(ctx, a['lines'], np.stack((times[k], truth[k][:, j]), 1),
                  None, 'ground truth')
            y = np.stack([p[k][:, j] for p in pred[:m]], 1)
            mean, lo, hi = bounds(y, 'min-max')
            has(ctx, [x for x, _ in a['lines']], np.stack(
                (times[k], mean), 1), 'mean of the ensemble')
            band(ctx, a, times[k], lo, hi, 'range of the ensemble')
    ck(ctx, n_fig >= 6*min(3, c['k']), 'number of path figures')
    if c['mod'] == 'rc':
        f = [v for k, v in rec.items() if 'parameters' in k]
        ck(ctx, len(f) == 1 and len(f[0]) == c['params'], 'parameters')
        for i, x in enumerate(names):
            a = [q for q in f[0] if [t for t in q['ticks'] if t] == [x]]
            ck(ctx, len(a) == 1, 'parameter name')
            ys = [p[0, 1] for p, _ in a[0]['lines'] if len(p) == 2
                  and p[0, 1] == p[1, 1]]
            v = par[:m, i]
            for e in (np.median(v), np.mean(v)):
                ck(ctx, any(abs(y - e) <= 1e-9*abs(v).max() for y in ys),
                   'ensemble parameters', got=ys, expected=e)
        w = os.path.join(uq, 'plots', 'data')
        with open(os.path.join(w, os.listdir(w)[0]), 'rb') as f:
            p = pickle.load(f)
        ck(ctx, tuple(p['model_parameters_names']) == tuple(names),
           'saved names')
        ctx.close(np.asarray(p['samples_parameters_data']), par[:m], 1e-12,
                  0, 'saved parameters')
    refuses(ctx, lambda: mod.gen_model_uq_plots(
        os.path.join(d, 'none'), 1, test, c['type']), 'missing directory')
    ctx.nontrivial(m > 1)


@st.composite
def optimum_case(draw):
    n = draw(st.integers(1, 3))
    return {'n': n, 'm': [draw(st.integers(1, 12)) for _ in range(n)],
            'log': draw(st.booleans()), 'lab': draw(st.booleans()),
            'junk': draw(st.booleans()),
            'miss': draw(st.sampled_from([None, 'job', 'file', 'metric'])),
            's': draw(seeds())}


@sub('optimisation', optimum_case, quick=40, thorough=1500, shards=2)
def _(c, ctx):
    """Histories of hyperparameter optimisation processes."""
    r = rng(c['s'])
    d = ctx.scratch()
    dirs, val = {}, {}
    for i in range(c['n']):
        w = os.path.join(d, f'p{i}')
        dirs[f'process {i}'] = w
        v = [float(f'{10.0**r.uniform(-4, 4):.8e}') for _ in range(c['m'][i])]
        val[f'process {i}'] = v
        for j, x in enumerate(v):
            os.makedirs(os.path.join(w, str(j)))
            with open(os.path.join(w, str(j), 'job_summary.dat'), 'w') as f:
                f.write('Job\n---\n\n"lr":  0.1\n\n"objective":  %.8e\n' % x)
        if c['junk']:
            os.makedirs(os.path.join(w, '1a'))
            open(os.path.join(w, 'multirun.yaml'), 'w').close()
    with recording() as rec:
        HO.plot_optimization_history(
            dirs, 'objective', is_log_metric=c['log'],
            is_data_labels=c['lab'], filename='o', save_dir=d,
            is_save_fig=True)
    a = rec['o'][0]
    t = np.log if c['log'] else np.array
    ck(ctx, len(a['points']) == c['n'], 'number of processes')
    for k, v in val.items():
        shows(ctx, a['points'], np.stack((np.arange(len(v)), t(v)), 1),
              k if c['lab'] else None, 'optimisation history')
    v = val['process 0']
    shows(ctx, a['lines'], np.stack((np.arange(len(v)), np.minimum.accumulate(
        t(v))), 1), 'Best-so-far', 'best so far')
    if c['miss']:
        w = os.path.join(dirs['process 0'], str(c['m'][0] - 1))
        if c['miss'] == 'job' and c['m'][0] > 1:
            os.rename(os.path.join(dirs['process 0'], '0'),
                      os.path.join(d, 'moved'))
        elif c['miss'] == 'file':
            os.remove(os.path.join(w, 'job_summary.dat'))
        elif c['miss'] == 'metric':
            with open(os.path.join(w, 'job_summary.dat'), 'w') as f:
                f.write('Job\n"lr":  0.1\n')
        else:
            ctx.nontrivial(c['n'] > 1)
            return
        refuses(ctx, lambda: HO.plot_optimization_history(
            dirs, 'objective'), 'missing ' + c['miss'])
    ctx.nontrivial(c['n'] > 1)


@sub('save', lambda: st.fixed_dictionaries({
    'f': st.sampled_from(['pdf', 'png']),
    'name': st.sampled_from(['a', 'fig.1', 'x_0.5', '3']),
    'h': fl(1.0, 5.0), 'w': fl(1.0, 8.0), 's': seeds()}), quick=12,
    thorough=300, shards=4)
def _(c, ctx):
    """Figures are saved where asked, in the requested height."""
    d = ctx.scratch()
    f = plt.figure(figsize=(c['w'], 3.0))
    try:
        f.add_subplot(1, 1, 1).plot([0, 1], [0, 1])
        P.save_figure(f, c['name'], height=c['h'], format=c['f'],
                      save_dir=d)
        p = os.path.join(d, f"{c['name']}.{c['f']}")
        ck(ctx, os.listdir(d) == [os.path.basename(p)], 'saved file',
           got=os.listdir(d))
        with open(p, 'rb') as g:
            head = g.read(4)
        ck(ctx, head == {'pdf': b'%PDF', 'png': b'\x89PNG'}[c['f']],
           'format')
        w, h = f.get_size_inches()
        ck(ctx, abs(h - c['h']) < 1e-9 and abs(w/h - c['w']/3.0) < 1e-6,
           'figure size', got=(w, h), expected=c['h'])
        refuses(ctx, lambda: P.save_figure(
            f, 'a', save_dir=os.path.join(d, 'none')), 'missing directory')
    finally:
        plt.close('all')
    ctx.nontrivial(True)


# ----------------------------------------------------------------------------
# Noise cases
# ----------------------------------------------------------------------------
@st.composite
def noise_case(draw):
    n = draw(st.integers(1, 4))
    return {'q': draw(st.integers(1, 4)), 'n': n, 'm': draw(
        st.integers(1, 11)), 'sizes': draw(st.lists(
            st.integers(1, 30), min_size=n, max_size=n, unique=True)),
        'type': draw(st.sampled_from(['in_distribution',
                                      'out_distribution'])),
        'rt': draw(st.sampled_from(['min-max', 'mean-std'])),
        's': draw(seeds())}


@sub('noise_cases', noise_case, quick=40, thorough=1500, shards=2)
def _noise(c, ctx):
    """Ensemble losses over training sizes, one curve for each noise."""
    r = rng(c['s'])
    d = ctx.scratch()
    base, train, test, pdir, loss = [], [], [], [], []
    for q in range(c['q']):
        for i in range(c['n']):
            b = os.path.join(d, f'noise_{q}', f'n{c["sizes"][i]}')
            base.append(b)
            train.append(os.path.join(b, '1_training_dataset'))
            test.append(os.path.join(b, '5_testing_id_dataset'))
            pdir.append(os.path.join(b, '7_prediction', c['type'],
                                     'prediction_set_0'))
            write_data(train[-1], [2]*c['sizes'][i], r, extra=1)
            loss.append([float(f'{10.0**r.uniform(-3, 5):.8e}')
                         for _ in range(c['m'])])
            for j in range(c['m']):
                for k in ('in_distribution', 'out_distribution'):
                    w = os.path.join(b, 'uncertainty_quantification',
                                     f'model_{j}', '7_prediction', k)
                    os.makedirs(w)
                    write_summary(w, loss[-1][j] if k == c['type'] else
                                  10.0**r.uniform(-3, 5), r)
            os.makedirs(os.path.join(b, 'uncertainty_quantification',
                                     'plots'))
    lab = [f'noise {q}' for q in range(c['q'])]
    with recording() as rec:
        NA.generate_convergence_plots(
            c['q'], lab, base, train, test, pdir,
            is_uncertainty_quantification=True, save_dir=d,
            is_save_fig=True, is_latex=False)
    ck(ctx, len(rec) == 1, f'figures {list(rec)}')
    a = list(rec.values())[0][0]
    sz = np.array(c['sizes'], dtype=float)
    y = np.array(loss).reshape(c['q'], c['n'], c['m'])
    for q in range(c['q']):
        mean, lo, hi = bounds(y[q], 'min-max')
        has(ctx, [x for x, _ in a['lines']], np.stack((sz, mean), 1),
            f'mean loss of noise {q}')
        bars(ctx, a, sz, lo, hi, f'loss range of noise {q}')
    ck(ctx, a['legend'] == lab, f'legend {a["legend"]}')
    # the general plot of given data
    x = np.zeros((c['n'], 2*c['q']*c['m']))
    x[:, 0::2] = sz[:, None]
    for q in range(c['q']):
        for j in range(c['m']):
            x[:, 2*(q*c['m'] + j) + 1] = y[q, :, j]
    with recording():
        fig, _ = NA.scatter_xy_data_noise_cases(
            x.copy(), data_labels=lab, n_noise_case=c['q'],
            n_model_sample=c['m'], is_error_bar=True, range_type=c['rt'])
        a = snap(fig)[0]
        flat, _ = NA.scatter_xy_data_noise_cases(x.copy())
        b = snap(flat)[0]
    for q in range(c['q']):
        mean, lo, hi = bounds(y[q], c['rt'])
        has(ctx, [z for z, _ in a['lines']], np.stack((sz, mean), 1),
            f'{c["rt"]}: mean of noise {q}')
        bars(ctx, a, sz, lo, hi, f'{c["rt"]}: range of noise {q}')
    ck(ctx, len(b['points']) == c['q']*c['m'], 'point sets')
    for k in range(c['q']*c['m']):
        shows(ctx, b['points'], x[:, 2*k:2*k + 2], None, 'points')
    refuses(ctx, lambda: NA.scatter_xy_data_noise_cases(x[:, 1:]),
            'odd number of columns')
    refuses(ctx, lambda: NA.scatter_xy_data_noise_cases(
        x, data_labels=lab + ['more'], n_noise_case=c['q'],
        n_model_sample=c['m'], is_error_bar=True), 'too many labels')
    w = os.path.join(base[-1], 'uncertainty_quantification', 'model_0',
                     '7_prediction', c['type'], 'summary.dat')
    os.remove(w)
    refuses(ctx, lambda: NA.generate_convergence_plots(
        c['q'], lab, base, train, test, pdir,
        is_uncertainty_quantification=True), 'missing summary')
    ctx.nontrivial(c['q'] > 1 and c['m'] > 1)


# ----------------------------------------------------------------------------
# Specimens
# ----------------------------------------------------------------------------
@sub('specimen', lambda: st.fixed_dictionaries({
    'n': st.integers(1, 7), 'nt': st.integers(1, 12),
    'd': st.sampled_from([2, 3]), 'who': st.sampled_from(
        ['all', 'one', 'some']), 'ref': st.booleans(),
    'name': st.sampled_from(['spec', 'spec_2', 'Ti64']), 's': seeds()}),
    quick=60, thorough=1500, shards=2)
def _specimen(c, ctx):
    """Displacement and reaction histories of a specimen."""
    r = rng(c['s'])
    d = ctx.scratch()
    data = []
    cols = ['NODE'] + [f'{k}{i}' for k in ('X', 'U', 'RF', 'DBC')
                       for i in (1, 2, 3)]
    codes = r.integers(0, 3, (c['n'], 3))
    for t in r.permutation(c['nt']):
        v = np.zeros((c['n'], 13))
        v[:, 0] = np.arange(1, c['n'] + 1)
        v[:, 1:10] = r.normal(size=(c['n'], 9))
        v[:, 10:] = codes
        data.append((t, v))
        with open(os.path.join(d, f'{c["name"]}_tstep_{t}.csv'), 'w') as f:
            f.write(','.join(cols) + '\n')
            for row in v:
                f.write(','.join([str(int(row[0]))] + [
                    repr(float(x)) for x in row[1:10]] + [
                    str(int(x)) for x in row[10:]]) + '\n')
    v = np.stack([x for _, x in sorted(data, key=lambda q: q[0])])
    who = {'all': list(range(1, c['n'] + 1)), 'one': [
        int(r.integers(1, c['n'] + 1))], 'some': [
        int(x) + 1 for x in np.sort(r.permutation(c['n'])[
            :int(r.integers(1, c['n'] + 1))])]}[c['who']]
    arg = {'all': 'all', 'one': who[0], 'some': who}[c['who']]
    step = np.arange(c['nt'], dtype=float)
    with recording() as rec:
        PS.plot_nodes_displacement_history(
            c['name'], d, nodes_labels=arg, n_dim=c['d'], save_dir=d)
    ck(ctx, set(rec) == {f'displacement_hist_node_{k}' for k in who},
       f'figures {sorted(rec)} of nodes {who}')
    for k in who:
        a = rec[f'displacement_hist_node_{k}'][0]
        ck(ctx, len(a['lines']) == c['d'], 'curves')
        for i in range(c['d']):
            shows(ctx, a['lines'], np.stack((step, v[:, k - 1, 4 + i]), 1),
                  f'Dim {i + 1}', f'displacement of node {k}')
    refuses(ctx, lambda: PS.plot_nodes_displacement_history(
        c['name'], d, nodes_labels='some', n_dim=c['d'], save_dir=d),
        'unknown nodes')
    want = {}
    for i in range(c['d']):
        for k in np.unique(codes[:, i]):
            want[f'dim_{i + 1}_label_{k}'] = v[:, codes[:, i] == k,
                                               7 + i].sum(1)
    refs = [None] if not c['ref'] else [
        (int(r.integers(1, c['n'] + 1)), i) for i in range(c['d'])]
    for ref in refs:
        x = step if ref is None else v[:, ref[0] - 1, 4 + ref[1]]
        with recording() as rec:
            PS.plot_reaction_forces_history(
                c['name'], d, n_dim=c['d'],
                reference_displacement_node=ref, save_dir=d)
        ck(ctx, set(rec) == {'dirichlet_reaction_hist_' + k for k in want},
           f'figures {sorted(rec)} of sets {sorted(want)}')
        for k, y in want.items():
            a = rec['dirichlet_reaction_hist_' + k][0]
            ck(ctx, len(a['lines']) == 1, 'curves')
            shows(ctx, a['lines'], np.stack((x, y), 1), None,
                  f'reaction of {k}')
    H = np.array(list(want.values()))[:, None]
    for lab in (None, [f'set {k}' for k in want]):
        with recording() as rec:
            PS.compare_reaction_forces_history(
                H.copy(), dirichlet_sets_data_labels=lab, save_dir=d)
        a = list(rec.values())[0][0]
        ck(ctx, len(rec) == 1 and len(a['lines']) == len(want), 'curves')
        for i, y in enumerate(want.values()):
            shows(ctx, a['lines'], np.stack((step, y), 1),
                  None if lab is None else lab[i], 'compared reactions')
    refuses(ctx, lambda: PS.compare_reaction_forces_history(
        H, dirichlet_sets_data_labels=['x']*(len(want) + 1), save_dir=d),
        'too many labels')
    ctx.nontrivial(c['n'] > 1 and c['nt'] > 1)
    ctx.label(c['who'])


# ----------------------------------------------------------------------------
# Materials
# ----------------------------------------------------------------------------
@sub('yield_surface', lambda: st.fixed_dictionaries({
    'm': st.sampled_from(['von_mises', 'drucker_prager', 'lou_zhang_yoon']),
    'n': st.integers(1, 3), 'lab': st.sampled_from([0, 1, 2]),
    's': seeds()}), quick=60, thorough=3000)
def _yield(c, ctx):
    """Yield functions and loci are those of the material models."""
    import miscellaneous.materials.plot_yield_surface as Y
    r = rng(c['s'])
    f = 10.0**r.uniform(0, 3)
    s = f*r.normal(size=3)*[1.0, 1.0, r.choice([1.0, 0.0])]
    sy = f*r.uniform(0.1, 3)
    p = {'friction_angle': float(r.uniform(0, 0.8)),
         'yield_a': float(r.uniform(0.5, 2)),
         'yield_b': float(r.uniform(-0.1, 0.1)),
         'yield_c': float(r.uniform(-3, 2)),
         'yield_d': float(r.uniform(-1, 1))}

    def phi(s):
        m = s.mean()
        d = s - m
        j2, j3 = 0.5*(d*d).sum(), d.prod()
        if c['m'] == 'von_mises':
            return np.sqrt(3*j2) - sy
        if c['m'] == 'drucker_prager':
            return np.sqrt(j2) + np.sqrt(3)*np.sin(
                p['friction_angle'])*m - sy
        return p['yield_a']*(p['yield_b']*3*m + np.cbrt(np.sqrt(
            j2**3 - p['yield_c']*j3**2) - p['yield_d']*j3)) - sy
    name = c['m'] + str(r.choice(['', '_1', '_4d97']))
    want = phi(s)
    tol = 1e-7*f*(1 + 1/abs(np.ptp(s)/f)) + 1e-4
    for k, y in ((False, want), (True, want/sy)):
        got = Y.yield_function(*s, sy, name, p, is_normalize_sy=k)
        ctx.close(got, y, 0, tol/(sy if k else 1), 'yield function')
    # Points of the stress space turned to the hydrostatic axis
    R = np.array([[2, -1, -1], [0, np.sqrt(3), -np.sqrt(3)],
                  [np.sqrt(2)]*3])/np.sqrt(6)
    pts = f*r.normal(size=(c['n'], 3))
    for q in pts:
        ctx.close(np.array(Y.pi_to_principal(*q)), R.T @ q, 1e-9, 1e-9*f,
                  'principal stresses')
    got = Y.batched_yield_function(pts, sy, name, p)
    ctx.check(np.shape(got) == (c['n'],), 'number of values')
    ctx.close(got, [phi(R.T @ q)/sy for q in pts], 1e-6,
              (tol + 1e-5*f)/sy, 'yield function of points')
    # Locus
    names = [f'm{i}' for i in range(c['n'])]
    loci = {}
    for k in names:
        a = np.sort(r.choice(40, int(r.integers(5, 12)), replace=False))
        a = (a + r.uniform(0.1, 0.9))*2*np.pi/40
        a = np.concatenate((a, a + np.pi))
        loci[k] = (np.stack((np.cos(a), 0.7*np.sin(a)), 1)*f
                   )[r.permutation(len(a))]
    labels = {0: None, 1: {k: f'label {k}' for k in names},
              2: {k: '' for k in names}}[c['lab']]
    d = ctx.scratch()
    with recording() as rec:
        Y.plot_yield_surface_pi_plane(
            names, {k: v.copy() for k, v in loci.items()},
            models_labels=labels, save_dir=d, is_save_fig=True)
    ck(ctx, len(rec) == 1, f'figures {sorted(rec)}')
    ls = list(rec.values())[0][0]['lines']
    ck(ctx, len(ls) == c['n'], f'{len(ls)} curves')
    for k in names:
        v = loci[k] - loci[k].mean(0)
        v = loci[k][np.argsort(np.arctan2(v[:, 1], v[:, 0]))]
        shows(ctx, ls, np.concatenate((v, v[:1])),
              labels[k] if c['lab'] == 1 else None, f'locus of {k}')
    ctx.nontrivial(c['n'] > 1)
    ctx.label(c['m'])


@st.composite
def cmcase(draw):
    import c27
    c = draw(c27.case(names=('vm', 'dp', 'el')))
    c.update(state=[], others=draw(st.lists(c27.model(
        names=('vm', 'dp', 'el')), max_size=2)), ref=draw(st.booleans()))
    return c


@sub('compare_materials', cmcase, quick=30, thorough=800, shards=2)
def _compare(c, ctx):
    """Responses of several materials to the same strains."""
    import c27
    import miscellaneous.materials.compare_material_models as CM
    r = rng(c['s'])
    d = c['dim']
    comps = [c27.ORDER[d][i] for i in r.permutation(len(c27.ORDER[d]))]
    nt = c['kw']['n_time']
    path = np.cumsum(r.normal(size=(nt, len(comps))), 0)
    path *= c27.yield_strain(c['m'])*r.uniform(0.3, 3)/np.abs(path).max()
    path[0] = 0
    time = np.linspace(0, r.uniform(0.5, 3), nt).reshape(-1, 1)
    mats = {f'material {i}': m for i, m in enumerate([c['m']] + c['others'])}
    want = {}
    for k, m in mats.items():
        o = c27.respond(dict(c, m=m), comps, path)
        if o is None:
            return
        want[k] = o[0]
    ref = r.normal(size=path.shape) if c['ref'] else None
    with recording() as rec:
        CM.compare_material_model_response(
            'infinitesimal', {2: 1, 3: 4}[d], tuple(comps), time.copy(),
            path.copy(), {k: c27.build(m, d) for k, m in mats.items()},
            ref_stress_path=None if ref is None else ref.copy(),
            save_dir=ctx.scratch(), is_save_fig=True)
    if ref is not None:
        want['reference'] = ref
    for i, k in enumerate(comps):
        f = f'model_comparison_stress_{k}'
        ck(ctx, f in rec, f'figure {f} among {sorted(rec)}')
        ls = rec[f][0]['lines']
        ck(ctx, len(ls) == len(want), f'{len(ls)} curves')
        for name, y in want.items():
            hit = [a for a, b in ls if b == name]
            ck(ctx, len(hit) == 1, f'curve of {name}')
            ctx.close_norm(hit[0][:, 0], time[:, 0], 1e-9, 0, 'times')
            s = max(np.abs(y).max(), 1e-3)
            ctx.close(hit[0][:, 1], y[:, i], 0, 1e-6*s,
                      f'stress {k} of {name}')
    ctx.nontrivial(len(mats) > 1)
