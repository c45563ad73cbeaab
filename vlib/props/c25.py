"""C25: plots."""
import copy

import numpy as np
from hypothesis import strategies as st
from matplotlib.figure import Figure
import matplotlib.pyplot as plt

from emva1288.process import plotting
from emva1288.process.data import Data1288
from emva1288.process.results import Results1288
from .. import dataset as D
from .. import figdump
from .. import gen
from .. import simdata
from ..core import Sub, require, same, close, short
from .c16 import compress, spectrum

NAMES = ['PlotPTC', 'PlotSNR', 'PlotSensitivity', 'PlotUyDark', 'PlotLinearity', 'PlotDeviationLinearity',
         'PlotHorizontalSpectrogramPRNU', 'PlotHorizontalSpectrogramDSNU', 'PlotVerticalSpectrogramPRNU',
         'PlotVerticalSpectrogramDSNU', 'PlotLogarithmicHistogramDSNU', 'PlotLogarithmicHistogramPRNU',
         'PlotAccumulatedLogHistogramDSNU', 'PlotAccumulatedLogHistogramPRNU', 'PlotHorizontalProfile', 'PlotVerticalProfile']
# what the axes must say: unit of x, unit of y, scales
AXES = {'PlotPTC': ('DN', 'DN$^2$', 'linear', 'linear'), 'PlotSNR': ('photons', 'SNR', 'log', 'log'),
        'PlotSensitivity': ('photons', 'DN', 'linear', 'linear'), 'PlotUyDark': ('ns', 'DN', 'linear', 'linear'),
        'PlotLinearity': ('photons', 'DN', 'linear', 'linear'), 'PlotDeviationLinearity': ('photons', '%', 'linear', 'linear'),
        'PlotHorizontalSpectrogramPRNU': ('periods/pixel', '%', 'linear', 'log'),
        'PlotHorizontalSpectrogramDSNU': ('periods/pixel', 'DN', 'linear', 'log'),
        'PlotVerticalSpectrogramPRNU': ('periods/pixel', '%', 'linear', 'log'),
        'PlotVerticalSpectrogramDSNU': ('periods/pixel', 'DN', 'linear', 'log'),
        'PlotLogarithmicHistogramDSNU': ('DN', 'pixels', 'linear', 'log'),
        'PlotLogarithmicHistogramPRNU': ('DN', 'pixels', 'linear', 'log'),
        'PlotAccumulatedLogHistogramDSNU': ('DN', '%', 'linear', 'log'),
        'PlotAccumulatedLogHistogramPRNU': ('DN', '%', 'linear', 'log')}


def images_of(spatial):
    """(averaged bright minus dark, averaged dark, mask)."""
    m = np.ma.getmaskarray(spatial['sum']) | np.ma.getmaskarray(spatial['sum_dark'])
    b, d = np.ma.getdata(spatial['sum']) / spatial['L'], np.ma.getdata(spatial['sum_dark']) / spatial['L_dark']
    return b - d, d, m


def spectra(img, mask, vertical):
    a, m = (img.T, mask.T) if vertical else (img, mask)
    ref = compress(a, m) if mask.any() else a
    s = spectrum(ref, 1)
    return np.linspace(0, 0.5, len(s)) if len(s) > 1 else np.zeros(1), np.sqrt(np.maximum(s, 0)), \
        float(np.square(ref).max()) * ref.shape[1]


def profiles(img, mask, vertical):
    """{name: (index, value)} over the lines that have valid pixels."""
    a, m = (img.T, mask.T) if vertical else (img, mask)
    v = np.where(m, np.nan, a)
    keep = ~m.all(axis=0)
    idx = np.nonzero(keep)[0]
    mid = a.shape[0] // 2
    if m[mid].all():
        mid += 1
    ok = np.nonzero(~m[mid])[0]
    return {'Mid': (ok, a[mid][ok]), 'Min': (idx, np.nanmin(v[:, keep], axis=0)), 'Max': (idx, np.nanmax(v[:, keep], axis=0)),
            'Mean': (idx, np.nanmean(v[:, keep], axis=0))}


def expected(name, r):
    """[(axes, label or None, kind, x, y, tolerance of y)] of one test."""
    t, s = r.temporal, r.spatial
    X, Y, V = t['u_p'], t['u_y'] - t['u_ydark'], t['s2_y'] - t['s2_ydark']
    a, b = r.index_sensitivity_min, r.index_sensitivity_max
    sat = r.index_u_ysat
    e = 1e-9
    if name == 'PlotSensitivity':
        return [(0, 'Data', 'data', X, Y, 0), (0, 'Fit', 'fit', X, r.R * X, 0), (0, 'Fit range', 'marker', X[[a, b]], Y[[a, b]], 0)]
    if name == 'PlotUyDark':
        return [(0, 'Data', 'data', t['texp'], t['u_ydark'], 0)]
    if name == 'PlotPTC':
        return [(0, 'Data', 'data', Y, V, 0), (0, 'Fit', 'fit', Y, r.K * Y, 0), (0, 'Saturation', 'marker', Y[[sat]], V[[sat]], 0),
                (0, 'Fit range', 'marker', Y[[a, b]], V[[a, b]], 0)]
    if name == 'PlotLinearity':
        lin = r.linearity()
        i, j = r.index_linearity_min, r.index_linearity_max
        return [(0, 'Data', 'data', X, Y, 0), (0, 'Fit', 'fit', X, lin['fit_slope'] * X + lin['fit_offset'], e * np.abs(Y).max()),
                (0, 'Fit range', 'marker', X[[i, j]], Y[[i, j]], 0)]
    if name == 'PlotDeviationLinearity':
        i, j = r.index_linearity_min, r.index_linearity_max
        dev = np.asarray(r.linearity()['relative_deviation'])
        return [(0, 'Data', 'data', X[i:j + 1], dev[i:j + 1], 0), (0, 'Fit range', 'marker', X[[i, j]], dev[[i, j]], 0)]
    if name == 'PlotSNR':
        nz = t['s2_y'] != 0
        return [(0, 'Data', 'data', X[nz], Y[nz] / np.sqrt(t['s2_y'][nz]), 0),
                (0, None, 'marker', np.full(2, r.u_p_min), [0, 1], 0), (0, None, 'marker', np.full(2, r.u_p_sat), [0, 1], 0)]
    img, dark, mask = images_of(s)
    if 'Spectrogram' in name:
        vert = 'Vertical' in name
        if 'PRNU' in name:
            f, y, mag = spectra(img, mask, vert)
            m = img[~mask].mean()
            k = 100 / m
            lines = [('$PRNU_{1288}$', r.PRNU1288), (r'$\sigma^2_{y.stack}$', 100 * np.sqrt(r.sigma_2_y_stack) / m)]
        else:
            f, y, mag = spectra(dark, mask, vert)
            k = 1
            lines = [('$DSNU_{1288.DN}$', r.DSNU1288_DN()), (r'$\sigma^2_{y.stack.dark}$', np.sqrt(r.sigma_2_y_stack_dark))]
        y = y * k
        # square roots of what is zero up to rounding
        tol = abs(k) * np.sqrt(1e-15 * mag) * 30 + 1e-9 * np.abs(y).max()
        return [(0, 'Data', 'data', f, y, tol)] + [(0, n, 'marker', [0, 1], [v, v], 0) for n, v in lines]
    if 'Histogram' in name:
        acc = 'Accumulated' in name
        h = getattr(r, 'histogram_%s%s' % ('PRNU' if 'PRNU' in name else 'DSNU', '_accumulated' if acc else ''))
        return [(0, 'Data', 'data', h['bins'], h['values'], 0)] + ([] if acc else [(0, 'Model', 'fit', h['bins'], h['model'], 0)])
    vert = 'Vertical' in name
    out = []
    for ax, im in (('PRNU', img), ('DSNU', dark)):
        for lab, (i, v) in profiles(im, mask, vert).items():
            x, y = (v, i) if vert else (i, v)
            out.append((ax, lab, None, x, y, 1e-9 * (1 + np.abs(y).max())))
    return out


def match(lines, want, who, name):
    """Remove the drawn line that shows the wanted data."""
    ax, label, kind, x, y, tol = want
    x, y = np.asarray(x, float), np.asarray(y, float)
    best = None
    for l in lines:
        if label is not None and l['label'] != label:
            continue
        if str(l['gid']).split(':')[0] != str(who) or (kind and str(l['gid']).split(':')[-1] != kind):
            continue
        if l['x'].shape != x.shape:
            best = best or l
            continue
        if np.allclose(l['x'], x, rtol=1e-9, atol=1e-9 * (1 + np.abs(x[np.isfinite(x)]).max(initial=0)) if 'Profile' in name or 'Spectro' in name
                       else 0, equal_nan=True) and \
                np.allclose(l['y'], y, rtol=1e-9, atol=tol if np.isfinite(tol) else 0, equal_nan=True):
            lines.remove(l)
            return
        best = l
    require(False, '%s: test %s: %s %s shows x %s y %s, expected x %s y %s', name, who, label, kind, short(best and best['x']),
            short(best and best['y']), short(x), short(y))


def snr_curves(lines, r, who):
    """The three model curves over the documented range of photons."""
    qe, sd, K = r.QE / 100, r.sigma_d, r.K
    lo, hi = r.u_p_min, r.u_p_sat
    for lab in ('Theoretical', 'Ideal', 'Total SNR'):
        cand = [l for l in lines if l['label'] == lab and str(l['gid']).split(':')[0] == str(who)]
        require(len(cand) == 1, 'PlotSNR: %d curves %s of test %s', len(cand), lab, who)
        l = cand[0]
        x = l['x']
        require(len(x) >= 50 and abs(x[0] - lo) <= 1e-9 * abs(lo) and (np.diff(x) > 0).all() and
                abs(x[-1] - hi) <= 0.0201 * (hi - lo), 'PlotSNR: %s spans %s to %s, limits are %s and %s', lab, x[0], x[-1], lo, hi)
        if lab == 'Ideal':
            y = np.sqrt(x)
        else:
            noise = sd ** 2 + (1 / 12) / K ** 2 + qe * x
            if lab == 'Total SNR':
                noise = noise + r.DSNU1288 ** 2 + (r.PRNU1288 / 100 * qe * x) ** 2
            y = qe * x / np.sqrt(noise)
        close(l['y'], y, 'PlotSNR: %s' % lab, rtol=1e-8)
        lines.remove(l)


def build(spec, mask):
    """Data of one test, or None when its results are not all defined."""
    loaded = D.loader_dict(simdata.images(spec))
    data = Data1288(loaded).data
    if spec['seed'] // 7 % 3 == 0:
        # hardly any pixel below the saturation level
        v = data['temporal']['s2_y']
        data['temporal']['s2_y'] = np.where(v == 0, 10.0 ** -(spec['seed'] // 21 % 9 + 1), v)
    if not simdata.usable(data):
        return None
    if mask == 'nothing':
        # masked arrays without a mask
        for k in ('sum', 'sum_dark'):
            data['spatial'][k] = np.ma.masked_array(data['spatial'][k])
    elif mask:
        m = np.ones((spec['h'], spec['w']), bool)
        if mask == 'checker':
            m = (np.add.outer(np.arange(spec['h']), np.arange(spec['w'])) + spec['seed']) % 2 == 0
        else:
            m[spec['seed'] % 2::2, (spec['seed'] // 2) % 2::2] = False
        for k in ('sum', 'sum_dark'):
            data['spatial'][k] = np.ma.masked_array(data['spatial'][k], m)
    r = Results1288(copy.deepcopy(data))
    lo, hi = r.u_p_min, r.u_p_sat
    if not (np.isfinite(lo) and np.isfinite(hi) and 0 < lo < hi * 0.99 and np.isfinite(r.QE) and r.QE > 0):
        return None
    img, dark, mask = images_of(data['spatial'])
    if img[~mask].mean() <= 0:
        return None
    return data


def inside(v, lim, what, *args):
    v = np.asarray(v, float)
    if v.size:
        e = 1e-9 * (abs(lim[0]) + abs(lim[1]))
        require(v.min() >= lim[0] - e and v.max() <= lim[1] + e, what + ': %s to %s drawn, the axis shows %s to %s', *args, v.min(), v.max(), *lim)


def limits(name, shown, tests, ids):
    """No test is cut off by the limits of the axes."""
    if 'Profile' in name:
        vert = 'Vertical' in name
        for a in shown:
            for r in tests:
                img, dark, mask = images_of(r.spatial)
                p = profiles(img if a['title'] == 'PRNU' else dark, mask, vert)
                # the profiles themselves may be clipped, the levels of all tests are shown
                inside([p['Mean'][1].mean()], a['xlim' if vert else 'ylim'], '%s: mean of %s', name, a['title'])
                inside(p['Mean'][0], a['ylim' if vert else 'xlim'], '%s: lines of %s', name, a['title'])
                if a['title'] == 'DSNU':
                    inside([p['Min'][1].mean(), p['Max'][1].mean()], a['xlim' if vert else 'ylim'], '%s: extremes of %s', name, a['title'])
        return
    a = shown[0]
    for l in a['lines']:
        if str(l['gid']).split(':')[-1] not in ('data', 'fit'):
            continue
        ok = np.isfinite(l['x']) & np.isfinite(l['y'])
        for ax in 'xy':
            if a[ax + 'scale'] == 'log':
                ok &= l[ax] > 0
        x, y = l['x'][ok], l['y'][ok]
        if name == 'PlotSNR':
            # the lower end starts at a ratio of one, data above the ideal curve are noise
            y = y[y >= 1] if l['label'] == 'Ideal' else y[:0]
        elif 'PlotLogarithmicHistogram' in name:
            if l['label'] == 'Model':
                y = y[:0]
        inside(y, a['ylim'], '%s: %s of test %s', name, l['label'], l['gid'])
        inside(x, a['xlim'], '%s: %s of test %s', name, l['label'], l['gid'])


def verify(name, shown, tests, ids):
    """A dumped figure against all its tests."""
    prof = 'Profile' in name
    if prof:
        require(sorted(a['title'] for a in shown) == ['DSNU', 'PRNU'], '%s: axes titled %s', name, [a['title'] for a in shown])
        pools = {a['title']: list(a['lines']) for a in shown}
    else:
        require(len(shown) == 1, '%s: %d axes', name, len(shown))
        pools = {0: list(shown[0]['lines'])}
        ux, uy, sx, sy = AXES[name]
        a = shown[0]
        require(ux in a['xlabel'] and uy in a['ylabel'], '%s: axes %r and %r', name, a['xlabel'], a['ylabel'])
        require((a['xscale'], a['yscale']) == (sx, sy), '%s: scales %s %s', name, a['xscale'], a['yscale'])
        require(a['title'], '%s: no title', name)
        labels = [l['label'] for l in a['lines'] if not l['label'].startswith('_')]
        require(a['legend'] is not None and set(labels) == set(a['legend']), '%s: legend %s for %s', name, a['legend'], labels)
    for r, who in zip(tests, ids):
        for want in expected(name, r):
            match(pools[want[0]], want, who, name)
        if name == 'PlotSNR':
            snr_curves(pools[0], r, who)
    limits(name, shown, tests, ids)
    left = [l['label'] for p in pools.values() for l in p]
    require(not left, '%s: also draws %s', name, left)


def snapshot(r):
    return {k: (v if not isinstance(v, dict) else {a: np.array(b) for a, b in v.items()})
            for s in r.results.values() for k, v in [(s.get('symbol') or s.get('short'), s.get('value', s.get('data')))]}


def equal_data(a, b, what):
    for kind in ('temporal', 'spatial'):
        require(set(a[kind]) == set(b[kind]), '%s: entries of %s changed', what, kind)
        for k in a[kind]:
            same(np.ma.getdata(a[kind][k]), np.ma.getdata(b[kind][k]), '%s: %s %s' % (what, kind, k))
            same(np.ma.getmaskarray(a[kind][k]), np.ma.getmaskarray(b[kind][k]), '%s: mask of %s %s' % (what, kind, k))


def check(case, ctx):
    datas = [build(s, case['mask']) for s in case['sims']]
    datas = [d for d in datas if d is not None]
    if not datas:
        ctx.trivial()
        ctx.label('unusable')
        return
    keep = copy.deepcopy(datas)
    fresh = [Results1288(copy.deepcopy(d)) for d in datas]
    tests = [Results1288(d) for d in datas]
    plots = [getattr(plotting, n) for n in case['plots']]
    names = case['plots'] or NAMES
    with figdump.fast():
        if case['driver']:
            plt.close('all')
            p = plotting.Plotting1288(*tests)
            ids = [t.id for t in tests]
            require(len(set(map(str, ids))) == len(ids), 'tests share their ids: %s', ids)
            p.plot(*plots)
            nums = sorted(plt.get_fignums())
            require(len(nums) == len(names), '%d figures for %d plots', len(nums), len(names))
            for k, name in zip(nums, names):
                verify(name, figdump.figure(plt.figure(k)), fresh, ids)
            plt.close('all')
        else:
            ids = [k + 1 for k in range(len(tests))]
            for t, k in zip(tests, ids):
                t.id = k
            for name in names:
                fig = Figure()
                plot = getattr(plotting, name)(fig)
                order = range(len(tests)) if not case['flip'] else reversed(range(len(tests)))
                for k in order:
                    plot.plot(tests[k])
                plot.rearrange()
                verify(name, figdump.figure(fig), fresh, ids)
    for t, d, k, f in zip(tests, datas, keep, fresh):
        equal_data(t_data(t), k, 'data after plotting')
        x, y = t.xml(), f.xml()
        require(x == y, 'results changed by plotting')
    ctx.label('tests %d' % len(tests), 'driver' if case['driver'] else 'figures', 'mask ' + (case['mask'] or 'none'),
              'all plots' if not case['plots'] else 'selection')
    for n in names:
        ctx.label(n)


def t_data(t):
    return {'temporal': t.temporal, 'spatial': t.spatial}


@st.composite
def cases(draw):
    n = draw(st.sampled_from([1, 1, 2, 3]))
    k = draw(st.integers(0, 3))
    plots = [] if k == 0 else draw(st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True))
    return {'sims': [draw(simdata.sims(max_dim=16)) for _ in range(n)], 'plots': plots, 'driver': draw(st.booleans()),
            'flip': draw(st.booleans()), 'mask': draw(st.sampled_from(['', '', '', 'bayer', 'checker', 'nothing']))}


SUBS = [Sub('plots', lambda tier: cases(), check, 500, 15000,
            '1..3 simulated data sets (exposure or illumination series, stacks of different length, unmasked or masked to '
            'one colour), any selection of the 16 plots through the plot classes or the multi-test driver: every drawn line '
            'against reference data and fresh results, axes, scales, units, legends, nothing else drawn, results and data '
            'unchanged; non-trivial when at least one data set has defined results')]
