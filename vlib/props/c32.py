"""C32: what a change of units, orientation or fixed background does to the results, from images to the listed quantities."""
import os

import numpy as np
from hypothesis import strategies as st

from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.results import Results1288
from .. import dataset as D
from .. import gen
from .. import simdata
from .. import temporal as T
from ..core import Sub, require, short
from .catalogue import CATALOGUE

SWAP = {a: b for x, y in (('row', 'col'), ('rav', 'cav')) for k in CATALOGUE for a, b in
        ((k, k.replace('_' + x, '_' + y)), (k, k.replace('_' + y, '_' + x))) if a != b}
LIST = [k for k, v in CATALOGUE.items() if v[4] == 'value']
SPATIAL_VAR = [k for k in LIST if k.startswith('s_2_y') or k.startswith('sigma_2_y')]
HISTOGRAMS = [k for k in CATALOGUE if k.startswith('histogram')]
INDEX = [k for k in LIST if k.startswith('index')]
# exponents of the quantities in the units of gray value, photons, exposure time and pixel area; absent ones have none
GRAY = dict([(k, 2) for k in SPATIAL_VAR] + [(k, 1) for k in ('K', 'R', 'sigma_y_dark', 'u_I_mean_DN', 'u_I_var_DN', 'DSNU1288_DN')] +
            [('inverse_K', -1)])
PHOTONS = {'R': -1, 'QE': -1, 'u_p_min': 1, 'u_p_sat': 1, 'u_p_min_area': 1, 'u_p_sat_area': 1}
TIME = {k: -1 for k in ('u_I_mean', 'u_I_mean_DN', 'u_I_var', 'u_I_var_DN')}
AREA = {k: -1 for k in LIST if k.endswith('_area')}
# the electrons of the dark noise are those of the gray values less the quantisation noise, which does not scale
QUANT = ('sigma_d',)
LOWER = ('sigma_y_dark', 'sigma_d', 'u_p_min', 'u_e_min', 'u_p_min_area', 'u_e_min_area', 'DR', 'DR_dB')


def measure(images, folder, area):
    """The listed quantities, and the data, of these images, by the package's loader, data conversion and results."""
    store, names, k = {}, {}, 0
    for kind, part in images.items():
        names[kind] = {}
        for e, d in part.items():
            for p, imgs in d.items():
                for img in imgs:
                    n = 'i%d' % k
                    k += 1
                    store[n] = img
                    path = os.path.join(folder, n)
                    if not os.path.exists(path):
                        open(path, 'w').close()
                    names[kind].setdefault(e, {}).setdefault(p, []).append(n)
    data = Data1288(LoadImageData(names, path=folder, fload=lambda f: store[os.path.basename(f)].copy()).data).data
    with np.errstate(all='ignore'):
        r = Results1288(data, pixel_area=area)
        out = {}
        for name, info in r.results.items():
            out[name] = info.get('value', info.get('data'))
    return out, data


def unit(data, c):
    """The data with gray values in another unit."""
    t, s = dict(data['temporal']), dict(data['spatial'])
    for k, e in (('u_y', 1), ('u_ydark', 1), ('s2_y', 2), ('s2_ydark', 2)):
        t[k] = t[k] * float(c) ** e
    for k, e in (('sum', 1), ('avg_mean', 1), ('avg_var', 2), ('var_mean', 2), ('avg_var_cav', 2), ('avg_var_rav', 2)):
        for post in ('', '_dark'):
            s[k + post] = s[k + post] * float(c) ** e
    return dict(data, temporal=t, spatial=s)


def values(data, area):
    """The listed quantities of converted data."""
    with np.errstate(all='ignore'):
        r = Results1288(data, pixel_area=area)
        out = {k: getattr(r, k) for k in LIST}
        return {k: v() if callable(v) else v for k, v in out.items()}


def each(images, f):
    """f(image, kind, exposure, photons, position) for every image."""
    return {kind: {e: {p: [f(i, kind) for i in imgs] for p, imgs in d.items()} for e, d in part.items()}
            for kind, part in images.items()}


def rekey(images, exposure=lambda e: e, photons=lambda p: p):
    return {kind: {exposure(e): {photons(p): imgs for p, imgs in d.items()} for e, d in part.items()}
            for kind, part in images.items()}


def clear_cut(data):
    """No decision of the method hangs on the last digits."""
    t = data['temporal']
    Y, s2 = t['u_y'] - t['u_ydark'], t['s2_y']
    top = Y[T.saturation(s2)]
    for level in (0.05, 0.7, 0.95):
        if (np.abs(Y - level * top) < 1e-9 * abs(top)).any():
            return False
    for a in range(len(s2)):
        for b in range(max(0, a - 2), a):
            if s2[a] != s2[b] and abs(s2[a] - s2[b]) < 1e-9 * max(s2[a], s2[b]):
                return False
            if s2[a] == s2[b] and s2[a] != 0:
                return False
    return True


def scales(data):
    """Magnitudes, for the tolerances."""
    s = data['spatial']
    out = {}
    for post in ('', '_dark'):
        out[post] = s['avg_var' + post] + s['var_mean' + post] + 1e-6
    return out


def fit_noise(base, t):
    """How far the iterated fits of R and K may stop from the very minimum: a part of their relative residuals."""
    Y, V = t['u_y'] - t['u_ydark'], t['s2_y'] - t['s2_ydark']
    n = slice(0, int(base['index_sensitivity_max']) + 1)
    out = 0.0
    for x, y, m in ((t['u_p'], Y, base['R']), (Y, V, base['K'])):
        x, y = x[n], y[n]
        out += float(np.sqrt(np.sum((y - m * x) ** 2) / max(np.sum((m * x) ** 2), 1e-300)))
    return 3e-4 * min(out, 3.0)


def compare(base, got, b, g, expo, c, swap, skip, what):
    """Every listed quantity of g is the base one times c to its exponent."""
    require(set(got) == set(base), '%s: listed quantities differ: %s', what, sorted(set(got) ^ set(base)))
    sc = scales(b)
    t = b['temporal']
    span = float(np.ptp(t['texp']))
    noise = fit_noise(base, t)
    for k in LIST:
        if k in skip:
            continue
        src = SWAP.get(k, k) if swap else k
        x, y = base[src], got[k]
        f = float(c) ** expo.get(k, 0)
        if x is None or y is None:
            require(x is None and y is None, '%s: %s is %s, was %s', what, k, short(y), short(x))
            continue
        if k in INDEX:
            require(int(x) == int(y), '%s: %s is %s, was %s', what, k, y, x)
            continue
        x, y = float(x), float(y)
        want = x * f
        rtol, atol = 1e-5 + (0.0 if CATALOGUE[k][0] == 'spatial' else noise), 0.0
        if k in SPATIAL_VAR:
            atol = 1e-8 * sc['_dark' if k.endswith('_dark') else ''] * f
        elif k.startswith('DSNU'):
            part = src.replace('DSNU1288', '').replace('_DN', '')
            if abs(float(base['s_2_y%s_dark' % part])) < 1e-4 * sc['_dark']:
                continue
            rtol = 1e-3
        elif k.startswith('PRNU'):
            part = src.replace('PRNU1288', '')
            if abs(float(base['s_2_y' + part]) - float(base['s_2_y%s_dark' % part])) < 1e-4 * (sc[''] + sc['_dark']):
                continue
            rtol = 1e-3
        elif k.startswith('LE_'):
            atol = 1e-6
        elif k in ('u_I_mean', 'u_I_mean_DN') and span:
            unit = 1 / abs(float(base['K'])) if k == 'u_I_mean' else 1
            atol = 1e-5 * unit * abs(f) * 1e9 * float(np.max(np.abs(t['u_ydark']))) / span
        elif k in ('u_I_var', 'u_I_var_DN') and span:
            unit = 1e9 * float(np.max(np.abs(t['s2_ydark']))) / span / abs(float(base['K']))
            if k == 'u_I_var':
                unit /= abs(float(base['K']))
            if np.isnan(want) or np.isnan(y):
                # a slope of no size may come out on either side of nothing
                big = 0.0 if np.isnan(want) and np.isnan(y) else abs(want if np.isnan(y) else y)
                require(big <= 1e-4 * unit * abs(f), '%s: %s is %s, expected %s', what, k, y, want)
                continue
            atol = 1e-4 * unit * abs(f)
        elif k in LOWER:
            rtol = noise + (1e-3 if k in QUANT else 1e-4)
        ok = (np.isnan(want) and np.isnan(y)) or want == y or abs(y - want) <= rtol * abs(want) + atol
        require(ok, '%s: %s is %r, expected %r (was %r)', what, k, y, want, x)


def same_histogram(a, b, what, atol):
    require(set(a) == set(b), '%s: keys %s and %s', what, sorted(a), sorted(b))
    for k in a:
        x, y = np.asarray(a[k], dtype=float), np.asarray(b[k], dtype=float)
        require(x.shape == y.shape and np.allclose(x, y, rtol=1e-9, atol=atol), '%s: %s is %s, was %s', what, k, short(b[k]), short(a[k]))


KINDS = ['offset', 'pattern', 'transpose', 'mirror', 'permute', 'gray', 'photons', 'time', 'area', 'extend', 'swap pair', 'gray unit']


def transform(case, images, data, rng):
    """(images, area, exponents, factor, swapped, skipped quantities, histograms left alone)."""
    k, area = case['kind'], case['area']
    h, w = case['sim']['h'], case['sim']['w']
    none = ({}, 1, False, ())
    shape_dependent = [x for x in LIST if '_row' in x or '_col' in x or '_pixel' in x or '_rav' in x or '_cav' in x]
    if k == 'offset':
        # another black level; also in the other pixel type, where it fits
        return (each(images, lambda i, _k: (i.astype(np.int64) + case['n']).astype(np.uint16)), area) + none + (HISTOGRAMS,)
    if k == 'pattern':
        # a fixed background in every image
        f = rng.integers(0, case['n'] + 1, (h, w))
        skip = [x for x in LIST if CATALOGUE[x][0] == 'spatial' and not x.startswith('sigma_2_y_stack')]
        return (each(images, lambda i, _k: (i.astype(np.int64) + f).astype(np.uint16)), area, {}, 1, False, skip,
                ['histogram_PRNU', 'histogram_PRNU_accumulated'])
    if k == 'transpose':
        return each(images, lambda i, _k: np.ascontiguousarray(i.T)), area, {}, 1, True, (), HISTOGRAMS
    if k == 'mirror':
        s = (slice(None), slice(None, None, -1)) if case['n'] % 2 else (slice(None, None, -1), slice(None))
        return (each(images, lambda i, _k: np.ascontiguousarray(i[s])), area) + none + (HISTOGRAMS,)
    if k == 'permute':
        o = rng.permutation(h * w)
        return (each(images, lambda i, _k: i.ravel()[o].reshape(i.shape)), area, {}, 1, False, shape_dependent,
                ['histogram_DSNU', 'histogram_DSNU_accumulated'])
    if k == 'gray':
        top = max(int(i.max()) for part in images.values() for d in part.values() for im in d.values() for i in im)
        c = max(1, min(1 + case['n'] % 7, 65535 // max(top, 1)))
        skip = list(QUANT)
        if data['texp_few'] and data['s2_ydark0'] < 0.2401 or not data['texp_few']:
            # the lower limit of the dark noise is in gray values
            skip += [x for x in LOWER]
        return each(images, lambda i, _k: (i.astype(np.int64) * c).astype(np.uint16)), area, GRAY, c, False, skip, ()
    if k == 'photons':
        return rekey(images, photons=lambda p: p * case['c']), area, PHOTONS, case['c'], False, (), HISTOGRAMS
    if k == 'time':
        c = case['c'] * case['c_time']
        return rekey(images, exposure=lambda e: e * c), area, TIME, c, False, (), HISTOGRAMS
    if k == 'area':
        return images, area * case['c'] if area else area, AREA, case['c'] if area else 1, False, (), HISTOGRAMS
    if k == 'extend':
        # twice as large a sensor, showing everything twice
        axis = case['n'] % 2
        skip = [x for x in LIST if CATALOGUE[x][0] == 'spatial' and not x.startswith('sigma_2_y_stack')]
        return each(images, lambda i, _k: np.concatenate([i, np.flip(i, axis)], axis)), area, {}, 1, False, skip, ()
    # the two images of a pair change places
    return ({kind: {e: {p: list(imgs)[::-1] for p, imgs in d.items()} for e, d in part.items()} for kind, part in images.items()},
            area) + none + (HISTOGRAMS,)


def check(case, ctx):
    images = simdata.images(case['sim'])
    rng = np.random.default_rng(case['seed'])
    with D.scratch() as folder:
        base, data = measure(images, folder, case['area']) if usable(images, folder) else (None, None)
        if base is None:
            return ctx.trivial()
        t = data['temporal']
        info = {'texp_few': len(np.unique(t['texp'])) <= 2, 's2_ydark0': t['s2_ydark'][0]}
        if case['kind'] == 'gray unit':
            area, c = case['area'], case['c']
            skip = list(QUANT)
            if not info['texp_few'] or min(c * c, 1) * t['s2_ydark'][0] < 0.2401:
                skip += LOWER
            expo, swap, hist = GRAY, False, ()
            gd = data
            got = values(unit(data, c), area)
            base = {k: base[k] for k in LIST}
        else:
            other, area, expo, c, swap, skip, hist = transform(case, images, info, rng)
            got, gd = measure(other, folder, area)
    what = '%s%s' % (case['kind'], '' if c == 1 else ' by %g' % c)
    compare(base, got, data, gd, expo, c, swap, set(skip), what)
    for k in hist:
        same_histogram(base[k], got[k], '%s: %s' % (what, k), 1e-7 * (1 + float(np.max(data['spatial']['sum_dark']))))
    ctx.label(case['kind'], case['sim']['mode'], 'pixel area' if case['area'] else 'no pixel area')


def usable(images, folder):
    d = Data1288(D.loader_dict(images)).data
    with np.errstate(all='ignore'):
        return simdata.usable(d) and clear_cut(d)


@st.composite
def cases(draw):
    return {'sim': draw(simdata.sims(max_dim=12, min_dim=6, max_l=6, min_steps=8, max_steps=14)), 'kind': draw(st.sampled_from(KINDS)),
            'seed': draw(gen.seeds()), 'n': draw(st.integers(1, 2000)),
            'c': draw(st.one_of(st.sampled_from([0.5, 2.0, 10.0, 0.001, 1000.0]), gen.logfloat(1e-3, 1e3))),
            'c_time': draw(st.sampled_from([1.0, 1.0, 1e-4])), 'area': draw(st.one_of(st.none(), gen.logfloat(0.5, 400)))}


SUBS = [Sub('invariance', lambda tier: cases(), check, 1300, 50000,
            'a simulated data set and one change of it (gray offset, fixed background, transposition, mirror image, pixel '
            'permutation, gray value (of the images, or of their statistics by any factor), photon, time and area units, doubled sensor, exchanged pair images), both '
            'characterised from the images: every listed quantity follows; non-trivial when the fitted results are '
            'defined and no threshold is met to the last digit')]
