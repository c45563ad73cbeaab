"""C33: masked pixels have no influence on anything, and the others have all of it."""
import os

import numpy as np
from hypothesis import strategies as st
from matplotlib.figure import Figure

from emva1288.process import plotting
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.results import Results1288
from .. import dataset as D
from .. import figdump
from .. import gen
from .. import simdata
from ..core import Sub, require, short
from .c25 import NAMES
from .c32 import clear_cut, fit_noise
from .catalogue import CATALOGUE

LIST = [k for k, v in CATALOGUE.items() if v[4] == 'value']
HIST = [k for k, v in CATALOGUE.items() if v[4] != 'value']
# what a frame of the valid pixels in any arrangement tells, too
SPATIAL = ['s_2_y', 's_2_y_dark', 's_2_y_measured', 's_2_y_measured_dark', 'sigma_2_y_stack', 'sigma_2_y_stack_dark', 'DSNU1288',
           'DSNU1288_DN', 'PRNU1288']
LINES = [k for k in LIST if CATALOGUE[k][0] == 'spatial' and k not in SPATIAL]
PLAIN = [k for k in LIST if CATALOGUE[k][0] != 'spatial' and k not in LINES]


def mask_of(case):
    """True where a pixel is invalid."""
    h, w = case['sim']['h'], case['sim']['w']
    rng = np.random.default_rng(case['seed'])
    k = case['mask']
    if k == 'none':
        m = np.zeros((h, w), bool)
    elif k == 'bayer':
        m = np.ones((h, w), bool)
        m[case['seed'] % 2::2, case['seed'] // 2 % 2::2] = False
    elif k == 'checker':
        m = (np.add.outer(np.arange(h), np.arange(w)) + case['seed']) % 2 == 0
    elif k == 'rows':
        m = np.broadcast_to((np.arange(h) % 2 == case['seed'] % 2)[:, None], (h, w)).copy()
    else:
        m = rng.random((h, w)) < 0.4
        m[0, :2] = False
    return m


def fill(img, mask, kind, rng):
    """The image with something else under the mask."""
    top = np.iinfo(img.dtype).max
    v = {'random': rng.integers(0, top, img.shape, endpoint=True), 'zero': 0, 'top': top, 'noise': img.astype(np.int64) + rng.integers(0, 3, img.shape),
         'row': np.arange(img.shape[1]) * 7 % top}[kind]
    return np.where(mask, np.minimum(v, top), img).astype(img.dtype)


def characterise(images, folder, read, pixels):
    """Data and results of images that reach the package by a reader of the user."""
    store, names, k = {}, {}, 0
    for kind, part in images.items():
        for e, d in part.items():
            for p, imgs in d.items():
                for img in imgs:
                    n = 'i%d' % k
                    k += 1
                    store[n] = img
                    path = os.path.join(folder, n)
                    if not os.path.exists(path):
                        open(path, 'w').close()
                    names.setdefault(kind, {}).setdefault(e, {}).setdefault(p, []).append(n)
    data = Data1288(LoadImageData(names, path=folder, fload=lambda f: read(store[os.path.basename(f)])).data, pixels=pixels).data
    return data, Results1288(data)


def value(r, k):
    v = getattr(r, k)
    return v() if callable(v) else v


def same_value(x, y, what):
    if isinstance(x, dict):
        require(set(x) == set(y), '%s: keys differ', what)
        for k in x:
            a, b = np.asarray(x[k]), np.asarray(y[k])
            require(a.shape == b.shape and np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True), '%s %s is %s, was %s', what, k, short(b), short(a))
        return
    if x is None or y is None:
        require(x is None and y is None, '%s is %s, was %s', what, y, x)
        return
    require(x == y or (np.isnan(x) and np.isnan(y)) or abs(x - y) <= 1e-9 * abs(x), '%s is %r, was %r', what, y, x)


def drawn(r, names):
    out = {}
    with figdump.fast():
        r.id = 1
        for n in names:
            fig = Figure()
            plot = getattr(plotting, n)(fig)
            plot.plot(r)
            plot.rearrange()
            out[n] = figdump.figure(fig)
    return out


def same_figure(x, y, what):
    require(len(x) == len(y), '%s: axes', what)
    for a, b in zip(x, y):
        require(len(a['lines']) == len(b['lines']), '%s: %d lines, were %d', what, len(b['lines']), len(a['lines']))
        for l, m in zip(a['lines'], b['lines']):
            for k in 'xy':
                require(l[k].shape == m[k].shape and np.allclose(l[k], m[k], rtol=1e-9, atol=1e-9, equal_nan=True), '%s: %s of %s is %s, was %s', what, k,
                        l['label'], short(m[k]), short(l[k]))
        for k in ('xlim', 'ylim'):
            require(np.allclose(a[k], b[k], rtol=1e-9, atol=1e-9), '%s: limits %s, were %s', what, b[k], a[k])


def check(case, ctx):
    images = simdata.images(case['sim'])
    mask = mask_of(case)
    n = int((~mask).sum())
    rng = np.random.default_rng(case['seed'] + 1)
    whole = case['mask'] == 'random'
    order = np.flatnonzero(~mask.ravel())
    with D.scratch() as folder, np.errstate(all='ignore'):
        # the valid pixels alone, as a frame of one line
        cut, lone = characterise(images, folder, lambda a: a.ravel()[order].reshape(1, -1).copy(), None)
        if not simdata.usable(cut) or not clear_cut(cut):
            return ctx.trivial()
        noise = fit_noise({k: value(lone, k) for k in ('R', 'K', 'index_sensitivity_max')}, cut['temporal'])
        first = characterise(images, folder, lambda a: np.ma.masked_array(a.copy(), mask.copy()), n)
        if case['mask'] == 'none':
            # nothing is masked: with an empty mask, with none at all, or as plain images
            other = characterise(images, folder, (lambda a: np.ma.masked_array(a.copy())) if case['seed'] % 2 else (lambda a: a.copy()), None)
        else:
            other = characterise(images, folder, lambda a: np.ma.masked_array(fill(a, mask, case['fill'], rng), mask.copy()), n)
        for k in cut['temporal']:
            for d, who in ((first[0], 'masked'), (other[0], 'other values masked')):
                a, b = np.asarray(cut['temporal'][k]), np.asarray(d['temporal'][k])
                require(a.shape == b.shape and np.allclose(a, b, rtol=1e-10, atol=1e-9), '%s: %s is %s, valid pixels alone %s', who, k, short(b), short(a))
        for k in SPATIAL + PLAIN:
            x, y = value(lone, k), value(first[1], k)
            if k in SPATIAL:
                post = '_dark' if k.endswith('_dark') or k.startswith('DSNU') else ''
                level = cut['spatial']['avg_var' + post] + cut['spatial']['var_mean' + post] + 1e-9
                if 'NU' in k:
                    base = float(lone.s_2_y_dark if post else lone.s_2_y - lone.s_2_y_dark)
                    if abs(base) < 1e-6 * (cut['spatial']['avg_var'] + cut['spatial']['var_mean'] + level):
                        continue
                    tol = 1e-5 * abs(x)
                else:
                    tol = 1e-8 * level
            else:
                tol = (1e-5 + noise) * abs(x) + 1e-7 if x is not None else 0
            if k.startswith('u_I'):
                continue                     # fits of next to nothing; the series they are fitted to are compared
            require((x is None and y is None) or x == y or (np.isnan(x) and np.isnan(y)) or abs(x - y) <= tol, '%s is %r, for the valid pixels alone %r',
                    k, y, x)
        if case['mask'] != 'random' and case['mask'] != 'checker':
            # the valid pixels are a smaller frame: what is said about its rows and columns, too
            rows, cols = np.flatnonzero((~mask).any(axis=1)), np.flatnonzero((~mask).any(axis=0))
            part, small = characterise(images, folder, lambda a: a[np.ix_(rows, cols)].copy(), None)
            for post in ('', '_dark'):
                for k in ('M', 'N'):
                    require(part['spatial'][k + post] == first[0]['spatial'][k + post], '%s is %s, for the valid pixels alone %s', k + post,
                            first[0]['spatial'][k + post], part['spatial'][k + post])
            level = sum(part['spatial'][k] for k in ('avg_var', 'avg_var_dark', 'var_mean', 'var_mean_dark')) + 1e-9
            for k in LINES:
                x, y = float(value(small, k)), float(value(first[1], k))
                if k.startswith('s_2') or k.startswith('sigma_2'):
                    tol = 1e-8 * level
                else:
                    post = k[k.index('_'):]
                    dark = float(value(small, 's_2_y%s_dark' % post))
                    if abs(dark if k.startswith('DSNU') else float(value(small, 's_2_y' + post)) - dark) < 1e-6 * level:
                        continue
                    tol = 1e-5 * abs(x)
                require(x == y or (np.isnan(x) and np.isnan(y)) or abs(x - y) <= tol, '%s is %r, for the valid pixels as a frame %r', k, y, x)
            ctx.label('rows and columns')
        if case['under'] and case['mask'] != 'none':
            # what is under the mask of the stack sums depends on how they were added up; here it is anything
            for k in ('sum', 'sum_dark'):
                v = other[0]['spatial'][k]
                a = np.ma.getdata(v).copy()
                top = int(a[~mask].max())
                a[mask] = {'zero': 0, 'top': 4 * top + 7}.get(case['fill'], rng.integers(0, 2 * top + 1, int(mask.sum())))
                other[0]['spatial'][k] = np.ma.masked_array(a, mask.copy())
            other = other[0], Results1288(other[0])
            ctx.label('sums filled')
        names = LIST if whole else LIST + HIST
        for k in HIST:
            if 'DSNU' in k:
                same_value(value(lone, k), value(first[1], k), 'of the valid pixels alone: ' + k)
        for k in names:
            same_value(value(first[1], k), value(other[1], k), 'with other values under the mask: ' + k)
        if whole:
            for k in HIST:
                if 'DSNU' in k:
                    same_value(value(first[1], k), value(other[1], k), 'with other values under the mask: ' + k)
        plots = [p for p in case['plots'] if not (whole and 'PRNU' in p)]
        a, b = drawn(first[1], plots), drawn(other[1], plots)
        for p in plots:
            same_figure(a[p], b[p], 'with other values under the mask: ' + p)
    ctx.label(case['mask'], case['fill'], case['sim']['mode'], *plots)


@st.composite
def cases(draw):
    return {'sim': draw(simdata.sims(max_dim=16, min_dim=8, max_l=6, max_steps=12)), 'seed': draw(gen.seeds()),
            'mask': draw(st.sampled_from(['bayer', 'bayer', 'checker', 'rows', 'random', 'random', 'none'])),
            'fill': draw(st.sampled_from(['random', 'zero', 'top', 'noise', 'row'])),
            'under': draw(st.sampled_from([False, True, True])), 'plots': draw(st.lists(st.sampled_from(NAMES), max_size=3, unique=True))}


SUBS = [Sub('mask', lambda tier: cases(), check, 600, 15000,
            'a simulated data set read through a mask (one colour of a mosaic, checkerboard, every other line, random pixels, or nothing masked), the same '
            'with other values under the mask, and its valid pixels alone as a frame of one line: temporal data, overall spatial '
            'results and everything fitted agree with the valid pixels alone; every listed quantity, histogram and up to three '
            'drawn plots do not see what is under the mask; non-trivial when the fitted results are defined')]
