"""C27: tiling, colour filters, quantum efficiencies."""
import numpy as np
from hypothesis import strategies as st

from emva1288.camera.camera import Camera
from emva1288.camera import routines as R
from .. import gen
from ..core import Sub, require, same, raises, short


def check_tile(case, ctx):
    rng = np.random.default_rng(case['seed'])
    h, w = case['h'], case['w']
    shape = case['shape']
    a = rng.integers(-1000, 1000, shape)
    if case['float']:
        a = a / 8.0
    keep = a.copy()
    nd = len(shape)
    if case['fn'] == 'get_tile':
        t = R.get_tile(a, h, w)
        if nd == 1:
            want = np.array([[a[j % shape[0]] for j in range(w)] for _i in range(h)])
        else:
            want = np.array([[a[i % shape[0], j % shape[1]] for j in range(w)] for i in range(h)])
        if h == 1:
            want = want[0]
        same(t, want, 'get_tile %s to %dx%d' % (shape, h, w))
    else:
        t = R.array_tile(a, h, w)
        want = np.array([[a[i % shape[0], j % shape[1]] for j in range(w)] for i in range(h)])
        same(t, want, 'array_tile %s to %dx%d' % (shape, h, w))
    require(t.dtype == a.dtype, 'type %s became %s', a.dtype, t.dtype)
    same(a, keep, 'pattern')
    ctx.label(case['fn'], '%d-D' % nd, 'pattern larger' if h < shape[0] or w < shape[min(1, nd - 1)] else
              'exact' if h % shape[0] == 0 and w % shape[min(1, nd - 1)] == 0 else 'cut')
    if a.size == 1:
        ctx.trivial()


@st.composite
def tile_cases(draw):
    fn = draw(st.sampled_from(['get_tile', 'array_tile']))
    if fn == 'get_tile':
        shape = draw(st.lists(st.one_of(st.integers(1, 7), st.integers(1, 40)), min_size=1, max_size=2))
    else:
        shape = [draw(st.one_of(st.integers(1, 5), st.integers(1, 25))), draw(st.one_of(st.integers(1, 5), st.integers(1, 25))), draw(st.integers(1, 4))]
    return {'fn': fn, 'shape': shape, 'h': draw(st.one_of(st.integers(1, 24), st.integers(1, 90))), 'w': draw(st.one_of(st.integers(1, 24), st.integers(1, 90))), 'seed': draw(gen.seeds()),
            'float': draw(st.booleans())}


def check_bayer(case, ctx):
    t = case['t']
    w = np.arange(case['start'], case['start'] + case['step'] * case['n'], case['step'], dtype=float)[:case['n']]
    # the grid carries the requested wavelengths
    t = [int(w[k % len(w)]) for k in t]
    h, wd = case['h'], case['w']
    keep = w.copy()
    b = R.get_bayer_filter(t[0], t[1], t[2], t[3], wd, h, w)
    require(b.shape == (h, wd, len(w)), 'filter of shape %s for %dx%d and %d wavelengths', b.shape, h, wd, len(w))
    require(np.isfinite(b).all() and b.min() >= 0 and b.max() <= 1 + 1e-12, 'transmission from %s to %s', b.min(), b.max())
    for i in range(h):
        for j in range(wd):
            same(b[i, j], b[i % 2, j % 2], 'pixel %d,%d' % (i, j))
    for i in range(min(2, h)):
        for j in range(min(2, wd)):
            want = t[2 * i + j]
            peak = np.flatnonzero(b[i, j] >= b[i, j].max() * (1 - 1e-9))
            require(abs(b[i, j].max() - 1) < 1e-9, 'position %d,%d transmits at most %g', i, j, b[i, j].max())
            require(np.min(np.abs(w[peak] - want)) < 1.0, 'position %d,%d peaks at %s, requested %d', i, j, w[peak], want)
            # falls off to both sides
            k = int(peak[0])
            require((np.diff(b[i, j][:k + 1]) >= -1e-12).all() and (np.diff(b[i, j][peak[-1]:]) <= 1e-12).all(),
                    'position %d,%d: not a single peak', i, j)
    same(w, keep, 'wavelengths')
    ctx.label('odd frame' if h % 2 or wd % 2 else 'even frame', 'colours %d' % len(set(t)))
    if len(set(t)) == 1:
        ctx.trivial()


@st.composite
def bayer_cases(draw):
    return {'t': [draw(st.integers(0, 40)) for _ in range(4)], 'start': draw(st.integers(350, 600)),
            'step': draw(st.sampled_from([1, 5, 10, 25])), 'n': draw(st.integers(2, 14)), 'h': draw(st.integers(1, 9)),
            'w': draw(st.integers(1, 9))}


def check_qe(case, ctx):
    h, w, n = case['h'], case['w'], case['n']
    rng = np.random.default_rng(case['seed'])
    lam = np.linspace(case['lo'], case['lo'] + 300, n)
    q = rng.uniform(0, 1, (h, w, n))
    filt = {'none': None, 'frame': rng.uniform(0, 1, (h, w, n)), 'curve': rng.uniform(0, 1, (n,)),
            'pixel': rng.uniform(0, 1, (h, w, 1))}[case['filter']]
    kq, kf = q.copy(), None if filt is None else filt.copy()
    if case['bad']:
        bad = list(q.shape)
        bad[case['bad'] - 1] += 1 + case['more']
        wrong = np.ones(bad)
        raises((ValueError,), lambda: R.Qe(qe=wrong, wavelength=lam, width=w, height=h), 'efficiency of shape %s' % bad)
        if h != w:
            raises((ValueError,), lambda: R.Qe(qe=np.ones((w, h, n)), wavelength=lam, width=w, height=h), 'swapped frame')
    if case['own']:
        e = R.Qe(qe=q, wavelength=lam, width=w, height=h, filter=filt)
        want = q if filt is None else q * filt
    else:
        plain = R.Qe(wavelength=lam, width=w, height=h).qe
        require(plain.shape == (h, w, n) and plain.min() >= 0 and plain.max() <= 1, 'simulated efficiency %s', short(plain))
        require((plain == plain[:1, :1]).all(), 'simulated efficiency differs between pixels')
        # a wavelength's efficiency does not depend on the others asked for
        k = int(rng.integers(n))
        others = np.sort(np.concatenate([lam[k:k + 1], rng.uniform(300, 1100, int(rng.integers(0, 5)))]))
        one = R.Qe(wavelength=others, width=w, height=h).qe[0, 0, list(others).index(lam[k])]
        require(abs(one - plain[0, 0, k]) <= 1e-12, 'efficiency at %g is %g among %s, %g among %s', lam[k], one, others, plain[0, 0, k], lam)
        e = R.Qe(wavelength=lam, width=w, height=h, filter=filt)
        want = plain if filt is None else plain * filt
    same(e.qe, want, 'efficiency')
    same(e.w, lam, 'wavelengths')
    same(q, kq, 'supplied efficiency')
    if filt is not None:
        same(filt, kf, 'supplied filter')
    # a second one from the same arrays
    if case['own']:
        same(R.Qe(qe=q, wavelength=lam, width=w, height=h, filter=filt).qe, want, 'second efficiency')
    cam = Camera(width=w, height=h, qe=e, seed=1)
    require(cam.grab(cam.get_radiance_for(mean=100.0)).shape == (h, w), 'camera image')
    same(cam.qe.qe, want, 'efficiency of the camera')
    ctx.label(case['filter'], 'supplied' if case['own'] else 'simulated', 'refused %s' % case['bad'] if case['bad'] else '')
    if case['filter'] == 'none' and not case['own']:
        ctx.trivial()


@st.composite
def qe_cases(draw):
    return {'h': draw(st.integers(1, 9)), 'w': draw(st.integers(1, 9)), 'n': draw(st.integers(1, 8)), 'seed': draw(gen.seeds()),
            'lo': draw(st.sampled_from([350, 400, 500.5, 700])), 'filter': draw(st.sampled_from(['none', 'frame', 'curve', 'pixel'])),
            'own': draw(st.sampled_from([True, True, False])), 'bad': draw(st.integers(0, 3)), 'more': draw(st.integers(0, 3))}


SUBS = [Sub('tiling', lambda tier: tile_cases(), check_tile, 4000, 120000,
            'a 1-D, 2-D or colour pattern of up to 7x7 over frames 1x1..24x24 (also smaller than the pattern), element by '
            'element; non-trivial with a pattern of two or more values'),
        Sub('bayer', lambda tier: bayer_cases(), check_bayer, 600, 10000,
            'four peak wavelengths on a wavelength grid, frames 1x1..9x9: range, position, peak, single peak; non-trivial '
            'with two or more colours'),
        Sub('efficiency', lambda tier: qe_cases(), check_qe, 1500, 40000,
            'a supplied or simulated efficiency, with or without filter, and wrong dimensions; non-trivial unless simulated '
            'without filter')]
