"""Temporal series (measuring points as numbers, no images) for the checks of fitted results."""
import numpy as np
from hypothesis import strategies as st

from emva1288.process.results import Results1288
from . import gen



@st.composite
def series(draw, min_n=4, max_n=50, mode=None, min_unique=1):
    """Description of a photon transfer series of one camera."""
    n = draw(st.one_of(st.integers(min_n, min(9, max_n)), *[st.integers(min_n, max_n)] * 4, st.integers(min_n, 4 * max_n)))
    return {
        'n': n, 'seed': draw(gen.seeds()),
        'mode': mode or draw(st.sampled_from(['exposure', 'light', 'groups'])),
        'R': draw(gen.logfloat(1e-3, 10)), 'K': draw(gen.logfloat(1e-2, 50)), 'top': draw(gen.logfloat(20, 60000)),
        'dark': draw(st.sampled_from([0.0, 0.3, 17.25, 400.5])), 'sd2': draw(gen.logfloat(0.01, 100)),
        'I': draw(st.sampled_from([0.0, 1e-9, 3e-7, -1e-8])), 'texp': draw(gen.logfloat(1, 1e6)),
        'step': draw(gen.logfloat(10, 1e8)),
        'spacing': draw(st.sampled_from(['even', 'random', 'log'])),
        'noise': draw(st.sampled_from([0.0, 1e-4, 1e-2, 0.1])), 'curve': draw(st.sampled_from([0.0, 0.0, 0.05, -0.03])),
        'sat': draw(st.floats(0.3, 1.3)), 'swap': draw(st.sampled_from([0, 0, 0, 0.05, 0.7, 0.95])),
        'trend': draw(st.sampled_from([0.0, 0.5, 20.0, -0.4, -0.9])),
    }


def build(s):
    """The temporal dict of a series description."""
    n, rng = s['n'], np.random.default_rng(s['seed'])
    if s['spacing'] == 'even':
        x = np.arange(1, n + 1) / n
    elif s['spacing'] == 'log':
        x = np.logspace(-2.5, 0, n)
    else:
        x = np.sort(rng.uniform(0.004, 1, n))
        x[-1] = 1
        x[0] = min(x[0], 0.02)
    x = np.maximum.accumulate(x)
    lin = x + s['curve'] * x ** 2
    Y = s['top'] * lin * (1 + s['noise'] * rng.standard_normal(n) * 0.3)
    u_p = np.round(s['top'] * x / s['R'], 4)
    s2 = s['K'] * Y * (1 + s['noise'] * rng.standard_normal(n))
    over = x > s['sat']
    Y = np.where(over, s['top'] * s['sat'] * (1 + 0.02 * (x - s['sat'])), Y)
    s2 = np.where(over, s2 * 0.01, s2)
    Y, s2 = np.abs(Y), np.abs(s2)
    if s['swap']:
        # the two points around a threshold change places
        j = min(int(np.searchsorted(x, s['swap'] * min(s['sat'], 1.0))), n - 1)
        if j > 0:
            Y[[j - 1, j]] = Y[[j, j - 1]]
            s2[[j - 1, j]] = s2[[j, j - 1]]
    t = np.arange(1, n + 1) * s['step'] * (1 + 0.1 * rng.random(n))
    if s['mode'] == 'light':
        t = np.full(n, s['texp'])
        dark, sd2 = np.full(n, s['dark']), np.full(n, s['sd2'])
    else:
        t = np.round(s['texp'] + t, 3)
        if s['mode'] == 'groups':
            # a series with two exposure times only (arrays given per point)
            t = np.where(np.arange(n) < n // 2, t[0], t[-1])
        dark = s['dark'] + s['I'] * t + (s['noise'] * rng.standard_normal(n))
        sd2 = s['sd2'] * (1 + s['trend'] * t / t.max())
        sd2 = np.maximum(sd2 * (1 + 0.1 * s['noise'] * rng.standard_normal(n)), 0)
    return {'texp': t, 'u_p': u_p, 'u_y': Y + dark, 's2_y': s2 + sd2, 'u_ydark': dark, 's2_ydark': sd2}


def blank_spatial():
    a = np.arange(100).reshape(10, 10)
    d = {'texp': 1.0, 'u_p': 5.0}
    for post, k in (('', 3), ('_dark', 1)):
        d.update({'sum' + post: a * k, 'L' + post: 4, 'M' + post: 10, 'N' + post: 10, 'avg_mean' + post: 12.5 * k,
                  'avg_var' + post: 4.0 * k, 'var_mean' + post: 1.0 * k, 'avg_var_cav' + post: 1.5 * k,
                  'avg_var_rav' + post: 1.25 * k})
    return d


def results(t, **kw):
    t = {k: np.array(v) for k, v in t.items()}
    return Results1288({'temporal': t, 'spatial': blank_spatial()}, **kw)


def saturation(s2):
    """Brightest point whose variance exceeds that of both next darker ones; 0 if none."""
    for j in range(len(s2) - 1, 0, -1):
        if s2[j] > s2[j - 1] and s2[j] > s2[max(j - 2, 0)]:
            return j
    return 0


def near_tie(Y, level):
    """A value so close to a threshold (but not on it) that rounding decides."""
    d = np.abs(Y - level)
    return bool(np.any((d != 0) & (d < 1e-9 * abs(level))))


def slope0(x, y):
    x, y = np.asarray(x, np.longdouble), np.asarray(y, np.longdouble)
    return float((x * y).sum() / (x * x).sum())


def line(x, y):
    """Ordinary least squares slope and intercept, in extended precision."""
    x, y = np.asarray(x, np.longdouble), np.asarray(y, np.longdouble)
    xm, ym = x.mean(), y.mean()
    a = ((x - xm) * (y - ym)).sum() / ((x - xm) ** 2).sum()
    return float(a), float(ym - a * xm)
