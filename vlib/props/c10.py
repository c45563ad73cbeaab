"""C10: responsivity, system gain, quantum efficiency."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .. import temporal as T
from ..core import Sub, require, close


def ties(n, k, seed):
    """A series with points exactly at 70 % of the saturation signal."""
    rng = np.random.default_rng(seed)
    f = 2.0 ** k
    Y = np.concatenate([np.sort(rng.integers(1, 7, max(1, n - 4))), [7, 8, 9, 10]]) * f
    n = len(Y)
    dark = np.full(n, 4.0)
    return {'texp': np.arange(1.0, n + 1), 'u_p': np.arange(1, n + 1) * 3.0, 'u_y': Y + dark,
            's2_y': Y * 0.5 + rng.uniform(0, 0.2, n) + 1, 'u_ydark': dark, 's2_ydark': np.full(n, 1.0)}, n - 1


def expand(case):
    if case['kind'] == 'ties':
        return ties(case['s']['n'], case['pow'], case['s']['seed'])
    t = T.build(case['s'])
    return t, (case['force'] % len(t['u_p']) if case['force'] is not None else None)


def fit(x, y):
    m = T.slope0(x, y)
    return m, 1e-6 * float(np.sqrt((np.asarray(y) ** 2).sum() / (np.asarray(x) ** 2).sum())) + 1e-300


def check(case, ctx):
    t, force = expand(case)
    n = len(t['u_p'])
    sat = T.saturation(t['s2_y']) if force is None else force
    Y = t['u_y'] - t['u_ydark']
    m = 0.7 * Y[sat]
    if Y[sat] <= 0 or not (Y <= m).any() or T.near_tie(Y, m):
        ctx.trivial()
        ctx.label('no fit range')
        return
    last = int(np.nonzero(Y <= m)[0][-1])
    sl = slice(0, last + 1)
    V = t['s2_y'] - t['s2_ydark']
    r = T.results(t, index_u_ysat=force)
    require(int(r.index_sensitivity_min) == 0 and int(r.index_sensitivity_max) == last,
            'fit range %s..%s, expected 0..%d', r.index_sensitivity_min, r.index_sensitivity_max, last)
    R, Rt = fit(t['u_p'][sl], Y[sl])
    K, Kt = fit(Y[sl], V[sl])
    close(r.R, R, 'R', rtol=0, atol=Rt)
    close(r.K, K, 'K', rtol=0, atol=Kt)
    if abs(K) > 100 * Kt:
        close(r.QE, 100 * R / K, 'QE', rtol=1e-4)
        close(r.QE, 100 * r.R / r.K, 'QE from R and K', rtol=1e-12)
        close(r.inverse_K(), 1 / K, '1/K', rtol=1e-4)
    # points beyond the range have no influence (saturation held fixed)
    if last + 1 < n:
        rng = np.random.default_rng(case['s']['seed'])
        o = {k: v.copy() for k, v in t.items()}
        for k in ('u_p', 's2_y', 's2_ydark'):
            o[k][last + 1:] *= rng.uniform(0.5, 3, n - last - 1)
        ro = T.results(o, index_u_ysat=sat)
        close(ro.R, r.R, 'R with other points beyond the range', rtol=1e-9)
        close(ro.K, r.K, 'K with other points beyond the range', rtol=1e-9)
    c = case['c']
    o = dict(t, u_p=t['u_p'] * c)
    ro = T.results(o, index_u_ysat=force)
    close(ro.R * c, R, 'R with photons scaled by %g' % c, rtol=0, atol=Rt)
    close(ro.K, K, 'K with photons scaled by %g' % c, rtol=0, atol=Kt)
    o = dict(t, u_y=t['u_y'] * c, u_ydark=t['u_ydark'] * c, s2_y=t['s2_y'] * c * c, s2_ydark=t['s2_ydark'] * c * c)
    Yo = o['u_y'] - o['u_ydark']
    # a value on the threshold stays there only under exact scaling
    if not T.near_tie(Yo, 0.7 * Yo[sat]) and np.array_equal(Yo <= 0.7 * Yo[sat], Y <= m):
        ro = T.results(o, index_u_ysat=sat)
        close(ro.R / c, R, 'R with gray values scaled by %g' % c, rtol=0, atol=Rt)
        close(ro.K / c, K, 'K with gray values scaled by %g' % c, rtol=0, atol=Kt)
    ctx.label(case['kind'], 'forced' if force is not None else 'found', case['s']['mode'],
              'nonmonotone range' if (Y[sl] > m).any() else 'monotone range', 'single point' if last == 0 else 'several')
    if last == 0:
        ctx.trivial()


@st.composite
def cases(draw):
    return {'s': draw(T.series()), 'kind': draw(st.sampled_from(['series'] * 4 + ['ties'])), 'pow': draw(st.integers(0, 12)),
            'force': draw(st.one_of(st.none(), st.none(), st.integers(0, 60))),
            'c': draw(st.one_of(st.sampled_from([0.5, 2.0, 8.0, 3.0]), gen.logfloat(0.01, 100)))}


SUBS = [Sub('slopes', lambda tier: cases(), check, 6000, 200000,
            'a photon transfer series (4..200 points; exposure or light controlled; even, random or logarithmic spacing; '
            'noise, curvature, saturation, forced saturation index, values exactly at 70 %) against closed-form '
            'zero-intercept least squares, plus points changed beyond the range and two rescalings; non-trivial with '
            'two or more fitted points')]
