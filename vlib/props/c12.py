"""C12: linearity."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .. import temporal as T
from ..core import Sub, require, close


def ties(n, k, seed):
    """Points exactly at 5 % and 95 % of the saturation signal."""
    rng = np.random.default_rng(seed)
    f = 2.0 ** k
    Y = np.concatenate([[0.5, 1], np.sort(rng.integers(2, 19, n)), [19, 19.5, 20]]) * f
    n = len(Y)
    dark = np.full(n, 4.0)
    return {'texp': np.arange(1.0, n + 1), 'u_p': Y * 3 + rng.uniform(0, 0.3, n) * f, 'u_y': Y + dark,
            's2_y': Y * 0.5 + 1, 'u_ydark': dark, 's2_ydark': np.full(n, 1.0)}


def reference(X, Y, i0, i1):
    """Weighted least squares with weights 1/Y, solved in extended precision with scaled columns."""
    x, y = np.asarray(X[i0:i1 + 1], np.longdouble), np.asarray(Y[i0:i1 + 1], np.longdouble)
    w = 1 / y ** 2
    w = w / w.sum()
    xm, ym = (w * x).sum(), (w * y).sum()
    sxx = (w * (x - xm) ** 2).sum()
    a = (w * (x - xm) * (y - ym)).sum() / sxx
    b = ym - a * xm
    # how much the closed form loses to cancellation
    cond = float(((w * x * x).sum()) / sxx)
    line = a * np.asarray(X, np.longdouble) + b
    dev = 100 * (np.asarray(Y, np.longdouble) - line) / line
    return float(a), float(b), np.asarray(line, float), np.asarray(dev, float), cond


def compare(r, t, sat, what, extra=1.0):
    Y = t['u_y'] - t['u_ydark']
    X = t['u_p']
    i0 = int(np.nonzero(Y >= 0.05 * Y[sat])[0][0])
    i1 = int(np.nonzero(Y <= 0.95 * Y[sat])[0][-1])
    require(int(r.index_linearity_min) == i0 and int(r.index_linearity_max) == i1, '%s: fit range %s..%s, expected %d..%d',
            what, r.index_linearity_min, r.index_linearity_max, i0, i1)
    a, b, line, dev, cond = reference(X, Y, i0, i1)
    eps = extra * (1e-9 + 1e-13 * cond)
    lin = r.linearity()
    top = abs(a) * float(np.abs(X[i0:i1 + 1]).max()) + abs(b)
    close(lin['fit_slope'], a, what + ': slope', rtol=0, atol=eps * top / float(np.abs(X[i0:i1 + 1]).min()) + 1e-300)
    close(lin['fit_offset'], b, what + ': offset', rtol=0, atol=eps * top)
    with np.errstate(all='ignore'):
        tol = 100 * np.abs(Y) / line ** 2 * eps * (abs(a) * np.abs(X) + abs(b) + top) * 4 + 1e-9
    got = np.asarray(lin['relative_deviation'])
    require(got.shape == dev.shape, '%s: deviation of shape %s', what, got.shape)
    ok = np.isfinite(dev) & (np.abs(line) > 100 * eps * top)
    close(got[ok], dev[ok], what + ': deviation', rtol=1e-9, atol=tol[ok])
    inside = slice(i0, i1 + 1)
    if ok[inside].all():
        for name, f in (('min', np.min), ('max', np.max)):
            w = float(f(dev[inside]))
            tl = float(tol[inside].max())
            close(lin['linearity_error_' + name], w, '%s: error %s' % (what, name), rtol=1e-9, atol=tl)
            close(getattr(r, 'LE_' + name), w, '%s: LE_%s' % (what, name), rtol=1e-9, atol=tl)
    return i0, i1, dev, cond, bool(ok[inside].all()), tol


def usable(t, sat):
    Y = t['u_y'] - t['u_ydark']
    if not Y[sat] > 0:
        return 'no signal'
    lo, hi = 0.05 * Y[sat], 0.95 * Y[sat]
    if T.near_tie(Y, lo) or T.near_tie(Y, hi):
        return 'rounding decides the range'
    a, b = np.nonzero(Y >= lo)[0], np.nonzero(Y <= hi)[0]
    if not len(a) or not len(b) or b[-1] <= a[0]:
        return 'no range'
    s = slice(a[0], b[-1] + 1)
    if len(np.unique(t['u_p'][s])) < 2:
        return 'one photon count'
    if (Y[s] <= 0).any():
        return 'signal below dark'
    return None


def check(case, ctx):
    if case['kind'] == 'ties':
        t = ties(case['s']['n'], case['pow'], case['s']['seed'])
        force = len(t['u_p']) - 1
    else:
        t = T.build(case['s'])
        n = len(t['u_p'])
        force = case['force'] % n if case['force'] is not None else None
        if case['kind'] == 'linear':
            a, b = case['s']['R'], case['offset'] * case['s']['top']
            t['u_y'] = t['u_p'] * a + b + t['u_ydark']
    sat = T.saturation(t['s2_y']) if force is None else force
    no = usable(t, sat)
    if no:
        ctx.trivial()
        ctx.label(no)
        return
    r = T.results(t, index_u_ysat=force)
    i0, i1, dev, cond, full, tol = compare(r, t, sat, 'series')
    if cond > 1e9:
        ctx.trivial()
        ctx.label('ill-conditioned')
        return
    scale = float(np.abs(t['u_y']).max())
    if case['kind'] == 'linear':
        Y = t['u_y'] - t['u_ydark']
        rnd = 1e-12 * scale / np.abs(Y[i0:i1 + 1]).min()
        close(r.LE_min, 0, 'LE_min of linear data', atol=100 * rnd + 1e-6 + float(tol[i0:i1 + 1].max()))
        close(r.LE_max, 0, 'LE_max of linear data', atol=100 * rnd + 1e-6 + float(tol[i0:i1 + 1].max()))
    c = case['c']
    for what, o in (('photons scaled', dict(t, u_p=t['u_p'] * c)),
                    ('gray values scaled', dict(t, u_y=t['u_y'] * c, u_ydark=t['u_ydark'] * c))):
        if usable(o, sat) or not full:
            continue
        Yo, Y = o['u_y'] - o['u_ydark'], t['u_y'] - t['u_ydark']
        if not all(np.array_equal(f(Yo, Yo[sat]), f(Y, Y[sat])) for f in (lambda y, s: y >= 0.05 * s,
                                                                           lambda y, s: y <= 0.95 * s)):
            continue
        ro = T.results(o, index_u_ysat=sat)
        tl = 4 * float(tol[i0:i1 + 1].max()) + 1e-10 * scale / np.abs(Y[i0:i1 + 1]).min()
        close(ro.LE_min, r.LE_min, what + ' by %g: LE_min' % c, rtol=1e-7, atol=tl)
        close(ro.LE_max, r.LE_max, what + ' by %g: LE_max' % c, rtol=1e-7, atol=tl)
    ctx.label(case['kind'], 'forced' if force is not None else 'found', 'starts later' if i0 else 'starts at first',
              'extremes from outside' if full and (dev.min() < dev[i0:i1 + 1].min() or dev.max() > dev[i0:i1 + 1].max())
              else 'extremes inside', '2 points' if i1 - i0 == 1 else 'several points')
    if i1 - i0 == 1:
        ctx.trivial()


@st.composite
def cases(draw):
    return {'s': draw(T.series(min_n=5)), 'kind': draw(st.sampled_from(['series'] * 3 + ['ties', 'linear'])),
            'pow': draw(st.integers(0, 12)), 'offset': draw(st.sampled_from([0.0, 0.01, 0.2, -0.003])),
            'force': draw(st.one_of(st.none(), st.none(), st.integers(0, 60))),
            'c': draw(st.one_of(st.sampled_from([0.5, 2.0, 8.0, 3.0]), gen.logfloat(0.01, 100)))}


SUBS = [Sub('fit', lambda tier: cases(), check, 6000, 200000,
            'a photon transfer series (noise, curvature, offset, exactly linear, values exactly at 5 % and 95 %, forced '
            'saturation) against weighted least squares in extended precision, plus rescaled photons and gray values; '
            'non-trivial with three or more fitted points')]
