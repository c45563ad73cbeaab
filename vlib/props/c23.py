"""C23: characterising simulated images recovers the camera."""
import gc

import numpy as np
from hypothesis import strategies as st

from emva1288.camera.dataset_generator import DatasetGenerator
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from emva1288.process.results import Results1288
from .. import cams, dataset, gen
from ..core import Sub, require

Z = 7.0
Q = 1 / 6.0          # dither and rounding, each 1/12 DN^2


def pattern(spec, rng, h, w):
    """Row, column and pixel parts with the given standard deviations."""
    r, c, p = spec
    out = r * rng.standard_normal((h, 1)) + c * rng.standard_normal((1, w)) + p * rng.standard_normal((h, w))
    return np.clip(out, -5 * (r + c + p), 5 * (r + c + p))


def camera(s):
    """(camera keyword arguments, model dictionary)."""
    rng = np.random.default_rng([s['seed'], 103])
    h, w = s['h'], s['w']
    top = 2 ** s['bits'] - 1
    K = top / s['ne']
    sd0 = (s['noise'] / K) ** 2
    dsnu = pattern([x * s['noise'] / K for x in s['dsnu']], rng, h, w)
    prnu = 1 + pattern(s['prnu'], rng, h, w)
    ds0 = 6.5 * np.sqrt(sd0) - dsnu.min() + 1.5 / K
    nw = s['nw']
    lam = s['w0'] + 35.0 * np.arange(nw)
    q = np.full((h, w, nw), s['eta']) * np.linspace(1, s['slope'], nw)
    if s['qepix']:
        q *= rng.uniform(1 - s['qepix'], 1, (h, w, nw))
    # dark current: a fraction of the range at the longest exposure
    rate = s['current'] * s['ne'] / (s['emax'] * 1e-9)
    ref = rate / 2.0 ** ((s['T'] - s['Tref']) / s['Td'])
    # a full well which only the brightest point or two exceed, or one beyond the range of the converter
    well = ds0 + s['ne'] * (1 - 1.5 / s['steps']) if s['well'] else s['ne'] * 2
    kw = dict(f_number=s['f'], pixel_area=s['area'], bit_depth=s['bits'], width=w, height=h, temperature=s['T'],
              temperature_ref=s['Tref'], temperature_doubling=s['Td'], qe=cams.Qe(qe=q, wavelength=lam, width=w, height=h),
              exposure_min=s['emax'] / 100, exposure_max=s['emax'], K=K, K_min=K / 2, K_max=K * 1.5, K_steps=2001,
              blackoffset=s['bo'] * top, blackoffset_max=top / 4, blackoffset_steps=1000, dark_current_ref=ref,
              dark_signal_0=ds0, sigma2_dark_0=sd0, u_esat=well, dsnu=dsnu, prnu=prnu, seed=s['seed'])
    return kw, {'q': q, 'lam': lam, 'rate': rate, 'sd0': sd0, 'ds0': ds0, 'dsnu': dsnu, 'prnu': prnu, 'top': top}


def split(stats, M, N):
    """(column, row, pixel) parts of (total, column average, row average) variances."""
    A = np.array([[1, 1, 1], [1, 0, 1.0 / M], [0, 1, 1.0 / N]])
    inv = np.linalg.inv(A)
    return inv @ np.asarray(stats), inv


def spatial_truth(a, noise, L):
    """Variances of a mean image (total, columns, rows) and the error of their estimates from L noisy images."""
    M, N = a.shape
    s = [a.var(ddof=1), a.mean(axis=0).var(), a.mean(axis=1).var()]
    n = noise / L
    err = [np.sqrt((2 * n ** 2 + 4 * n * s[0]) / (M * N) + 2 * n ** 2 / (M * N * (L - 1))),
           np.sqrt((2 * (n / M) ** 2 + 4 * n / M * s[1]) / N) + n / M / N,
           np.sqrt((2 * (n / N) ** 2 + 4 * n / N * s[2]) / M) + n / N / M]
    return np.array(s), np.array(err)


def check(case, ctx):
    s = case
    kw, m = camera(s)
    with dataset.scratch() as d:
        args = {'steps': s['steps'], 'L': s['L'], 'image_format': s['format'], 'outdir': d + '/set'}
        fixed = s['mode'] == 'light'
        if fixed:
            args['exposure_fixed'] = s['emax'] / 4
        g = DatasetGenerator(**args, **kw)
        data = Data1288(LoadImageData(ParseEmvaDescriptorFile(g.descriptor_path).images).data).data
        K, bo, points = float(g.cam.K), float(g.cam.blackoffset), g.points
        del g
        gc.collect()
    r = Results1288(data, pixel_area=s['area'])
    n, N_, L = s['h'] * s['w'], s['w'], s['L']
    shape = (s['h'], s['w'], s['nw'])

    def level(t, rad):
        ph = cams.photons(np.broadcast_to(rad, shape), t, s['area'], m['lam'], s['f'])
        return float(ph.sum(axis=2).mean()), (ph * m['q']).sum(axis=2) * m['prnu'], m['rate'] * t * 1e-9

    pts = []
    for t, rads in points['temporal'].items():
        for rad in rads:
            if np.any(rad):
                pts.append((float(t),) + level(t, rad))
    pts.sort(key=lambda p: p[1])
    T = np.array([p[0] for p in pts])
    E = np.array([p[2].mean() for p in pts])            # light electrons
    U = np.array([p[1] for p in pts])                   # photons
    D = np.array([p[3] for p in pts])                   # thermal electrons
    require(len(r.temporal['u_y']) == len(pts), '%d measuring points of %d planned', len(r.temporal['u_y']), len(pts))
    base = m['ds0'] + m['dsnu']
    cap = min(kw['u_esat'], (m['top'] - bo) / K)
    # electrons at the brightest pixel including noise, per point
    hot = np.array([(p[2] + p[3] + base + 6 * np.sqrt(p[2] + p[3] + m['sd0'])).max() for p in pts])
    clean = hot < cap - 1 / K
    cold = (base + D.min() - 6.5 * np.sqrt(m['sd0'] + D.min())).min() * K + bo
    imax, lmax, lmin, isat = (int(x) for x in (r.index_sensitivity_max, r.index_linearity_max, r.index_linearity_min, r.index_u_ysat))
    above = int(np.count_nonzero(E + D + base.mean() > cap + 4 * np.sqrt(cap)))
    if cold < 1 or not clean[:imax + 1].all() or imax < 4 or (kw['u_esat'] < (m['top'] - bo) / K + 10 / K and above > 2):
        ctx.trivial()
        ctx.label('clipped or too few points')
        return
    ctx.label(s['mode'], '%d bits' % s['bits'], 'wavelengths %d' % s['nw'], 'capacity %s' % ('well' if kw['u_esat'] < (m['top'] - bo) / K else 'converter'))

    S = K * K * (E + D + m['sd0']) + Q                  # temporal variances
    Sd = K * K * (D + m['sd0']) + Q
    spread = np.array([np.mean((p[2] + p[3] + m['sd0']) ** 2) / (p[2].mean() + p[3] + m['sd0']) ** 2 for p in pts])
    vS, vSd = 2.05 * S ** 2 * spread / n, 2.05 * Sd ** 2 / n
    vY, vYd = S / (2 * n), Sd / (2 * n)
    # the two images differ in noise only, so that their mean differs from the model by noise only
    Y = K * E
    X = U

    worst = [0.0]

    def near(got, want, sigma, what):
        got = float(got)
        require(np.isfinite(got), '%s is %s, expected %g +- %g', what, got, want, Z * sigma)
        require(abs(got - want) <= Z * sigma, '%s: %.7g, expected %.7g +- %.3g (%d sigma)', what, got, want, Z * sigma, Z)
        worst[0] = max(worst[0], abs(got - want) / sigma)

    k = slice(0, imax + 1)

    def slope_sigma(x, v, vd):
        a = x[k] / (x[k] ** 2).sum()
        if fixed:
            return np.sqrt((a ** 2 * v[k]).sum() + a.sum() ** 2 * vd[0])
        return np.sqrt((a ** 2 * (v[k] + vd[k])).sum())

    # photon counts and signals are those of the camera
    for got, want, tol, what in ((r.temporal['u_p'], X, 1e-6 * X + 0.001, 'photons'),
                                 (r.temporal['u_ydark'], K * (D + base.mean()) + bo, Z * np.sqrt(vYd) + 1e-3, 'dark signal')):
        require(np.all(np.abs(np.asarray(got) - want) <= tol), '%s: %s, expected %s', what, got, want)
    eta = float((X[k] * E[k]).sum() / (X[k] ** 2).sum())
    sR = slope_sigma(X, vY, vYd) + 1e-6 * K * eta + K * eta * 0.001 / X[imax]
    near(r.R, K * eta, sR, 'responsivity')
    sK = slope_sigma(Y, vS, vSd) + K * 2 * sR / (K * eta) + 0.01 * K * Q / S[k].mean()
    near(r.K, K, sK, 'system gain')
    near(r.inverse_K(), 1 / K, sK / K ** 2 * 1.3, '1/K')
    rel = sK / K + sR / (K * eta)
    near(r.QE, 100 * eta, 100 * eta * rel, 'quantum efficiency')
    # dark noise and dark current
    if fixed:
        i0, si0 = Sd[0], np.sqrt(vSd[0])
        require(np.isnan(r.u_I_mean) and np.isnan(r.u_I_var), 'dark current from one exposure time')
    else:
        tc = T - T.mean()
        a = tc / (tc ** 2).sum()
        b = 1.0 / len(T) - T.mean() * a
        i0, si0 = K * K * m['sd0'] + Q, np.sqrt((b ** 2 * vSd).sum())
        near(r.u_I_mean_DN, m['rate'] * K, np.sqrt((a ** 2 * vYd).sum()) * 1e9, 'dark current from mean in DN')
        smean = np.sqrt((a ** 2 * vYd).sum()) * 1e9 / K + m['rate'] * rel
        near(r.u_I_mean, m['rate'], smean, 'dark current from mean')
        svar = np.sqrt((a ** 2 * vSd).sum()) * 1e9 / K
        for got, f, what in ((r.u_I_var_DN, K, 'dark current from variance in DN'), (r.u_I_var, 1.0, 'dark current from variance')):
            sg = f * (svar / K + 2 * m['rate'] * rel)
            if np.isnan(got):
                require(m['rate'] * f < Z * sg, '%s is undefined, expected %g +- %g', what, f * m['rate'], Z * sg)
            else:
                near(got, f * m['rate'], sg, what)
        if m['rate'] > 14 * (svar / K + 2 * m['rate'] * rel):
            ctx.label('dark current from variance resolved')
        if m['rate'] > 14 * smean:
            ctx.label('dark current from mean resolved')
    near(r.sigma_y_dark ** 2, i0, si0 + 0.01 * Q, 'variance of the dark signal')
    near(r.sigma_d ** 2, (i0 - 1 / 12) / K ** 2, (si0 + 0.01 * Q) / K ** 2 + 2 * (i0 - 1 / 12) / K ** 2 * rel, 'dark noise')
    # saturation: not before the last point free of clipping (up to noise), not after the first whose mean is at the limit
    mean = E + D + base.mean()
    lo = max(int(np.count_nonzero(clean)) - 2, 0)
    full = np.nonzero(mean >= cap + np.sqrt(cap))[0]
    hi = int(full[0]) if len(full) else len(pts) - 1
    slack = 1 + Z * rel
    require(E[lo] / slack <= r.u_e_sat <= E[hi] * slack, 'saturation capacity %g, expected %g..%g', r.u_e_sat, E[lo], E[hi])
    require(X[lo] * (1 - 1e-6) <= r.u_p_sat <= X[hi] * (1 + 1e-6), 'saturation %g photons, expected %g..%g', r.u_p_sat, X[lo], X[hi])
    if hi - lo <= 4:
        ctx.label('capacity resolved')
    # linearity
    if clean[:lmax + 1].all() and lmax - lmin >= 4:
        se = np.sqrt(vY[lmin:lmax + 1] + (vYd[0] if fixed else vYd[lmin:lmax + 1])) / Y[lmin:lmax + 1]
        lim = 100 * Z * se.max() * 1.5 + 100 * (0.001 / X[lmin])
        require(-lim <= r.LE_min <= r.LE_max <= lim, 'linearity error %g..%g %% of a linear camera, expected within %g', r.LE_min,
                r.LE_max, lim)
        fit = r.linearity()
        require(abs(fit['fit_slope'] / (K * eta) - 1) < Z * se.max() * 2, 'slope of the linearity fit %g, expected %g',
                fit['fit_slope'], K * eta)
        ctx.label('linearity error below %s %%' % ('0.5' if lim < 0.5 else '2' if lim < 2 else '10'))
    # nonuniformity
    (te, rads), = points['spatial'].items()
    rad = [x for x in rads if np.any(x)][0]
    _u, e, dk = level(te, rad)
    if (e + dk + base + 6 * np.sqrt(e + dk + m['sd0'])).max() > cap - 1 / K:
        ctx.label('spatial point clipped')
        return
    dark_s, dark_e = spatial_truth(K * m['dsnu'], K * K * (dk + m['sd0']) + Q, L)
    bright_s, bright_e = spatial_truth(K * (m['dsnu'] + e), K * K * (e.mean() + dk + m['sd0']) + Q, L)
    M, N = e.shape
    mean_e = float(e.mean())
    parts = [[(dark_s[0], dark_e[0])], [(bright_s[0], bright_e[0])]]
    for k2, (sv, ev) in enumerate(((dark_s, dark_e), (bright_s, bright_e))):
        p, inv = split(sv, M, N)
        pe = np.sqrt((inv ** 2) @ (ev ** 2))
        parts[k2] += list(zip(p, pe))
    resolved = 0
    for j, part in enumerate(('', '_col', '_row', '_pixel')):
        (dv, de), (bv, be) = parts[0][j], parts[1][j]
        # rows and columns: variances of N or M averages, with or without Bessel's correction
        slackd, slackb = (0, 0) if j in (0, 3) else (2.0 / min(M, N) * abs(dv) / Z, 2.0 / min(M, N) * abs(bv) / Z)
        got = getattr(r, 'DSNU1288' + part)
        want, sg = dv / K ** 2, (de + slackd) / K ** 2 + 2 * abs(dv) / K ** 2 * rel
        if np.isfinite(got):
            near(got ** 2, want, sg, 'square of DSNU' + part)
        else:
            require(want - Z * sg < 0, 'DSNU%s is undefined, expected the square root of %g +- %g', part, want, Z * sg)
        resolved += want > 14 * sg
        got = getattr(r, 'PRNU1288' + part)
        want = (bv - dv) / (K * mean_e) ** 2
        sg = (np.hypot(be, de) + slackd + slackb) / (K * mean_e) ** 2 + 2 * abs(want) * np.sqrt(S.max() / (n * L)) / (K * mean_e)
        if np.isfinite(got):
            near((got / 100) ** 2, want, sg, 'square of PRNU' + part)
        else:
            require(want - Z * sg < 0, 'PRNU%s is undefined, expected the square root of %g +- %g', part, want, Z * sg)
        resolved += want > 14 * sg
    got = r.DSNU1288_DN()
    if np.isfinite(got):
        near(got ** 2, dark_s[0], dark_e[0], 'square of DSNU in DN')
    else:
        require(dark_s[0] < Z * dark_e[0], 'DSNU in DN is undefined, expected the square root of %g', dark_s[0])
    ctx.label('nonuniformity parts resolved: %d' % resolved, 'worst deviation %d sigma' % int(worst[0]))


@st.composite
def cases(draw):
    bits = draw(st.sampled_from([8, 10, 12, 12]))
    well = bits > 8 and draw(st.booleans())
    part = st.sampled_from([0.0, 0.0, 1.0, 2.0])
    pp = st.sampled_from([0.0, 0.0, 0.01, 0.02])
    return {'seed': draw(gen.seeds()), 'h': draw(st.integers(60, 130)), 'w': draw(st.integers(60, 130)), 'bits': bits,
            'ne': draw(gen.logfloat(5000, 60000)), 'noise': draw(st.floats(0.8, 2.5)),
            'dsnu': [draw(part), draw(part), draw(st.sampled_from([0.0, 0.5, 1.5]))],
            'prnu': [draw(pp), draw(pp), draw(st.sampled_from([0.0, 0.005, 0.015]))],
            'nw': draw(st.sampled_from([1, 1, 3])), 'w0': draw(st.sampled_from([420, 530, 700])), 'eta': draw(st.floats(0.15, 0.95)),
            'slope': draw(st.sampled_from([1.0, 0.4])), 'qepix': draw(st.sampled_from([0, 0, 0, 0.02])),
            'emax': draw(st.sampled_from([5e6, 1e8, 2e9])), 'current': draw(st.sampled_from([0.0, 0.01, 0.1, 0.3])),
            'T': draw(st.sampled_from([5, 22, 41.5])), 'Tref': draw(st.sampled_from([20, 30])), 'Td': draw(st.sampled_from([6.5, 8])),
            'f': draw(st.sampled_from([2.8, 8])), 'area': draw(st.sampled_from([9.0, 25, 30.25])),
            'bo': 0.0 if well else draw(st.sampled_from([0.0, 0.02, 0.1])), 'well': well,
            'steps': draw(st.integers(10, 24)), 'L': draw(st.integers(3, 12)), 'mode': draw(st.sampled_from(['exposure', 'light'])),
            'format': draw(st.sampled_from(['png', 'tif']))}


SUBS = [Sub('chain', lambda tier: cases(), check, 320, 4000,
            'a simulated camera within the assumptions of the standard (8..12 bits, capacity 5000..60000 electrons, dark noise '
            '0.8..2.5 DN, DSNU and PRNU with row, column and pixel parts, dark current, several wavelengths, exposure or '
            'illumination series of 10..24 points of 60..130 pixels a side): generated, parsed, loaded, evaluated, and every '
            'recovered parameter within 7 propagated standard deviations; non-trivial when no point of the fit is clipped')]
