"""C19: the camera model."""
import numpy as np
from hypothesis import strategies as st

from .. import cams
from .. import gen
from ..core import Sub, require

Z = 8.0


def rad_for(c, level, shape, T, f, exposure):
    """Radiance image whose mean light electrons are level, with a spatial structure."""
    w, q, filt = cams.qe_array(c)
    if filt is not None:
        q = q * filt
    e1 = (cams.photons(1.0, exposure, c['area'], w, f) * q).sum(axis=2).mean()
    h, wd, n = c['h'], c['w'], c['nw']
    rad = np.full((h, wd, n), level / e1)
    if shape == 'gradient':
        rad *= (0.5 + np.arange(wd) / max(1, wd - 1))[None, :, None]
    elif shape == 'waves':
        rad *= np.linspace(0.4, 1.6, n)[None, None, :]
    return rad


def check(case, ctx):
    c = case['cam']
    T, f = c['T'], c['f']
    cam = cams.make(c)
    K, bo, top = float(cam.K), float(cam.blackoffset), 2 ** c['bits'] - 1
    # zero degrees are a temperature as any other
    Tg = T if case['dT'] is None else 0 if case['dT'] == 'zero' else T + case['dT']
    fg = f if case['f2'] is None else case['f2']
    args = {}
    if case['dT'] is not None:
        args['temperature'] = Tg
    if case['f2'] is not None:
        args['f_number'] = fg
    # the light level is a fraction of what both limits leave
    room = min((top - bo) / K, c['esat']) - c['ds0'] - cams.thermal(c, Tg, c['exp'])
    level = max(0.0, case['level'] * room)
    rad = rad_for(c, level, case['shape'], Tg, fg, c['exp'])
    if level == 0 and case['zero']:
        rad = 0
    _e, mean_e, var_e = cams.light(c, rad, Tg, fg, c['exp'])
    mean_e, var_e = np.broadcast_to(mean_e, (c['h'], c['w'])), np.broadcast_to(var_e, (c['h'], c['w']))
    if mean_e.max() > 1e15:
        ctx.trivial()
        return
    n = case['n']
    imgs = []
    for k in range(n):
        if case['again'] and k:
            # a setting that stays as it is does not matter
            setattr(cam, case['again'], getattr(cam, case['again']))
        imgs.append(cam.grab(rad, **args))
    want = np.uint8 if c['bits'] <= 8 else np.uint16 if c['bits'] <= 16 else None
    upper = min(top, int(np.floor(K * c['esat'] + bo + 1)))
    for i in imgs:
        require(i.shape == (c['h'], c['w']), 'image of shape %s for %s', i.shape, (c['h'], c['w']))
        if want is None:
            require(i.dtype.kind == 'u' and i.dtype.itemsize * 8 >= c['bits'], 'pixel type %s for %d bits', i.dtype, c['bits'])
        else:
            require(i.dtype == want, 'pixel type %s for %d bits', i.dtype, c['bits'])
        require(int(i.max()) <= top, 'gray value %d with %d bits', i.max(), c['bits'])
        require(int(i.max()) <= upper, 'gray value %d above the full well (%g)', i.max(), K * c['esat'] + bo)
        require(int(i.min()) >= min(top, max(0, int(np.floor(bo - 0.5 - 1e-9)))), 'gray value %d below the offset %g',
                i.min(), bo)
    a = np.stack(imgs).astype(np.float64)
    sd = np.sqrt(var_e)
    reach = 7.5
    inside = ((mean_e - reach * sd > 0) & (mean_e + reach * sd < c['esat']) &
              (K * (mean_e - reach * sd) + bo > 1) & (K * (mean_e + reach * sd) + bo < top - 1))
    over = (mean_e - reach * sd > c['esat']) | (K * (mean_e - reach * sd) + bo > top + 1)
    ctx.label('settings repeated' if case['again'] else '')
    ctx.label('all below saturation' if inside.all() else 'saturated' if over.all() else 'partly',
              '%d bits' % (8 if c['bits'] <= 8 else 16 if c['bits'] <= 16 else 32), 'dark' if level == 0 else 'light',
              'per image T' if case['dT'] is not None else 'own T', 'dsnu' if c['dsnu'] else '', 'prnu' if c['prnu'] else '',
              'full well limits' if K * c['esat'] + bo < top else 'gray range limits')
    if over.any():
        lo = min(top, int(np.floor(K * c['esat'] + bo - 1)))
        require((a[:, over] >= lo).all(), 'saturated pixels below %d: %s', lo, a[:, over].min())
    if not inside.any():
        ctx.trivial()
        return
    exp = K * mean_e + bo
    var = K * K * var_e
    x = (a - exp)[:, inside]              # residuals, images x pixels
    tot = np.sqrt(var[inside] + 0.25)
    z = x / tot
    m = inside.sum()
    if n * m < 200:
        ctx.trivial()
        return
    # single rare electrons of many gray values each follow no normal distribution
    if (K ** 4 * (var_e - c['sd0']) / (K * K * var_e + 1 / 6) ** 2)[inside].max() > 1:
        ctx.label('rare electrons')
        ctx.trivial()
        return
    # expected value: overall, and along every known structure of the frame
    yy, xx = np.mgrid[0:c['h'], 0:c['w']]
    weights = {'mean': np.ones(m), 'columns': (xx - xx.mean())[inside], 'rows': (yy - yy.mean())[inside],
               'signal': (mean_e - mean_e[inside].mean())[inside], 'checker': ((-1.0) ** (xx + yy))[inside],
               'odd columns': ((-1.0) ** xx)[inside], 'odd rows': ((-1.0) ** yy)[inside]}
    for name, wt in weights.items():
        s = np.sqrt((wt ** 2).sum())
        if s < 1e-9:
            continue
        # the mean of the residuals of each pixel has sd <= 1/sqrt(n) in units of tot
        t = float((z.mean(axis=0) * wt).sum() / s * np.sqrt(n))
        if c['sd0'] == 0 and level == 0:
            # hardly any noise: rounding adds the only uncertainty, still bounded by tot
            pass
        require(abs(t) < Z, 'gray values deviate from the model along %s: %.1f sigma; mean residual %g, expected mean %g',
                name, t, x.mean(), exp[inside].mean())
    # temporal variance per pixel
    s2 = x.var(axis=0, ddof=1)
    low, high = var[inside], var[inside] + 0.25
    se = float(np.sqrt(np.sum(2.5 * high ** 2 * (2 / (n - 1)) + K ** 2 * high / n + 0.2 / n)))
    d_low, d_high = float((s2 - low).sum()), float((s2 - high).sum())
    require(d_low > -Z * se, 'temporal variance %g below the model %g (%.1f sigma)', s2.mean(), low.mean(), d_low / se)
    require(d_high < Z * se, 'temporal variance %g above the model %g + 1/4 (%.1f sigma)', s2.mean(), low.mean(), d_high / se)
    # independence of consecutive images and of neighbouring pixels
    if low.min() > 0.5:
        zz = (a - a.mean(axis=0))[:, inside]
        zz = zz / np.sqrt(np.maximum(zz.var(), 1e-12))
        if n > 2:
            cov = float((zz[1:] * zz[:-1]).sum()) / np.sqrt((n - 1) * m)
            # removing the pixel mean leaves a correlation of -1/n
            require(abs(cov + np.sqrt((n - 1) * m) / n) < Z * 1.5, 'consecutive images correlate: %.1f sigma', cov)
        full = (a - a.mean(axis=0)) / np.sqrt(np.maximum(var + 1 / 6, 1e-12))
        if inside.all() and c['w'] > 1 and c['h'] > 1:
            for name, p, q in (('columns', full[:, :, 1:], full[:, :, :-1]), ('rows', full[:, 1:], full[:, :-1])):
                r = float((p * q).sum()) / np.sqrt(p.size)
                require(abs(r) < Z * 1.2, 'neighbouring %s correlate: %.1f sigma', name, r)
    if n * m > 3000 and (low > 4).all():
        ctx.label('strong statistics')


@st.composite
def cases(draw, big=False):
    c = draw(cams.configs(max_dim=60 if big else 40, bits=draw(st.sampled_from([None] * 14 + [17, 20, 24, 32]))))
    if draw(st.integers(0, 9)) == 0:
        # a full well of few electrons
        c['esat'] = draw(gen.logfloat(5, 400))
    return {'cam': c, 'n': draw(st.integers(2, 24)),
            'level': draw(st.one_of(st.just(0.0), st.floats(0.01, 0.6), st.floats(0.05, 0.9), st.sampled_from([1.5, 20.0]))),
            'shape': draw(st.sampled_from(['flat', 'flat', 'gradient', 'waves'])), 'zero': draw(st.booleans()),
            'dT': draw(st.one_of(st.none(), st.none(), st.sampled_from([-20, 5, 13, 'zero']))),
            'again': draw(st.sampled_from(['', '', '', 'exposure', 'K', 'blackoffset', 'DSNU'])),
            'f2': draw(st.one_of(st.none(), st.none(), st.sampled_from([2.0, 5.6])))}


SUBS = [Sub('model', lambda tier: cases(tier == 'thorough'), check, 8000, 150000,
            'a camera (1..32 bits, gain, offset, temperature, dark current, electronics noise, full well, efficiency per '
            'pixel and wavelength, filter, row/column/pixel nonuniformities) and a light level from dark to far beyond '
            'saturation, 2..24 images: range, pixel type, 8-sigma tests of expected value along seven directions of the '
            'frame, temporal variance, independence; non-trivial with 200 or more unsaturated samples')]
