"""C21: radiometry."""
import numpy as np
from hypothesis import strategies as st

from emva1288.camera import routines
from .. import cams
from .. import gen
from ..core import Sub, require, same, close


def check_pure(case, ctx):
    rng = np.random.default_rng(case['seed'])
    w = np.array(case['w'], dtype=float)
    t, a, f = case['t'], case['a'], case['f']
    shape = tuple(case['shape']) + (len(w),) if case['shape'] is not None else None
    rad = case['r'] if shape is None else case['r'] * rng.uniform(0, 2, shape)
    keep = np.array(rad, copy=True)
    p = routines.get_photons(t, rad, a, w, f)
    close(p, cams.photons(rad, t, a, w, f), 'photons', rtol=1e-9)
    back = routines.get_radiance(t, p, a, f, w)
    close(back, np.broadcast_to(rad, np.shape(back)), 'radiance and back', rtol=1e-9)
    q = routines.get_photons(t, routines.get_radiance(t, rad, a, f, w), a, w, f)
    close(q, np.broadcast_to(rad, np.shape(q)), 'photons and back', rtol=1e-9)
    k = case['k']
    for what, other, factor in (('radiance', routines.get_photons(t, np.asarray(rad) * k, a, w, f), k),
                                ('exposure', routines.get_photons(t * k, rad, a, w, f), k),
                                ('area', routines.get_photons(t, rad, a * k, w, f), k),
                                ('wavelength', routines.get_photons(t, rad, a, w * k, f), k * k)):
        close(other, np.asarray(p) * factor, what + ' scaled by %g' % k, rtol=1e-9)
    same(np.asarray(rad), keep, 'radiance passed in')
    ctx.label('scalar' if shape is None else 'image', 'wavelengths %d' % len(w) if len(w) < 3 else 'wavelengths 3+')
    if not np.any(p):
        ctx.trivial()


@st.composite
def pure_cases(draw):
    return {'seed': draw(gen.seeds()), 'w': draw(st.lists(st.floats(200, 1200), min_size=1, max_size=6)),
            't': draw(gen.logfloat(1, 1e11)), 'a': draw(gen.logfloat(0.1, 1e4)),
            'f': draw(st.one_of(st.just(8), st.just(0.5), gen.logfloat(0.5, 64))), 'r': draw(gen.logfloat(1e-9, 1e3)),
            'k': draw(gen.logfloat(0.01, 100)),
            'shape': draw(st.one_of(st.none(), st.tuples(st.integers(1, 6), st.integers(1, 6)).map(list)))}


def check_target(case, ctx):
    c = case['cam']
    cam = cams.make(c)
    w, q, filt = cams.qe_array(c)
    if filt is not None:
        q = q * filt
    kw = {}
    if case['mean'] is not None:
        kw['mean'] = case['mean']
    if case['exposure'] is not None:
        kw['exposure'] = case['exposure']
    if case['now'] is not None:
        cam.exposure = case['now']
    f, T = c['f'], c['T']
    if case['f2'] is not None:
        f = cam.environment['f_number'] = case['f2']
    if case['T2'] is not None:
        T = cam.environment['temperature'] = case['T2']
    t = case['exposure'] or case['now'] or c['exp']
    rad = cam.get_radiance_for(**kw)
    require(np.shape(rad) == (c['h'], c['w'], c['nw']), 'radiance of shape %s', np.shape(rad))
    ph = cams.photons(rad, t, c['area'], w, f)
    e = float((ph * q).sum(axis=2).mean())
    th = cams.thermal(c, T, t)
    target = case['mean'] if case['mean'] is not None else 2 ** c['bits'] - 1
    K = float(cam.K)
    close(K * (e + th), target, 'gain*(light + dark current electrons)', rtol=1e-7, atol=1e-7 * K * (abs(e) + th))
    # and the camera's own photon count for it
    close(cam.get_photons(rad, exposure=t), ph, 'photons of that radiance', rtol=1e-9)
    cam.exposure = t
    close(cam.get_photons(rad), ph, 'photons at the current exposure', rtol=1e-9)
    require(not np.any(cam.get_photons(rad, exposure=0)), 'photons without exposure')
    f3, t3 = case['f3'], case['t3']
    close(cam.get_photons(rad, f_number=f3), cams.photons(rad, t, c['area'], w, f3), 'photons with another aperture', rtol=1e-9)
    close(cam.get_photons(rad, t3, f3), cams.photons(rad, t3, c['area'], w, f3), 'photons with another exposure and aperture', rtol=1e-9)
    close(cam.get_photons(rad), ph, 'photons at the current exposure, again', rtol=1e-9)
    ctx.label('default target' if case['mean'] is None else 'target', 'given exposure' if case['exposure'] else
              'current exposure', 'dark current matters' if th * K > 1e-3 * target else 'dark current small', c['qe'])


@st.composite
def target_cases(draw):
    c = draw(cams.configs(max_dim=6))
    return {'cam': c, 'mean': draw(st.one_of(st.none(), st.floats(0.5, 5000), st.floats(0.5, 5000), st.just(0.0))),
            'exposure': draw(st.one_of(st.none(), gen.logfloat(1e4, 1e9))),
            'now': draw(st.one_of(st.none(), gen.logfloat(1e4, 1e9))),
            'f3': draw(st.one_of(st.integers(1, 32), gen.logfloat(0.3, 64), st.just(0.0))), 't3': draw(gen.logfloat(1, 1e11)),
            'f2': draw(st.one_of(st.none(), st.sampled_from([2.0, 5.6]))),
            'T2': draw(st.one_of(st.none(), st.sampled_from([-5, 40])))}


SUBS = [Sub('conversion', lambda tier: pure_cases(), check_pure, 4000, 100000,
            'exposure time, pixel area, aperture, 1..6 wavelengths and a scalar or image radiance: physical formula, both '
            'round trips, four scaling laws; non-trivial when photons arrive'),
        Sub('target', lambda tier: target_cases(), check_target, 3000, 80000,
            'a camera of any configuration, a target gray value or the default, an exposure given, set, or inherited, '
            'changed aperture and temperature: gain times electrons equals the target; always non-trivial')]
