"""Simulated camera configurations and an independent statement of the camera model."""
import numpy as np
from hypothesis import strategies as st

from emva1288.camera.camera import Camera
from emva1288.camera.routines import Qe
from . import gen

H, C = 6.63e-34, 3.00e8


@st.composite
def configs(draw, max_dim=40, min_dim=1, bits=None):
    b = bits if bits else draw(st.one_of(st.sampled_from([8, 8, 10, 12, 14, 16]), st.integers(1, 16)))
    top = 2 ** b - 1
    small = draw(st.integers(0, 4)) == 0
    lo = min_dim if small else max(min_dim, min(12, max_dim))
    return {'h': draw(st.integers(lo, max_dim)), 'w': draw(st.integers(lo, max_dim)), 'bits': b,
            'seed': draw(gen.seeds()), 'pat': draw(gen.seeds()), 'f': draw(st.sampled_from([1.4, 2.8, 8, 8, 11, 16.5])),
            'area': draw(st.sampled_from([1.0, 6.25, 25, 25, 100.5])), 'T': draw(st.sampled_from([-10, 0, 22, 22, 30, 45.5])),
            'Tref': draw(st.sampled_from([20, 30, 30])), 'T2': draw(st.sampled_from([5, 8, 8, 10.5])),
            'nw': draw(st.sampled_from([1, 1, 2, 5])), 'w0': draw(st.sampled_from([400, 530, 550, 700])),
            'qe': draw(st.sampled_from(['flat', 'flat', 'wave', 'pixel', 'filter'])), 'eta': draw(st.floats(0.1, 0.95)),
            'exp': draw(st.sampled_from([500000, 1000000, 1e6, 20e6, 123456.5])),
            'K': float('%.6g' % min(20.0, max(0.002, top / draw(gen.logfloat(300, 50000))))),
            'bo': round(top * draw(st.sampled_from([0, 0.03, 0.06, 0.1, 0.1, 0.15, 0.2])) * draw(st.floats(0.5, 1)), 3),
            'current': draw(st.sampled_from([0, 30, 30, 500.5, 20000])), 'ds0': draw(st.sampled_from([0.0, 10.0, 10.0, 40.0])),
            'sd0': draw(st.sampled_from([0.0, 1.0, 10.0, 10.0, 150.0])), 'esat': draw(st.one_of(gen.logfloat(500, 1e6), gen.logfloat(2e4, 1e6))),
            'dsnu': draw(st.sampled_from([None, None, 'pixel', 'rows', 'cols'])),
            'prnu': draw(st.sampled_from([None, None, 'pixel', 'rows', 'cols']))}


def pattern(kind, rng, h, w):
    z = rng.standard_normal({'pixel': (h, w), 'rows': (h, 1), 'cols': (1, w)}[kind])
    return np.broadcast_to(z, (h, w)).copy()


def qe_array(c):
    rng = np.random.default_rng([c['pat'], 101])
    w = c['w0'] + 40.0 * np.arange(c['nw'])
    q = np.full((c['h'], c['w'], c['nw']), c['eta'])
    if c['qe'] == 'wave':
        q *= np.linspace(1, 0.3, c['nw'])
    elif c['qe'] == 'pixel':
        q *= rng.uniform(0.5, 1, q.shape)
    filt = None
    if c['qe'] == 'filter':
        cell = np.array([[1, 0.6], [0.35, 1]])
        filt = np.tile(cell, (c['h'] // 2 + 1, c['w'] // 2 + 1))[:c['h'], :c['w'], None] * np.ones(c['nw'])
    return w, q, filt


def maps(c):
    """(dsnu in electrons, response factors); None where the camera gets none."""
    rng = np.random.default_rng([c['pat'], 102])  # never the stream of the camera itself
    d = 6 * pattern(c['dsnu'], rng, c['h'], c['w']) if c['dsnu'] else None
    p = np.clip(1 + 0.04 * pattern(c['prnu'], rng, c['h'], c['w']), 0.7, 1.3) if c['prnu'] else None
    return d, p


def make(c, seed=None, **kw):
    w, q, filt = qe_array(c)
    d, p = maps(c)
    args = dict(f_number=c['f'], pixel_area=c['area'], bit_depth=c['bits'], width=c['w'], height=c['h'], temperature=c['T'],
                temperature_ref=c['Tref'], temperature_doubling=c['T2'],
                qe=Qe(qe=q, wavelength=w, width=c['w'], height=c['h'], filter=filt), exposure=c['exp'], K=c['K'],
                K_min=min(0.001, c['K']), K_max=25.0, K_steps=20000, blackoffset=c['bo'],
                blackoffset_max=max(2.0 ** c['bits'] / 5, 1), blackoffset_steps=801, dark_current_ref=c['current'], dark_signal_0=c['ds0'], sigma2_dark_0=c['sd0'],
                u_esat=c['esat'], dsnu=d, prnu=p, seed=c['seed'] if seed is None else seed)
    args.update(kw)
    return Camera(**args)


def photons(radiance, exposure, area, wavelength, f):
    """Photons per pixel: irradiance of the aperture times area and time over the photon energy, times the wavelength."""
    w = np.asarray(wavelength, float) * 1e-9
    return np.asarray(radiance) * np.pi / (1 + 4 * f * f) * (area * 1e-12) * (exposure * 1e-9) * w * w / (H * C)


def radiance(photons_per_wavelength, exposure, area, wavelength, f):
    return photons_per_wavelength / photons(1.0, exposure, area, wavelength, f)


def thermal(c, T, exposure):
    return c['current'] * 2.0 ** ((T - c['Tref']) / c['T2']) * exposure * 1e-9


def light(c, rad, T, f, exposure):
    """(light electrons after response, expected electrons in total, variance of electrons) per pixel."""
    w, q, filt = qe_array(c)
    if filt is not None:
        q = q * filt
    d, p = maps(c)
    e = (photons(rad, exposure, c['area'], w, f) * q).sum(axis=2) * (1 if p is None else p)
    th = thermal(c, T, exposure)
    return e, e + th + c['ds0'] + (0 if d is None else d), e + th + c['sd0']
