"""C30: gain and black offset a data set is generated with when they are not given."""
import numpy as np
from hypothesis import strategies as st

from emva1288.camera.dataset_generator import DatasetGenerator
from .. import cams, dataset, gen
from ..core import Sub, require

Z = 8.0
SIDE = 300000


class Dark(object):
    """Gray values of dark images of a configuration, simulated independently of the camera."""

    def __init__(self, c, exposure):
        rng = np.random.default_rng(c['seed'] ^ 0x5A5A)
        d, _p = cams.maps(c)
        d = np.zeros((c['h'], c['w'])) if d is None else d
        k = max(2, SIDE // d.size)
        self.n = d.size
        self.top = 2 ** c['bits'] - 1
        shape = (2, k) + d.shape
        e = rng.poisson(cams.thermal(c, c['T'], exposure), shape) + rng.normal(c['ds0'], np.sqrt(c['sd0']), shape) + d
        self.e = np.clip(e, 0, c['esat'])
        self.u = rng.uniform(-0.5, 0.5, shape)

    def values(self, K, bo):
        return np.clip(np.rint(self.e * K + self.u + bo), 0, self.top)

    def noise(self, K, bo):
        """(lowest, highest) plausible standard deviation of the difference of two dark images."""
        a, b = self.values(K, bo)
        d = (a - b).ravel()
        m2, m4 = np.mean(d ** 2), np.mean(d ** 4)
        err = Z * np.sqrt(max(m4 - m2 * m2, 0) * (1 / self.n + 1 / d.size)) + 4 * Z * Z / self.n * m2 + 1e-9
        # a value not met in the simulation may still occur
        err += Z * Z * max(1.0, m2) / min(self.n, d.size) / 4
        return np.sqrt(max(m2 - err, 0)), np.sqrt(m2 + err)

    def zeros(self, K, bo):
        """(lowest, highest) plausible share of zero pixels of a dark image."""
        p = np.mean(self.values(K, bo) == 0)
        q = max(p, 1e-4)
        err = Z * np.sqrt(q * (1 - min(q, 0.999)) * (1 / self.n + 1 / self.e.size)) + Z / self.n
        return p - err, p + err


def nearest(v, values):
    return float(min(values, key=lambda x: abs(x - v)))


def pick(chosen, offered, yes, no, what, ctx):
    """chosen must be the first offered value satisfying a noisy predicate, the last when none does."""
    offered = np.asarray(offered, float)
    i = int(np.argmin(np.abs(offered - chosen)))
    require(abs(offered[i] - chosen) <= 1e-9 * max(1, abs(chosen)), '%s %g is not offered', what, chosen)
    for k in range(i):
        require(not yes(offered[k]), '%s %g chosen although %g already meets the requirement', what, chosen, offered[k])
    if i + 1 < len(offered):
        require(not no(offered[i]), '%s %g does not meet the requirement, %g is offered next', what, chosen, offered[i + 1])
    ctx.label('%s: %s' % (what, 'first offered' if i == 0 else 'last offered' if i + 1 == len(offered) else 'in between'))
    return 0 < i < len(offered) - 1


def check_auto(case, ctx):
    c = case['cam']
    with dataset.scratch():
        kw = dict(f_number=c['f'], pixel_area=c['area'], bit_depth=c['bits'], width=c['w'], height=c['h'], temperature=c['T'],
                  temperature_ref=c['Tref'], temperature_doubling=c['T2'], exposure_min=case['emin'], exposure_max=case['emin'] * 4,
                  exposure=case['emin'] * case['before'], dark_current_ref=c['current'], dark_signal_0=c['ds0'], sigma2_dark_0=c['sd0'],
                  u_esat=c['esat'], seed=c['seed'], K_min=case['Kmin'], K_max=case['Kmin'] * case['Kspan'],
                  K_steps=case['Ksteps'], blackoffset_min=case['bmin'], blackoffset_max=case['bmax'],
                  blackoffset_steps=case['bsteps'])
        w, q, filt = cams.qe_array(c)
        kw['qe'] = cams.Qe(qe=q, wavelength=w, width=c['w'], height=c['h'], filter=filt)
        kw['dsnu'], kw['prnu'] = cams.maps(c)
        Ks = np.linspace(case['Kmin'], case['Kmin'] * case['Kspan'], case['Ksteps'])
        bos = np.linspace(case['bmin'], case['bmax'], case['bsteps'])
        K0 = nearest(0.1, Ks)
        if case['K'] is not None:
            kw['K'] = case['K']
            K0 = nearest(case['K'], Ks)
        if case['bo'] is not None:
            kw['blackoffset'] = case['bo']
        ctx.label('K %s, offset %s' % tuple('given' if case[k] is not None else 'automatic' for k in ('K', 'bo')))
        args = {'steps': 2, 'L': 1, 'image_format': 'png'}
        if case['fixed'] or cams.thermal(c, c['T'], case['emin'] * 4) * Ks[-1] > 0.5 * (2 ** c['bits'] - 1):
            # the settings are chosen at the shortest exposure, whatever the plan
            args['exposure_fixed'] = case['emin'] * 2
            args['radiance_max'], args['radiance_min'] = 1e-4, 1e-6
        g = DatasetGenerator(**args, **kw)
        K, bo = float(g.cam.K), float(g.cam.blackoffset)
        for got, want, what in ((g.cam.Ks, Ks, 'gains'), (g.cam.blackoffsets, bos, 'offsets')):
            require(np.shape(got) == want.shape and np.allclose(got, want, rtol=1e-9, atol=1e-12), 'offered %s', what)
        require(g.cam.environment == {'temperature': c['T'], 'f_number': c['f']}, 'environment %s', g.cam.environment)
        del g
        dark = Dark(c, case['emin'])
        between = False
        if case['bo'] is None:
            between = pick(bo, bos, lambda v: dark.zeros(K0, v)[1] < 0.005, lambda v: dark.zeros(K0, v)[0] > 0.005,
                           'black offset', ctx)
        else:
            require(abs(bo - case['bo']) <= abs(nearest(case['bo'], bos) - case['bo']) + 1e-9,
                    'black offset %g, requested %g', bo, case['bo'])
        if case['K'] is None:
            between |= pick(K, Ks, lambda v: dark.noise(v, bo)[0] > 0.5, lambda v: dark.noise(v, bo)[1] < 0.5, 'gain', ctx)
        else:
            require(abs(K - case['K']) <= abs(K0 - case['K']) + 1e-9, 'gain %g, requested %g', K, case['K'])
        if not between:
            ctx.trivial()


@st.composite
def cases(draw):
    c = draw(cams.configs(max_dim=90, min_dim=45))
    c['nw'] = 1
    sd = max(c['sd0'], 0.3) ** 0.5
    d = {'cam': c, 'emin': draw(st.sampled_from([500000, 1e6, 2e7])), 'fixed': draw(st.integers(0, 4)) == 0, 'before': draw(st.sampled_from([100, 100, 1, 1e-3])),
         'Ksteps': draw(st.sampled_from([1, 2, 5, 20, 60])), 'Kspan': draw(st.sampled_from([1.5, 4, 20, 100])),
         'bmin': draw(st.sampled_from([0, 0, 0, 0.5, 3])), 'bsteps': draw(st.sampled_from([1, 2, 6, 25, 60]))}
    # the needed gain is about 0.35 / sigma electrons, the needed offset where the noise reaches zero
    if draw(st.integers(0, 3)):
        d['Ksteps'] = draw(st.integers(4, 60))
        d['Kspan'] = draw(st.sampled_from([4, 8, 20, 100]))
    d['Kmin'] = float('%.4g' % (draw(st.sampled_from([0.02, 0.07, 0.1, 0.15, 0.2, 0.3, 0.8])) / sd))
    d['bmax'] = d['bmin'] + float('%.4g' % draw(gen.logfloat(0.5, 60)))
    if draw(st.integers(0, 3)):
        d['bsteps'], d['bmin'] = draw(st.integers(4, 60)), 0
        d['bmax'] = float('%.4g' % (draw(st.sampled_from([1.0, 2.0, 5.0, 8.0])) + 0.1 * draw(st.sampled_from([0, 3, 5])) * sd))
        c['ds0'] = draw(st.sampled_from([0.0, 0.0, 2.0, 10.0]))
    which = draw(st.sampled_from(['auto', 'auto', 'auto', 'K', 'bo', 'both']))
    d['K'] = d['Kmin'] * draw(st.floats(0.7, 1.2 * d['Kspan'])) if which in ('K', 'both') else None
    if d['K'] is not None and draw(st.integers(0, 5)) == 0:
        d['K'] = 0.0
    d['bo'] = draw(st.floats(d['bmin'], d['bmax'])) if which in ('bo', 'both') else None
    if d['bo'] is not None and draw(st.integers(0, 3)) == 0:
        d['bo'] = 0.0
    return d


def check_exact(case, ctx):
    """Cameras without noise: a pixel of l electrons has l + offset gray values, clearly above or below zero."""
    rng = np.random.default_rng(case['seed'])
    h, w = case['h'], case['w']
    levels = np.full(h * w, 2 * case['top'])
    k = 0
    for share, level in case['low']:
        n = min(max(0, int(round(share * h * w)) + case['extra']), h * w - k)
        levels[k:k + n] = 2 * level
        k += n
    levels = rng.permutation(levels).reshape(h, w)
    offsets = [2 * case['omin'] + 1 + 2 * case['ostep'] * i for i in range(case['n'])]
    with dataset.scratch():
        g = DatasetGenerator(steps=2, L=1, exposure_fixed=1e6, radiance_max=1e-4, radiance_min=1e-6, width=w, height=h, seed=case['seed'] % 1000,
                             bit_depth=12, dark_current_ref=0, dark_signal_0=0, sigma2_dark_0=0, dsnu=levels * 1.0, K=1.0, K_min=1.0, K_max=1.0,
                             K_steps=1, blackoffset_min=offsets[0], blackoffset_max=offsets[-1], blackoffset_steps=len(offsets))
        bo = float(g.cam.blackoffset)
        del g
    want, tie = None, False
    for o in offsets:
        above = int((levels + o > 0).sum())
        if above * 1000 == 995 * h * w:
            tie = True
        if above * 1000 > 995 * h * w:
            want = o
            break
    if tie:
        ctx.label('exactly half a percent')
        return
    i = offsets.index(want) if want is not None else len(offsets)
    require(abs(bo - offsets[min(i, len(offsets) - 1)]) < 1e-9, 'black offset %g, expected %s: zero pixels %s of %d', bo, want,
            [int((levels + o <= 0).sum()) for o in offsets], h * w)
    ctx.label('none suffices' if want is None else 'first' if i == 0 else 'later')
    if len(offsets) == 1:
        ctx.trivial()


@st.composite
def exact_cases(draw):
    return {'seed': draw(gen.seeds()), 'h': draw(st.integers(1, 30)), 'w': draw(st.integers(1, 30)), 'top': draw(st.integers(1, 12)),
            'low': [[draw(st.sampled_from([0, 0.002, 0.005, 0.005, 0.01, 0.2])), draw(st.integers(0, 10))] for _ in range(draw(st.integers(1, 3)))],
            'extra': draw(st.sampled_from([0, 0, 1, -1])), 'omin': draw(st.integers(-12, 0)), 'ostep': draw(st.integers(1, 3)),
            'n': draw(st.integers(1, 12))}


SUBS = [Sub('auto', lambda tier: cases(), check_auto, 700, 12000,
            'a data set generated by a camera with 1..60 offered gains and black offsets, neither, either or both of them given: '
            'the setting in force against the first offered value that meets the requirement in independently simulated dark '
            'images (8-sigma margins); non-trivial when an automatic setting lies strictly inside the offered range'),
        Sub('exact', lambda tier: exact_cases(), check_exact, 1500, 20000,
            'cameras without noise of 1..900 pixels of known levels and 1..12 offered (also negative) black offsets: the chosen one against '
            'the exact count of zero pixels; non-trivial with two or more offers')]
