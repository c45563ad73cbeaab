"""C11: sensitivity threshold, saturation capacity, SNR, dynamic range."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .. import temporal as T
from ..core import Sub, require, close


def check(case, ctx):
    t = T.build(case['s'])
    n = len(t['u_p'])
    Y = t['u_y'] - t['u_ydark']
    V = t['s2_y'] - t['s2_ydark']
    sat = T.saturation(t['s2_y']) if case['force'] is None else case['force'] % n
    m = 0.7 * Y[sat]
    if Y[sat] <= 0 or not (Y <= m).any() or T.near_tie(Y, m):
        ctx.trivial()
        ctx.label('no fit range')
        return
    area = case['area']
    r = T.results(t, index_u_ysat=case['force'] % n if case['force'] is not None else None, pixel_area=area)
    last = int(np.nonzero(Y <= m)[0][-1])
    R, K = T.slope0(t['u_p'][:last + 1], Y[:last + 1]), T.slope0(Y[:last + 1], V[:last + 1])
    s2 = max(0.24, t['s2_ydark'][0]) if len(set(t['texp'])) <= 2 else float(r.sigma_y_dark) ** 2
    if K <= 0 or R <= 0 or abs(K) < 1e-4 * np.sqrt((V ** 2).sum() / (Y ** 2).sum()):
        ctx.trivial()
        ctx.label('no gain')
        return
    sd = np.sqrt(s2)
    # once from our own slopes (loose, they come from an iterative fit), once from the reported ones (tight)
    for qe, k, rtol in ((100 * R / K, K, 2e-3), (float(r.QE), float(r.K), 1e-9)):
        upmin = 100 / qe * (sd / k + 0.5)
        upsat = t['u_p'][sat]
        want = {'u_p_min': upmin, 'u_e_min': qe / 100 * upmin, 'u_p_sat': upsat, 'u_e_sat': qe / 100 * upsat,
                'SNR_max': np.sqrt(qe / 100 * upsat), 'DR': upsat / upmin}
        for name, w in want.items():
            close(getattr(r, name), w, name, rtol=rtol)
        snr = want['SNR_max']
        close(r.SNR_max_dB(), 20 * np.log10(snr), 'SNR dB', rtol=rtol, atol=20 * rtol)
        close(r.SNR_max_bit(), np.log2(snr), 'SNR bit', rtol=rtol, atol=2 * rtol)
        close(r.inverse_SNR_max(), 100 / snr, 'inverse SNR', rtol=rtol)
        close(r.DR_dB(), 20 * np.log10(want['DR']), 'DR dB', rtol=rtol, atol=20 * rtol)
        for name in ('u_p_min', 'u_e_min', 'u_p_sat', 'u_e_sat'):
            got = getattr(r, name + '_area')
            if not area:
                require(got is None, '%s_area is %r without a pixel area', name, got)
            else:
                close(got, want[name] / area, name + '_area', rtol=rtol)
    ctx.label('area %s' % ('given' if area else area), 'floor' if s2 == 0.24 else 'above floor', case['s']['mode'],
              'forced' if case['force'] is not None else 'found')


@st.composite
def cases(draw):
    return {'s': draw(T.series()), 'area': draw(st.one_of(st.none(), st.just(0.0), gen.logfloat(0.1, 1000))),
            'force': draw(st.one_of(st.none(), st.none(), st.integers(0, 60)))}


SUBS = [Sub('relations', lambda tier: cases(), check, 8000, 250000,
            'a photon transfer series with or without pixel area and forced saturation; every derived sensitivity figure '
            'recomputed from independent slopes (2e-3) and from the reported gain, efficiency and dark noise (1e-9); '
            'non-trivial when the series has a fit range and positive gain')]
