"""Camera-like data sets (own simple noise model, not the code under test), small and fast."""
import numpy as np
from hypothesis import strategies as st

from . import gen


@st.composite
def sims(draw, max_dim=14, min_dim=7, equal_l=None, min_steps=8, max_steps=16, max_l=8, min_l=2):
    return {'h': draw(st.integers(min_dim, max_dim)), 'w': draw(st.integers(min_dim, max_dim)),
            'bits': draw(st.sampled_from([8, 12, 14])), 'seed': draw(gen.seeds()),
            'mode': draw(st.sampled_from(['exposure', 'light'])), 'steps': draw(st.integers(min_steps, max_steps)),
            'L': draw(st.integers(min_l, max_l)), 'Ld': draw(st.integers(min_l, max_l)) if equal_l is not True else None,
            'offset': draw(st.sampled_from([5, 12, 30])), 'K': draw(st.sampled_from([0.05, 0.2, 0.6])),
            'qe': draw(st.sampled_from([0.2, 0.5, 0.9])), 'dark': draw(st.sampled_from([0.3, 1.5, 4.0])),
            'dsnu': draw(st.sampled_from([0.0, 0.5, 3.0])), 'prnu': draw(st.sampled_from([0.0, 0.01, 0.08])),
            'over': draw(st.sampled_from([0.9, 1.1, 1.3])), 'low': draw(st.sampled_from([0, 0, 1, 2])), 'current': draw(st.sampled_from([0.0, 2.0]))}


def images(s):
    """{'temporal', 'spatial'} images of a simulated linear camera, in drawn bit depth."""
    rng = np.random.default_rng(s['seed'])
    h, w, top = s['h'], s['w'], 2 ** s['bits'] - 1
    dt = 'uint8' if s['bits'] == 8 else 'uint16'
    # gain chosen so that the range is used whatever the bit depth
    K = s['K'] * 2 ** (s['bits'] - 8)
    dsnu = s['dsnu'] * rng.standard_normal((h, w))
    prnu = 1 + s['prnu'] * rng.standard_normal((h, w))
    if s['seed'] % 3 == 0:
        dsnu[rng.integers(h)] += 2 * s['dsnu']
        prnu[:, rng.integers(w)] *= 1 + 2 * s['prnu']

    def img(ph, t):
        e = ph * s['qe'] * prnu
        n = e + s['current'] * t / 1e6
        y = s['offset'] + dsnu + K * (n + np.sqrt(np.maximum(n, 0)) * rng.standard_normal((h, w))) + \
            s['dark'] * rng.standard_normal((h, w))
        return np.clip(np.round(y), 0, top).astype(dt)

    full = (top - s['offset']) / K / s['qe'] * s['over']
    steps = s['steps']
    out = {'temporal': {}, 'spatial': {}}
    for i in [0.25, 0.5][:s.get('low', 0)] + list(range(1, steps + 1)):
        ph = round(full * i / steps, 3)
        t = float(1000 * i) if s['mode'] == 'exposure' else 5000.0
        d = out['temporal'].setdefault(t, {})
        if 0.0 not in d:
            d[0.0] = [img(0, t), img(0, t)]
        d[ph] = [img(ph, t), img(ph, t)]
    ph = round(full / 2, 3)
    t = 5000.0
    L, Ld = s['L'], s['Ld'] or s['L']
    out['spatial'][t] = {0.0: [img(0, t) for _ in range(Ld)], ph: [img(ph, t) for _ in range(L)]}
    return out


def usable(data):
    """All fitted results are defined: something below 70 % and two photon counts in the linearity range."""
    from . import temporal as T
    t = data['temporal']
    Y = t['u_y'] - t['u_ydark']
    sat = T.saturation(t['s2_y'])
    if not (Y > 0).all() or not (Y <= 0.7 * Y[sat]).any():
        return False
    a, b = np.nonzero(Y >= 0.05 * Y[sat])[0], np.nonzero(Y <= 0.95 * Y[sat])[0]
    return len(a) > 0 and len(b) > 0 and b[-1] - a[0] >= 2
