"""C09: saturation point."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .. import temporal as T
from ..core import Sub, require


def make(s2):
    n = len(s2)
    return {'texp': np.arange(1.0, n + 1), 'u_p': 10.0 * np.arange(1, n + 1) + 0.5, 'u_y': np.arange(1.0, n + 1),
            's2_y': np.array(s2, dtype=np.float64), 'u_ydark': np.zeros(n), 's2_ydark': np.zeros(n)}


def expand(case):
    if 's2' in case:
        return np.array(case['s2'], dtype=np.float64)
    rng = np.random.default_rng(case['seed'])
    n, p = case['n'], case['peak'] % case['n']
    up = np.cumsum(rng.uniform(0.05, 1, p + 1))
    down = up[-1] - np.cumsum(rng.uniform(0, 1, n - p - 1)) * case['fall']
    s2 = np.concatenate([up, np.maximum(down, 0)]) * case['scale']
    kind = case['kind']
    if kind == 'plateau' and p + 1 < n:
        s2[p + 1:] = s2[p]
    elif kind == 'dip' and 2 <= p:
        s2[p - 1] = s2[p - 1] * rng.uniform(0, 0.5)
    elif kind == 'dips':
        for i in range(1, p, int(rng.integers(2, 6))):
            s2[i] *= rng.uniform(0, 1)
    elif kind == 'noisy':
        s2 = np.abs(s2 * (1 + 0.3 * rng.standard_normal(n)))
    elif kind == 'tail':
        # noise in the saturated region
        s2[p + 1:] *= rng.uniform(0.8, 1.2, n - p - 1)
    return s2


def check(case, ctx):
    s2 = expand(case)
    n = len(s2)
    want = T.saturation(s2)
    r = T.results(make(s2))
    got = r.index_u_ysat
    require(int(got) == got and 0 <= got < n, 'index %r is not a point of %d', got, n)
    require(int(got) == want, 'saturation index %d, expected %d, for variances %s', got, want, s2.tolist())
    require(float(r.u_p_sat) == 10.0 * (want + 1) + 0.5, 'saturation photons %r at index %d', r.u_p_sat, want)
    require(int(r.index_u_ysat) == want, 'changes when asked again')
    peak = int(np.argmax(s2))
    single = bool(np.all(np.diff(s2[:peak + 1]) > 0) and np.all(np.diff(s2[peak:]) <= 0))
    if single:
        require(want == peak, 'reference disagrees with the maximum of a single peak')
    for f in (2.0 ** case['e'], 2.0 ** -case['e']):
        require(int(T.results(make(s2 * f)).index_u_ysat) == want, 'rescaled by %g', f)
    if want > 2:
        rng = np.random.default_rng(case['e'])
        o = s2.copy()
        o[:want - 2] = rng.uniform(0, 2 * s2.max(), want - 2)
        require(int(T.results(make(o)).index_u_ysat) == want, 'darker points changed: %s', o.tolist())
    k = case['forced'] % n
    f = T.results(make(s2), index_u_ysat=k)
    require(int(f.index_u_ysat) == k and float(f.u_p_sat) == 10.0 * (k + 1) + 0.5, 'forced index %d gives %r', k,
            f.index_u_ysat)
    ctx.label('single peak' if single else 'several', 'first' if want == 0 else 'last' if want == n - 1 else 'inner',
              'at maximum' if want == peak else 'not the maximum', 'forced 0' if k == 0 else 'forced')
    if n < 3 or want == 0:
        ctx.trivial()


@st.composite
def cases(draw):
    c = {'e': draw(st.integers(0, 30)), 'forced': draw(st.one_of(st.just(0), st.integers(0, 230)))}
    k = draw(st.integers(0, 3))
    if k == 0:
        c['s2'] = draw(st.lists(st.integers(0, 4), min_size=1, max_size=12))
    elif k == 1:
        c['s2'] = draw(st.lists(st.one_of(st.just(0.0), st.floats(1e-6, 1e6)), min_size=1, max_size=30))
    else:
        n = draw(st.one_of(st.integers(1, 40), st.integers(1, 220)))
        c.update(n=n, peak=draw(st.integers(0, n - 1)), fall=draw(st.sampled_from([0.3, 1, 100.0])),
                 scale=draw(gen.logfloat(1e-3, 1e4)), seed=draw(gen.seeds()),
                 kind=draw(st.sampled_from(['clean', 'plateau', 'dip', 'dips', 'noisy', 'tail'])))
    return c


SUBS = [Sub('peak', lambda tier: cases(), check, 20000, 800000,
            'a temporal variance series of 1..220 points (single peaks anywhere, plateaus, dips, noise, ties, all zero) '
            'checked against the definition, under power-of-two rescaling, replaced darker points and forced indices; '
            'non-trivial with 3 or more points and a saturation point other than the first')]
