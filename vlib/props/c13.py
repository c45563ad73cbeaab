"""C13: temporal dark noise and dark current."""
import numpy as np
from hypothesis import strategies as st

from .. import gen
from .. import temporal as T
from ..core import Sub, require, close

# the iterative line fit of the code stops at about 5e-6 of the largest value (measured)
LSQ = 3e-5


def build(case):
    rng = np.random.default_rng(case['seed'])
    n, k = case['n'], case['unique']
    t = case['step'] * np.cumsum(rng.uniform(0.2, 1, k))
    t = np.round(case['t0'] * t[-1] + t, 3)
    t = np.unique(t)
    k = len(t)
    if k == 1:
        texp = np.full(n, t[0])
    elif case['repeat']:
        texp = np.sort(np.concatenate([t, rng.choice(t, max(0, n - k))]))
    else:
        texp = t
    n = max(len(texp), 4) if k == 1 else len(texp)
    texp = np.resize(texp, n) if k == 1 else texp
    z = (texp - texp[0]) / ((texp[-1] - texp[0]) or 1)
    dark = case['dark'] * (1 + case['m'] * z) + case['noise'] * case['dark'] * rng.standard_normal(n)
    var = case['var'] * (1 + case['v'] * z) * (1 + case['noise'] * rng.standard_normal(n))
    if case['shuffle'] and len(np.unique(texp)) > 2:
        k = rng.permutation(n)
        texp, dark, var = texp[k], dark[k], var[k]
    u_p = 100.0 * np.arange(1, n + 1)
    Y = u_p * 0.5
    return {'texp': texp, 'u_p': u_p, 'u_y': Y + dark, 's2_y': Y * case['K'] + var, 'u_ydark': dark,
            's2_ydark': np.maximum(var, 0)}


def check(case, ctx):
    t = build(case)
    n = len(t['texp'])
    if n < 2:
        ctx.trivial()
        return
    t['s2_y'] = (t['u_y'] - t['u_ydark']) * case['K'] + t['s2_ydark']
    r = T.results(t, index_u_ysat=n - 1)
    K = float(r.K)
    close(K, case['K'], 'gain', rtol=1e-5)
    k = len(np.unique(t['texp']))
    x, sv, sm = t['texp'], t['s2_ydark'], t['u_ydark']
    if k <= 2:
        s2, tol = sv[0], 0.0
        for name in ('u_I_mean', 'u_I_mean_DN', 'u_I_var', 'u_I_var_DN'):
            require(np.isnan(getattr(r, name)), '%s is %r with %d exposure times', name, getattr(r, name), k)
    else:
        (av, bv), (am, bm) = T.line(x, sv), T.line(x, sm)
        reach = x.max() / (x.max() - x.min())
        tol = LSQ * (np.abs(sv).max() * reach + 1e-9)
        s2 = bv
        tm = LSQ * (np.abs(sm).max() + 1e-9) / (x.max() - x.min()) * reach
        tv = LSQ * (np.abs(sv).max() + 1e-9) / (x.max() - x.min()) * reach
        close(r.u_I_mean_DN, am * 1e9, 'u_I_mean_DN', rtol=1e-6, atol=tm * 1e9)
        close(r.u_I_mean, r.u_I_mean_DN / K, 'u_I_mean', rtol=1e-9)
        if av < -tv:
            for name in ('u_I_var', 'u_I_var_DN'):
                require(np.isnan(getattr(r, name)), '%s is %r with variance slope %g', name, getattr(r, name), av)
            ctx.label('falling variance')
        elif np.isnan(r.u_I_var_DN):
            require(av <= tv, 'u_I_var_DN is not a number with variance slope %g', av)
            require(np.isnan(r.u_I_var), 'u_I_var is %r without u_I_var_DN', r.u_I_var)
        else:
            require(r.u_I_var_DN >= 0, 'u_I_var_DN is %r', r.u_I_var_DN)
            close(r.u_I_var_DN, av / K * 1e9, 'u_I_var_DN', rtol=1e-5, atol=tv / K * 1e9)
            close(r.u_I_var, r.u_I_var_DN / K, 'u_I_var', rtol=1e-9)
            ctx.label('rising variance')
    want2 = max(0.24, s2)
    got2 = float(r.sigma_y_dark) ** 2
    require(got2 >= 0.24 * (1 - 1e-12), 'dark variance %g below 0.24', got2)
    close(got2, want2, 'sigma_y_dark^2', rtol=1e-9, atol=tol)
    close(r.sigma_d, np.sqrt(got2 - 1 / 12) / K, 'sigma_d', rtol=1e-9)
    require(float(r.s2q) * 12 == 1.0, 's2q %r', r.s2q)
    ctx.label('%s exposure times' % (k if k < 4 else '4+'), 'floor' if s2 < 0.24 else 'above floor',
              'repeated' if k < n else 'distinct')


@st.composite
def cases(draw):
    return {'n': draw(st.one_of(st.integers(4, 40), st.integers(4, 150))), 'unique': draw(st.sampled_from([1, 2, 2, 3, 3, 4, 5, 8, 20, 40, 100])),
            'seed': draw(gen.seeds()), 't0': draw(st.sampled_from([0.0, 0.01, 0.5, 3.0])),
            'step': draw(st.one_of(gen.logfloat(10, 1e8), gen.logfloat(10, 1e8), gen.logfloat(1e8, 1e11))), 'repeat': draw(st.booleans()), 'dark': draw(gen.logfloat(0.1, 4000)),
            'm': draw(st.sampled_from([0.0, 1e-3, 0.1, 5.0, -0.2])), 'var': draw(gen.logfloat(0.01, 1000)),
            'v': draw(st.sampled_from([0.0, 0.01, 0.2, 3.0, 40.0, -0.5, -0.95])),
            'shuffle': draw(st.sampled_from([False, False, True])), 'noise': draw(st.sampled_from([0.0, 1e-3, 0.05])), 'K': draw(gen.logfloat(0.01, 20))}


SUBS = [Sub('dark', lambda tier: cases(), check, 8000, 250000,
            'a dark series (1..100 exposure times, distinct or repeated; rising, constant or falling mean and variance, '
            'with noise; times from nanoseconds to minutes) against closed-form least squares; every case is non-trivial '
            'except those with a single measuring point')]
