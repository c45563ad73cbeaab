"""C08: split of the spatial nonuniformity into row, column and pixel parts."""
import numpy as np
from hypothesis import strategies as st

from emva1288.process.data import Data1288
from emva1288.process.results import Results1288
from .. import dataset as D
from .. import gen
from .. import temporal as T
from ..core import Sub, require, close, short


def evaluate(images, K):
    loaded = D.loader_dict(images)
    d = Data1288(loaded).data
    x = np.array([100.0, 200, 300, 400, 500, 600])
    y = x * 0.5
    d['temporal'] = {'texp': np.ones(6), 'u_p': x, 'u_y': y + 3, 's2_y': np.append(y[:-1] * K + 2, 2.0),
                     'u_ydark': np.full(6, 3.0), 's2_ydark': np.full(6, 2.0)}
    return Results1288(d)


def split(s2, cav, rav, M, N):
    A = np.array([[1, 1, 1], [0, 1, 1 / M], [1, 0, 1 / N]])
    row, col, pix = np.linalg.solve(A, [s2, cav, rav])
    return {'row': row, 'col': col, 'pixel': pix}


def root_check(got, var, scale, factor, what, ctx):
    """got must be factor*sqrt(var), or not-a-number for negative variances."""
    if abs(var) <= 1e-6 * scale:
        ctx.label('component near zero')
        return
    if var < 0:
        require(np.isnan(got), '%s: %s although the component is negative (%s)', what, short(got), var)
        ctx.label('negative component')
    else:
        close(got, factor * np.sqrt(var), what, rtol=1e-5)


def check(case, ctx):
    dark, bright = gen.build_stack(case['dark']), gen.build_stack(case['bright'])
    h = min(dark[0].shape[0], bright[0].shape[0])
    w = min(dark[0].shape[1], bright[0].shape[1])
    if h * w == h + w:
        w += 1
        dark = [np.pad(i[:h, :2], ((0, 0), (0, 1)), mode='wrap') for i in dark]
        bright = [np.pad(i[:h, :2], ((0, 0), (0, 1)), mode='wrap') for i in bright]
    dark = [i[:h, :w] for i in dark]
    bright = [i[:h, :w] for i in bright]
    z = [np.zeros((h, w), int), np.ones((h, w), int)]
    images = {'temporal': {7.0: {0.0: z, 3.0: z}}, 'spatial': {9.0: {0.0: dark, 50.0: bright}}}
    K = case['K']
    r = evaluate(images, K)
    ref = D.spatial_reference(images)
    M, N = h, w
    comp, scales = {}, {}
    for post in ('', '_dark'):
        s2 = ref['avg_var' + post] - ref['var_mean' + post] / ref['L' + post]
        scale = scales[post] = 4 * (ref['avg_var' + post] + ref['var_mean' + post] + 1e-6) + 1e-3 * abs(
            ref['avg_mean' + post])
        atol = 1e-8 * scale
        g = lambda n: float(getattr(r, n + post))
        close(g('s_2_y_measured'), ref['avg_var' + post], 's_2_y_measured' + post, rtol=1e-8, atol=atol)
        close(g('sigma_2_y_stack'), ref['var_mean' + post], 'sigma_2_y_stack' + post, rtol=1e-8, atol=atol)
        close(g('s_2_y'), s2, 's_2_y' + post, rtol=1e-8, atol=atol)
        close(g('s_2_y_cav'), ref['avg_var_cav' + post], 'cav' + post, rtol=1e-8, atol=atol)
        close(g('s_2_y_rav'), ref['avg_var_rav' + post], 'rav' + post, rtol=1e-8, atol=atol)
        c = comp[post] = split(s2, ref['avg_var_cav' + post], ref['avg_var_rav' + post], M, N)
        for k in c:
            close(g('s_2_y_' + k), c[k], 's_2_y_%s%s' % (k, post), rtol=1e-7, atol=20 * atol)
        c['all'] = s2
    for k, name in (('all', ''), ('row', '_row'), ('col', '_col'), ('pixel', '_pixel')):
        root_check(float(getattr(r, 'DSNU1288' + name)), comp['_dark'][k], scales['_dark'], 1 / K, 'DSNU1288' + name, ctx)
        dm = ref['avg_mean'] - ref['avg_mean_dark']
        if abs(dm) > 1e-6 * (1 + abs(ref['avg_mean'])):
            root_check(float(getattr(r, 'PRNU1288' + name)), comp[''][k] - comp['_dark'][k], scales[''] + scales['_dark'],
                       100 / dm, 'PRNU1288' + name, ctx)
    root_check(float(r.DSNU1288_DN()), comp['_dark']['all'], scales['_dark'], 1, 'DSNU1288_DN', ctx)
    # transposed images: rows and columns exchange their roles
    t = {k: {e: {p: [i.T.copy() for i in v] for p, v in x.items()} for e, x in part.items()} for k, part in images.items()}
    rt = evaluate(t, K)
    for post in ('', '_dark'):
        for a, b in (('s_2_y_row', 's_2_y_col'), ('s_2_y_col', 's_2_y_row'), ('s_2_y_pixel', 's_2_y_pixel'),
                     ('s_2_y', 's_2_y')):
            close(float(getattr(rt, b + post)), float(getattr(r, a + post)), 'transposed %s%s' % (b, post), rtol=1e-7,
                  atol=2e-7 * scales[post])
    ctx.label('square' if M == N else 'not square', 'L differ' if len(dark) != len(bright) else 'L same',
              'thin' if min(M, N) == 2 else 'frame')
    if ref['avg_var'] == 0 and ref['avg_var_dark'] == 0:
        ctx.trivial()


@st.composite
def cases(draw):
    big = draw(st.sampled_from([6, 24, 200]))
    a = draw(gen.stack(min_l=2, max_l=30, max_dim=big, min_dim=2, max_pixels=15000))
    b = draw(gen.stack(min_l=2, max_l=30, max_dim=big, min_dim=2, max_pixels=15000, dtypes=(a['dtype'],)))
    return {'dark': a, 'bright': b, 'K': draw(gen.logfloat(0.01, 100))}


@st.composite
def large(draw):
    a, b = (draw(gen.stack(min_l=2, max_l=6, max_dim=700, min_dim=150, max_pixels=600000)) for _ in range(2))
    return {'dark': a, 'bright': b, 'K': draw(gen.logfloat(0.01, 100))}


SUBS = [Sub('large', lambda tier: large(), check, 40, 600, 'the same for frames of 150x150 to 700x700 pixels'),
        Sub('split', lambda tier: cases(), check, 2000, 40000,
            'a dark and a bright stack (2..30 images, frames 2x3..200x200, ten styles including pure row, column and '
            'pixel patterns) and a gain; all spatial results against the 3x3 linear system solved from raw-stack '
            'statistics, and against the evaluation of the transposed images; non-trivial with spatial variation')]
