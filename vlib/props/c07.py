"""C07: spatial statistics of averaged stacks."""
import numpy as np
from hypothesis import strategies as st

from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from .. import dataset as D
from .. import gen
from ..core import Sub, require, same, close

EXACT = ['sum', 'L', 'M', 'N']
FLOAT = ['avg_mean', 'avg_var', 'var_mean', 'avg_var_cav', 'avg_var_rav']


def compare(s, images, what):
    want = D.spatial_reference(images)
    require(float(s['texp']) == want['texp'] and float(s['u_p']) == want['u_p'], '%s: exposure %s, photons %s', what,
            s['texp'], s['u_p'])
    for post in ('', '_dark'):
        for k in EXACT:
            same(s[k + post], want[k + post], '%s: %s%s' % (what, k, post))
        scale = float(np.abs(want['sum' + post]).max()) / want['L' + post]
        for k in FLOAT:
            atol = 1e-9 * (1 + (want['avg_var' + post] if want['avg_var' + post] == want['avg_var' + post] else 0)
                           + want['var_mean' + post] + scale * 1e-3)
            close(s[k + post], want[k + post], '%s: %s%s' % (what, k, post), rtol=1e-9, atol=atol)


def make(case):
    dark, bright = gen.build_stack(case['dark']), gen.build_stack(case['bright'])
    h, w = min(dark[0].shape[0], bright[0].shape[0]), min(dark[0].shape[1], bright[0].shape[1])
    dark = [i[:h, :w] for i in dark]
    bright = [i[:h, :w] for i in bright]
    if case.get('offset'):
        # cameras of more than 16 bits
        dark, bright = ([i.astype('uint32') + np.uint32(case['offset']) for i in x] for x in (dark, bright))
    t = [np.zeros((h, w), int), np.ones((h, w), int)]
    d = {0.0: dark, case['ph']: bright}
    if case['bright_first']:
        d = {case['ph']: bright, 0.0: dark}
    return {'temporal': {7.0: {0.0: t, 3.0: t}}, 'spatial': {case['exp']: d}}


def check(case, ctx):
    images = make(case)
    d = images['spatial'][case['exp']]
    if case['files']:
        with D.scratch() as tmp:
            wide = {'temporal': {e: {p: [i.astype('uint8') for i in v] for p, v in x.items()}
                                 for e, x in images['temporal'].items()}, 'spatial': images['spatial']}
            loaded = LoadImageData(D.with_base(D.write_files(wide, tmp, ['png']), tmp)).data
    else:
        loaded = D.loader_dict(images)
    s = Data1288(loaded).data['spatial']
    compare(s, images, 'data')
    rng = np.random.default_rng(case['perm'])
    perm = {p: [v[i] for i in rng.permutation(len(v))] for p, v in d.items()}
    s2 = Data1288(D.loader_dict(dict(images, spatial={case['exp']: perm}))).data['spatial']
    for k in s:
        same(s2[k], s[k], 'stack order and ' + k)
    L, Ld = len(d[case['ph']]), len(d[0.0])
    M, N = d[0.0][0].shape
    ctx.label('L equal' if L == Ld else 'L different', 'square' if M == N else 'line' if min(M, N) == 1 else
              'tall' if M > N else 'wide', 'styles %s/%s' % (case['dark'].get('style', 'elem') > 'g',
                                                             case['bright'].get('style', 'elem') > 'g'))
    if M * N < 2 or s['var_mean'] == 0:
        ctx.trivial()


@st.composite
def cases(draw):
    big = draw(st.sampled_from([6, 24, 300]))
    eq = draw(st.booleans())
    a = draw(gen.stack(min_l=2, max_l=60, max_dim=big, min_dim=1, max_pixels=20000))
    b = draw(gen.stack(min_l=2, max_l=60, max_dim=big, min_dim=1, max_pixels=20000, dtypes=(a['dtype'],),
                       lengths=st.just(a['L']) if eq else None))
    return {'dark': a, 'bright': b, 'exp': draw(D.value()), 'ph': draw(D.value()), 'bright_first': draw(st.booleans()),
            'files': draw(st.sampled_from([False] * 5 + [True])) and a['L'] > 2 and b['L'] > 2,
            'perm': draw(gen.seeds())}


@st.composite
def large(draw):
    dt = draw(st.sampled_from(['uint8', 'uint16']))
    if draw(st.booleans()):
        a, b = (draw(gen.stack(min_l=2, max_l=4, max_dim=900, min_dim=200, max_pixels=2000000, dtypes=(dt,))) for _ in range(2))
    else:
        a, b = (draw(gen.stack(min_l=2, max_l=1900, max_dim=6, max_pixels=60000, dtypes=(dt,),
                               lengths=st.integers(2, 1900))) for _ in range(2))
    return {'dark': a, 'bright': b, 'exp': draw(D.value()), 'ph': draw(D.value()), 'bright_first': draw(st.booleans()),
            'files': False, 'perm': draw(gen.seeds())}


@st.composite
def deep(draw):
    c = draw(st.one_of(cases(), large_stack()))
    return dict(c, files=False, offset=draw(st.one_of(st.integers(1, 2 ** 24 - 2 ** 16), st.just(2 ** 24 - 2 ** 16))))


@st.composite
def large_stack(draw):
    a, b = (draw(gen.stack(min_l=2, max_l=180, max_dim=6, dtypes=('uint16',), lengths=st.integers(100, 180))) for _ in range(2))
    return {'dark': a, 'bright': b, 'exp': draw(D.value()), 'ph': draw(D.value()), 'bright_first': draw(st.booleans()),
            'files': False, 'perm': draw(gen.seeds())}


SUBS = [Sub('deep', lambda tier: deep(), check, 60, 2000,
            'the same for images of up to 24 bits and stacks of up to 180 of them'),
        Sub('large', lambda tier: large(), check, 60, 900,
            'the same for frames of hundreds of thousands of pixels and for stacks of up to 1900 images'),
        Sub('stats', lambda tier: cases(), check, 1200, 20000,
            'a dark and a bright stack (2..60 images each, lengths equal or not, frames from a single line to hundreds '
            'of pixels, ten structured or noisy styles, 8/16 bit) compared with two-pass statistics of the raw images, '
            'and again with the images of each stack permuted; non-trivial with temporal noise and several pixels')]
