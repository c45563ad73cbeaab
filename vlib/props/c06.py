"""C06: temporal means and variances."""
import os

import numpy as np
from hypothesis import strategies as st

from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from .. import dataset as D
from .. import gen
from ..core import Sub, require, same, close

KEYS = ['texp', 'u_p', 'u_y', 's2_y', 'u_ydark', 's2_ydark']


def compare(t, images, what):
    want = D.temporal_reference(images)
    require(set(KEYS) <= set(t), '%s: keys %s', what, sorted(t))
    for k in ('texp', 'u_p'):
        same(np.asarray(t[k], dtype=float), want[k], '%s: %s' % (what, k))
    for k in ('u_y', 'u_ydark'):
        close(t[k], want[k], '%s: %s' % (what, k), rtol=1e-12, atol=1e-12)
    # rounding of the mean difference enters squared
    scale = max([np.abs(i.astype(float)).max() for d in images['temporal'].values() for p in d.values() for i in p])
    for k in ('s2_y', 's2_ydark'):
        close(t[k], want[k], '%s: %s' % (what, k), rtol=1e-9, atol=1e-10 * (1 + scale))
        require((np.asarray(t[k]) > -1e-9 * (1 + scale)).all(), '%s: negative %s: %s', what, k, t[k])


def check(case, ctx):
    ds = case['ds']
    images = D.images_of(ds)
    if case['files']:
        with D.scratch() as tmp:
            loaded = LoadImageData(D.with_base(D.write_files(images, tmp, ['png']), tmp)).data
    else:
        loaded = D.loader_dict(images)
    t = Data1288(loaded).data['temporal']
    compare(t, images, 'data')
    # an offset on either image of every pair changes the means only
    off = case['offsets']
    shifted = {'spatial': images['spatial'], 'temporal': {}}
    for n, (e, d) in enumerate(images['temporal'].items()):
        shifted['temporal'][e] = {p: [i.astype(np.int64) + off[(n + m + k) % len(off)] for k, i in enumerate(pair)]
                                  for m, (p, pair) in enumerate(d.items())}
    t2 = Data1288(D.loader_dict(shifted)).data['temporal']
    big = 1e-9 * (1 + ds['hi'] + max(off))
    for k in ('s2_y', 's2_ydark'):
        close(t2[k], t[k], 'offset invariance of ' + k, rtol=1e-9, atol=big)
    # swapping the images of the pairs changes nothing
    swapped = {'spatial': images['spatial'],
               'temporal': {e: {p: pair[::-1] for p, pair in d.items()} for e, d in images['temporal'].items()}}
    t3 = Data1288(D.loader_dict(swapped)).data['temporal']
    for k in KEYS:
        close(t3[k], t[k], 'pair order and ' + k, rtol=1e-12, atol=1e-12)
    n_e = len(images['temporal'])
    ctx.label('exposures %d' % n_e, 'uneven' if len({len(d) for d in images['temporal'].values()}) > 1 else 'even',
              'from files' if case['files'] else 'from arrays')
    if not np.any(np.asarray(t['s2_y']) > 0):
        ctx.trivial()


@st.composite
def cases(draw):
    return {'ds': draw(D.datasets(max_dim=draw(st.sampled_from([4, 16])), max_exposures=6, max_bright=6, max_l=3)),
            'files': draw(st.sampled_from([False, False, False, True])),
            'offsets': draw(st.lists(st.integers(0, 3000), min_size=1, max_size=5))}


def check_many(case, ctx):
    """Many exposures or many photon counts, up to hundreds of points."""
    rng = np.random.default_rng(case['seed'])
    n_e, n_p = case['n_e'], case['n_p']
    exps = rng.permutation(np.round(np.linspace(1000, 1e6, n_e), 1))
    images = {'temporal': {}, 'spatial': {1.0: {0.0: [np.zeros((2, 3), int), np.ones((2, 3), int)] * 2,
                                                1.5: [np.ones((2, 3), int), np.eye(2, 3, dtype=int)] * 2}}}
    for e in exps:
        phs = rng.permutation(np.concatenate([[0.0], np.round(np.cumsum(rng.random(n_p) * 100 + 0.01), 3)]))
        images['temporal'][float(e)] = {
            float(p): [rng.integers(0, 65536, (2, 3)).astype('uint16') for _ in range(2)] for p in phs}
    t = Data1288(D.loader_dict(images)).data['temporal']
    compare(t, images, 'many points')
    ctx.label('%d points' % (10 ** int(np.log10(n_e * n_p))))


def check_large(case, ctx):
    """Frames of up to a million pixels, or masked ones whose number of valid pixels is given."""
    rng = np.random.default_rng(case['seed'])
    h, w = case['h'], case['w']
    mask = np.zeros((h, w), bool)
    if case['mask'] == 'bayer':
        mask[:] = True
        mask[case['seed'] % min(2, h)::2, case['seed'] // 2 % 2::2] = False
    elif case['mask'] == 'random':
        mask = rng.random((h, w)) < 0.4
        mask[0, 0] = False
    store, want = {}, {}
    names = {'temporal': {}, 'spatial': {1.0: {0.0: ['s', 's'], 2.0: ['s', 's']}}}
    top = 2 ** case['bits'] - 1
    for e in range(case['n_e']):
        for p in range(3):
            mean, width = rng.uniform(0, top), rng.choice([1.0, 30.0, top / 4])
            drift = rng.choice([0.0, 0.3, 25.0])
            pair = [np.clip(np.round(mean + d + width * rng.standard_normal((h, w))), 0, top).astype('uint16') for d in (0, drift)]
            ids = ['%d %d %d' % (e, p, k) for k in range(2)]
            store.update(zip(ids, pair))
            names['temporal'].setdefault(1.0 + e, {})[10.0 * p] = ids
            a, b = (x[~mask].astype(np.int64) for x in pair)
            d = a - b
            n, s1, s2 = a.size, int(d.sum()), int((d * d).sum())
            want[e, p] = int(a.sum() + b.sum()) / (2 * n), (s2 * n - s1 * s1) / (2 * n * n)
    store['s'] = np.arange(h * w, dtype='uint16').reshape(h, w)
    with D.scratch() as tmp:
        for n in store:
            open(os.path.join(tmp, n), 'w').close()

        def fload(f):
            a = store[os.path.basename(f)].copy()
            return np.ma.masked_array(a, mask.copy()) if case['mask'] else a
        data = LoadImageData(names, path=tmp, fload=fload).data
    kw = {'pixels': int((~mask).sum())} if case['mask'] else {}
    t = Data1288(data, **kw).data['temporal']
    ne = case['n_e']
    dark = [want[e, 0] for e in range(ne)] * (2 if ne == 1 else 1)
    bright = [want[e, p] for e in range(ne) for p in (1, 2)]
    for k, series in (('dark', dark), ('', bright)):
        close(t['u_y' + k], [m for m, v in series], 'large: u_y' + k, rtol=1e-11, atol=1e-9)
        close(t['s2_y' + k], [v for m, v in series], 'large: s2_y' + k, rtol=1e-8, atol=1e-10 * (1 + top))
    ctx.label(case['mask'] or 'plain', '%d bits' % case['bits'], 'over 1e5 pixels' if h * w > 10 ** 5 else 'smaller')


SUBS = [
    Sub('large', lambda tier: st.fixed_dictionaries({
        'h': st.one_of(st.integers(1, 40), st.integers(100, 900)), 'w': st.one_of(st.integers(2, 40), st.integers(100, 900)),
        'n_e': st.integers(1, 3), 'bits': st.sampled_from([8, 12, 16]), 'seed': gen.seeds(),
        'mask': st.sampled_from(['', '', 'bayer', 'random'])}), check_large, 80, 1200,
        'image pairs of up to 900x900 pixels of 8 to 16 bits through the loader, plain or masked with the number of valid pixels '
        'given, against exact integer sums over the valid pixels'),
    Sub('stats', lambda tier: cases(), check, 900, 15000,
        'a data set of image pairs (1..6 exposures in any order, 1..6 bright points each, 8/16 bit, ten image styles), '
        'from files or arrays, compared with exact-fraction pair statistics, plus offset and pair-order invariance; '
        'non-trivial if some pair has temporal noise'),
    Sub('many', lambda tier: st.fixed_dictionaries({'seed': gen.seeds(), 'n_e': st.integers(1, 60),
                                                    'n_p': st.integers(1, 60)}), check_many, 60, 800,
        'up to 60 exposures x 60 photon counts in shuffled order'),
]
