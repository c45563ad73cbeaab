"""C28: bad pixels."""
import numpy as np
from hypothesis import strategies as st

from emva1288.camera.bad_images import bad_pixel
from emva1288.camera.camera import Camera
from emva1288.camera.routines import Qe
from .. import gen
from ..core import Sub, require, same


def dsnu(case):
    """Nonuniformity given to a camera, in any form a caller may have it."""
    h, w = case['h'], case['w']
    rng = np.random.default_rng(case['seed'])
    kind = case['dsnu']
    if not kind:
        return None
    if kind == 'int':
        return rng.integers(0, 3, (h, w))
    if kind == 'rows':
        return np.broadcast_to(rng.uniform(0, 2, (h, 1)), (h, w))
    if kind == 'float32':
        return rng.uniform(0, 2, (h, w)).astype(np.float32)
    return rng.uniform(0, 2, (h, w))


def camera(case, esat, seed=5, own=None):
    h, w = case['h'], case['w']
    d = dsnu(case) if own is None else own
    qe = Qe(qe=np.full((h, w, 1), 0.5), wavelength=np.array([550.0]), width=w, height=h)
    return Camera(width=w, height=h, bit_depth=case['bits'], K=case['K'], K_min=case['K'], K_max=9 * case['K'], K_steps=9, blackoffset=100, blackoffset_max=200,
                  blackoffset_steps=201, dark_current_ref=0, dark_signal_0=50.0, sigma2_dark_0=4.0, u_esat=esat, dsnu=d,
                  qe=qe, seed=seed)


def check(case, ctx):
    size = case['h'] * case['w']
    n = {'none': 0, 'all': size, 'half': size // 2}.get(case['n']) if isinstance(case['n'], str) else case['n'] % (size + 1)
    esat = case['esat']
    own = dsnu(case)
    cam = camera(case, esat, own=own)
    # another camera of the same kind, built from the same array
    clean = camera(case, esat, own=own)
    before = np.array(cam.DSNU, dtype=float).copy()
    v = case['v']
    args = () if v == 'default' else (v,)
    value = esat * (1 if v in ('default', None) else v)
    np.random.seed(case['np'])
    bad_pixel(cam, n, *args)
    after = np.asarray(cam.DSNU, dtype=float)
    if own is not None:
        same(own, dsnu(case), 'array given to the camera')
    same(np.asarray(clean.DSNU, float), before, 'nonuniformity of another camera')
    require(after.shape == before.shape, 'nonuniformity of shape %s', after.shape)
    hit = after != before
    require(int(hit.sum()) == n, '%d pixels changed, %d requested', hit.sum(), n)
    same(after[hit], np.full(n, value), 'value of bad pixels')
    # they stand out, and nothing else does: same noise, with and without bad pixels
    a, b = cam.grab(0).astype(float), clean.grab(0).astype(float)
    same(a[~hit], b[~hit], 'good pixels of an image')
    top = 2 ** case['bits'] - 1
    full = np.minimum(value + 50.0, esat) * case['K'] + 100
    sig = np.minimum(full, top)
    if n:
        # dark noise of 2 electrons, at nine sigma, and rounding
        lo, hi = np.minimum(full - case['K'] * 9 * 2 - 2, top), sig + case['K'] * 9 * 2 + 2
        x = a[hit]
        require(((x >= lo) & (x <= hi)).all(), 'bad pixels at %s..%s, expected about %s', x.min(), x.max(), sig)
    # again on the same camera: more of them
    if case['again'] and n < size:
        cam2 = camera(case, esat)
        bad_pixel(cam2, n, *args)
        bad_pixel(cam2, size, 0.5)
        same(np.asarray(cam2.DSNU, float), np.full((case['h'], case['w']), 0.5 * esat), 'all pixels')
    ctx.label('none' if n == 0 else 'all' if n == size else 'some', 'value %s' % (v if v in ('default', None) else 'given'),
              'dsnu %s' % case['dsnu'], 'range limited' if full > top else 'full range', 'tall' if case['h'] > case['w'] else 'wide')
    if n == 0:
        ctx.trivial()


@st.composite
def cases(draw):
    d = draw(any_cases())
    if draw(st.integers(0, 9)) == 0:
        # dead pixels: none of the full well at all
        d['v'], d['dsnu'] = draw(st.sampled_from([0, 0.0])), 'float'
    return d


@st.composite
def any_cases(draw):
    return {'h': draw(st.integers(1, 30)), 'w': draw(st.integers(1, 30)), 'seed': draw(gen.seeds()),
            'np': draw(gen.seeds()), 'n': draw(st.one_of(st.integers(0, 900), st.integers(0, 20), st.sampled_from(
                ['none', 'all', 'half']))), 'v': draw(st.one_of(st.sampled_from(['default', None, 1, 0.5]), st.floats(0.02, 1))),
            'bits': draw(st.integers(8, 16)), 'K': draw(st.sampled_from([0.01, 0.1, 0.5, 2.0])),
            'esat': draw(st.sampled_from([5000.0, 15000.0, 123456.0])), 'dsnu': draw(st.sampled_from([None, None, 'float', 'float', 'float', 'int', 'rows', 'float32'])), 'again': draw(st.booleans())}


def check_positions(case, ctx):
    """Every pixel of the frame can become bad."""
    size = case['h'] * case['w']
    n = 1 + case['n'] % max(1, size - 1)
    # so often that a pixel is missed by chance once in 10^13 cases only
    repeat = 1 if n >= size else int(np.ceil(np.log(size * 1e13) / -np.log1p(-n / size)))
    np.random.seed(case['np'])
    count = np.zeros((case['h'], case['w']), int)
    for _ in range(repeat):
        cam = Camera(width=case['w'], height=case['h'], seed=3)
        bad_pixel(cam, n)
        count += np.asarray(cam.DSNU) != 0
    require(int(count.sum()) == repeat * n, '%d pixels changed, %d requested', count.sum(), repeat * n)
    require((count > 0).all(), 'never bad in %d repetitions: pixels %s', repeat, np.argwhere(count == 0).tolist())
    ctx.label('tall' if case['h'] > case['w'] else 'wide', 'few' if n < case['h'] else 'many')
    if size == 1:
        ctx.trivial()


@st.composite
def position_cases(draw):
    return {'h': draw(st.integers(1, 4)), 'w': draw(st.integers(1, 4)), 'n': draw(st.integers(0, 7)), 'np': draw(gen.seeds())}


SUBS = [Sub('bad', lambda tier: cases(), check, 4000, 120000,
            'a frame of 1x1..30x30, 0..all bad pixels of any fraction, with or without nonuniformity: which pixels change, '
            'to what, and the image difference to an undamaged twin with the same noise; non-trivial with a bad pixel'),
        Sub('positions', lambda tier: position_cases(), check_positions, 150, 3000,
            'frames of up to 4x4 pixels, so many repetitions that a pixel never hit is a mistake (chance below 1e-13): '
            'every pixel becomes bad at least once, the requested number every time')]
