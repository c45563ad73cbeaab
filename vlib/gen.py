"""Generators: plain JSON-able case descriptions, and the builders that turn them into arrays."""
import numpy as np
from hypothesis import strategies as st

DTYPES = {'uint8': (0, 255), 'uint16': (0, 65535), 'int16': (-32768, 32767), 'int32': (-10 ** 6, 10 ** 6),
          'uint32': (0, 10 ** 6), 'int64': (-10 ** 6, 10 ** 6), 'int8': (-128, 127)}

ALL_TYPES = ('int64', 'uint8', 'int8', 'uint16', 'int16', 'int32', 'uint32', 'uint64')


def seeds():
    return st.integers(0, 2 ** 32 - 1)


def dims(maxdim, mindim=1):
    """Sizes biased to small ones but reaching maxdim."""
    lo = max(mindim, 1)
    return st.one_of(st.integers(lo, min(maxdim, lo + 4)), st.integers(lo, max(lo, min(maxdim, 24))), st.integers(lo, maxdim))


STYLES = ('noise', 'extreme', 'const', 'gradient', 'rows', 'cols', 'pixels', 'same', 'drift', 'spots')


@st.composite
def stack(draw, min_l=1, max_l=40, max_dim=64, min_dim=1, dtypes=('uint8', 'uint16'), styles=STYLES,
          max_pixels=60000, lengths=None):
    """A stack of equally shaped images, described by a style and a drawn seed, or element by element."""
    dt = draw(st.sampled_from(dtypes))
    lo, hi = DTYPES[dt]
    if min_dim <= 12 and draw(st.integers(0, 4)) == 0:
        h = draw(st.integers(min_dim, max(min_dim, 4)))
        w = draw(st.integers(min_dim, max(min_dim, 4)))
        n = draw(lengths) if lengths is not None else draw(st.integers(min_l, max(min_l, min(max_l, 5))))
        px = st.one_of(st.sampled_from([lo, hi]), st.integers(lo, hi), st.integers(0, 9))
        if n * h * w > 400:
            n2 = 400 // (h * w)
            rows = draw(st.lists(px, min_size=n2 * h * w, max_size=n2 * h * w))
            rows = (rows * (n // max(n2, 1) + 1))[:n * h * w]
        else:
            rows = draw(st.lists(px, min_size=n * h * w, max_size=n * h * w))
        return {'h': h, 'w': w, 'L': n, 'dtype': dt, 'data': rows}
    h = draw(dims(max_dim, min_dim))
    w = draw(dims(max_dim, min_dim))
    n = draw(lengths) if lengths is not None else draw(dims(max_l, min_l))
    while n * h * w > max_pixels and max(h, w) > min_dim + 1:
        if h >= w:
            h = max(min_dim, h // 2)
        else:
            w = max(min_dim, w // 2)
    a = draw(st.integers(lo, hi))
    b = draw(st.one_of(st.integers(lo, hi), st.integers(max(lo, a - 8), min(hi, a + 8))))
    return {'h': h, 'w': w, 'L': n, 'dtype': dt, 'style': draw(st.sampled_from(styles)),
            'lo': min(a, b), 'hi': max(a, b), 'seed': draw(seeds())}


def build_stack(s):
    """List of 2-D arrays for a stack description (a pure function of the description)."""
    dt = np.dtype(s['dtype'])
    h, w, n = s['h'], s['w'], s['L']
    if 'data' in s:
        a = np.array(s['data'], dtype=dt).reshape(n, h, w)
        return [a[i].copy() for i in range(n)]
    rng = np.random.default_rng(s['seed'])
    lo, hi = s['lo'], s['hi']
    span = hi - lo
    style = s['style']
    clip_lo, clip_hi = DTYPES[s['dtype']]
    noise = max(1, span // 16)
    if style == 'noise':
        a = rng.integers(lo, hi + 1, (n, h, w))
    elif style == 'extreme':
        a = np.where(rng.random((n, h, w)) < 0.5, lo, hi)
    elif style == 'const':
        a = np.broadcast_to(rng.integers(lo, hi + 1, (n, 1, 1)), (n, h, w)).copy()
    elif style == 'same':
        a = np.broadcast_to(rng.integers(lo, hi + 1, (1, h, w)), (n, h, w)).copy()
    elif style == 'gradient':
        g = lo + (span * (np.arange(h)[:, None] * 2 + np.arange(w)[None, :])) // max(1, 2 * h + w)
        a = g[None] + rng.integers(-noise, noise + 1, (n, h, w))
    elif style == 'rows':
        a = rng.integers(lo, hi + 1, (1, h, 1)) + rng.integers(-2, 3, (n, h, w))
    elif style == 'cols':
        a = rng.integers(lo, hi + 1, (1, 1, w)) + rng.integers(-2, 3, (n, h, w))
    elif style == 'pixels':
        a = rng.integers(lo, hi + 1, (1, h, w)) + rng.integers(-noise, noise + 1, (n, h, w))
    elif style == 'drift':
        a = (lo + (span * np.arange(n)) // max(1, n))[:, None, None] + rng.integers(-2, 3, (n, h, w))
    else:  # spots: a quiet image with a few outliers
        a = lo + rng.integers(0, 3, (n, h, w))
        a = np.where(rng.random((1, h, w)) < 0.02, hi, a)
    a = np.clip(a, clip_lo, clip_hi).astype(dt)
    return [a[i].copy() for i in range(n)]


def floats(lo, hi):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


@st.composite
def logfloat(draw, lo, hi):
    """Positive number, log-uniform between lo and hi, rounded to a short decimal."""
    e = draw(st.floats(np.log10(lo), np.log10(hi), allow_nan=False))
    return float('%.6g' % (10.0 ** e))
