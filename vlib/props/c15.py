"""C15: high-pass filter."""
import numpy as np
from hypothesis import strategies as st

from emva1288.process.routines import high_pass_filter
from .. import gen
from ..core import Sub, require, same, raises


def image(seed, h, w, lo, hi):
    return np.random.default_rng(seed).integers(lo, hi + 1, (h, w)).astype(np.int64)


def mask_of(case):
    h, w = case['h'], case['w']
    if case['mask'] == 'none':
        return np.zeros((h, w), bool)
    if case['mask'] == 'periodic':
        cell = np.array(case['cell'], bool)
        m = np.tile(cell, (h // cell.shape[0] + 1, w // cell.shape[1] + 1))[:h, :w]
        return m.copy()
    return np.random.default_rng(case['seed'] + 1).random((h, w)) < case['dens']


def reference(a, mask, d):
    """(filtered inner image, counts) by shifting and adding the valid pixels."""
    s = d // 2
    h, w = a.shape
    v = np.where(mask, 0, a)
    total = np.zeros((h - 2 * s, w - 2 * s), np.int64)
    count = np.zeros_like(total)
    for i in range(d):
        for j in range(d):
            total += v[i:h - d + 1 + i, j:w - d + 1 + j]
            count += ~mask[i:h - d + 1 + i, j:w - d + 1 + j]
    return v[s:h - s, s:w - s], total, count, mask[s:h - s, s:w - s]


def check(case, ctx):
    d = case['d']
    a = image(case['seed'], case['h'], case['w'], case['lo'], case['hi'])
    mask = mask_of(case)
    masked = case['mask'] != 'none'
    make = (lambda x: np.ma.masked_array(x.copy(), mask.copy())) if masked else (lambda x: x.copy())
    if case['even']:
        raises((ValueError,), lambda: high_pass_filter(make(a), case['even']), 'even size %d' % case['even'])
    centre, total, count, inner = reference(a, mask, d)
    valid = ~inner
    if not valid.any():
        ctx.trivial()
        ctx.label('all masked')
        return
    # a pixel type that holds all values
    fits = [t for t in gen.ALL_TYPES if np.iinfo(t).min <= a.min() and a.max() <= np.iinfo(t).max]
    arg = make(a.astype(fits[case['dtype'] % len(fits)]))
    if count[valid].min() != count[valid].max():
        raises((ValueError,), lambda: high_pass_filter(arg, d), 'irregular mask')
        ctx.label('irregular mask refused')
        return
    n = int(count[valid][0])
    # an image may also be given as a list of its rows
    rows = not masked and case['seed'] % 5 == 0
    r = high_pass_filter(list(arg) if rows else arg, d)
    require(float(r['multiplicator']) == n, 'multiplier %r, expected %d', r['multiplicator'], n)
    out = r['img']
    require(out.shape == centre.shape, 'shape %s, expected %s', out.shape, centre.shape)
    require(np.asarray(np.ma.getdata(out)).dtype.kind in 'iu', 'result is not integer: %s', out.dtype)
    same(np.ma.getmaskarray(out), inner, 'mask of the result')
    got = np.ma.getdata(out)
    same(got[valid], (n * centre - total)[valid], 'filtered pixels')
    require(np.array_equal(np.ma.getdata(arg), a) and np.array_equal(np.ma.getmaskarray(arg), mask), 'input changed')
    # relations
    val = lambda x: np.ma.getdata(high_pass_filter(make(x), d)['img'])[valid]
    same(val(a + case['c']), got[valid], 'constant %d added' % case['c'])
    b = image(case['seed'] + 7, case['h'], case['w'], case['lo'], case['hi'])
    same(val(3 * a - 2 * b), 3 * got[valid] - 2 * val(b), 'linear combination')
    require(not val(np.full_like(a, case['c'])).any(), 'constant image does not vanish')
    if masked:
        hidden = np.where(mask, b * 5 + 1, a)
        same(val(hidden), got[valid], 'values under the mask matter')
    ctx.label(str(arg.dtype), 'rows' if rows else 'array', case['mask'], 'size %d' % d, 'n=%d' % n if masked else 'plain')
    if n < 2 or case['lo'] == case['hi']:
        ctx.trivial()


@st.composite
def cases(draw):
    d = draw(st.sampled_from([1, 3, 5, 5, 7, 9]))
    h, w = draw(st.integers(d, d + 16)), draw(st.integers(d, d + 16))
    if draw(st.integers(0, 9)) == 0:
        h, w = draw(st.integers(d, 130)), draw(st.integers(d, 130))
    lo = draw(st.one_of(st.integers(-10 ** 6, 10 ** 6), st.integers(0, 9), st.sampled_from([0, -128])))
    c = {'d': d, 'h': h, 'w': w, 'seed': draw(gen.seeds()), 'lo': lo,
         'hi': lo + draw(st.one_of(st.integers(0, 5), st.integers(0, 250), st.integers(0, 65000), st.integers(0, 10 ** 6))), 'dtype': draw(st.integers(0, 7)), 'c': draw(st.integers(-10 ** 6, 10 ** 6)),
         'mask': draw(st.sampled_from(['none', 'none', 'periodic', 'periodic', 'random'])),
         'even': draw(st.sampled_from([0, 0, 2, 4, 6]))}
    if c['mask'] == 'periodic':
        kind = draw(st.integers(0, 3))
        if kind == 0:
            # one colour of a Bayer-like pattern with period 2
            cell = [[1, 1], [1, 1]]
            cell[draw(st.integers(0, 1))][draw(st.integers(0, 1))] = 0
        elif kind == 1:
            cell = [[0, 1], [1, 0]] if draw(st.booleans()) else [[1, 0], [0, 1]]
        else:
            ph, pw = draw(st.integers(1, 5)), draw(st.integers(1, 5))
            cell = [[draw(st.integers(0, 1)) for _ in range(pw)] for _ in range(ph)]
        c['cell'] = cell
    elif c['mask'] == 'random':
        c['dens'] = draw(st.sampled_from([0.02, 0.2, 0.8]))
    return c


SUBS = [Sub('filter', lambda tier: cases(), check, 6000, 150000,
            'an integer image, filter size 1..9, no mask, a periodic mask (single colours, checkerboards, arbitrary cells) '
            'or a random one, against sums over shifted copies; plus added constants, linear combinations, changed masked '
            'values, even sizes; non-trivial with two or more averaged pixels and a varying image')]
