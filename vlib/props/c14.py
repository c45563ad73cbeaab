"""C14: defect-pixel histograms."""
import numpy as np
from hypothesis import strategies as st

from emva1288.process.data import Data1288
from emva1288.process.results import Results1288
from emva1288.process.routines import Histogram1288
from .. import dataset as D
from .. import gen
from .. import temporal as T
from ..core import Sub, require, same, close, short


def reference(values, qmax=256):
    """(first bin, width, number of bins, counts) of a flat integer list, by definition."""
    v = [int(x) for x in values]
    lo, rng = min(v), max(v) - min(v)
    width = 1
    while rng // width + 1 > qmax:
        # smallest integer width with at most qmax bins
        width = max(width + 1, rng // qmax)
    n = rng // width + 1
    counts = [0] * n
    for x in v:
        counts[(x - lo) // width] += 1
    return lo, width, n, counts


def check_hist(h, values, what, qmax=256, scale=1.0, shift=0.0, model=True):
    lo, width, n, counts = reference(values, qmax)
    bins = (lo + width * np.arange(n)) / scale - shift
    require(len(h['bins']) <= qmax, '%s: %d bins', what, len(h['bins']))
    got = np.asarray(h['bins'], float)
    require(got.shape == (n,), '%s: %d bins of width %s, expected %d of width %d', what, len(got),
            got[1] - got[0] if len(got) > 1 else '-', n, width)
    close(got, bins, what + ': bins', rtol=1e-12, atol=1e-9 * (abs(shift) + width / scale))
    same(np.asarray(h['values']).astype(np.int64), np.array(counts), what + ': counts')
    if model:
        check_model(h['model'], values, lo, width, n, what)


def check_model(model, values, lo, width, n, what):
    v = np.asarray(values, dtype=np.float64)
    mu, sigma = v.mean(), v.std()
    require(np.shape(model) == (n,), '%s: model of shape %s', what, np.shape(model))
    if sigma < 1e-9 * (1 + abs(mu)):
        return
    b = lo + width * np.arange(n)
    g = len(v) / (np.sqrt(2 * np.pi) * sigma) * np.exp(-0.5 * ((b - mu) / sigma) ** 2)
    # the area per bin is that of a bin (or of the range divided by the number of bins)
    k = g > 1e-200
    ratio = np.asarray(model, float)[k] / g[k]
    f = (v.max() - v.min()) / n
    require(np.all((ratio >= f * (1 - 1e-6)) & (ratio <= width * (1 + 1e-6))) and
            ratio.max() <= ratio.min() * (1 + 1e-6),
            '%s: model is %s times the Gaussian of mean %s and sigma %s, expected %s to %s', what, short(ratio), mu,
            sigma, f, width)


def image(case):
    rng = np.random.default_rng(case['seed'])
    shape = (case['h'], case['w'])
    lo, span = case['lo'], case['span']
    if case['style'] == 'uniform':
        a = rng.integers(lo, lo + span + 1, shape)
    elif case['style'] == 'gauss':
        a = np.clip(np.round(lo + span / 2 + span / 6 * rng.standard_normal(shape)), lo, lo + span).astype(np.int64)
    else:
        a = np.where(rng.random(shape) < 0.7, lo, lo + span)
    a = a.astype(np.int64)
    # the drawn range is the real one
    a.flat[rng.integers(a.size)] = lo
    a.flat[rng.integers(a.size)] = lo + span
    # a pixel type that holds all values
    fits = [d for d in gen.ALL_TYPES if np.iinfo(d).min <= lo and lo + span <= np.iinfo(d).max]
    a = a.astype(fits[case['dtype'] % len(fits)])
    if case['mask']:
        m = rng.random(shape) < case['mask']
        m.flat[rng.integers(m.size)] = False
        a = np.ma.masked_array(a, m)
    return a


def check_function(case, ctx):
    a = image(case)
    before = np.array(np.ma.getdata(a))
    h = Histogram1288(a, case['qmax'])
    v = np.ma.compressed(a)
    check_hist(h, v, 'histogram', case['qmax'])
    require(int(np.sum(h['values'])) == v.size, 'counts %d pixels of %d', np.sum(h['values']), v.size)
    require(np.array_equal(before, np.ma.getdata(a)), 'image changed')
    r = int(v.max()) - int(v.min()) + 1
    ctx.label(str(a.dtype), 'masked' if case['mask'] else 'plain', 'one value' if r == 1 else 'up to Q' if r <= case['qmax'] else
              'boundary width' if (r - 1) % case['qmax'] in (0, case['qmax'] - 1) else 'wider bins',
              'negative' if v.min() < 0 else 'positive')
    if v.size < 2:
        ctx.trivial()


@st.composite
def function_cases(draw):
    qmax = draw(st.sampled_from([256] * 6 + [2, 3, 10, 100, 1000]))
    k = draw(st.integers(0, 4))
    if k == 0:
        span = draw(st.integers(0, 300))
    elif k == 1:
        span = max(0, qmax * draw(st.integers(1, 400)) + draw(st.integers(-2, 1)))
    elif k == 2:
        span = draw(st.integers(0, 10 ** 7))
    elif k == 3:
        span = draw(st.integers(250, 1100))
    else:
        span = draw(st.integers(10 ** 7, 10 ** 12))
    return {'h': draw(gen.dims(40)), 'w': draw(gen.dims(40)), 'seed': draw(gen.seeds()), 'span': span,
            'lo': draw(st.sampled_from([0, 0, 1, -1, 1000, -5000, 123456789, -((span + 1) // 2), -span])), 'qmax': qmax,
            'dtype': draw(st.integers(0, 7)),
            'style': draw(st.sampled_from(['uniform', 'gauss', 'two'])), 'mask': draw(st.sampled_from([0, 0, 0.3, 0.75]))}


def highpass(a, mask, d):
    """(values of the valid inner pixels, number of pixels averaged) by shifting and adding."""
    s = d // 2
    a = np.where(mask, 0, a)
    h, w = a.shape
    total = np.zeros((h - 2 * s, w - 2 * s), np.int64)
    count = np.zeros_like(total)
    for i in range(d):
        for j in range(d):
            total += a[i:h - d + 1 + i, j:w - d + 1 + j]
            count += ~mask[i:h - d + 1 + i, j:w - d + 1 + j]
    inner = ~mask[s:h - s, s:w - s]
    n = int(count[inner][0])
    return (n * a[s:h - s, s:w - s] - total)[inner], n


def accumulated(h, y, scale, what):
    """Percent of pixels at or above each bin of |y - int(mean)|."""
    dev = np.abs(y - int(np.mean(y)))
    lo, width, n, counts = reference(dev)
    got = np.asarray(h['values'], float)
    want = np.array([100.0 * np.count_nonzero(dev >= lo + width * i) / dev.size for i in range(n)])
    close(h['bins'], (lo + width * np.arange(n)) / scale, what + ': bins', rtol=1e-12, atol=1e-12)
    close(got, want, what + ': percentages', rtol=1e-12)
    require(got[0] == 100.0 and (np.diff(got) <= 0).all(), '%s: %s does not fall from 100', what, short(got))
    check_model(h['model'], dev, lo, width, n, what)


def check_results(case, ctx):
    dark, bright = gen.build_stack(case['dark']), gen.build_stack(case['bright'])
    h = min(dark[0].shape[0], bright[0].shape[0])
    w = min(dark[0].shape[1], bright[0].shape[1])
    dark = [i[:h, :w] for i in dark]
    bright = [i[:h, :w] for i in bright]
    z = [np.zeros((h, w), int), np.ones((h, w), int)]
    loaded = D.loader_dict({'temporal': {7.0: {0.0: z, 3.0: z}}, 'spatial': {9.0: {0.0: dark, 50.0: bright}}})
    data = Data1288(loaded).data
    mask = np.zeros((h, w), bool)
    if case['bayer']:
        # one colour of a regular filter pattern
        mask[:] = True
        mask[case['bayer'][0]::2, case['bayer'][1]::2] = False
        for k in ('sum', 'sum_dark'):
            data['spatial'][k] = np.ma.masked_array(data['spatial'][k], mask)
    r = Results1288(data)
    B, Dk = np.sum(bright, axis=0, dtype=np.int64), np.sum(dark, axis=0, dtype=np.int64)
    L, Ld = len(bright), len(dark)
    dv = Dk[~mask]
    check_hist(r.histogram_DSNU, dv, 'DSNU', scale=Ld, shift=float(dv.mean()) / Ld)
    accumulated(r.histogram_DSNU_accumulated, dv, Ld, 'accumulated DSNU')
    ctx.label('bayer' if case['bayer'] else 'mono', 'dark range %s' % ('wide' if np.ptp(dv) > 255 else 'narrow'))
    if min(h, w) > 6:
        m = int(np.lcm(L, Ld))         # smallest scale that keeps the averaged difference integer
        y, n = highpass(B * (m // L) - Dk * (m // Ld), mask, 5)
        check_hist(r.histogram_PRNU, y, 'PRNU', scale=m * n)
        accumulated(r.histogram_PRNU_accumulated, y, m * n, 'accumulated PRNU')
        ctx.label('bright range %s' % ('wide' if np.ptp(y) > 255 else 'narrow'), 'same length' if L == Ld else 'other length')
    else:
        ctx.label('dark only')
    if np.ptp(dv) == 0:
        ctx.trivial()


@st.composite
def result_cases(draw):
    a = draw(gen.stack(min_l=2, max_l=12, max_dim=32, min_dim=7, max_pixels=15000))
    eq = draw(st.sampled_from([True, True, True, False]))
    b = draw(gen.stack(min_l=2, max_l=12, max_dim=32, min_dim=7, max_pixels=15000, dtypes=(a['dtype'],),
                       lengths=st.just(a['L']) if eq else None))
    return {'dark': a, 'bright': b,
            'bayer': draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 1), st.integers(0, 1)).map(list)))}


SUBS = [Sub('histogram', lambda tier: function_cases(), check_function, 4000, 120000,
            'an integer image (range 0..10^12 with sizes around every bin-width boundary, negative, masked or plain, '
            'several bin limits) counted pixel by pixel; non-trivial with two or more pixels'),
        Sub('results', lambda tier: result_cases(), check_results, 1500, 40000,
            'dark and bright stacks, monochrome or one colour of a Bayer pattern: the four histogram results recomputed '
            'from raw images; non-trivial with a varying dark image')]
