"""C01: exact reduction of image stacks."""
import numpy as np
from hypothesis import strategies as st

from emva1288.process import routines
from .. import gen
from ..core import Sub, require, same, close


def exact(imgs):
    """Sum and pseudo-variance with Python integers (no fixed width anywhere)."""
    n = len(imgs)
    a = [i.astype(object) for i in imgs]
    s = a[0] * 0
    q = a[0] * 0
    for x in a:
        s = s + x
        q = q + x * x
    return s, n * (n * q - s * s)


def check_result(imgs, r, what):
    require(set(r) >= {'L', 'sum', 'pvar', 'dmean'}, '%s: keys %s', what, sorted(r))
    require(int(r['L']) == len(imgs), '%s: L=%s for %d images', what, r['L'], len(imgs))
    s, pv = exact(imgs)
    for k, want in (('sum', s), ('pvar', pv)):
        g = np.asarray(r[k])
        require(g.dtype.kind in 'iu', '%s: %s has dtype %s', what, k, g.dtype)
        require(g.shape == want.shape, '%s: %s shape %s expected %s', what, k, g.shape, want.shape)
        bad = np.argwhere(g.astype(object) != want)
        require(len(bad) == 0, '%s: %s wrong at %s: got %s expected %s', what, k,
                bad[0] if len(bad) else '', g[tuple(bad[0])] if len(bad) else '',
                want[tuple(bad[0])] if len(bad) else '')
    # exact mean difference, computed from integer totals
    tot = lambda x: int(x.astype(object).sum())
    want = (tot(imgs[-1]) - tot(imgs[0])) / imgs[0].size
    big = max(abs(tot(i)) / i.size for i in imgs)
    close(r['dmean'], want, what + ': dmean', rtol=1e-9, atol=1e-13 * (1 + big) * len(imgs))


def check_stack(case, ctx):
    imgs = gen.build_stack(case['stack'])
    shape = imgs[0].shape
    if case['view'] == 'flat':
        imgs = [i.ravel() for i in imgs]
    elif case['view'] == 'cube':
        imgs = [np.stack([i, i[::-1]], axis=-1) for i in imgs]
    elif case['view'] == 'strided':
        imgs = [np.repeat(np.repeat(i, 2, 0), 2, 1)[::2, ::2] for i in imgs]
    elif case['view'] == 'fortran':
        imgs = [np.asfortranarray(i) for i in imgs]
    elif case['view'] == 'readonly':
        for i in imgs:
            i.setflags(write=False)
    copies = [i.copy() for i in imgs]
    r = routines.get_int_imgs(tuple(imgs) if case['tuple'] else imgs)
    check_result(copies, r, 'stack')
    for n, (a, b) in enumerate(zip(imgs, copies)):
        require(a.dtype == b.dtype, 'image %d changed dtype', n)
        same(a, b, 'input image %d after the reduction' % n)
    # any order gives the same integers
    if len(imgs) > 1:
        order = np.random.default_rng(case['perm']).permutation(len(imgs))
        r2 = routines.get_int_imgs([imgs[i] for i in order])
        same(r2['sum'], r['sum'], 'sum after reordering')
        same(r2['pvar'], r['pvar'], 'pvar after reordering')
        check_result([copies[i] for i in order], r2, 'reordered stack')
    L = len(imgs)
    ctx.label('L=1' if L == 1 else 'L=2' if L == 2 else 'L<=16' if L <= 16 else 'L<=64' if L <= 64 else 'L>64')
    ctx.label('dtype ' + case['stack']['dtype'], 'view ' + case['view'])
    if max(shape) > 256:
        ctx.label('wide >256')
    if L == 1 or all(np.array_equal(imgs[0], i) for i in imgs):
        ctx.trivial()


@st.composite
def stacks(draw, thorough=False):
    if draw(st.booleans()):
        s = draw(gen.stack(max_l=400, max_dim=600 if thorough else 400, max_pixels=30000, dtypes=('uint8', 'uint16')))
    else:
        s = draw(gen.stack(max_l=90, max_dim=40, max_pixels=20000, dtypes=tuple(gen.DTYPES)))
    return {'stack': s, 'view': draw(st.sampled_from(['plain', 'plain', 'flat', 'cube', 'strided', 'fortran',
                                                      'readonly'])),
            'tuple': draw(st.booleans()), 'perm': draw(gen.seeds())}


def check_masked(case, ctx):
    imgs = gen.build_stack(case['stack'])
    rng = np.random.default_rng(case['mseed'])
    mask = rng.random(imgs[0].shape) < case['p']
    mask[0, 0] = False
    m = [np.ma.masked_array(i, mask=mask.copy()) for i in imgs]
    r = routines.get_int_imgs(m)
    s, pv = exact(imgs)
    require(r['L'] == len(imgs), 'masked: L')
    for k, want in (('sum', s), ('pvar', pv)):
        require(isinstance(r[k], np.ma.MaskedArray), 'masked: %s lost its mask', k)
        same(np.ma.getmaskarray(r[k]), mask, 'masked: mask of ' + k)
        require((np.ma.getdata(r[k])[~mask].astype(object) == want[~mask]).all(), 'masked: %s wrong', k)
    tot = [int(i[~mask].astype(object).sum()) / int((~mask).sum()) for i in imgs]
    close(r['dmean'], tot[-1] - tot[0], 'masked: dmean', rtol=1e-9, atol=1e-13 * (1 + max(map(abs, tot))) * len(imgs))
    ctx.label('masked fraction %.1f' % mask.mean())
    if not mask.any() or len(imgs) < 2:
        ctx.trivial()


@st.composite
def masked(draw):
    return {'stack': draw(gen.stack(max_l=20, max_dim=24, max_pixels=8000, dtypes=('uint8', 'uint16'))),
            'mseed': draw(gen.seeds()), 'p': draw(st.sampled_from([0.1, 0.5, 0.75, 0.95]))}


WIDE = {'int32': (-2 ** 31, 2 ** 31 - 1), 'uint32': (0, 2 ** 32 - 1), 'int64': (-2 ** 62, 2 ** 62), 'uint64': (0, 2 ** 62)}


def check_wide(case, ctx):
    """Pixel values near the limits of 32- and 64-bit types, as long as the results fit 64 bits."""
    lo, hi = WIDE[case['dtype']]
    L = case['L']
    rng = np.random.default_rng(case['seed'])
    if case['dtype'].endswith('64'):
        lo, hi = lo // L, hi // L
    # L * (L sum x^2 - (sum x)^2) <= L^3 span^2 / 4
    span = min(int(2 ** case['e']), int(2 * np.sqrt(2 ** 61 / L ** 3)), hi - lo)
    base = min(lo + int(case['at'] * (hi - lo - span)), hi - span)
    imgs = [np.array([[base + int(v) for v in row] for row in rng.integers(0, span + 1, (case['h'], case['w']))], dtype=object)
            .astype(case['dtype']) for _ in range(L)]
    copies = [i.copy() for i in imgs]
    r = routines.get_int_imgs(imgs)
    check_result(copies, r, 'wide')
    for a, b in zip(imgs, copies):
        same(a, b, 'input image')
    ctx.label(case['dtype'], 'sum of %d bits' % (8 * (int(max(1, L * max(abs(base), abs(base + span)))).bit_length() // 8)))
    if span == 0 or L == 1:
        ctx.trivial()


def check_big(case, ctx):
    """Frames of millions of pixels and stacks of thousands of images."""
    rng = np.random.default_rng(case['seed'])
    top = 2 ** case['bits']
    store = [rng.integers(0, top, (case['h'], case['w']), dtype='uint16' if top > 256 else 'uint8') for _ in range(min(case['L'], 5))]
    order = rng.integers(0, len(store), case['L'])
    r = routines.get_int_imgs([store[k] for k in order])
    n = case['L']
    count = np.bincount(order, minlength=len(store))
    s = sum(int(c) * x.astype(np.int64) for c, x in zip(count, store))
    q = sum(int(c) * x.astype(np.int64) ** 2 for c, x in zip(count, store))
    same(np.asarray(r['sum'], dtype=np.int64), s, 'big: sum')
    same(np.asarray(r['pvar'], dtype=np.int64), n * (n * q - s * s), 'big: pvar')
    require(int(r['L']) == n, 'big: L %s', r['L'])
    close(r['dmean'], (int(store[order[-1]].sum(dtype=np.int64)) - int(store[order[0]].sum(dtype=np.int64))) / store[0].size,
          'big: dmean', rtol=1e-9, atol=1e-10 * top * n)
    ctx.label('pixels %.0e' % store[0].size, 'images > 1000' if n > 1000 else 'images > 256' if n > 256 else 'images <= 256')


@st.composite
def big(draw):
    if draw(st.booleans()):
        return {'h': draw(st.integers(200, 1700)), 'w': draw(st.integers(200, 1700)), 'L': draw(st.integers(2, 4)),
                'bits': draw(st.sampled_from([8, 10, 16])), 'seed': draw(gen.seeds())}
    return {'h': draw(st.integers(1, 9)), 'w': draw(st.integers(1, 9)), 'L': draw(st.integers(257, 5000)),
            'bits': draw(st.sampled_from([8, 10])), 'seed': draw(gen.seeds())}


SUBS = [
    Sub('wide', lambda tier: st.fixed_dictionaries({
        'dtype': st.sampled_from(sorted(WIDE)), 'L': st.integers(1, 12), 'h': st.integers(1, 4), 'w': st.integers(1, 4),
        'e': st.integers(0, 31), 'at': st.floats(0, 1), 'seed': gen.seeds()}), check_wide, 600, 15000,
        'stacks of 32- and 64-bit pixels anywhere in the range of their type whose sum and pseudo-variance fit 64 bits, against '
        'unbounded integers; non-trivial with differing images'),
    Sub('big', lambda tier: big(), check_big, 60, 800,
        'two to four frames of up to 1700x1700 pixels, or 257..5000 small frames, against exact 64-bit sums'),
    Sub('stack', lambda tier: stacks(tier == 'thorough'), check_stack, 1200, 20000,
        'a stack of 1..400 images of any integer dtype and layout, reduced and compared element by element with '
        'unbounded-integer arithmetic, in given and permuted order; non-trivial if it has >=2 images that differ'),
    Sub('masked', lambda tier: masked(), check_masked, 400, 6000,
        'a masked stack (one shared mask); non-trivial if something is masked and L>=2'),
]
