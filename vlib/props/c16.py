"""C16: spectrograms."""
import numpy as np
from hypothesis import strategies as st

from emva1288.process.routines import FFT1288, GetFrecs
from .. import gen
from ..core import Sub, require, same, close


def image(case):
    rng = np.random.default_rng(case['seed'])
    h, w = case['h'], case['w']
    k = case['style']
    y, x = np.mgrid[0:h, 0:w]
    if k == 'noise':
        a = rng.integers(-1000, 65536, (h, w))
    elif k == 'float':
        a = rng.standard_normal((h, w)) * 100 + 17
    elif k == 'cols':
        a = rng.integers(0, 255, (1, w)) + 0 * y
    elif k == 'rows':
        a = rng.integers(0, 255, (h, 1)) + 0 * x
    elif k == 'mixed':
        a = np.round(100 * np.sin(2 * np.pi * (0.3 * x + 0.11 * y)) + 5 * rng.standard_normal((h, w))).astype(int)
    else:
        a = np.full((h, w), 7)
    return a


def compress(rows, mask):
    """Valid pixels of each line; empty lines dropped, all cut to the shortest."""
    lines = [[v for v, m in zip(r, mr) if not m] for r, mr in zip(rows.tolist(), mask.tolist())]
    lines = [l for l in lines if l]
    n = min(len(l) for l in lines)
    return np.array([l[:n] for l in lines], dtype=np.float64)


def spectrum(a, n):
    """Averaged power spectrum of the lines by an explicit Fourier sum."""
    a = np.asarray(a, np.float64)
    a = a - a.mean()
    w = a.shape[1]
    k = np.arange(w // 2 + 1)
    ang = 2 * np.pi * np.outer(k, np.arange(w)) / w
    re, im = np.cos(ang) @ a.T, np.sin(ang) @ a.T
    return ((re ** 2 + im ** 2) / w).mean(axis=1) / n ** 2


def full(s, w):
    """Sum over all frequencies, the negative ones included."""
    return s[0] + 2 * s[1:].sum() - (s[-1] if w % 2 == 0 and len(s) > 1 else 0)


def check_spectrum(case, ctx):
    a = image(case)
    rng = np.random.default_rng(case['seed'] + 3)
    mask = np.zeros(a.shape, bool)
    if case['mask'] == 'bayer':
        mask[:] = True
        mask[case['n'] % 2::2, case['h'] % 2::2] = False
    elif case['mask'] == 'random':
        mask = rng.random(a.shape) < 0.4
    elif case['mask'] == 'lines':
        mask = rng.random(a.shape) < 0.1
        mask[rng.random(a.shape[0]) < 0.4, :] = True
    if mask.all():
        mask[0, 0] = False
    arg = np.ma.masked_array(a.copy(), mask.copy()) if case['mask'] else a.copy()
    n = case['n']
    for rotate in (False, True):
        b, m = (a.T, mask.T) if rotate else (a, mask)
        ref = compress(b, m) if case['mask'] else b
        want = spectrum(ref, n)
        got = FFT1288(arg, rotate=rotate, n=n)
        what = 'columns' if rotate else 'rows'
        top = float(want.max()) + 1e-9 * float(np.square(ref - ref.mean()).sum()) / n ** 2 + 1e-12
        close(got, want, what, rtol=1e-7, atol=1e-9 * top + 1e-15 * float(np.square(ref).max()) * ref.shape[1])
        w = ref.shape[1]
        var = float(np.var(ref)) / n ** 2
        close(full(got, w) / w, var, what + ': integral', rtol=1e-7, atol=1e-15 * float(np.square(ref).max()))
        f = GetFrecs(got)
        require(len(f) == len(got) == w // 2 + 1, '%s: %d frequencies for %d values of width %d', what, len(f), len(got), w)
        require(f[0] == 0, 'axis starts at %r', f[0])
        if len(f) > 1:
            require(abs(f[-1] - 0.5) < 1e-12, '%s: axis ends at %r', what, f[-1])
            close(np.diff(f), np.full(len(f) - 1, 0.5 / (len(f) - 1)), 'equal steps', rtol=1e-9)
        close(FFT1288(arg, rotate=rotate), got * n * n, what + ': single image', rtol=1e-9, atol=1e-12)
        plain = FFT1288(arg.T.copy(), rotate=not rotate, n=n)
        close(plain, got, 'transposed image', rtol=1e-7, atol=1e-9 * top + 1e-15 * float(np.square(ref).max()) * w)
    require(np.array_equal(np.ma.getdata(arg), a) and np.array_equal(np.ma.getmaskarray(arg), mask), 'image changed')
    ctx.label(case['style'], case['mask'] or 'plain', 'even' if case['w'] % 2 == 0 else 'odd')
    if a.size < 4 or np.ptp(a) == 0:
        ctx.trivial()


@st.composite
def spectrum_cases(draw):
    big = draw(st.sampled_from([48] * 19 + [400]))
    return {'h': draw(gen.dims(big)), 'w': draw(gen.dims(big)), 'seed': draw(gen.seeds()), 'n': draw(st.integers(1, 50)),
            'style': draw(st.sampled_from(['noise', 'noise', 'float', 'cols', 'rows', 'mixed', 'const'])),
            'mask': draw(st.sampled_from(['', '', '', 'bayer', 'random', 'lines']))}


def check_sine(case, ctx):
    w, h, amp = case['w'], case['h'], case['amp']
    k = 1 + case['k'] % (w // 2)
    x = np.arange(w)
    f = k / w
    wave = amp * np.cos(2 * np.pi * f * x + case['phase'])
    if k * 2 == w:
        wave = amp * np.cos(np.pi * x)
    img = np.tile(wave, (h, 1)) + 500.0
    if case['rotate']:
        img = img.T.copy()
    s = FFT1288(img * case['n'], rotate=case['rotate'], n=case['n'])
    axis = GetFrecs(s)
    peak = int(np.argmax(s))
    require(peak == k, 'wave of frequency %g peaks at line %d of the spectrum, expected %d', f, peak, k)
    half = 0.5 * 0.5 / max(len(s) - 1, 1)
    tol = 1e-12 if w % 2 == 0 else half
    require(abs(axis[peak] - f) <= tol + 1e-12, 'wave of frequency %g appears at %g', f, axis[peak])
    power = amp ** 2 / 4 * w if 2 * k != w else amp ** 2 * w
    close(s[k], power, 'power of the wave', rtol=1e-6)
    rest = np.delete(s, k)
    require(not len(rest) or rest.max() <= 1e-6 * power, 'power leaks to other frequencies: %s', rest)
    ctx.label('even' if w % 2 == 0 else 'odd', 'nyquist' if 2 * k == w else 'below', 'rotated' if case['rotate'] else 'rows')


@st.composite
def sine_cases(draw):
    return {'w': draw(st.one_of(st.integers(2, 200), st.integers(2, 1500))), 'h': draw(st.integers(1, 6)), 'k': draw(st.integers(0, 749)),
            'amp': draw(st.sampled_from([1.0, 20.0, 300.5])), 'phase': draw(st.floats(0, 6.28)),
            'rotate': draw(st.booleans()), 'n': draw(st.integers(1, 60))}


SUBS = [Sub('spectrum', lambda tier: spectrum_cases(), check_spectrum, 4000, 100000,
            'an image (integers or floats, even and odd sizes 1..48, some to 400, noise, row and column patterns, masks: one colour, '
            'random, whole lines) against an explicit Fourier sum over Python-compressed lines, Parseval, axis, stack '
            'factor and transposition; non-trivial when the image varies and has 4 pixels'),
        Sub('wave', lambda tier: sine_cases(), check_sine, 4000, 100000,
            'a cosine of an exact grid frequency, any width 2..1500, phase, orientation, stack factor: peak position, axis '
            'value and power; always non-trivial')]
