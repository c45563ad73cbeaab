"""Data-set descriptions: measuring points with image stacks, their files, and exact reference statistics."""
import contextlib
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st
from PIL import Image

from . import gen

FORMATS8 = ['png', 'tif', 'bmp', 'rgb.png', 'rgba.png', 'la.png', 'rgb.tif']
FORMATS16 = ['png', 'tif']


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp()
    try:
        yield d
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_image(path, img, fmt='png'):
    """Save an image losslessly; multi-band files get decoy values in the other bands."""
    img = np.asarray(img)
    kind, _, ext = fmt.rpartition('.')
    if kind:
        n = {'rgb': 3, 'rgba': 4, 'la': 2}[kind]
        decoys = [np.roll(255 - img, k + 1) for k in range(n - 1)]
        im = Image.fromarray(np.stack([img] + decoys, axis=-1))
    else:
        im = Image.fromarray(img)
    im.save(path)


@st.composite
def value(draw, lo=1, hi=10 ** 9):
    """Exposure times and photon counts: mixed magnitudes and fractional parts."""
    k = draw(st.integers(0, 2))
    if k == 0:
        return float(draw(st.integers(lo, min(hi, lo + 40))))
    if k == 1:
        return float(draw(st.integers(lo, hi)))
    return round(draw(st.floats(lo, hi, allow_nan=False)), 3)


@st.composite
def points(draw, max_exposures=4, max_bright=4, min_exposures=1):
    """Dict-like list [(exposure, [bright photon counts])] in drawn (unsorted) order."""
    exps = draw(st.lists(value(), min_size=min_exposures, max_size=max_exposures, unique=True))
    return [[e, draw(st.lists(value(), min_size=1, max_size=max_bright, unique=True))] for e in exps]


@st.composite
def datasets(draw, max_dim=12, max_exposures=4, max_bright=4, max_l=12, bits=None, min_dim=1, min_l=3, max_spatial=1,
             equal_l=False):
    """A complete data set: temporal pairs plus spatial stacks, every stack with its own style and seed."""
    bits = bits or draw(st.sampled_from([8, 16]))
    dt = 'uint8' if bits == 8 else 'uint16'
    hi = 255 if bits == 8 else draw(st.sampled_from([1023, 4095, 65535]))
    h, w = draw(st.integers(min_dim, max_dim)), draw(st.integers(min_dim, max_dim))
    seed = draw(gen.seeds())
    styles = draw(st.lists(st.sampled_from(gen.STYLES), min_size=1, max_size=4))
    temporal = []
    k = 0
    for e, phs in draw(points(max_exposures, max_bright)):
        for p in draw(st.permutations([0.0] + phs)):
            temporal.append([e, p, k])
            k += 1
    if draw(st.booleans()):
        temporal = draw(st.permutations(temporal))
    spatial = []
    for e in draw(st.lists(value(), min_size=1, max_size=max_spatial, unique=True)):
        phs = draw(st.lists(value(), min_size=1, max_size=1 if max_spatial == 1 else 3, unique=True))
        n = draw(st.integers(min_l, max_l))
        for p in draw(st.permutations([0.0] + phs)):
            spatial.append([e, p, k, n if equal_l else draw(st.integers(min_l, max_l))])
            k += 1
    return {'h': h, 'w': w, 'bits': bits, 'dtype': dt, 'hi': hi, 'seed': seed, 'styles': styles,
            'temporal': temporal, 'spatial': spatial}


def images_of(ds):
    """{'temporal'|'spatial': {exposure: {photons: [images]}}}, in the described order."""
    out = {'temporal': {}, 'spatial': {}}
    for kind in out:
        for pt in ds[kind]:
            e, p, k = pt[:3]
            n = 2 if kind == 'temporal' else pt[3]
            rng = np.random.default_rng([ds['seed'], k])
            a, b = sorted(int(x) for x in rng.integers(0, ds['hi'] + 1, 2))
            if rng.random() < 0.3:
                b = min(ds['hi'], a + int(rng.integers(0, 9)))
            spec = {'h': ds['h'], 'w': ds['w'], 'L': n, 'dtype': ds['dtype'], 'lo': a, 'hi': b,
                    'style': ds['styles'][k % len(ds['styles'])], 'seed': int(rng.integers(0, 2 ** 31))}
            out[kind].setdefault(e, {})[p] = gen.build_stack(spec)
    return out


def write_files(images, folder, fmts, prefix='im', layout='flat'):
    """Write every image; returns the same structure holding names relative to folder.

    layout: 'flat' in one folder, 'folders' one folder per image and all files of the same name,
    'plain' names without an extension.
    """
    out, k = {}, 0
    for kind, part in images.items():
        out[kind] = {}
        for e, d in part.items():
            for p, imgs in d.items():
                names = []
                for img in imgs:
                    fmt = fmts[k % len(fmts)]
                    name = '%s%d.%s' % (prefix, k, fmt)
                    if layout == 'folders':
                        os.makedirs(os.path.join(folder, '%s%d' % (prefix, k)))
                        name = os.path.join('%s%d' % (prefix, k), 'image.%s' % fmt)
                    write_image(os.path.join(folder, name), img, fmt)
                    if layout == 'plain':
                        os.rename(os.path.join(folder, name), os.path.join(folder, '%s%d' % (prefix, k)))
                        name = '%s%d' % (prefix, k)
                    names.append(name)
                    k += 1
                out[kind].setdefault(e, {})[p] = names
    return out


def with_base(names, base):
    return {kind: {e: {p: [os.path.join(base, n) for n in ns] for p, ns in d.items()} for e, d in part.items()}
            for kind, part in names.items()}


def loader_dict(images):
    """The loader's output for these images, computed independently with exact integers."""
    out = {'temporal': {}, 'spatial': {}}
    for kind, part in images.items():
        for e, d in part.items():
            for p, imgs in d.items():
                a = np.stack(imgs).astype(np.int64)
                n = len(imgs)
                s = a.sum(axis=0)
                pv = n * (n * (a * a).sum(axis=0) - s * s)
                dm = a[-1].mean() - a[0].mean()
                if kind == 'temporal':
                    v = {'sum': int(s.sum()), 'pvar': int(pv.sum()), 'dmean': dm}
                else:
                    v = {'L': n, 'sum': s, 'pvar': pv, 'dmean': dm}
                out[kind].setdefault(e, {})[p] = v
    some = next(iter(next(iter(next(iter(x for x in images.values() if x)).values())).values()))[0]
    out['height'], out['width'] = some.shape[:2]
    return out


def pair_stats(pair):
    """Exact EMVA pair statistics: mean, temporal variance."""
    a, b = (x.astype(object) for x in pair)
    n = a.size
    mean = int((a + b).sum()) / (2 * n)
    d = a - b
    s1, s2 = int(d.sum()), int((d * d).sum())
    # var = (sum d^2)/(2n) - (sum d / n)^2 / 2, as one exact fraction
    var = (s2 * n - s1 * s1) / (2 * n * n)
    return mean, var


def temporal_reference(images):
    t = images['temporal']
    exps = sorted(t)
    r = {'texp': list(exps), 'u_p': [], 'u_y': [], 's2_y': [], 'u_ydark': [], 's2_ydark': []}
    for e in exps:
        m, v = pair_stats(t[e][0.0])
        r['u_ydark'].append(m)
        r['s2_ydark'].append(v)
        for p in sorted(t[e]):
            if p == 0.0:
                continue
            m, v = pair_stats(t[e][p])
            r['u_p'].append(p)
            r['u_y'].append(m)
            r['s2_y'].append(v)
    if len(exps) == 1:
        for k in ('texp', 'u_ydark', 's2_ydark'):
            r[k] = r[k] * len(r['u_p'])
    return {k: np.array(v, dtype=float) for k, v in r.items()}


def spatial_reference(images):
    """Spatial statistics of the single exposure, by two-pass formulas on the raw stacks."""
    (e, d), = images['spatial'].items()
    (bp,) = [p for p in d if p != 0.0]
    r = {'texp': e, 'u_p': bp}
    for p, post in ((0.0, '_dark'), (bp, '')):
        a = np.stack(d[p]).astype(np.int64)
        L, M, N = a.shape
        s = a.sum(axis=0)
        avg = s / L
        vm = float(np.mean(np.var(a.astype(np.float64), axis=0, ddof=1)))
        r.update({'sum' + post: s, 'L' + post: L, 'M' + post: M, 'N' + post: N,
                  'avg_mean' + post: int(s.sum()) / (L * M * N),
                  'avg_var' + post: float(np.var(avg, ddof=1)) if M * N > 1 else float('nan'),
                  'var_mean' + post: vm,
                  'avg_var_cav' + post: float(np.var(s.sum(axis=0) / (L * M))) - vm / (L * M),
                  'avg_var_rav' + post: float(np.var(s.sum(axis=1) / (L * N))) - vm / (L * N)})
    return r


def write_descriptor(path, names, ds, order=None, spell=repr, version='4.0'):
    """Descriptor file for already written images (relative names, backslash separated)."""
    blocks = []
    for kind in ('temporal', 'spatial'):
        for e, d in names[kind].items():
            for p, ns in d.items():
                head = 'd %s' % spell(e) if p == 0.0 else 'b %s %s' % (spell(e), spell(p))
                blocks.append([head] + ['i ' + n.replace('/', '\\') for n in ns])
    if order is not None:
        blocks = [blocks[i] for i in np.random.default_rng(order).permutation(len(blocks))]
    lines = ['v ' + version, 'n %d %d %d' % (ds['bits'], ds['w'], ds['h'])]
    for b in blocks:
        lines += b
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')
    return path
