"""C04: pixel values travel unchanged from image files into the data."""
import os

import numpy as np
from hypothesis import strategies as st

from emva1288.process.loader import LoadImageData
from emva1288.process import routines
from .. import dataset as D
from .. import gen
from ..core import Sub, require, same, close


def compare(got, want, what='loaded', atol=1e-8):
    require(set(got) == {'temporal', 'spatial', 'height', 'width'}, '%s keys %s', what, sorted(got))
    require(got['height'] == want['height'] and got['width'] == want['width'], '%s: %sx%s expected %sx%s', what,
            got['height'], got['width'], want['height'], want['width'])
    for kind in ('temporal', 'spatial'):
        require(set(got[kind]) == set(want[kind]), '%s: %s exposures %s', what, kind, sorted(got[kind]))
        for e, d in want[kind].items():
            require(set(got[kind][e]) == set(d), '%s: %s photons %s at %s', what, kind, sorted(got[kind][e]), e)
            for p, v in d.items():
                g = got[kind][e][p]
                where = '%s %s (%s, %s)' % (what, kind, e, p)
                require(set(g) == set(v), '%s: keys %s expected %s', where, sorted(g), sorted(v))
                for k in v:
                    if k == 'dmean':
                        close(g[k], v[k], where + ' dmean', rtol=1e-9, atol=atol)
                    else:
                        same(g[k], v[k], where + ' ' + k)


def reader(filename, gain=1, *more, offset=0, transpose=False):
    a = np.load(filename)
    a = a.astype(np.int64) * gain + offset + sum(more)
    return a.T if transpose else a


def check(case, ctx):
    ds = case['ds']
    images = D.images_of(ds)
    with D.scratch() as tmp:
        folder = os.path.join(tmp, 'sub', 'images')
        os.makedirs(folder)
        how = case['how']
        if how == 'custom':
            args, kw = case['args'], case['kw']
            names, k = {}, 0
            for kind, part in images.items():
                names[kind] = {}
                for e, d in part.items():
                    for p, imgs in d.items():
                        ns = []
                        for im in imgs:
                            np.save(os.path.join(folder, 'a%d.npy' % k), im)
                            ns.append('a%d.npy' % k)
                            k += 1
                        names[kind].setdefault(e, {})[p] = ns
                        d[p] = [reader(os.path.join(folder, n), *args, **kw) for n in ns]
            data = LoadImageData(names, path=folder, fload=reader, fload_args=args, fload_kwargs=kw).data
        else:
            fmts = case['fmts8'] if ds['bits'] == 8 else case['fmts16']
            names = D.write_files(images, folder, fmts, layout=case['layout'])
            if how == 'path':
                data = LoadImageData(D.with_base(names, 'images'), path=os.path.join(tmp, 'sub')).data
            elif how == 'cwd':
                old = os.getcwd()
                os.chdir(tmp)
                try:
                    data = LoadImageData(D.with_base(names, os.path.join('sub', 'images'))).data
                finally:
                    os.chdir(old)
            else:
                data = LoadImageData(D.with_base(names, folder)).data
            for f in fmts:
                ctx.label('%d bit %s' % (ds['bits'], f))
            # the single-image reader: shape and values
            e, d = next(iter(images['temporal'].items()))
            p = next(iter(d))
            one = routines.load_image(os.path.join(folder, names['temporal'][e][p][0]))
            same(np.asarray(one), d[p][0], 'one image read')
        compare(data, D.loader_dict(images))
    ctx.label('how ' + how, 'layout ' + case['layout'], 'temporal points %d' % min(8, len(ds['temporal'])))
    if max(i.max() for part in images.values() for d in part.values() for im in d.values() for i in im) == 0:
        ctx.trivial()


@st.composite
def cases(draw):
    return {'ds': draw(D.datasets(max_spatial=2, max_dim=draw(st.sampled_from([3, 9, 40])), max_l=9)),
            'how': draw(st.sampled_from(['abs', 'path', 'cwd', 'custom'])),
            'layout': draw(st.sampled_from(['flat', 'folders', 'plain'])),
            'fmts8': draw(st.lists(st.sampled_from(D.FORMATS8), min_size=1, max_size=3)),
            'fmts16': draw(st.lists(st.sampled_from(D.FORMATS16), min_size=1, max_size=2)),
            'args': draw(st.lists(st.integers(1, 5), max_size=3)),
            'kw': draw(st.fixed_dictionaries({}, optional={'offset': st.integers(0, 50), 'transpose': st.booleans()}))}


@st.composite
def long_stacks(draw):
    return {'stack': draw(gen.stack(max_l=300, min_l=3, max_dim=320, max_pixels=40000,
                                    lengths=st.sampled_from([3, 17, 64, 128, 129, 256, 257, 300])))}


def check_long(case, ctx):
    imgs = gen.build_stack(case['stack'])
    images = {'temporal': {1000.0: {0.0: imgs[:2], 5.0: imgs[1:3]}}, 'spatial': {1000.0: {0.0: imgs, 5.0: imgs[::-1]}}}
    with D.scratch() as tmp:
        data = LoadImageData(D.with_base(D.write_files(images, tmp, ['png']), tmp)).data
    compare(data, D.loader_dict(images))
    ctx.label('L %d' % len(imgs), '>1e4 pixels' if imgs[0].size > 10 ** 4 else 'small')


@st.composite
def large_frames(draw):
    top = draw(st.sampled_from([2 ** 16, 2 ** 16, 2 ** 20, 2 ** 22]))
    h = draw(st.integers(150, 420))
    return {'h': h, 'w': draw(st.integers(-(-36000 // h), 420)), 'top': top, 'seed': draw(st.integers(0, 2 ** 32)),
            'levels': [draw(st.floats(0.3, 1)) for _ in range(4)], 'spread': draw(st.sampled_from([1, 50, 5000]))}


def check_large(case, ctx):
    """Bright frames whose pixel totals need far more than 32 bits."""
    rng = np.random.default_rng(case['seed'])
    dtype = np.uint16 if case['top'] <= 2 ** 16 else np.uint32
    store = {}

    def frame(level):
        base = int(level * (case['top'] - 1))
        a = base - rng.integers(0, min(case['spread'], base) + 1, (case['h'], case['w']))
        store['%d' % len(store)] = a.astype(dtype)
        return '%d' % (len(store) - 1)

    lv = case['levels']
    names = {'temporal': {7.0: {0.0: [frame(lv[0]) for _ in range(2)], 5.0: [frame(lv[1]), frame(lv[2])]}},
             'spatial': {7.0: {0.0: [frame(lv[0]) for _ in range(3)], 5.0: [frame(v) for v in lv]}}}
    images = {k: {e: {p: [store[n] for n in ns] for p, ns in d.items()} for e, d in part.items()} for k, part in names.items()}
    with D.scratch() as tmp:
        for n in store:
            open(os.path.join(tmp, n), 'w').close()
        data = LoadImageData(names, path=tmp, fload=lambda f: store[os.path.basename(f)].copy()).data
    compare(data, D.loader_dict(images), 'large', atol=1e-6)
    total = 2 * max(lv[:3]) * case['top'] * case['h'] * case['w']
    ctx.label('total of %d bits' % int(np.log2(total)))
    if total < 2 ** 32:
        ctx.trivial()


SUBS = [
    Sub('files', lambda tier: cases(), check, 700, 12000,
        'a data set of 1..4 exposures x 1..5 points and 1..2 spatial exposures, written as 8/16-bit files in 1..3 formats '
        '(gray, RGB, RGBA, LA; decoy values in the other bands), in one folder, as equally named files of different folders or without extension, or as arrays for a custom reader with arguments, loaded '
        'by absolute path, base path or working directory and compared with exact integer statistics; non-trivial '
        'unless all pixels are zero'),
    Sub('large', lambda tier: large_frames(), check_large, 25, 600,
        'bright 16..22-bit frames of 36000..176400 pixels, whose totals need more than 32 bits (else trivial), through a '
        'custom reader and compared with exact integer statistics'),
    Sub('long', lambda tier: long_stacks(), check_long, 60, 1000,
        'spatial stacks of 3..300 images or large frames through the files'),
]
