"""C05: incomplete or inconsistent data sets are refused wherever the fault is."""
import copy
import os

import numpy as np
from hypothesis import strategies as st

from emva1288.process.loader import LoadImageData
from emva1288.process.data import Data1288
from .. import dataset as D
from ..core import Sub, require, raises

LOAD_FAULTS = ['none', 'no_dark', 'only_dark', 'shape', 'shape_band', 'missing', 'missing_is_dir']
DATA_FAULTS = ['none', 't_no_dark', 't_only_dark', 's_no_dark', 's_only_dark', 's_two_bright', 's_two_exposures',
               's_none', 's_empty_exposure']


def check_load(case, ctx):
    images = D.images_of(case['ds'])
    fault, at, alt = case['fault'], case['at'], case['alt']
    kinds = [k for k in ('temporal', 'spatial')]
    slots = [(k, e) for k in kinds for e in images[k]]
    k, e = slots[at % len(slots)]
    want = ValueError
    if fault == 'no_dark':
        images[k][e] = {p: v for p, v in images[k][e].items() if p != 0.0}
    elif fault == 'only_dark':
        images[k][e] = {0.0: images[k][e][0.0]}
    pos = [(kk, ee, p, i) for kk in kinds for ee in images[kk] for p in images[kk][ee]
           for i in range(len(images[kk][ee][p]))]
    kk, ee, p, i = pos[alt % len(pos)]
    if fault == 'shape':
        # the same other shape for one image, one point, one exposure or one kind of images
        h, w = images[kk][ee][p][i].shape
        h2, w2 = [(h, w - 1 if w > 1 else w + 1), (h - 1 if h > 1 else h + 1, w), (w, h) if h != w else (h, w + 1),
                  (h + 1, w)][(at + alt) % 4]
        unit = ((kk,), (kk, ee), (kk, ee, p), (kk, ee, p, i))[case['grain']]
        for e2 in images[kk]:
            for p2 in images[kk][e2]:
                for i2 in range(len(images[kk][e2][p2])):
                    if (kk, e2, p2, i2)[:len(unit)] == unit:
                        images[kk][e2][p2][i2] = np.ascontiguousarray(np.resize(images[kk][e2][p2][i2], (h2, w2)))
        ctx.label('grain %d' % case['grain'])
    with D.scratch() as tmp:
        names = D.with_base(D.write_files(images, tmp, ['png']), tmp)
        if fault == 'missing':
            os.unlink(names[kk][ee][p][i])
            want = OSError
        elif fault == 'missing_is_dir':
            os.unlink(names[kk][ee][p][i])
            os.mkdir(names[kk][ee][p][i])
            want = OSError
        kw = {}
        if fault == 'shape_band':
            bad = names[kk][ee][p][i]

            def fload(f):
                a = D.np.asarray(D.Image.open(f))
                return np.stack([a, a], axis=-1) if f == bad else a
            kw['fload'] = fload
        elif fault.startswith('missing') and (at + alt) % 2:
            # a reader that does not mind
            kw['fload'] = lambda f: np.ones(images[kk][ee][p][i].shape, np.uint8)
            ctx.label('tolerant reader')
        ctx.label(fault)
        if fault == 'none':
            LoadImageData(names).data
        else:
            raises((want,), lambda: LoadImageData(names, **kw).data, '%s at %s' % (fault, (k, e) if 'dark' in fault else
                                                                                   (kk, ee, p, i)))


@st.composite
def load_cases(draw):
    return {'ds': draw(D.datasets(max_dim=5, max_l=5, max_spatial=2)), 'fault': draw(st.sampled_from(LOAD_FAULTS)),
            'at': draw(st.integers(0, 10)), 'alt': draw(st.integers(0, 60)), 'grain': draw(st.integers(0, 3))}


def check_data(case, ctx):
    images = D.images_of(case['ds'])
    data = D.loader_dict(images)
    fault, at = case['fault'], case['at']
    t, s = data['temporal'], data['spatial']
    te = list(t)[at % len(t)]
    (se,) = s
    extra = case['extra']
    bright = [p for p in s[se] if p != 0.0][0]
    if fault == 't_no_dark':
        del t[te][0.0]
        if case['alt']:  # still several bright points
            t[te][extra] = copy.deepcopy(next(iter(t[te].values())))
    elif fault == 't_only_dark':
        t[te] = {0.0: t[te][0.0]}
    elif fault == 's_no_dark':
        d = s[se].pop(0.0)
        if case['alt']:
            s[se][extra if extra != bright else extra + 1] = d
    elif fault == 's_only_dark':
        del s[se][bright]
    elif fault == 's_two_bright':
        s[se][extra if extra != bright else extra + 1] = s[se][bright]
    elif fault == 's_two_exposures':
        other = extra if extra != se else extra + 1
        s[other] = s[se] if case['alt'] else {0.0: s[se].pop(0.0)}
    elif fault == 's_none':
        s.clear()
    elif fault == 's_empty_exposure':
        s[se] = {}
    ctx.label(fault)
    if fault == 'none':
        Data1288(data).data
    else:
        raises((ValueError,), lambda: Data1288(data).data, fault)


@st.composite
def data_cases(draw):
    return {'ds': draw(D.datasets(max_dim=5, max_l=5, min_dim=2)), 'fault': draw(st.sampled_from(DATA_FAULTS)),
            'at': draw(st.integers(0, 10)), 'alt': draw(st.booleans()), 'extra': draw(D.value())}


def check_descriptor(case, ctx):
    """The same faults seen from a descriptor file: parse, load and convert must refuse somewhere."""
    from emva1288.process.parser import ParseEmvaDescriptorFile
    ds = case['ds']
    images = D.images_of(ds)
    fault = case['fault']
    kind = 'temporal' if case['alt'] else 'spatial'
    e = list(images[kind])[case['at'] % len(images[kind])]
    if fault == 'no_dark':
        del images[kind][e][0.0]
    elif fault == 'no_bright':
        images[kind][e] = {0.0: images[kind][e][0.0]}
    elif fault == 'shape':
        for ee in images[kind] if case['order'] % 2 else [e]:
            for p in images[kind][ee]:
                images[kind][ee][p] = [np.ascontiguousarray(np.vstack([a, a])) for a in images[kind][ee][p]]
    with D.scratch() as tmp:
        names = D.write_files(images, tmp, ['png'])
        if fault == 'no_file':
            os.unlink(os.path.join(tmp, list(names[kind][e].values())[0][0]))
        if fault == 'no_spatial':
            names['spatial'] = {}
        path = D.write_descriptor(os.path.join(tmp, 'd.txt'), names, ds, order=case['order'])

        def chain():
            return Data1288(LoadImageData(ParseEmvaDescriptorFile(path).images).data).data
        ctx.label(fault)
        if fault == 'none':
            chain()
        else:
            raises((OSError,) if fault == 'no_file' else (ValueError,), chain, fault)


@st.composite
def descriptor_cases(draw):
    return {'ds': draw(D.datasets(max_dim=4, max_l=4, min_dim=2)), 'at': draw(st.integers(0, 10)),
            'alt': draw(st.booleans()), 'order': draw(st.integers(0, 10 ** 6)),
            'fault': draw(st.sampled_from(['none', 'no_dark', 'no_bright', 'no_file', 'no_spatial', 'shape']))}


SUBS = [
    Sub('load', lambda tier: load_cases(), check_load, 700, 15000,
        'a complete data set on disk with one fault (missing dark, missing bright, other shape, missing file) in any '
        'exposure, kind, point and image position must be refused while loading; without a fault it must load'),
    Sub('convert', lambda tier: data_cases(), check_data, 1200, 20000,
        'loaded data with one missing/superfluous dark, bright or exposure must be refused by the conversion; complete '
        'data must convert'),
    Sub('chain', lambda tier: descriptor_cases(), check_descriptor, 300, 6000,
        'the faults expressed in a descriptor must stop the chain parse-load-convert'),
]
