"""C29: results do not depend on how the same images are packaged; the one-call interface equals the stages."""
import contextlib
import io
import os

import numpy as np
from hypothesis import strategies as st

from emva1288.process import Emva1288
from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from emva1288.process.plotting import EVMA1288plots, Plotting1288
from emva1288.process.results import Results1288
from .. import dataset as D
from .. import figdump
from .. import gen
from .. import simdata
from ..core import Sub, require, short
from . import descr
from .c26 import difference

PLOTS = {p.__name__: p for p in EVMA1288plots}
FOLDERS = ['', 'img', 'a/b', 'sub/dark images'.replace(' ', '_'), 'IMG.d']


def package(images, pk, bits, root):
    """Write images and descriptor in the described packaging; returns the descriptor's path."""
    rng = np.random.default_rng(pk['seed'])
    fmts = [f for f in pk['fmts'] if f in (D.FORMATS8 if bits == 8 else D.FORMATS16)] or ['png']
    blocks, k, stored = [], 0, {}
    some = None
    for kind in ('temporal', 'spatial'):
        for e, d in images[kind].items():
            for p, imgs in d.items():
                order = rng.permutation(len(imgs)) if kind == 'spatial' and pk['shuffle'] else range(len(imgs))
                names = []
                for j in order:
                    some = imgs[j]
                    if pk.get('shared') and imgs[j].tobytes() in stored:
                        names.append(stored[imgs[j].tobytes()])
                        continue
                    fmt = fmts[int(rng.integers(len(fmts)))]
                    folder = FOLDERS[int(rng.integers(len(FOLDERS)))] if pk['folders'] else ''
                    os.makedirs(os.path.join(root, folder), exist_ok=True)
                    name = '%s%s%d.%s' % (folder + '/' if folder else '', pk['stem'],
                                          int(rng.integers(10 ** 6)) * 1000 + k if pk['random names'] else k, fmt)
                    k += 1
                    D.write_image(os.path.join(root, name), imgs[j], fmt)
                    names.append(name.replace('/', '\\'))
                    stored[imgs[j].tobytes()] = names[-1]
                blocks.append({'dark': p == 0.0, 'exp': e, 'ph': p, 'es': int(rng.integers(10)), 'ps': int(rng.integers(10)),
                               'names': names})
    if pk['blocks'] == 'shuffled':
        blocks = [blocks[i] for i in rng.permutation(len(blocks))]
    elif pk['blocks'] == 'reversed':
        blocks = blocks[::-1]
    if not pk['spell']:
        for b in blocks:
            b['es'] = b['ps'] = 0
    h, w = some.shape[:2]
    text = descr.render({'version': pk['version'], 'geometry': [bits, w, h], 'blocks': blocks, 'vpos': pk['vpos'], 'npos': pk['npos'],
                         'noise': pk['noise'], 'nseed': pk['seed'], 'eol': pk['eol'], 'last_eol': True})
    path = os.path.join(root, pk['desc'])
    with open(path, 'w', newline='') as f:
        f.write(text)
    return path


PLAIN = {'seed': 0, 'fmts': ['png'], 'shuffle': False, 'folders': False, 'stem': 'im', 'random names': False, 'blocks': 'given',
         'spell': False, 'version': '4.0', 'vpos': 0, 'npos': 0, 'noise': 0, 'eol': '\n', 'desc': 'd.txt'}


@st.composite
def packagings(draw):
    return {'seed': draw(gen.seeds()), 'fmts': draw(st.lists(st.sampled_from(D.FORMATS8), min_size=1, max_size=3)),
            'shuffle': draw(st.booleans()), 'folders': draw(st.booleans()), 'stem': draw(st.sampled_from(['im', 'Z_', '0'])),
            'random names': draw(st.booleans()), 'shared': draw(st.booleans()), 'blocks': draw(st.sampled_from(['given', 'shuffled', 'shuffled', 'reversed'])),
            'spell': draw(st.booleans()), 'version': draw(st.sampled_from(['4.0', '3.0', None])), 'vpos': draw(st.integers(0, 9)),
            'npos': draw(st.integers(0, 9)), 'noise': draw(st.sampled_from([0, 0.1])), 'eol': draw(st.sampled_from(['\n', '\r\n'])),
            'desc': draw(st.sampled_from(['d.txt', 'EMVA1288_Data.txt', 'x']))}


def outcome(fn):
    try:
        return fn()
    except Exception as e:
        return 'raises ' + type(e).__name__


def stages(path):
    p = ParseEmvaDescriptorFile(path)
    return Data1288(LoadImageData(p.images).data).data


def images_for(case):
    if case['sim'] is not None:
        imgs = simdata.images(case['sim'])
        bits = case['sim']['bits']
    else:
        imgs = D.images_of(case['ds'])
        bits = case['ds']['bits']
    if case.get('repeat'):
        # some images of a series or stack occur more than once
        rng = np.random.default_rng(case['repeat'])
        for kind in imgs:
            for d in imgs[kind].values():
                for p, stack in d.items():
                    if rng.integers(3) == 0:
                        stack = list(stack)
                        stack[int(rng.integers(len(stack)))] = stack[int(rng.integers(len(stack)))]
                        d[p] = stack
    return imgs, bits


def check_packaging(case, ctx):
    imgs, bits = images_for(case)
    got = []
    with D.scratch() as tmp:
        for k, pk in enumerate([PLAIN] + case['packagings']):
            root = os.path.join(tmp, 'p%d' % k)
            os.makedirs(root)
            path = package(imgs, pk, bits, root)
            cwd = os.getcwd()
            if k and pk['seed'] % 3 == 0:
                # named relative to the current folder
                os.chdir(root)
                path = pk['desc']
            try:
                data = outcome(lambda: stages(path))
                got.append((data, outcome(lambda: Results1288(data).xml())))
            finally:
                os.chdir(cwd)
    ok = not isinstance(got[0][1], str)
    for k, (data, xml) in enumerate(got[1:]):
        d = difference(data, got[0][0])
        require(d is None, 'packaging %d: data differs: %s', k, d)
        require(xml == got[0][1], 'packaging %d: export differs: %s and %s', k, short(xml), short(got[0][1]))
    for p in case['packagings']:
        ctx.label(*[n for n in ('shuffle', 'folders', 'random names', 'spell', 'shared') if p[n]])
        ctx.label('blocks ' + p['blocks'])
    ctx.label('results defined' if ok else 'some results undefined')
    if isinstance(got[0][0], str):
        ctx.trivial()


@st.composite
def packaging_cases(draw):
    sim = draw(st.integers(0, 2)) > 0
    return {'sim': draw(simdata.sims(max_dim=10, max_l=5, min_l=3, min_dim=4, min_steps=7, max_steps=12)) if sim else None,
            'ds': None if sim else draw(D.datasets(max_dim=6, max_exposures=4, max_bright=3, max_l=5)),
            'repeat': draw(st.sampled_from([0, 0, 1, 2, 3])), 'packagings': [draw(packagings()) for _ in range(draw(st.sampled_from([1, 2])))]}


def printed(fn):
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        r = fn()
    return out.getvalue(), r


def figures(fn):
    import matplotlib.pyplot as plt
    plt.close('all')
    try:
        with figdump.fast():
            r = fn()
        require(r is None, 'plot returned %s', short(r))
        out = []
        for n in plt.get_fignums():
            f = plt.figure(n)
            axes = figdump.figure(f)
            for a in axes:
                for l in a['lines']:
                    l.pop('gid')
            out.append([n, f.canvas.manager.get_window_title(), axes])
        return out
    finally:
        plt.close('all')


def check_onecall(case, ctx):
    imgs, bits = images_for(case)
    with D.scratch() as tmp:
        path = package(imgs, case['packaging'], bits, tmp)
        files = sorted(os.path.join(r, f) for r, _d, fs in os.walk(tmp) for f in fs)
        data = stages(path)
        new = lambda: Results1288({k: dict(v) for k, v in data.items()})
        e = Emva1288(path)
        for n, (op, arg) in enumerate(case['ops']):
            what = 'call %d (%s)' % (n, op)
            if op == 'xml':
                a, b = outcome(e.xml), outcome(new().xml)
            elif op == 'file':
                p1, p2 = os.path.join(tmp, '_a.xml'), os.path.join(tmp, '_b.xml')

                def write(r, p):
                    require(r.xml(p) is None, 'xml(file) returned something')
                    with open(p, 'rb') as f:
                        return f.read()

                a, b = outcome(lambda: write(e, p1)), outcome(lambda: write(new(), p2))
                for p in (p1, p2):
                    with contextlib.suppress(OSError):
                        os.remove(p)
            elif op == 'print':
                a, b = outcome(lambda: printed(e.results)), outcome(lambda: printed(new().print_results))
            else:
                plots = [PLOTS[x] for x in arg]
                a = outcome(lambda: figures(lambda: e.plot(*plots)))
                b = outcome(lambda: figures(lambda: Plotting1288(new()).plot(*plots)))
                if not isinstance(a, str):
                    want = plots or EVMA1288plots
                    require(len(a) == len(want), '%s: %d figures for %d plots', what, len(a), len(want))
                    for (k, title, _f), cls in zip(a, want):
                        require(title == cls.name, '%s: figure %s is titled %r, expected %r', what, k, title, cls.name)
            d = difference(a, b)
            require(d is None, '%s: one call and stages differ: %s', what, d)
            if isinstance(a, str):
                ctx.label('refused')
            elif op == 'print':
                require(a[0].strip() and a[1] is None, '%s: nothing printed', what)
        now = sorted(os.path.join(r, f) for r, _d, fs in os.walk(tmp) for f in fs)
        require(now == files, 'files created or removed: %s', set(now) ^ set(files))
    ctx.label(*{op for op, arg in case['ops']})


@st.composite
def onecall_cases(draw):
    n = draw(st.integers(2, 5))
    ops = []
    for _ in range(n):
        op = draw(st.sampled_from(['xml', 'file', 'print', 'plot']))
        arg = None
        if op == 'plot':
            arg = draw(st.lists(st.sampled_from(sorted(PLOTS)), min_size=0 if draw(st.integers(0, 4)) == 0 else 1, max_size=3))
        ops.append([op, arg])
    return {'sim': draw(simdata.sims(max_dim=10, max_l=5, min_l=3, min_dim=6, min_steps=8, max_steps=12)), 'ds': None,
            'packaging': draw(packagings()), 'ops': ops}


SUBS = [Sub('packaging', lambda tier: packaging_cases(), check_packaging, 700, 12000,
            'the same images and points in a plain packaging and one or two others (block order, names, folders, formats, number '
            'spelling, comments, order of spatial images, one file listed for equal images, relative path): identical data and identical export; non-trivial when '
            'the data set is accepted'),
        Sub('onecall', lambda tier: onecall_cases(), check_onecall, 250, 4000,
            'a packaged data set and 2..5 calls on one Emva1288 object (export, export to file, printed table, plots), each equal '
            'to the stages run by hand; always non-trivial')]
