"""C02: a well-formed descriptor is parsed into exactly what it lists."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from emva1288.process.parser import ParseEmvaDescriptorFile
from .. import gen
from . import descr
from ..core import Sub, require


def compare(p, want, what):
    require(p.version == want['version'], '%s: version %r expected %r', what, p.version, want['version'])
    require(dict(p.format) == want['format'], '%s: format %r expected %r', what, p.format, want['format'])
    require(all(type(v) is int for v in p.format.values()), '%s: format values not integers', what)
    require(set(p.images) == {'temporal', 'spatial'}, '%s: kinds %s', what, sorted(p.images))
    got, exp = descr.norm_images(p.images), descr.norm_images(want['images'])
    for kind in exp:
        require(set(got[kind]) == set(exp[kind]), '%s: %s exposures %s expected %s', what, kind,
                sorted(got[kind]), sorted(exp[kind]))
        for e in exp[kind]:
            require(set(got[kind][e]) == set(exp[kind][e]), '%s: %s photons at %s: %s expected %s', what, kind, e,
                    sorted(got[kind][e]), sorted(exp[kind][e]))
            for ph in exp[kind][e]:
                require(got[kind][e][ph] == exp[kind][e][ph], '%s: %s images at (%s, %s): %s expected %s', what,
                        kind, e, ph, got[kind][e][ph], exp[kind][e][ph])


def write(folder, name, text):
    path = os.path.join(folder, name)
    with open(path, 'wb') as f:
        f.write(text.encode('utf-8'))
    return path


def check(case, ctx):
    d = case['d']
    text = descr.render(d)
    tmp = tempfile.mkdtemp()
    old = os.getcwd()
    try:
        sub = os.path.join(tmp, case['folder']) if case['folder'] else tmp
        os.makedirs(sub, exist_ok=True)
        path = write(sub, 'descriptor file.txt', text)
        mode = case['mode']
        if mode == 'abs':
            p = ParseEmvaDescriptorFile(path)
            base = sub
        elif mode == 'relative':
            os.chdir(tmp)
            rel = os.path.relpath(path, tmp)
            p = ParseEmvaDescriptorFile(rel)
            base = os.path.dirname(rel)
        else:
            base = case['base']
            p = ParseEmvaDescriptorFile(path, path=base)
        compare(p, descr.expected(d, base), mode)
        # the noise-free rendering in reversed block order means the same
        plain = dict(d, noise=0, eol='\n', blocks=d['blocks'][::-1])
        q = ParseEmvaDescriptorFile(write(sub, 'plain.txt', descr.render(plain)), path=base)
        compare(q, descr.expected(d, base), 'plain reversed')
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)
    kinds = {len(b['names']) == 2 for b in d['blocks']}
    ctx.label('mode ' + mode, 'blocks %d' % min(len(d['blocks']), 5), 'noise %s' % d['noise'],
              'both kinds' if len(kinds) == 2 else 'one kind')
    if len(d['blocks']) < 2:
        ctx.trivial()


@st.composite
def cases(draw):
    return {'d': draw(descr.descriptors()), 'mode': draw(st.sampled_from(['abs', 'relative', 'path', 'path'])),
            'folder': draw(st.sampled_from(['', 'sub', 'a/b c'])),
            'base': draw(st.sampled_from(['', 'base', '/abs/base', '../up', 'x/y']))}


def long_descriptor(c):
    """The description of a descriptor as a whole test writes it: hundreds of points and long series, names repeated."""
    rng = np.random.default_rng(c['seed'])
    blocks, seen = [], set()
    exps = np.round(rng.uniform(1, 1e6, c['exposures']), 1)
    n = 0
    for k in range(c['blocks']):
        e = float(exps[k % len(exps)])
        dark = k < len(exps)
        ph = 0.0 if dark else round(float(rng.uniform(0, 1e5)), 3)
        L = 2 if rng.random() < 0.9 else int(rng.integers(3, c['longest'] + 1))
        if (L == 2, e, ph) in seen:
            continue
        seen.add((L == 2, e, ph))
        names = []
        for _ in range(L):
            names.append('images\\image%d.png' % (rng.integers(0, n + 1) if rng.random() < c['again'] else n))
            n += 1
        blocks.append({'dark': dark, 'exp': e, 'ph': ph, 'es': int(rng.integers(10)), 'ps': int(rng.integers(10)), 'names': names})
    return {'version': '4.0', 'geometry': [8, 640, 480], 'blocks': blocks, 'vpos': 0, 'npos': 0, 'noise': c['noise'],
            'nseed': c['seed'], 'eol': c['eol'], 'last_eol': True}


def check_long(case, ctx):
    d = long_descriptor(case)
    tmp = tempfile.mkdtemp()
    try:
        path = write(tmp, 'd.txt', descr.render(d))
        compare(ParseEmvaDescriptorFile(path, path='base'), descr.expected(d, 'base'), 'long')
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ctx.label('%d00 blocks' % (len(d['blocks']) // 100), 'repeated names' if case['again'] else 'names once')


@st.composite
def long_cases(draw):
    return {'seed': draw(gen.seeds()), 'blocks': draw(st.integers(20, 400)), 'exposures': draw(st.one_of(st.integers(1, 3), st.integers(1, 200))),
            'longest': draw(st.sampled_from([5, 60, 600])), 'again': draw(st.sampled_from([0, 0.05, 0.5])),
            'noise': draw(st.sampled_from([0, 0, 0.1])), 'eol': draw(st.sampled_from(['\n', '\r\n']))}


SUBS = [Sub('parse', lambda tier: cases(), check, 2500, 60000,
            'a well-formed descriptor (0..10 measuring blocks of 2..16 images, random numeric spellings, header '
            'positions, white space, comments, unknown commands and line endings) parsed from an absolute or relative '
            'name or with an explicit base, compared with the generated structure, and again in plain reversed form; '
            'non-trivial with at least two blocks'),
        Sub('long', lambda tier: long_cases(), check_long, 160, 3000,
            'descriptors of 20..400 blocks with series of up to 600 images, some listed more than once; always non-trivial')]
