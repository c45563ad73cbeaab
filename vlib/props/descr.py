"""Descriptor texts: generator, renderer and an independent reference parser (used by C02, C03)."""
import os

import numpy as np
from hypothesis import strategies as st

# any printable character but the separators of folders; never a name that is only dots
NAME = st.one_of(st.text(alphabet='abcXYZ019_-', min_size=1, max_size=6),
                 st.text(alphabet='aZ0._-#;:,%"\'()&=~$@+!?*[]{}<>|^`\u00e9\u00b5\u03bb\u6f22', min_size=1, max_size=6)
                 .filter(lambda s: s.strip('.') != ''))


def spellings(v):
    """Ways of writing the same number."""
    out = [repr(v), '%.1f' % v if float('%.1f' % v) == v else repr(v), repr(v).replace('.', ','),
           '%.17e' % v, '0' + repr(v) if v >= 0 else repr(v)]
    if v >= 0:
        out.append('+' + repr(v))
    if v == int(v) and abs(v) < 1e15:
        out += ['%d' % v, '%d,0' % v, '%d.' % v, '%d.000' % v]
    return out


@st.composite
def numbers(draw, lo=0.0, hi=1e9):
    k = draw(st.integers(0, 3))
    if k == 0:
        return float(draw(st.integers(int(lo), int(hi))))
    if k == 1:
        return float(draw(st.integers(int(lo), min(int(hi), 60))))
    if k == 2:
        return round(draw(st.floats(lo, min(hi, 1e6), allow_nan=False)), 3)
    return draw(st.floats(lo, hi, allow_nan=False))


@st.composite
def names(draw):
    parts = draw(st.lists(NAME, min_size=0, max_size=3))
    base = draw(NAME) + draw(st.sampled_from(['.png', '.tif', '', '.b.bmp']))
    return '\\'.join(parts + [base])


@st.composite
def descriptors(draw, max_blocks=10):
    blocks, seen = [], set()
    nb = draw(st.integers(0, max_blocks))
    pool = draw(st.lists(numbers(), min_size=1, max_size=4))
    for _ in range(nb):
        exp = draw(st.sampled_from(pool))
        dark = draw(st.booleans())
        ph = 0.0 if dark else draw(numbers())
        L = draw(st.sampled_from([2, 2, 2, 3, 4, 7, 16]))
        key = (L == 2, exp, ph)
        if key in seen:
            continue
        seen.add(key)
        blocks.append({'dark': dark, 'exp': exp, 'ph': ph, 'es': draw(st.integers(0, 9)), 'ps': draw(st.integers(0, 9)),
                       'names': draw(st.lists(names(), min_size=L, max_size=L))})
    return {'version': draw(st.one_of(st.none(), st.sampled_from(['3.0', '4.0', '4', 'EMVA', 'x.y']))),
            'geometry': draw(st.one_of(st.none(), st.tuples(st.integers(1, 16), st.integers(1, 99999),
                                                            st.integers(1, 99999)).map(list))),
            'blocks': blocks,
            'vpos': draw(st.integers(0, 20)), 'npos': draw(st.integers(0, 20)),
            'noise': draw(st.sampled_from([0, 0.2, 0.6])), 'nseed': draw(st.integers(0, 2 ** 32 - 1)),
            'eol': draw(st.sampled_from(['\n', '\r\n', '\r'])), 'last_eol': draw(st.booleans())}


def lines_of(case):
    """List of (command lines); header lines are placed between blocks."""
    groups = []
    for b in case['blocks']:
        e = spellings(b['exp'])
        p = spellings(b['ph'])
        head = ['d', e[b['es'] % len(e)]] if b['dark'] else ['b', e[b['es'] % len(e)], p[b['ps'] % len(p)]]
        groups.append([head] + [['i', n] for n in b['names']])
    if case['geometry'] is not None:
        groups.insert(min(case['npos'], len(groups)), [['n'] + [str(x) for x in case['geometry']]])
    if case['version'] is not None:
        groups.insert(min(case['vpos'], len(groups)), [['v', case['version']]])
    return groups


def render(case):
    """Text of the descriptor, with its white-space, comment and unknown-command noise."""
    rng = np.random.default_rng(case['nseed'])
    p = case['noise']
    ws = [' ', '\t', '  ', ' \t ']
    out = []

    def junk(between):
        while rng.random() < p:
            k = rng.integers(0, 4 if between else 3)
            out.append(['', '   \t', ['# comment i x', '#', '  #b 1 2', '#i a.png'][rng.integers(0, 4)],
                        ['z 1', 'image a.png', 'B 5 6', 'nn 1 2 3', 'D 10'][rng.integers(0, 5)]][k])

    for g in lines_of(case):
        junk(True)
        for n, toks in enumerate(g):
            if n:
                junk(False)
            line = toks[0]
            for t in toks[1:]:
                line += (ws[rng.integers(0, 4)] if rng.random() < p else ' ') + t
            if rng.random() < p:
                line = ws[rng.integers(0, 4)] + line
            if rng.random() < p:
                line = line + ws[rng.integers(0, 4)]
            out.append(line)
    junk(True)
    text = case['eol'].join(out)
    return text + (case['eol'] if case['last_eol'] and out else '')


def expected(case, base):
    images = {'temporal': {}, 'spatial': {}}
    for b in case['blocks']:
        kind = 'temporal' if len(b['names']) == 2 else 'spatial'
        images[kind].setdefault(b['exp'], {})[b['ph']] = [os.path.join(base, *n.split('\\')) for n in b['names']]
    g = case['geometry']
    return {'version': case['version'],
            'format': {} if g is None else {'bits': g[0], 'width': g[1], 'height': g[2]},
            'images': images}


class Reject(Exception):
    """The reference grammar rejects the text; kind is 'syntax' or 'number'."""

    def __init__(self, kind, why):
        Exception.__init__(self, why)
        self.kind = kind


def number(tok, conv):
    try:
        return conv(tok)
    except ValueError:
        raise Reject('number', tok)


def reference(text, base):
    """Independent descriptor reader: tokenise every line first, then group into commands."""
    rows = []
    for raw in text.replace('\r\n', '\n').replace('\r', '\n').split('\n'):
        raw = raw.strip()
        if raw == '' or raw[0] == '#':
            continue
        rows.append(raw.split())
    version, fmt = None, {}
    images = {'temporal': {}, 'spatial': {}}
    k = 0
    while k < len(rows):
        row = rows[k]
        k += 1
        if len(row) == 1:
            raise Reject('syntax', 'one token')
        cmd = row[0]
        if cmd == 'v':
            version = row[1]
        elif cmd == 'n':
            if len(row) != 4 or fmt:
                raise Reject('syntax', 'n')
            fmt = dict(zip(('bits', 'width', 'height'), [number(t, int) for t in row[1:]]))
        elif cmd in ('b', 'd'):
            if len(row) != (3 if cmd == 'b' else 2):
                raise Reject('syntax', cmd)
            vals = [number(t.replace(',', '.'), float) for t in row[1:]]
            exp, ph = vals[0], (vals[1] if cmd == 'b' else 0.0)
            fn = []
            while k < len(rows) and rows[k][0] == 'i':
                if len(rows[k]) != 2:
                    raise Reject('syntax', 'i')
                fn.append(os.path.join(base, *os.path.normpath(rows[k][1]).split('\\')))
                k += 1
            if k < len(rows) and len(rows[k]) == 1:
                raise Reject('syntax', 'one token')
            if len(fn) < 2:
                raise Reject('syntax', 'few images')
            part = images['temporal' if len(fn) == 2 else 'spatial'].setdefault(exp, {})
            if ph in part:
                raise Reject('syntax', 'duplicate')
            part[ph] = fn
    return {'version': version, 'format': fmt, 'images': images}


def norm_images(images):
    """Images with normalised paths, to compare independently of '.'/'//' spelling."""
    return {kind: {float(e): {float(p): [os.path.normpath(f) for f in fs] for p, fs in d.items()}
                   for e, d in part.items()} for kind, part in images.items()}


def unnan(x):
    """Comparable form: NaN keys become the string 'nan'."""
    f = lambda v: 'nan' if v != v else v
    return {k: {f(e): {f(p): fs for p, fs in d.items()} for e, d in part.items()} for k, part in x.items()}
