"""C03: malformed descriptors are rejected; any text is rejected or read as the grammar says."""
import copy
import os
import shutil
import tempfile

from hypothesis import strategies as st

from emva1288.process.parser import ParseEmvaDescriptorFile
from .. import gen
from . import descr
from .c02 import compare
from ..core import Sub, Violation, require, raises, short

FAULTS = ['one_token', 'n_count', 'b_count', 'd_count', 'i_count', 'few_images', 'dup_n', 'dup_block', 'nonnum_n',
          'nonnum_b', 'nonnum_d', 'bytes', 'cut']
JUNK_NUM = ['abc', '1..2', '--3', '1e', '0x1F', '1 2x', ',', '.', '5ms', '1,2,3']


def parse_bytes(data, base='base'):
    fd, path = tempfile.mkstemp()
    try:
        with os.fdopen(fd, 'wb') as f:
            f.write(data)
        return ParseEmvaDescriptorFile(path, path=base)
    finally:
        os.unlink(path)


def inject(case):
    """Returns (bytes, expected exception types) for a valid descriptor with one fault, or None."""
    groups = copy.deepcopy(descr.lines_of(case['d']))
    at, alt, fault = case['at'], case['alt'], case['fault']
    heads = lambda c: [g for g in groups if g[0][0] == c]
    pick = lambda lst: lst[at % len(lst)] if lst else None
    want = SyntaxError
    if fault == 'one_token':
        flat = [(g, i) for g in groups for i in range(len(g) + 1)]
        g, i = pick(flat) if flat else (None, 0)
        line = [['foo'], ['i'], ['b'], ['n'], ['v'], ['d'], ['1.0']][alt % 7]
        if g is None:
            groups.append([line])
        else:
            g.insert(i, line)
    elif fault == 'n_count':
        g = pick(heads('n'))
        if g is None:
            return None
        g[0] = g[0][:-1] if alt % 2 else g[0] + ['7']
    elif fault == 'b_count':
        g = pick(heads('b'))
        if g is None:
            return None
        g[0] = g[0][:-1] if alt % 2 else g[0] + ['1.0']
    elif fault == 'd_count':
        g = pick(heads('d'))
        if g is None:
            return None
        g[0] = g[0] + ['1.0']
    elif fault == 'i_count':
        g = pick(heads('b') + heads('d'))
        if g is None:
            return None
        j = 1 + alt % (len(g) - 1)
        g[j] = g[j] + ['part2.png']
    elif fault == 'few_images':
        g = pick(heads('b') + heads('d'))
        if g is None:
            return None
        del g[1 + alt % 2:]
    elif fault == 'dup_n':
        g = pick(heads('n'))
        if g is None:
            return None
        groups.insert(alt % (len(groups) + 1), copy.deepcopy(g))
    elif fault == 'dup_block':
        g = pick(heads('b') + heads('d'))
        if g is None:
            return None
        g2 = copy.deepcopy(g)
        g2[0] = [g[0][0]] + ['%r' % float(t.replace(',', '.')) for t in g[0][1:]]
        groups.insert(alt % (len(groups) + 1), g2)
    elif fault.startswith('nonnum'):
        g = pick(heads(fault[-1]))
        if g is None:
            return None
        j = 1 + alt % (len(g[0]) - 1)
        if fault == 'nonnum_n' and at % 2:
            # the geometry is made of whole numbers
            g[0][j] += ['.5', ',5', '.25', 'e-1'][alt // 3 % 4]
        else:
            g[0][j] = JUNK_NUM[alt % len(JUNK_NUM)].split()[0] + 'x'
        want = ValueError
    text = case['d']['eol'].join(' '.join(l) for g in groups for l in g)
    if fault == 'cut':
        # the file ends inside a block, after its header or first image
        g = pick(heads('b') + heads('d'))
        if g is None:
            return None
        i = [x is g for x in groups].index(True)
        keep = groups[:i] + [g[:1 + alt % 2]]
        text = case['d']['eol'].join(' '.join(l) for x in keep for l in x)
    data = text.encode('utf-8')
    if fault == 'bytes':
        bad = [b'\xff', b'\xfe\xff', b'\x80', b'\xc3(', b'\xed\xa0\x80'][alt % 5]
        k = at % (len(data) + 1)
        data = data[:k] + bad + data[k:]
        want = UnicodeDecodeError
    return data, want


def check_fault(case, ctx):
    r = inject(case)
    if r is None:
        ctx.trivial()
        ctx.label('not applicable')
        return
    data, want = r
    ctx.label(case['fault'])
    raises((want,), lambda: parse_bytes(data).images, '%s in %s' % (case['fault'], short(data, 400)))


@st.composite
def faults(draw):
    d = dict(draw(descr.descriptors(max_blocks=5)), noise=0)
    d['geometry'] = d['geometry'] or [8, 640, 480]
    # every kind of block is there to be damaged
    for dark in (True, False):
        if not any(b['dark'] is dark for b in d['blocks']):
            d['blocks'].append({'dark': dark, 'exp': 12345.5, 'ph': 0.0 if dark else 77.5, 'es': 0, 'ps': 0,
                                'names': ['a.png', 'b.png'] + ['c.png'] * draw(st.integers(0, 2))})
    return {'d': d, 'fault': draw(st.sampled_from(FAULTS)),
            'at': draw(st.integers(0, 60)), 'alt': draw(st.integers(0, 60))}


def check_text(text, ctx, base='base'):
    try:
        want = descr.reference(text, base)
    except descr.Reject as e:
        want = e
    try:
        p = parse_bytes(text.encode('utf-8'), base)
    except (SyntaxError, ValueError) as e:
        require(isinstance(want, descr.Reject), 'rejected (%s: %s) although well-formed: %s', type(e).__name__, e,
                short(text, 400))
        ctx.label('rejected')
        return
    if isinstance(want, descr.Reject):
        raise Violation('accepted although malformed (%s): %s' % (want, short(text, 400)))
    got = {'version': p.version, 'format': dict(p.format), 'images': descr.unnan(descr.norm_images(p.images))}
    want['images'] = descr.unnan(descr.norm_images(want['images']))
    require(got == want, 'read as %s, expected %s', short(got, 400), short(want, 400))
    n = sum(len(d) for part in want['images'].values() for d in part.values())
    ctx.label('parsed with blocks' if n else 'parsed empty')
    if not n and not want['format'] and want['version'] is None:
        ctx.trivial()


TOK = ['v', 'n', 'b', 'd', 'i', 'i', 'i', '#', 'x']
ARG = ['1', '2', '8', '0', '0.0', '1,5', '-1', 'a.png', 'b\\c.tif', 'x', '1e3', 'nan', './q.png', 'd//e.png', 'i', 'b']


@st.composite
def token_texts(draw):
    """Mostly plausible command sequences."""
    out = []
    for _ in range(draw(st.integers(0, 14))):
        k = draw(st.integers(0, 9))
        if k <= 6:
            head = draw(st.sampled_from(['b 1 %s', 'b 2 %s', 'b 3,5 %s', 'd %s', 'b %s 0', 'b %s 4'])) % draw(
                st.sampled_from(['1', '2', '3,5', '0', '1e2', '7.25', '9', '11', '12.5', '13', '14', '1e9']))
            out.append(head)
            for _ in range(draw(st.sampled_from([2] * 10 + [3] * 6 + [1, 0, 5, 4]))):
                out.append('i ' + draw(st.sampled_from(['a.png', 'b.png', 'c\\d.png', './e.png'])))
        elif k == 7:
            out.append(draw(st.sampled_from(['n 8 640 480'] * 3 + ['n 8.5 640 480', 'n 8 640,5 480', 'n 8 640 479.9'])))
        elif k == 8:
            out.append('v 4.0')
        else:
            out.append(' '.join([draw(st.sampled_from(TOK))] + draw(st.lists(st.sampled_from(ARG), max_size=3))))
        if draw(st.integers(0, 5)) == 0:
            out.append(draw(st.sampled_from(['', '# c', ' ', '\t#', 'z 1'])))
    return {'text': draw(st.sampled_from(['\n', '\r\n'])).join(out)}


@st.composite
def mutated(draw):
    """A valid descriptor with a few character- or line-level edits."""
    d = draw(descr.descriptors(max_blocks=4))
    text = descr.render(d)
    for _ in range(draw(st.integers(1, 4))):
        op = draw(st.integers(0, 5))
        if op <= 2:
            k = draw(st.integers(0, len(text)))
            n = draw(st.integers(0, 3))
            ins = draw(st.text(alphabet='bdinv# \t\n\r.,019ax\\/-\u00e9\u2028\x0b\x1c\x85', max_size=3))
            text = text[:k] + ins + text[k + n:]
        else:
            ls = text.split('\n')
            i = draw(st.integers(0, len(ls) - 1))
            j = draw(st.integers(0, len(ls) - 1))
            if op == 3:
                del ls[i]
            elif op == 4:
                ls.insert(j, ls[i])
            else:
                ls[i], ls[j] = ls[j], ls[i]
            text = '\n'.join(ls)
    return {'text': text}


SUBS = [
    Sub('fault', lambda tier: faults(), check_fault, 2500, 50000,
        'a valid descriptor with one injected fault (13 kinds at any position) that must be refused with the stated '
        'error; non-trivial when the fault applies to the descriptor'),
    Sub('tokens', lambda tier: token_texts(), lambda c, x: check_text(c['text'], x), 2500, 80000,
        'a text made of grammar tokens, read by the parser and by an independent reference parser; non-trivial unless '
        'both find nothing in it'),
    Sub('mutated', lambda tier: mutated(), lambda c, x: check_text(c['text'], x), 1500, 60000,
        'a valid descriptor with 1..4 character or line edits, judged against the reference parser; non-trivial unless '
        'both find nothing in it'),
    Sub('anytext', lambda tier: st.fixed_dictionaries({'text': st.text(max_size=60)}),
        lambda c, x: check_text(c['text'], x), 500, 20000,
        'arbitrary unicode text (including control and separator characters), judged against the reference parser'),
]
