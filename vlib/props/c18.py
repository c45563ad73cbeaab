"""C18: comparison of result files."""
import contextlib
import copy
import io
import os

import numpy as np
from hypothesis import strategies as st

from emva1288.process.data import Data1288
from emva1288.process.results import Results1288
from emva1288.process.routines import compare_xml, dict_to_xml, xml_to_dict
from .. import dataset as D
from .. import gen
from .. import simdata
from ..core import Sub, require, short


def parse_report(text):
    """{section: {quantity: verdict}} of a comparison report; a repeated entry is a violation."""
    out, cur, lines, i = {}, None, text.split('\n'), 0
    while i < len(lines):
        line = lines[i]
        if line and not line.strip('*'):
            cur = lines[i + 1].strip()
            require(cur not in out, 'section %s listed twice', cur)
            require(not lines[i + 2].strip('*'), 'heading of %s', cur)
            out[cur] = {}
            i += 3
            continue
        if line.strip():
            name, verdict = line.split()[0], line.split()[-1]
            require(verdict in ('OK', 'FAIL') or line.endswith(('OK', 'FAIL')), 'no verdict in %r', line)
            verdict = 'OK' if line.endswith('OK') else 'FAIL'
            require(cur is not None and name not in out[cur], 'quantity %s listed twice in %s', name, cur)
            out[cur][name] = verdict
        i += 1
    return out


def expected(d1, d2, differ):
    """Verdicts from the two dictionaries and the set of (section, quantity) whose numbers differ."""
    out = {}
    for s in set(d1) | set(d2):
        if s not in d1 or s not in d2:
            out[s] = 'FAIL'
            continue
        out[s] = {}
        for n in set(d1[s]) | set(d2[s]):
            ok = n in d1[s] and n in d2[s] and (s, n) not in differ
            out[s][n] = 'OK' if ok else 'FAIL'
    return out


def judge(text, want, what):
    got = parse_report(text)
    require(set(got) == set(want), '%s: sections %s, expected %s', what, sorted(got), sorted(want))
    for s, w in want.items():
        if w == 'FAIL':
            require(got[s] and set(got[s].values()) == {'FAIL'}, '%s: section %s of one file only: %s', what, s, got[s])
            continue
        require(set(got[s]) == set(w), '%s: quantities of %s: %s, expected %s', what, s, sorted(got[s]), sorted(w))
        for n in w:
            require(got[s][n] == w[n], '%s: %s/%s is %s, expected %s', what, s, n, got[s][n], w[n])


def number(m, frac, e):
    """m is a 7-digit integer, frac thousandths of its last digit."""
    return float('%d.%03de%d' % (m, frac, e))


def build(case):
    """The two dictionaries, and which quantities differ visibly (in the first seven digits)."""
    d1, d2, differ = {}, {}, set()
    special = {'nan': np.nan, 'inf': np.inf, '-inf': -np.inf, '0': 0.0}

    def value(v):
        if v is None:
            return None
        if isinstance(v, str):
            return special[v]
        m, frac, e, sign = v
        return sign * number(m, frac, e)

    for s, qs in case['sections']:
        d1[s], d2[s] = {}, {}
        for q in qs:
            n, ch = q['name'], q['change']
            if 'value' in q:
                a, b = q['value'], q['value']
                real = isinstance(a, list)
                if ch == 'small' and real:
                    b = [a[0], (a[1] + 200) % 400, a[2], a[3]]
                elif ch == 'big' and real:
                    b = [a[0] + (1 if a[0] < 9999999 else -1), a[1], a[2], a[3]]
                    differ.add((s, n))
                elif ch == 'cross' and real:
                    # less than one unit of the seventh digit, but rounded differently
                    a, b = [a[0], 400 + a[1] % 95, a[2], a[3]], [a[0], 510 + a[1] % 90, a[2], a[3]]
                    differ.add((s, n))
                elif ch == 'sign' and real:
                    b = [a[0], a[1], a[2], -a[3]]
                    differ.add((s, n))
                elif ch == 'scale' and real:
                    b = [a[0], a[1], a[2] + 1, a[3]]
                    differ.add((s, n))
                elif ch == 'none':
                    b = [1234567, 0, 0, 1] if a is None else None
                    differ.add((s, n))
                elif ch == 'array':
                    d1[s][n] = {'value': value(a)}
                    d2[s][n] = {'data': {'x': np.array([1.0])}}
                    differ.add((s, n))
                    continue
                elif ch == 'nan' and a != 'nan':
                    b = 'nan'
                    differ.add((s, n))
                d1[s][n], d2[s][n] = {'value': value(a)}, {'value': value(b)}
            else:
                A = [[k, list(v)] for k, v in q['data']]
                B = copy.deepcopy(A)
                i, j = q['at'][0] % len(B), 0
                j = q['at'][1] % len(B[i][1])
                x = B[i][1][j]
                real = isinstance(x, list)
                if ch == 'small' and real:
                    x[1] = (x[1] + 200) % 400
                elif ch == 'big' and real:
                    x[0] += 1 if x[0] < 9999999 else -1
                    differ.add((s, n))
                elif ch == 'cross' and real:
                    A[i][1][j] = [x[0], 400 + x[1] % 95, x[2], x[3]]
                    x[1] = 510 + x[1] % 90
                    differ.add((s, n))
                elif ch == 'sign' and real:
                    x[3] = -x[3]
                    differ.add((s, n))
                elif ch == 'scale' and real:
                    x[2] += 1
                    differ.add((s, n))
                elif ch == 'none':
                    B[i][1].append([1000001, 0, 0, 1])
                    differ.add((s, n))
                elif ch == 'array':
                    B[i][0] += 'z'
                    differ.add((s, n))
                elif ch == 'extra':
                    B.append(['more', [[1000001, 0, 0, 1]]])
                    differ.add((s, n))
                elif ch == 'nan' and x != 'nan':
                    B[i][1][j] = 'nan'
                    differ.add((s, n))
                d1[s][n] = {'data': {k: np.array([value(y) for y in v], dtype=float) for k, v in A}}
                d2[s][n] = {'data': {k: np.array([value(y) for y in v], dtype=float) for k, v in B}}
            if q['only'] == 1:
                del d2[s][n]
            elif q['only'] == 2:
                del d1[s][n]
    for s, qs in case['sections']:
        # every section keeps an entry so that it exists in the file
        for d in (d1, d2):
            if not d[s]:
                d[s]['qkeep'] = {'value': 1.0}
    if case['drop'] is not None:
        who, k = case['drop']
        d = (d1, d2)[who]
        if len(d) > 1:
            del d[sorted(d)[k % len(d)]]
    return d1, d2, differ


def check(case, ctx):
    d1, d2, differ = build(case)
    x1, x2 = dict_to_xml(d1), dict_to_xml(d2)
    want = expected(d1, d2, differ)
    judge(compare_xml(x1, x2), want, 'compared')
    judge(compare_xml(x2, x1), want, 'swapped')
    for x, d in ((x1, d1), (x2, d2)):
        judge(compare_xml(x, x), expected(d, d, set()), 'itself')
    if case['files']:
        with D.scratch() as tmp:
            p1, p2, rep = (os.path.join(tmp, n) for n in ('a.xml', 'b.xml', 'report.txt'))
            dict_to_xml(d1, filename=p1)
            dict_to_xml(d2, filename=p2)
            if len(case['sections']) % 2:
                # an older report is replaced
                with open(rep, 'w') as f:
                    f.write('older report\n' * 300)
            t = compare_xml(p1, p2, filename=rep)
            with open(rep) as f:
                content = f.read()
            judge(content, want, 'report file')
            require(t == content, 'returned text and report file differ')
    verdicts = [v for w in want.values() for v in (w.values() if isinstance(w, dict) else [w])]
    ctx.label('all OK' if 'FAIL' not in verdicts else 'all FAIL' if 'OK' not in verdicts else 'mixed',
              'sections differ' if 'FAIL' in want.values() else 'same sections', 'files' if case['files'] else 'texts')
    for s, qs in case['sections']:
        for q in qs:
            ctx.label('%s %s' % ('value' if 'value' in q else 'array', q['change']))
    if 'FAIL' not in verdicts and not any(q['change'] == 'small' for _s, qs in case['sections'] for q in qs):
        ctx.trivial()


NAME = st.text('abcdefghijklmnopqrstuvwxyz0123456789_', min_size=1, max_size=12).map(lambda s: 'q' + s)
REAL = st.tuples(st.one_of(st.integers(1000001, 9999998), st.sampled_from([1234567, 5000000, 1000001, 9999999])),
                 st.integers(0, 399), st.one_of(st.integers(-12, 4), st.integers(-320, 300), st.integers(-320, -300)), st.sampled_from([1, 1, -1])).map(list)
ITEM = st.one_of(REAL, REAL, REAL, st.sampled_from(['nan', 'inf', '0', '-inf']))
CHANGE = st.sampled_from(['same', 'same', 'same', 'small', 'small', 'big', 'big', 'cross', 'sign', 'scale', 'none', 'array', 'nan', 'extra'])


@st.composite
def cases(draw):
    out = []
    quiet = draw(st.integers(0, 2)) == 0
    for s in draw(st.lists(NAME, min_size=1, max_size=4, unique=True)):
        qs = []
        for n in draw(st.lists(NAME.filter(lambda n: n != 'qkeep'), min_size=1, max_size=5, unique=True)):
            q = {'name': n, 'change': draw(st.sampled_from(['same', 'small'])) if quiet else draw(CHANGE),
                 'only': 0 if quiet else draw(st.sampled_from([0] * 6 + [1, 2]))}
            if draw(st.booleans()):
                q['value'] = draw(st.one_of(ITEM, ITEM, st.none()))
            else:
                q['data'] = [[k, draw(st.lists(ITEM, min_size=1, max_size=6))] for k in
                             draw(st.lists(st.sampled_from(['bins', 'values', 'model', 'x']), min_size=1, max_size=3,
                                           unique=True))]
                q['at'] = [draw(st.integers(0, 9)), draw(st.integers(0, 9))]
            qs.append(q)
        out.append([s, qs])
    return {'sections': out, 'files': draw(st.sampled_from([False, False, True])),
            'drop': draw(st.one_of(st.none(), st.none(), st.tuples(st.integers(0, 1), st.integers(0, 5)).map(list)))}


def check_real(case, ctx):
    """Exports of real evaluations: identical, and with one raw figure changed."""
    data = Data1288(D.loader_dict(simdata.images(case['s']))).data
    if not simdata.usable(data):
        ctx.trivial()
        return
    r = Results1288(copy.deepcopy(data), pixel_area=case['area'])
    x1 = r.xml()
    by = r.results_by_section
    low = {s.lower(): {n.lower(): i for n, i in q.items()} for s, q in by.items()}
    judge(compare_xml(x1, x1), {s: {n: 'OK' for n in q} for s, q in low.items()}, 'itself')
    other = Results1288(copy.deepcopy(data), pixel_area=case['area'] * 2 if case['area'] else 4.0)
    want = {s: {n: 'FAIL' if n.endswith('_area') else 'OK' for n in q} for s, q in low.items()}
    judge(compare_xml(x1, other.xml()), want, 'other pixel area')
    ctx.label('area' if case['area'] else 'no area')


@st.composite
def real_cases(draw):
    return {'s': draw(simdata.sims(equal_l=True)), 'area': draw(st.one_of(st.none(), gen.logfloat(0.5, 500)))}


def check_broken(case, ctx):
    """A file that cannot be read never compares as equal, not even with itself."""
    d1, d2, _differ = build(case['pair'])
    x1, x2 = dict_to_xml(d1), dict_to_xml(d2)
    how, k = case['how'], case['k']
    end = x2.rstrip()
    bad = {'cut': end[:k % len(end)], 'empty': b'', 'tag': end.replace(b'<q', b'<Q', 1), 'noise': b'\x00' + end,
           'prefix': b'value' + end, 'twice': end + end}[how] if how != 'missing' else None
    with D.scratch() as tmp:
        if how == 'missing':
            bad = os.path.join(tmp, 'missing.xml')
        elif case['file']:
            bad_path = os.path.join(tmp, 'bad.xml')
            with open(bad_path, 'wb') as f:
                f.write(bad)
            bad = bad_path
        elif case['text'] and how != 'noise':
            bad = bad.decode()
        with contextlib.redirect_stdout(io.StringIO()):
            require(xml_to_dict(bad) is None, 'an unreadable file is read as %r', short(xml_to_dict(bad)))
            for a, b in ((x1, bad), (bad, x1), (bad, bad)):
                t = compare_xml(a, b)
                require(not any(l.endswith('OK') for l in (t or '').split('\n')), 'an unreadable file compares as %s', short(t))
    ctx.label('broken ' + how, 'file' if case['file'] else 'text')


SUBS = [Sub('broken', lambda tier: st.fixed_dictionaries({
            'pair': cases(), 'how': st.sampled_from(['cut', 'cut', 'cut', 'empty', 'tag', 'noise', 'prefix', 'twice', 'missing']),
            'k': st.integers(0, 10 ** 6), 'file': st.booleans(), 'text': st.booleans()}), check_broken, 500, 8000,
            'files cut short, damaged, empty or missing: reported as unreadable and never as equal'),
        Sub('pairs', lambda tier: cases(), check, 2500, 60000,
            'two result files that are equal, or differ in single values/array elements beyond or within the seventh '
            'digit, in sign, magnitude, absence, not-a-number, array length or name, additional arrays, missing quantities or sections; '
            'verdict of every line, swapped, and each file with itself; non-trivial when anything differs'),
        Sub('exports', lambda tier: real_cases(), check_real, 150, 3000,
            'the export of an evaluated data set against itself and against one with another pixel area')]
