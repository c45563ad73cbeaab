"""C17: results catalogue and XML export/import."""
import copy
import os
import xml.etree.ElementTree as ET

import numpy as np
from hypothesis import strategies as st

from emva1288.process.data import Data1288
from emva1288.process.results import Results1288
from emva1288.process.routines import dict_to_xml, xml_to_dict
from .. import dataset as D
from .. import gen
from .. import simdata
from ..core import Sub, require, same, short
from .catalogue import CATALOGUE


def equal(a, b, what):
    """Exactly the same value: number, None, or dictionary of arrays."""
    if isinstance(a, dict) or isinstance(b, dict):
        require(isinstance(a, dict) and isinstance(b, dict) and set(a) == set(b), '%s: %s and %s', what, short(a), short(b))
        for k in a:
            same(a[k], b[k], '%s/%s' % (what, k))
    else:
        same(a, b, what)


def ask(r, name):
    v = getattr(r, name)
    return v() if callable(v) else v


def check_results(case, ctx):
    data = Data1288(D.loader_dict(simdata.images(case['s']))).data
    if not simdata.usable(data):
        ctx.trivial()
        ctx.label('degenerate series')
        return
    new = lambda: Results1288(copy.deepcopy(data), pixel_area=case['area'])
    r = new()
    res = r.results
    require(set(CATALOGUE) <= set(res), 'missing quantities: %s', sorted(set(CATALOGUE) - set(res)))
    for name, (section, descr, symbol, unit, kind) in CATALOGUE.items():
        got = res[name]
        for field, want in (('section', section), ('short', descr), ('symbol', symbol), ('unit', unit)):
            require(got.get(field) == want, '%s: %s is %r, expected %r', name, field, got.get(field), want)
        require((kind in got) and (('data' if kind == 'value' else 'value') not in got), '%s has %s', name, sorted(got))
        equal(got[kind], ask(new(), name), name)
    by = r.results_by_section
    seen = {}
    for section, quantities in by.items():
        for name, info in quantities.items():
            require(name not in seen, '%s listed in %s and %s', name, seen.get(name), section)
            seen[name] = section
            require(info.get('section') == section, '%s of section %s listed under %s', name, info.get('section'), section)
            for k in ('value', 'data'):
                if k in res[name] or k in info:
                    equal(info[k], res[name][k], 'by section: ' + name)
    require(set(seen) == set(res), 'by section: %s', sorted(set(seen) ^ set(res)))
    # export
    text = r.xml()
    with D.scratch() as tmp:
        path = os.path.join(tmp, 'r.xml')
        require(new().xml(filename=path) is None, 'returns something although a file was given')
        with open(path, 'rb') as f:
            require(f.read().strip() == text.strip(), 'file and returned text differ')
        read = [('text', xml_to_dict(text)), ('file', xml_to_dict(path)), ('string', xml_to_dict(text.decode()))]
    root = ET.fromstring(text)
    require({e.tag for e in root} == set(by), 'sections in the file: %s', [e.tag for e in root])
    for section in root:
        require([e.tag for e in section] and sorted(e.tag for e in section) == sorted(by[section.tag]),
                'section %s in the file: %s', section.tag, [e.tag for e in section])
    for what, back in read:
        require(isinstance(back, dict) and set(back) == {s.lower() for s in by}, '%s: sections %s', what, short(back))
        for section, quantities in by.items():
            b = back[section.lower()]
            require(set(b) == {n.lower() for n in quantities}, '%s: quantities of %s: %s', what, section, sorted(b))
            for name, info in quantities.items():
                one = b[name.lower()]
                for field in ('section', 'short', 'symbol', 'unit'):
                    require(one.get(field) == info.get(field), '%s: %s of %s is %r', what, field, name, one.get(field))
                if 'data' in info:
                    require(set(one['data']) == set(info['data']), '%s: arrays of %s: %s', what, name, sorted(one['data']))
                    for k in info['data']:
                        same(np.asarray(one['data'][k], float), np.asarray(info['data'][k], float),
                             '%s: %s/%s' % (what, name, k))
                else:
                    v = info['value']
                    same(one['value'], None if v is None else float(v), '%s: %s' % (what, name))
    nan = sum(1 for i in res.values() if isinstance(i.get('value'), float) and np.isnan(i['value']))
    ctx.label('area' if case['area'] else 'no area', 'with nan' if nan else 'all numbers', case['s']['mode'])


@st.composite
def result_cases(draw):
    return {'s': draw(simdata.sims(equal_l=True)), 'area': draw(st.one_of(st.none(), gen.logfloat(0.5, 500)))}


NAMES = st.text('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_', min_size=1, max_size=10).map(lambda s: 'q' + s)
NUM = st.one_of(st.floats(allow_nan=True, allow_infinity=True), st.integers(-10 ** 12, 10 ** 12), st.floats(0.1, 1e6),
                st.just(0.0), st.sampled_from([5e-324, 1.7976931348623157e308, 1e16, 123456789.123456789, -0.0, 1e-5]))
WORDS = st.text('abcXYZ $\\{}^_<>&"\'./%µé²', max_size=12).map(lambda s: 'w' + s + 'w')


def jsonable(x):
    """Floats as text so that not-a-number survives the replay file."""
    return repr(x)


def num(s):
    return float(s) if s not in ('None',) else None


@st.composite
def dict_cases(draw):
    out = []
    for section in draw(st.lists(NAMES, min_size=1, max_size=4, unique_by=str.lower)):
        qs = []
        for name in draw(st.lists(NAMES, min_size=1, max_size=5, unique_by=str.lower)):
            q = {'name': name, 'info': draw(st.lists(st.tuples(st.sampled_from(['short', 'symbol', 'unit', 'section']),
                                                              WORDS).map(list), max_size=3))}
            k = draw(st.integers(0, 3))
            if k == 0:
                q['data'] = [[n, draw(st.lists(NUM.map(jsonable), min_size=1, max_size=8)), draw(st.sampled_from(['f', 'i'])),
                              draw(st.sampled_from([1] * 30 + [40, 300, 2500]))]
                             for n in draw(st.lists(NAMES, min_size=1, max_size=3, unique_by=str.lower))]
            elif k == 1:
                q['value'] = 'None'
            else:
                q['value'] = draw(NUM.map(jsonable))
                q['np'] = draw(st.booleans())
            qs.append(q)
        out.append([section, qs])
    return {'sections': out, 'root': draw(st.sampled_from(['results', 'x']))}


def array(vals, kind, often=1):
    a = np.tile(np.array([num(v) for v in vals], dtype=np.float64), often)
    if kind == 'i' and np.isfinite(a).all() and (np.abs(a) < 2 ** 52).all():
        return a.astype(np.int64)
    return a


def check_dict(case, ctx):
    d = {}
    for section, qs in case['sections']:
        d[section] = {}
        for q in qs:
            i = dict(map(tuple, q['info']))
            if 'data' in q:
                i['data'] = {n: array(v, k, r) for n, v, k, r in q['data']}
            else:
                v = num(q['value'])
                i['value'] = np.float64(v) if q.get('np') else v
            d[section][q['name']] = i
    before = copy.deepcopy(d)
    text = dict_to_xml(d, root=case['root'])
    with D.scratch() as tmp:
        path = os.path.join(tmp, 'some file.xml')
        dict_to_xml(d, root=case['root'], filename=path)
        backs = [xml_to_dict(text), xml_to_dict(path)]
    require(ET.fromstring(text).tag == case['root'], 'root element %s', ET.fromstring(text).tag)
    for back in backs:
        require(back is not None and set(back) == {s.lower() for s in d}, 'sections %s', short(back))
        for s in d:
            require(set(back[s.lower()]) == {n.lower() for n in d[s]}, 'quantities %s', sorted(back[s.lower()]))
            for n, info in before[s].items():
                one = back[s.lower()][n.lower()]
                require(set(one) == set(info), '%s/%s: fields %s, expected %s', s, n, sorted(one), sorted(info))
                for f, v in info.items():
                    if f == 'data':
                        require(set(one[f]) == {k.lower() for k in v}, 'arrays %s', sorted(one[f]))
                        for k in v:
                            same(np.asarray(one[f][k.lower()], float), np.asarray(v[k], float), '%s/%s/%s' % (s, n, k))
                    elif f == 'value':
                        same(one[f], None if v is None else float(v), '%s/%s' % (s, n))
                    else:
                        require(one[f] == v, '%s/%s: %s is %r, expected %r', s, n, f, one[f], v)
    # files of other writers: numbers with decimal commas, absent values in lower case
    other = {s: {n: dict(i, value=('none' if i['value'] is None else str(i['value']).replace('.', ','))) for n, i in q.items() if 'value' in i}
             for s, q in d.items()}
    other = {s: q for s, q in other.items() if q}
    back = xml_to_dict(dict_to_xml(other))
    for s, q in other.items():
        for n in q:
            v = d[s][n]['value']
            same(back[s.lower()][n.lower()]['value'], None if v is None else float(v), '%s/%s with a decimal comma' % (s, n))
    for s in d:
        for n in d[s]:
            equal({k: v for k, v in d[s][n].items() if k not in ('data', 'value')}, {
                k: v for k, v in before[s][n].items() if k not in ('data', 'value')}, 'input')
    vals = [q for _s, qs in case['sections'] for q in qs]
    ctx.label(*['long array' if any(r > 1 for *_x, r in q.get('data', [])) else 'array' if 'data' in q else 'absent' if q['value'] == 'None' else 'number' for q in vals])


SUBS = [Sub('results', lambda tier: result_cases(), check_results, 300, 6000,
            'the results of a simulated data set with or without pixel area, compared with a fixed catalogue of all 61 '
            'quantities, with fresh single queries, and with the XML text and file read back; non-trivial when the series '
            'has fit ranges'),
        Sub('dictionaries', lambda tier: dict_cases(), check_dict, 3000, 80000,
            'an arbitrary section/quantity dictionary with numbers of any magnitude, not-a-number, infinity, absent values, '
            'float and integer arrays of up to 20000 elements, annotation texts with markup characters; always non-trivial')]
