"""C31: quantities documented with the emva1288 directive are listed as documented."""
import numpy as np
from hypothesis import strategies as st

from emva1288.process import routines
from ..core import Sub, require, same
from .c17 import NUM, array, jsonable, num

TAGS = ['section', 'short', 'symbol', 'unit', 'latexname', 'extra', 'note2']
NAMES = st.text('abcdefghijklmnopqrstuvwxyzABCXYZ0123456789_', min_size=0, max_size=10).map(lambda s: 'q' + s)
WORD = st.text('abcXYZ$\\{}^_<>&"\'./%µé²()=-+', min_size=1, max_size=8)
VALUE = st.lists(st.one_of(WORD, WORD, st.sampled_from(['a:b', '::', ':x:', ':', '\\mu_{d}', '0.5', '-', 'like .. emva1288:: x'])), min_size=1, max_size=4).map(' '.join)
PROSE = st.one_of(st.lists(WORD, min_size=1, max_size=4).map(' '.join),
                  st.sampled_from(['no .. emva1288:: directive', 'emva1288::', 'see :section: x .. emva1288::', '. emva1288::']))


def docstring(q):
    """The docstring of a quantity and the tags it documents (None without a directive)."""
    pad, lines, info = ' ' * q['indent'], [], None
    for part in q['parts']:
        if part['kind'] == 'prose':
            lines += [pad + x for x in part['lines']]
        elif part['kind'] == 'fields':
            # a field list that does not belong to a directive
            lines += [pad + ':%s: %s' % (t, v) for t, v in part['tags']]
        else:
            lines.append(pad + '.. emva1288::' + ' ' * part['trail'])
            for t, v in part['tags']:
                name = t.capitalize() if part['caps'] else t
                lines.append(pad + ' ' * part['inner'] + ':%s:%s%s' % (name, ' ' * part['gap'], v))
                info = {} if info is None else info
                info[t] = v.strip()
            if part['junk']:
                lines.insert(len(lines) - part['junk'] % (len(part['tags']) + 1), pad + ' ' * part['inner'] + 'no tag')
                info = {} if info is None else info
        lines.append(pad if q['spaces'] else '')
    return '\n'.join(lines), info


def build(case):
    ns, want = {}, {}
    for q in case['quantities']:
        doc, info = docstring(q)
        if q['kind'] == 'constant':
            # plain attributes have no docstring of their own
            ns[q['name']] = 5
            continue
        if 'data' in q:
            v = {n: array(vals, kind) for n, vals, kind in q['data']}
        else:
            v = num(q['value'])

        def f(self, v=v, name=q['name']):
            self.asked.append(name)
            return v
        f.__doc__ = doc if q['parts'] else None
        ns[q['name']] = property(f, doc=f.__doc__) if q['kind'] == 'property' else f
        if info is not None:
            info.setdefault('section', 'other')
            want[q['name']] = (info, v)

    def init(self):
        self.asked = []
    ns['__init__'] = init
    ns['__doc__'] = case['doc']
    return type('T', (object,), ns), want


def plain(d):
    return {k: v for k, v in d.items() if k not in ('value', 'data')}


def check_documented(case, ctx):
    cls, want = build(case)
    for turn in ('first', 'second'):
        got = routines.cls_1288_info(cls)
        require(list(got) == sorted(want), '%s call: quantities %s, documented are %s', turn, list(got), sorted(want))
        for name in got:
            require(dict(got[name]) == want[name][0], '%s call: %s is documented as %s, got %s', turn, name, want[name][0], dict(got[name]))
        obj = cls()
        res = routines.obj_to_dict(obj)
        require(list(res) == sorted(want), '%s call: results %s, documented are %s', turn, list(res), sorted(want))
        require(set(obj.asked) == set(want), 'asked for %s', obj.asked)
        for name in res:
            info, v = want[name]
            require(plain(res[name]) == info, '%s call: %s is documented as %s, result has %s', turn, name, info, plain(res[name]))
            key = 'data' if isinstance(v, dict) else 'value'
            require(set(res[name]) - set(info) == {key}, '%s has %s', name, sorted(res[name]))
            if key == 'data':
                require(set(res[name]['data']) == set(v), 'arrays of %s: %s', name, sorted(res[name]['data']))
                for k in v:
                    same(res[name]['data'][k], v[k], '%s/%s' % (name, k))
            else:
                same(res[name]['value'], v, name)
    n = len(want)
    ctx.label('documented %s' % ('0' if not n else '1' if n == 1 else '2+'),
              'default section' if any(i['section'] == 'other' for i, _v in want.values()) else 'own section')
    if not n:
        ctx.trivial()


@st.composite
def parts(draw):
    k = draw(st.sampled_from(['prose', 'directive', 'directive', 'fields']))
    if k == 'prose':
        return {'kind': k, 'lines': draw(st.lists(PROSE, min_size=1, max_size=3))}
    tags = [[t, draw(VALUE)] for t in draw(st.lists(st.sampled_from(TAGS), min_size=1, max_size=5, unique=True))]
    if k == 'fields':
        return {'kind': k, 'tags': tags}
    return {'kind': k, 'tags': tags, 'caps': draw(st.booleans()), 'inner': draw(st.sampled_from([0, 2, 4, 4])),
            'gap': draw(st.integers(1, 3)), 'trail': draw(st.sampled_from([0, 0, 1])), 'junk': draw(st.sampled_from([0, 0, 0, 1, 2]))}


@st.composite
def quantities(draw, name):
    q = {'name': name, 'kind': draw(st.sampled_from(['method', 'property', 'property', 'constant'])),
         'indent': draw(st.sampled_from([0, 4, 8])), 'spaces': draw(st.booleans()), 'parts': draw(st.lists(parts(), max_size=4))}
    if draw(st.integers(0, 3)) == 0:
        q['data'] = [[n, draw(st.lists(NUM.map(jsonable), max_size=5)), 'f'] for n in draw(st.lists(NAMES, max_size=3, unique=True))]
    else:
        q['value'] = draw(st.one_of(st.just('None'), NUM.map(jsonable)))
    return q


@st.composite
def cases(draw):
    names = draw(st.lists(NAMES, max_size=7, unique=True))
    return {'quantities': [draw(quantities(n)) for n in names], 'doc': draw(st.sampled_from([None, 'text', 'more text\n\n:section: x']))}


SUBS = [Sub('documented', lambda tier: cases(), check_documented, 3000, 80000,
            'a class with 0..7 methods, properties and constants, whose docstrings mix prose, field lists and emva1288 directives; '
            'listed quantities, tags, default section and values against the generated ones; non-trivial when any quantity is '
            'documented')]
