"""C26: results are a pure function of the data, whatever is asked in which order."""
import contextlib
import copy
import io
import os
import pickle

import numpy as np
from hypothesis import strategies as st
from matplotlib.figure import Figure

from emva1288.process.data import Data1288
from emva1288.process.loader import LoadImageData
from emva1288.process.parser import ParseEmvaDescriptorFile
from emva1288.process.plotting import EVMA1288plots
from emva1288.process.results import Results1288
from .. import dataset as D
from .. import figdump
from .. import gen
from .. import simdata
from ..core import HarnessError, Sub, Violation, require, short
from .catalogue import CATALOGUE

PLOTS = {p.__name__: p for p in EVMA1288plots}
WHOLE = ['results', 'by_section', 'xml', 'xmlfile', 'print']


def difference(a, b, path=''):
    """Where two nested plain values differ, or None."""
    if isinstance(a, dict) and isinstance(b, dict):
        if set(a) != set(b):
            return '%s: keys %s' % (path, sorted(map(str, set(a) ^ set(b))))
        for k in a:
            d = difference(a[k], b[k], '%s/%s' % (path, k))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d and %d items' % (path, len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, '%s[%d]' % (path, i))
            if d:
                return d
        return None
    if isinstance(a, np.ma.MaskedArray) or isinstance(b, np.ma.MaskedArray):
        x, y = np.ma.getmaskarray(a), np.ma.getmaskarray(b)
        if x.shape != y.shape or not np.array_equal(x, y):
            return '%s: masks differ' % path
        a, b = np.where(x, 0, np.ma.getdata(a)), np.where(y, 0, np.ma.getdata(b))
    if isinstance(a, (np.ndarray, np.generic, float, int)) and isinstance(b, (np.ndarray, np.generic, float, int)):
        x, y = np.asarray(a), np.asarray(b)
        nan = x.dtype.kind in 'fc' and y.dtype.kind in 'fc'
        if x.shape == y.shape and np.array_equal(x, y, equal_nan=nan):
            return None
    elif type(a) is type(b) and a == b:
        return None
    return '%s: %s and %s' % (path, short(a, 120), short(b, 120))


def ask(r, q, tmp):
    """The answer to one query, as plain data; a refusal is an answer as well."""
    try:
        if q in PLOTS:
            fig = Figure()
            p = PLOTS[q](fig)
            p.plot(r)
            p.rearrange()
            return figdump.figure(fig)
        if q == 'results':
            return r.results
        if q == 'by_section':
            return r.results_by_section
        if q == 'xml':
            return r.xml()
        if q == 'xmlfile':
            path = os.path.join(tmp, 'out.xml')
            with contextlib.suppress(OSError):
                os.remove(path)
            r.xml(path)
            with open(path, 'rb') as f:
                return f.read()
        if q == 'print':
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                r.print_results()
            return out.getvalue()
        v = getattr(r, q)
        return v() if callable(v) else v
    except Exception as e:
        return 'raises ' + type(e).__name__


def in_child(fn):
    """Run fn in a forked process, so that no state of the code under test outlives it; returns its (pickled) value."""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(rd)
            try:
                out = ('ok', fn())
            except Violation as e:
                out = ('violation', str(e))
            except BaseException as e:
                import traceback
                out = ('error', '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:]))
            with os.fdopen(wr, 'wb') as f:
                pickle.dump(out, f, protocol=4)
        finally:
            os._exit(0)
    os.close(wr)
    with os.fdopen(rd, 'rb') as f:
        raw = f.read()
    os.waitpid(pid, 0)
    if not raw:
        raise HarnessError('child died')
    kind, v = pickle.loads(raw)
    if kind == 'violation':
        raise Violation(v)
    if kind == 'error':
        raise RuntimeError(v)
    return v


def options(ev, data):
    kw = {}
    if ev['area'] is not None:
        kw['pixel_area'] = ev['area']
    if ev['sat'] is not None:
        kw['index_u_ysat'] = ev['sat'] % len(data['temporal']['u_y'])
    return kw


def evaluation(data, ev):
    r = Results1288(data, **options(ev, data))
    r.id = r.name = 'camera'
    return r


def converted(raw, mask):
    """The data of an evaluation, possibly of the pixels of one colour only."""
    data = Data1288(copy.deepcopy(raw)).data
    if mask:
        s = data['spatial']
        y, x = np.indices(s['sum'].shape)
        m = {'bayer': (y % 2 == 1) | (x % 2 == 1), 'red': (y % 2 == 0) | (x % 2 == 0), 'checker': (y + x) % 2 == 1, 'lines': y % 2 == 1}[mask]
        for k in ('sum', 'sum_dark'):
            s[k] = np.ma.masked_array(s[k], m)
    return data


def check_history(case, ctx):
    raws = [D.loader_dict(simdata.images(s)) for s in case['sims']]
    evs = [dict(e, data=e['data'] % len(raws)) for e in case['evals']]
    hist = [(e % len(evs), q) for e, q in case['asks']]
    with D.scratch() as tmp:
        def reference(k):
            # a fresh evaluation of a fresh copy for every single query, in an order of its own
            def run():
                out = {}
                data = converted(raws[evs[k]['data']], evs[k]['mask'])
                with figdump.fast():
                    for q in sorted({q for e, q in hist if e == k}):
                        out[q] = ask(evaluation(copy.deepcopy(data), evs[k]), q, tmp)
                return out
            return in_child(run)

        def history():
            datas = {}
            for e in evs:
                key = '%d %s' % (e['data'], e['mask'])
                if key not in datas:
                    datas[key] = converted(raws[e['data']], e['mask'])
            kept = copy.deepcopy(datas)
            tests = [evaluation(datas['%d %s' % (e['data'], e['mask'])], e) for e in evs]
            answers = []
            with figdump.fast():
                for n, (e, q) in enumerate(hist):
                    answers.append(ask(tests[e], q, tmp))
                    d = difference(datas, kept)
                    require(d is None, 'data modified by %s (query %d): %s', q, n, d)
                    for ev, t in zip(evs, tests):
                        require(t.pixel_area == ev['area'], 'pixel area of an evaluation changed to %s by %s', t.pixel_area, q)
            return answers

        want = {k: reference(k) for k in sorted({e for e, q in hist})}
        got = in_child(history)
        for n, (e, q) in enumerate(hist):
            d = difference(got[n], want[e][q])
            require(d is None, 'query %d (%s of evaluation %d) differs from a fresh evaluation asked only for that: %s', n, q, e, d)
    refused = sum(1 for g in got if isinstance(g, str) and g.startswith('raises '))
    used = {evs[e]['data'] for e, q in hist}
    ctx.label('evaluations %d' % len({e for e, q in hist}), 'repeated query' if len(set(hist)) < len(hist) else 'no repetition',
              ('sibling' if case['sims'][0]['steps'] == case['sims'][1]['steps'] else 'several') + ' data sets' if len(used) > 1
              else 'one data set',
              'shared data' if len({e for e, q in hist}) > len(used) else 'own data',
              'some refused' if refused else 'all answered')
    for what, names in (('plots', PLOTS), ('whole', WHOLE)):
        if any(q in names for e, q in hist):
            ctx.label(what)
    if any(evs[e]['mask'] for e, q in hist):
        ctx.label('masked', '%d masks' % len({evs[e]['mask'] for e, q in hist}))
    if any(evs[e]['sat'] is not None for e, q in hist):
        ctx.label('saturation index given')
    if len(hist) < 2 or refused == len(hist):
        ctx.trivial()


@st.composite
def histories(draw, longest):
    sims = [draw(simdata.sims(max_dim=9, max_l=4, min_dim=2, min_steps=4, max_steps=12))]
    other = draw(st.sampled_from(['none', 'sibling', 'sibling', 'independent']))
    if other == 'independent':
        sims.append(draw(simdata.sims(max_dim=9, max_l=4, min_dim=2, min_steps=4, max_steps=12)))
    elif other == 'sibling':
        # the same geometry, steps and photon counts: whatever is remembered by those is found out
        sims.append(dict(sims[0], **draw(st.fixed_dictionaries({'seed': gen.seeds()}, optional={
            'dark': st.sampled_from([0.3, 1.5, 4.0]), 'dsnu': st.sampled_from([0.0, 0.5, 3.0]), 'prnu': st.sampled_from([0.0, 0.08]),
            'current': st.sampled_from([0.0, 2.0])}))))
    evals = [draw(st.fixed_dictionaries({
        'data': st.integers(0, 1), 'mask': st.sampled_from([''] * 5 + ['bayer', 'red', 'checker', 'lines']), 'area': st.one_of(st.none(), st.sampled_from([2.5, 30.25])),
        'sat': st.one_of(st.none(), st.none(), st.just(0), st.integers(0, 11))})) for _ in range(draw(st.sampled_from([1, 2, 3])))]
    q = st.one_of(st.sampled_from(sorted(CATALOGUE)), st.sampled_from(sorted(CATALOGUE)), st.sampled_from(sorted(PLOTS)),
                  st.sampled_from(['index_u_ysat', 'linearity', 'K', 'R', 'histogram_PRNU', 'histogram_DSNU_accumulated', 's2q'] + WHOLE))
    n = draw(st.integers(4, longest))
    asks = draw(st.lists(st.tuples(st.integers(0, 2), q).map(list), min_size=n, max_size=n))
    return {'sims': sims, 'evals': evals, 'asks': asks}


def check_loading(case, ctx):
    ds = case['ds']
    imgs = D.images_of(ds)
    with D.scratch() as tmp:
        names = D.write_files(imgs, tmp, case['fmts'])
        desc = D.write_descriptor(os.path.join(tmp, 'd.txt'), names, ds, order=case['order'])
        files = {}
        for n in sorted(os.listdir(tmp)):
            with open(os.path.join(tmp, n), 'rb') as f:
                files[n] = f.read()

        def history():
            have = {'p': [], 'l': [], 'd': []}
            first, kept = {}, {'p': [], 'l': [], 'd': []}
            view = {'p': lambda p: (p.images, p.format, p.version), 'l': lambda l: l.data, 'd': lambda d: d.data}
            for n, (k, i) in enumerate([['p', 0], ['l', 0], ['d', 0]] + case['ops']):
                if k == 'p':
                    new = ParseEmvaDescriptorFile(desc)
                elif k == 'l':
                    new = LoadImageData(have['p'][i % len(have['p'])].images)
                else:
                    src = have['l'][i % len(have['l'])].data
                    new = Data1288(src, pixels=None)
                have[k].append(new)
                kept[k].append(copy.deepcopy(view[k](new)))
                first.setdefault(k, kept[k][0])
                d = difference(kept[k][-1], first[k])
                require(d is None, 'step %d (%s %d): repeated run differs: %s', n, k, i, d)
                for kk in have:
                    for h, c in zip(have[kk], kept[kk]):
                        d = difference(view[kk](h), c)
                        require(d is None, 'step %d (%s %d) changed an earlier result of %s: %s', n, k, i, kk, d)
            return None

        in_child(history)
        now = {}
        for n in sorted(os.listdir(tmp)):
            with open(os.path.join(tmp, n), 'rb') as f:
                now[n] = f.read()
        require(now == files, 'files changed: %s', [n for n in set(now) | set(files) if now.get(n) != files.get(n)])
    ctx.label('steps %d' % min(6, len(case['ops'])), *sorted({k for k, i in case['ops']}))
    if len({k for k, i in case['ops']}) < 2:
        ctx.trivial()


@st.composite
def loading_cases(draw):
    ds = draw(D.datasets(max_dim=6, max_exposures=3, max_bright=2, max_l=4))
    fmts = draw(st.lists(st.sampled_from(D.FORMATS8 if ds['bits'] == 8 else D.FORMATS16), min_size=1, max_size=3))
    return {'ds': ds, 'fmts': fmts, 'order': draw(st.one_of(st.none(), gen.seeds())),
            'ops': draw(st.lists(st.tuples(st.sampled_from('pld'), st.integers(0, 5)).map(list), min_size=4, max_size=10))}


SUBS = [Sub('queries', lambda tier: histories(14 if tier == 'quick' else 40), check_history, 1200, 8000,
            '1..2 data sets, 1..3 evaluations of them (own or shared data, pixel area and saturation index options) and up to 14 '
            '(thorough 40) queries of values, histograms, exports and plots, each answer bit-identical to a fresh evaluation in '
            'a process of its own; non-trivial with two or more queries that are not all refused'),
        Sub('loading', lambda tier: loading_cases(), check_loading, 600, 12000,
            'a data set on disk and a history of parsing, loading and converting, reusing earlier results as inputs; all '
            'repetitions identical, inputs and files unchanged; non-trivial with two kinds of steps')]
