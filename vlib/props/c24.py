"""C24: report generation."""
import contextlib
import copy
import os
import re
from collections import Counter, OrderedDict

import numpy as np
from hypothesis import strategies as st
from matplotlib.backend_bases import FigureCanvasBase

from emva1288.process.data import Data1288
from emva1288.process.results import Results1288
from emva1288.report.report import Report1288, info_basic, info_marketing, info_op, info_setup
from .. import dataset as D
from .. import figdump
from .. import gen
from .. import simdata
from .. import sut
from ..core import Sub, require, short
from .c25 import NAMES, verify
from .c25 import build as build_data
from .catalogue import CATALOGUE

# decimals of every displayed value, and the ones shown as a dash when missing
SHOWN = [('QE', 2), ('K', 3), ('inverse_K', 3), ('sigma_d', 3), ('sigma_y_dark', 3), ('SNR_max', 0), ('SNR_max_dB', 2),
         ('SNR_max_bit', 1), ('inverse_SNR_max', 3), ('u_p_min', 3), ('u_p_min_area', 3), ('u_e_min', 3), ('u_e_min_area', 3),
         ('u_p_sat', 0), ('u_p_sat_area', 3), ('u_e_sat', 0), ('u_e_sat_area', 0), ('DR', 0), ('DR_dB', 1), ('DSNU1288', 1),
         ('DSNU1288_row', 1), ('DSNU1288_col', 1), ('DSNU1288_pixel', 1), ('PRNU1288', 1), ('PRNU1288_row', 1),
         ('PRNU1288_col', 1), ('PRNU1288_pixel', 1), ('LE_min', 3), ('LE_max', 3), ('u_I_mean', 3), ('u_I_mean_DN', 3),
         ('u_I_var', 3), ('u_I_var_DN', 3)]
DASH = {'u_p_min', 'u_p_min_area', 'u_e_min_area', 'u_p_sat_area', 'u_e_sat_area', 'u_I_mean', 'u_I_mean_DN', 'u_I_var',
        'u_I_var_DN'}
# shown without their symbol
PLAIN = {'SNR_max_dB', 'SNR_max_bit', 'DR_dB', 'u_I_mean_DN', 'u_I_var_DN'}
UNITLESS = {'SNR_max', 'DR'}

BASIC = [('Vendor', 'vendor'), ('Model', 'model'), ('Data type', 'data_type'), ('Sensor type', 'sensor_type'),
         ('Diagonal', 'sensor_diagonal'), ('Lens category', 'lens_category'), ('Resolution', 'resolution'),
         ('Pixel size', 'pixel_size'), ('Maximum readout rate', 'maximum_readout_rate'),
         ('Dark current compensation', 'dark_current_compensation'), ('Interface type', 'interface_type')]
SUFFIX = {'Resolution': ' pixels', 'Pixel size': r' $\mu m$'}
CCD = [('Readout type', 'readout_type'), ('Transfer type', 'transfer_type')]
SETUP = ['Light source', 'Light source non uniformity', 'Irradiation calibration accuracy', 'Irradiation measurement error',
         'Standard version']
CMOS = [('Shutter type', 'shutter_type'), ('Overlap capabilities', 'overlap_capabilities')]


@contextlib.contextmanager
def recorded_figures(out):
    """Instead of rendering a figure, note what it shows and write a stand-in file."""
    keep = FigureCanvasBase.print_figure

    def print_figure(self, filename, *a, **k):
        out[os.path.realpath(str(filename))] = figdump.figure(self.figure)
        with open(filename, 'wb') as f:
            f.write(b'%PDF-stand-in')

    FigureCanvasBase.print_figure = print_figure
    try:
        with figdump.fast():
            yield
    finally:
        FigureCanvasBase.print_figure = keep


def strip_comments(tex):
    return re.sub(r'(?<!\\)%.*', '', tex)


def cells(tex):
    """Rows of cells of all tabulars of a piece of TeX."""
    rows = []
    for body in re.findall(r'\\begin\{tabular\}\{.*?\n(.*?)\\end\{tabular\}', tex, re.S):
        for row in re.split(r'\\\\', body):
            row = re.sub(r'^\s*\[[^\]]*\]', '', row)
            if '\\multicolumn' in row or not row.strip():
                continue
            rows.append(tuple(' '.join(c.split()) for c in row.split('&')))
    return rows


def pairs(tex):
    return [(k.strip(), ' '.join(v.split())) for k, v in
            re.findall(r'\\textsl\{([^{}]*)\}\s*\\hfill\s(.*?)(?=\\\\\[1mm\]|\\textsl|\\end\{multicols\})', tex, re.S)]


def text(v):
    return '-' if v is None else str(v)


def shown(name, r, what):
    v = getattr(r, name)
    v = v() if callable(v) else v
    prec = dict(SHOWN)[name]
    if name in DASH and (v is None or (isinstance(v, float) and np.isnan(v))):
        return '-'
    return '%.*f' % (prec, v)


def check_rows(tex, r, what):
    want = Counter()
    for name, _p in SHOWN:
        _s, _d, sym, unit, _k = CATALOGUE[name]
        row = ('' if name in PLAIN else sym, shown(name, r, what))
        want[row if name in UNITLESS else row + (unit,)] += 1
    got = Counter(cells(tex))
    require(got == want, '%s: values shown but not expected: %s; expected but not shown: %s', what,
            short(sorted((got - want).elements()), 400), short(sorted((want - got).elements()), 400))


def graphics(tex):
    return re.findall(r'\\includegraphics(?:\[[^\]]*\])?\{([^{}]*)\}', tex)


def settings_block(op):
    """The settings of an operation point, in order, as the pairs of its header."""
    return [(k, str(v)) for part in ('camera_settings', 'test_parameters') for k, v in op.get(part, {}).items()]


def same_file(path, source, what):
    with open(path, 'rb') as f, open(source, 'rb') as g:
        require(f.read() == g.read(), '%s is not the file given', what)


def check_report(out, case, infos, ops, fresh, figures, files):
    with open(os.path.join(out, 'report.tex')) as f:
        raw = f.read()
    with open(os.path.join(out, 'emvadatasheet.sty')) as f:
        sty = f.read()
    tex = strip_comments(raw)
    basic, setup, marketing = infos['basic'], infos['setup'], infos['marketing']
    require('%{' not in raw and '%}' not in raw and '%{' not in sty, 'template code left in the report')
    for g in graphics(tex) + graphics(strip_comments(sty)):
        require(os.path.isfile(os.path.join(out, g)), 'the report refers to %s, which does not exist', g)
    require(r'\usepackage{emvadatasheet}' in tex, 'the style file is not used')
    default = os.path.join(sut.SRC, 'emva1288', 'report', 'files')
    for n in os.listdir(default):
        require(os.path.isfile(os.path.join(out, 'files', n)), 'auxiliary file %s is missing', n)
    # header
    head = re.findall(r'\\fancyhead\[C\]\{\\textbf\{(.*)\}\}', sty)
    want = '%s \\, %s' % (text(basic['vendor']), text(basic['model']))
    require([' '.join(h.split()) for h in head] == [want], 'page header %s, expected %r', head, want)
    logo = graphics(''.join(l for l in sty.splitlines() if 'fancyhead[R' in l))
    require(len(logo) == 1, 'logos %s', logo)
    same_file(os.path.join(out, logo[0]), files.get('logo') or os.path.join(default, 'missinglogo.pdf'), 'the logo')
    marks = re.findall(r'text=\{(.*?)\}\]\{draftwatermark\}', tex)
    require(marks == ([str(marketing['watermark'])] if marketing['watermark'] else []), 'watermarks %s, given %r', marks,
            marketing['watermark'])
    cover = re.findall(r'\\input\{(.*?)\}', tex)
    want = case['cover'] and files.get('cover')
    require(cover == ([want] if want else []), 'cover pages %s, given %r', cover, want)
    # operation points
    parts = re.split(r'\\ReportSection\{Operation Point: ', tex)
    front, parts = parts[0], parts[1:]
    require(len(parts) == len(ops), '%d sections for %d operation points', len(parts), len(ops))
    # front matter: information, then one block for every point
    blocks = re.split(r'\\underline\{\\textsl\{Operation Point: ', front)
    info, blocks = blocks[0], blocks[1:]
    got = pairs(info)
    want = [(k, text(basic[n]) + SUFFIX.get(k, '')) for k, n in BASIC]
    extra = {'CCD': CCD, 'CMOS': CMOS}.get(basic['sensor_type'], [])
    want += [(k, text(basic[n])) for k, n in extra] + [(k, text(v)) for k, v in setup.items()]
    require(Counter(got) == Counter(want), 'information shown but not given: %s; given but not shown: %s',
            short(sorted((Counter(got) - Counter(want)).elements()), 300), short(sorted((Counter(want) - Counter(got)).elements()), 300))
    shown_setup = [(k, text(v)) for k, v in setup.items()]
    require(any(got[k:k + len(shown_setup)] == shown_setup for k in range(len(got) + 1)), 'setup shown in another order than given: %s, not %s',
            short(got, 300), short(shown_setup, 300))
    require(len(blocks) == len(ops), '%d overview blocks for %d operation points', len(blocks), len(ops))
    qe = graphics(blocks[-1] if blocks else info)
    require(len(qe) == 1, 'quantum efficiency plots %s', qe)
    same_file(os.path.join(out, qe[0]), files.get('qe_plot') or files.get('missingplot') or
              os.path.join(default, 'missingplot.pdf'), 'the quantum efficiency plot')
    for k, (op, part, block, r) in enumerate(zip(ops, parts, blocks, fresh)):
        id_ = 'OP%d' % (k + 1)
        what = 'operation point %d' % (k + 1)
        name = op['name'] or id_
        given = 'Wavelength' in op.get('test_parameters', {})
        require(any(part.startswith('\\textbf{%s} (@%s)' % (name, wl)) for wl in
                    ([text(op['test_parameters']['Wavelength'])] if given else ['', '-'])), '%s: headed %r, name %r', what, part[:80], name)
        require(part.count('\\label{%s}' % id_) == 1 and tex.count('\\label{%s}' % id_) == 1, '%s: no label %s', what, id_)
        require(block.startswith('\\textbf{%s}}' % name) or block.startswith('\\textbf{%s} ' % name),
                '%s: overview headed %r', what, block[:60])
        require('\\pageref{%s}' % id_ in block, '%s: the overview does not refer to %s', what, id_)
        for where, p in (('overview', block), ('section', part)):
            require(pairs(p) == settings_block(op), '%s: %s shows settings %s, given %s', what, where, short(pairs(p)),
                    short(settings_block(op)))
        check_rows(part, r, what)
        plots = graphics(part)
        want = NAMES if not op.get('summary_only') else NAMES[:2]
        require(sorted(plots) == sorted('%s/%s.pdf' % (id_, n) for n in want), '%s: plots %s', what, plots)
        if figures is not None:
            for n in want:
                path = os.path.realpath(os.path.join(out, id_, n + '.pdf'))
                require(path in figures, '%s: %s was not drawn', what, n)
                verify(n, figures[path], [r], [k + 1])
        else:
            for n in want:
                with open(os.path.join(out, id_, n + '.pdf'), 'rb') as f:
                    require(f.read(5) == b'%PDF-', '%s: %s is no PDF file', what, n)
    return raw, sty


def frozen(x):
    """A comparable picture of the information given by the caller."""
    if isinstance(x, dict):
        return [(k, frozen(v)) for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return [frozen(v) for v in x]
    if isinstance(x, np.ndarray):
        return (x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, Results1288):
        return 'results'
    return repr(x)


def check(case, ctx, real=False):
    datas = []
    for s in case['sims']:
        d = build_data(s, '')
        if d is not None and case['flat']:
            # dark frames that are the same for all exposure times: no dark current at all
            for k in ('u_ydark', 's2_ydark'):
                d['temporal'][k] = np.full_like(d['temporal'][k], d['temporal'][k][0])
            if not simdata.usable(d):
                d = None
        if d is not None:
            datas.append((d, s))
    if not datas:
        ctx.trivial()
        ctx.label('unusable')
        return
    with D.scratch() as root:
        files = {}
        for k in ('logo', 'missingplot', 'qe_plot', 'cover'):
            n = case['files'].get(k)
            if n:
                os.makedirs(os.path.join(root, 'in', k), exist_ok=True)
                files[k] = os.path.join(root, 'in', k, n)
                with open(files[k], 'w') as f:
                    f.write('contents of %s\n' % k)
        basic = info_basic(**dict(case['basic'], qe_plot=files.get('qe_plot')))
        marketing = info_marketing(logo=files.get('logo'), missingplot=files.get('missingplot'), watermark=case['watermark'])
        if case['cover'] == 'marketing':
            marketing['cover_page'] = files.get('cover')
        setup = info_setup(**case['setup'])
        given = {'basic': basic if case['give'][0] else None, 'marketing': marketing if case['give'][1] else None,
                 'setup': setup if case['give'][2] else None}
        # what the report has to show, told without the functions that build the dictionaries
        infos = {'basic': {n: None for _k, n in BASIC + CCD + CMOS}, 'marketing': {'watermark': None},
                 'setup': OrderedDict((k, None) for k in SETUP)}
        if case['give'][0]:
            infos['basic'].update(case['basic'])
        if case['give'][1]:
            infos['marketing']['watermark'] = case['watermark']
        if case['give'][2]:
            infos['setup'].update(case['setup'])
        seen = dict(files)
        if not case['give'][0]:
            seen.pop('qe_plot', None)
        if not case['give'][1]:
            seen.pop('logo', None)
            seen.pop('missingplot', None)
        if case['cover'] == 'marketing' and not case['give'][1]:
            seen.pop('cover', None)
        ops, fresh, objs, dicts = [], [], [], {}
        for o in case['ops']:
            data, s = datas[o['data'] % len(datas)]
            kw = {}
            if o['area'] is not None:
                kw['pixel_area'] = o['area']
            if o['again'] and dicts:
                op = list(dicts.values())[o['data'] % len(dicts)]
            else:
                op = info_op()
                if o['bare']:
                    # everything but the name can be left out
                    op = {}
                op['name'] = o['name']
                if o['id']:
                    # left from somewhere else; points are numbered by the report
                    op['id'] = o['id']
                op['summary_only'] = o['summary']
                op['camera_settings'] = OrderedDict((k, v) for k, v in o['camera'])
                op['test_parameters'] = OrderedDict((k, v) for k, v in o['test'])
                if o['bare']:
                    for k in ('summary_only', 'camera_settings', 'test_parameters'):
                        if not op[k]:
                            del op[k]
                dicts[len(dicts)] = op
            ops.append(op)
            fresh.append(Results1288(copy.deepcopy(data), **(kw if o['results'] else {})))
            objs.append((data, Results1288(data, **kw) if o['results'] else None))
        before = frozen([ops, given, [d for d, _r in objs]])
        figures = None if real else {}
        outs = []
        cwd = os.getcwd()
        for run in range(2 if case['twice'] else 1):
            out = os.path.join(root, 'report%d' % run)
            os.makedirs(os.path.join(root, 'elsewhere'), exist_ok=True)
            if case['exists']:
                os.makedirs(out)
            with contextlib.ExitStack() as stack:
                if figures is not None:
                    stack.enter_context(recorded_figures(figures))
                try:
                    os.chdir(root)
                    kw = {'cover_page': files['cover']} if case['cover'] == 'argument' and files.get('cover') else {}
                    rep = Report1288(os.path.basename(out) if case['relative'] else out, **dict(given, **kw))
                    os.chdir(os.path.join(root, 'elsewhere'))
                    # what the caller puts into the dictionaries afterwards is for other reports and points
                    later = [d for d in given.values() if d is not None] if case['edit'] else []
                    for d in later:
                        d['Later'] = 'Edited'
                    for op, (data, res) in zip(ops, objs):
                        for k in ('camera_settings', 'test_parameters'):
                            op.get(k, {}).pop('Later', None)
                        rep.add(op, data, **({'results': res} if res is not None else {}))
                        for k in ('camera_settings', 'test_parameters'):
                            if case['edit'] and k in op:
                                op[k]['Later'] = 'Edited'
                                later.append(op[k])
                        if case['early']:
                            rep.latex()
                    rep.latex()
                finally:
                    os.chdir(cwd)
                    for d in later:
                        d.pop('Later', None)
            require(frozen([ops, given, [d for d, _r in objs]]) == before, 'the information of the caller was changed')
            outs.append(check_report(out, case, infos, ops, fresh, figures, seen))
        if len(outs) == 2:
            require(outs[0] == outs[1], 'a second report of the same information differs')
    ctx.label('points %d' % len(ops), 'cover %s' % (case['cover'] or 'none'), *['own ' + k for k in seen])
    for o in case['ops']:
        ctx.label('summary' if o['summary'] else 'full', 'named' if o['name'] else 'unnamed', 'results given' if o['results'] else 'data only')
    ctx.label(*['mode ' + s['mode'] for _d, s in datas])
    if any(r.u_I_mean == 0 for r in fresh):
        ctx.label('no dark current')
    if case['twice']:
        ctx.label('reused')
    if case['edit']:
        ctx.label('edited afterwards')
    if not ops:
        ctx.trivial()


WORDS = st.text('abcXYZ0189', min_size=1, max_size=6)
PHRASE = st.one_of(WORDS, st.lists(WORDS, min_size=2, max_size=3).map(' '.join),
                   st.sampled_from(['a < b > c', "it's", 'x/y.z', '1,5', 'A-1_b', '"q"', '$\\alpha$']))
VALUE = st.one_of(PHRASE, PHRASE, st.integers(-5, 5000), st.floats(0, 100, allow_nan=False).map(lambda v: round(v, 2)))
MAYBE = st.one_of(st.none(), VALUE)


@st.composite
def op_cases(draw):
    return {'data': draw(st.integers(0, 5)), 'name': draw(st.one_of(st.none(), st.just(''), PHRASE, PHRASE)),
            'summary': draw(st.sampled_from([None, False, False, True])), 'results': draw(st.booleans()),
            'area': draw(st.sampled_from([None, 1.0, 25.0, 42.25])), 'again': draw(st.sampled_from([False, False, False, True])),
            'bare': draw(st.integers(0, 3)) == 0, 'id': draw(st.sampled_from([None, None, None, 'OP1', 'OP7', 'x'])),
            'camera': draw(st.lists(st.tuples(PHRASE, VALUE).map(list), max_size=4, unique_by=lambda t: t[0])),
            'test': draw(st.lists(st.tuples(PHRASE, VALUE).map(list), max_size=3, unique_by=lambda t: t[0])) +
            ([['Wavelength', draw(VALUE)]] if draw(st.booleans()) else [])}


@st.composite
def cases(draw, max_ops=4):
    keys = [n for _k, n in BASIC + CCD + CMOS if n != 'sensor_type']
    basic = {k: draw(MAYBE) for k in draw(st.lists(st.sampled_from(keys), unique=True))}
    basic['sensor_type'] = draw(st.sampled_from([None, 'CCD', 'CMOS', 'other']))
    names = ['logo.pdf', 'pic.pdf', 'Some file.pdf', 'missingplot.pdf']
    files = {k: draw(st.sampled_from([None] + names)) for k in ('logo', 'missingplot', 'qe_plot')}
    if draw(st.integers(0, 4)) == 0:
        # files of different folders with the same name
        files = dict.fromkeys(files, draw(st.sampled_from(names)))
    files['cover'] = draw(st.sampled_from([None, 'cover.tex']))
    return {'sims': [draw(simdata.sims(max_dim=12)) for _ in range(draw(st.integers(1, 2)))],
            'ops': [draw(op_cases()) for _ in range(draw(st.sampled_from([1] if max_ops == 1 else [0, 1, 1, 1, 2, 2, 2, 3, 4] * 4 + [11])))],
            'flat': draw(st.sampled_from([False, False, True])), 'basic': basic, 'setup': {k: draw(MAYBE) for k in draw(st.lists(st.one_of(PHRASE, st.sampled_from(SETUP)), max_size=4, unique=True))},
            'watermark': draw(st.one_of(st.none(), PHRASE)), 'files': files,
            'cover': draw(st.sampled_from([None, 'argument', 'marketing'])),
            'give': draw(st.sampled_from([[True] * 3, [True] * 3, [True] * 3, [False] * 3, [True, False, True], [False, True, False]])),
            'twice': draw(st.booleans()), 'exists': draw(st.booleans()), 'relative': draw(st.booleans()), 'early': draw(st.booleans()),
            'edit': draw(st.booleans())}


SUBS = [Sub('report', lambda tier: cases(), check, 300, 8000,
            'a history of 0..4 (some of 11) added operation points (own or shared data, given results or data only, pixel area, names, '
            'summary flags, settings, reused and later edited dicts, missing optional entries, early and repeated output) with drawn information dictionaries, uploaded '
            'files and cover page: rendered TeX and style file parsed and compared with fresh results and given information, '
            'every plot file with reference data, every reference resolved, second report from the same objects identical; '
            'non-trivial with at least one operation point. Figures are recorded instead of rendered to PDF'),
        Sub('pdf', lambda tier: cases(1), lambda case, ctx: check(case, ctx, True), 16, 200,
            'the same with real PDF rendering of the plots', shards=8)]
