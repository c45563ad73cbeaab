"""Development tool: systematic source mutations of the code under test, judged by the checks.

usage: mutate.py OUT [--files a.py,b.py] [--jobs 8] [--scale 0.4] [--limit N] [--only REGEX]
Every mutant is made in a scratch copy of /repo (VERIF_REPO points the checks at it); the checks mapped to
the file or function run until one reports a violation.  Survivors are written to OUT for review.
"""
import ast
import concurrent.futures as cf
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, C, R = 'src/emva1288/process/', 'src/emva1288/camera/', 'src/emva1288/report/'
CHECKS = {
    P + 'parser.py': ['C02', 'C03', 'C29'],
    P + 'loader.py': ['C04', 'C05', 'C26', 'C29'],
    P + 'data.py': ['C06', 'C07', 'C05', 'C26', 'C32'],
    P + 'results.py': ['C11', 'C08', 'C10', 'C12', 'C13', 'C09', 'C14', 'C26', 'C17', 'C29', 'C32'],
    P + 'routines.py': ['C01', 'C31', 'C17', 'C18', 'C14', 'C15', 'C16', 'C10', 'C13', 'C04', 'C26'],
    P + 'plotting.py': ['C25', 'C29', 'C26', 'C33'],
    P + '__init__.py': ['C29'],
    C + 'camera.py': ['C20', 'C19', 'C21', 'C23'],
    C + 'routines.py': ['C21', 'C27', 'C20', 'C19'],
    C + 'bad_images.py': ['C28'],
    C + 'dataset_generator.py': ['C22', 'C30', 'C23'],
    C + 'points_generator.py': ['C22'],
    R + 'report.py': ['C24'],
}
FUNCS = {  # function -> the checks to try first
    'get_int_imgs': ['C01'], 'load_image': ['C04'], 'LinearB0': ['C10'], 'LinearB': ['C13'], 'FFT1288': ['C16'],
    '_row_wise_compress': ['C16'], 'GetFrecs': ['C16'], 'GetImgShape': ['C16'], 'Histogram1288': ['C14'],
    'cls_1288_info': ['C31'], '_sections_first': ['C17'], 'obj_to_dict': ['C31', 'C17'], 'dict_to_xml': ['C17'],
    'xml_to_dict': ['C17', 'C18'], 'round_significant': ['C18'], 'compare_xml': ['C18'], 'high_pass_filter': ['C15'],
    'index_u_ysat': ['C09'], 'R': ['C10'], 'K': ['C10'], 'index_sensitivity_max': ['C10'], 'linearity': ['C12'],
    'index_linearity_min': ['C12'], 'index_linearity_max': ['C12'], 'sigma_y_dark': ['C13'], 'sigma_d': ['C13'],
    'u_I_var_DN': ['C13'], 'u_I_mean_DN': ['C13'], 'u_I_var': ['C13'], 'u_I_mean': ['C13'], 'LE_min': ['C12'],
    'LE_max': ['C12'], 'histogram_PRNU': ['C14'], 'histogram_DSNU': ['C14'], 'get_tile': ['C27'], 'poisson': ['C27'],
    'get_bayer_filter': ['C27'], 'array_tile': ['C27'], 'gen_qe': ['C27'], 'nearest_value': ['C20'],
    'get_radiance_for': ['C21'], 'get_photons': ['C21'], '_get_emva_gain': ['C30'], '_get_emva_blackoffset': ['C30'],
    'print_results': ['C29'], 'xml': ['C17', 'C29'], '_get_spatial_data': ['C07'], '_get_spatial': ['C05', 'C07'],
    'grab': ['C19', 'C20'], '_u_e': ['C19'], '_u_i': ['C19', 'C21'], '_u_therm': ['C19'],
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in',
       ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/', ast.Pow: '*', ast.Mod: '//',
       ast.BitOr: '&', ast.BitAnd: '|', ast.BitXor: '|'}


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    offs = [0]
    for line in src.splitlines(True):
        offs.append(offs[-1] + len(line.encode()))
    raw = src.encode()
    pos = lambda n: (offs[n.lineno - 1] + n.col_offset, offs[n.end_lineno - 1] + n.end_col_offset)
    text = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def add(span, new, what, node, fn):
        out.append({'path': path, 'span': span, 'new': new, 'what': what, 'line': node.lineno, 'func': fn})

    def visit(node, fn):
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(node, ast.FunctionDef):
                fn = node.name
            body = node.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for n in getattr(node, 'args', None) and node.args.defaults or []:
                visit(n, fn)
            for n in body:
                visit(n, fn)
            return
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            a, b = text(node.left), text(node.comparators[0])
            add(pos(node), '(%s) %s (%s)' % (a, CMP[type(node.ops[0])], b), 'compare', node, fn)
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN and not (
                isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant)):
            add(pos(node), '((%s) %s (%s))' % (text(node.left), BIN[type(node.op)], text(node.right)), 'binop', node, fn)
            add(pos(node), '(%s)' % text(node.left), 'left operand only', node, fn)
        elif isinstance(node, ast.BoolOp):
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            add(pos(node), '(' + op.join('(%s)' % text(v) for v in node.values) + ')', 'boolop', node, fn)
            for k in range(len(node.values)):
                keep = [v for j, v in enumerate(node.values) if j != k]
                sep = ' and ' if isinstance(node.op, ast.And) else ' or '
                add(pos(node), '(' + sep.join('(%s)' % text(v) for v in keep) + ')', 'drop condition %d' % k, node, fn)
        elif isinstance(node, ast.UnaryOp) and not isinstance(node.operand, ast.Constant):
            add(pos(node), '(%s)' % text(node.operand), 'unary', node, fn)
        elif isinstance(node, ast.Constant):
            v = node.value
            if isinstance(v, bool):
                add(pos(node), str(not v), 'bool', node, fn)
            elif isinstance(v, int):
                add(pos(node), str(v + 1), 'const+1', node, fn)
                if v > 1:
                    add(pos(node), str(v - 1), 'const-1', node, fn)
            elif isinstance(v, float):
                add(pos(node), repr(v * 1.01 if v else 0.01), 'const*1.01', node, fn)
        elif isinstance(node, ast.If):
            add(pos(node.test), 'False', 'if False', node, fn)
            add(pos(node.test), 'True', 'if True', node, fn)
        elif isinstance(node, ast.IfExp):
            add(pos(node.test), 'not (%s)' % text(node.test), 'ifexp', node, fn)
        elif isinstance(node, (ast.Break, ast.Continue)):
            add(pos(node), 'pass', 'no break', node, fn)
        elif isinstance(node, ast.Raise):
            add(pos(node), 'pass', 'no raise', node, fn)
        elif isinstance(node, ast.AugAssign):
            add(pos(node), 'pass', 'no augassign', node, fn)
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            add(pos(node), 'pass', 'no assign', node, fn)
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and any(
                isinstance(n, ast.Name) and n.id == node.targets[0].id for n in ast.walk(node.value)):
            add(pos(node), 'pass', 'no reassign', node, fn)
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            add(pos(node), 'pass', 'no call', node, fn)
        elif isinstance(node, ast.For):
            add(pos(node.iter), 'list(%s)[:-1]' % text(node.iter), 'loop without last', node, fn)
            add(pos(node.iter), 'list(%s)[1:]' % text(node.iter), 'loop without first', node, fn)
        elif isinstance(node, ast.Call):
            for kw in node.keywords:
                if kw.arg and len(node.keywords) + len(node.args) > 1:
                    s, e = pos(kw)
                    k = raw.rfind(b',', 0, s)
                    if k > pos(node)[0] and raw[k + 1:s].strip() == b'':
                        out.append({'path': path, 'span': (k, e), 'new': '', 'what': 'drop ' + kw.arg, 'line': kw.lineno, 'func': fn})
            if len(node.args) == 1 and not node.keywords:
                add(pos(node), '(%s)' % text(node.args[0]), 'call -> argument', node, fn)
            elif len(node.args) == 2 and not node.keywords:
                add(pos(node), '%s(%s, %s)' % (text(node.func), text(node.args[1]), text(node.args[0])), 'swap arguments', node, fn)
        elif isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == 'np':
            alt = {'min': 'max', 'max': 'min', 'mean': 'median', 'floor': 'ceil', 'ceil': 'floor', 'argmax': 'argmin', 'sqrt': 'square',
                   'square': 'abs', 'sum': 'mean', 'std': 'var', 'int64': 'int32', 'float64': 'float32', 'uint16': 'int16', 'var': 'std',
                   'rint': 'floor', 'log10': 'log2', 'log2': 'log10'}.get(node.attr)
            if alt:
                add(pos(node), 'np.' + alt, 'np.%s->%s' % (node.attr, alt), node, fn)
        elif isinstance(node, ast.Slice):
            if node.lower is not None and node.upper is not None:
                add(pos(node), text(node.lower) + ':', 'slice open', node, fn)
        for n in ast.iter_child_nodes(node):
            visit(n, fn)

    visit(ast.Module(body=tree.body, type_ignores=[]), '')
    keep, seen = [], set()
    for m in out:
        s, e = m['span']
        m['old'] = raw[s:e].decode()
        t = (raw[:s] + m['new'].encode() + raw[e:]).decode()
        try:
            if ast.dump(ast.parse(t)) == ast.dump(tree):
                continue
        except SyntaxError:
            continue
        if t in seen:
            continue
        seen.add(t)
        if 'log.' in m['old'] or '__future__' in m['old'] or 'print(' in m['old'] and m['func'] != 'print_results':
            continue
        m['text'] = t
        keep.append(m)
    return keep


def judge(args):
    m, scale, slot = args
    d = tempfile.mkdtemp(prefix='mut_')
    try:
        shutil.copytree(os.path.join(REPO, 'src'), os.path.join(d, 'src'), ignore=shutil.ignore_patterns('__pycache__'))
        with open(os.path.join(d, m['path']), 'w') as f:
            f.write(m['text'])
        first = FUNCS.get(m['func'], [])
        order = first + [c for c in CHECKS[m['path']] if c not in first]
        env = dict(os.environ, VERIF_REPO=d, VERIF_WORKERS='1', VERIF_NO_EVIDENCE='1', VERIF_SCALE=str(scale), VERIF_SEED='1',
                   VERIF_NO_SHRINK='1')
        for c in order:
            try:
                r = subprocess.run(['/opt/venv/bin/python', '-B', os.path.join(VERIF, 'check.py'), c, '--tier', 'quick'],
                                   capture_output=True, text=True, env=env, timeout=900, cwd=VERIF)
            except subprocess.TimeoutExpired:
                return m, 'timeout ' + c
            if r.returncode:
                return m, '%s rc %d' % (c, r.returncode)
        return m, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    opt = lambda k, d: a[a.index(k) + 1] if k in a else d
    files = opt('--files', None)
    ms = [m for p in CHECKS for m in mutants(p) if not files or any(p.endswith(f) for f in files.split(','))]
    only = opt('--only', None)
    if only:
        ms = [m for m in ms if re.search(only, m['func'])]
    step = int(opt('--step', '1'))
    ms = ms[int(opt('--from', '0'))::step]
    print(len(ms), 'mutants', flush=True)
    if '--list' in a:
        return
    n, stat = 0, {}
    with open(a[0], 'a') as out, cf.ThreadPoolExecutor(int(opt('--jobs', '8'))) as ex:
        for m, r in ex.map(judge, [(m, float(opt('--scale', '0.4')), i) for i, m in enumerate(ms)]):
            n += 1
            stat[r and r.split()[0]] = stat.get(r and r.split()[0], 0) + 1
            if r is None or 'rc 2' in r or 'timeout' in r:
                out.write('%s:%d %s [%s] %r -> %r  %s\n' % (m['path'].split('/')[-1], m['line'], m['func'], m['what'],
                                                         m['old'][:100], m['new'][:120], r or 'SURVIVED'))
                out.flush()
        out.write('done %d %s\n' % (n, json.dumps({str(k): v for k, v in stat.items()})))


if __name__ == '__main__':
    main()
