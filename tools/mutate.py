#!/usr/bin/env python3
"""Mutation campaign: how many small changes of /repo do the checks notice?

usage: mutate.py OUT.jsonl [-n N] [-j WORKERS] [-s SEED] [--hidden] [FILE...]

With --hidden the changes show only after several calls or for larger, unusual
or invalid data: remembered results, loops that end early or run backwards,
errors not raised or swallowed, state shared between objects, narrow types,
names exchanged.

Works on scratch copies bind-mounted over /repo and /verif in private mount
namespaces (development only, no check uses this).
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

EXTRA = {
    'CHECLabPy/stats/pdf.py': ['C32', 'C34'],
    'CHECLabPy/core/spectrum_fitter.py': ['C35', 'C36', 'C34', 'C37'],
    'CHECLabPy/utils/mapping.py': ['C25', 'C11', 'C38', 'C16', 'C18'],
    'CHECLabPy/waveform_reducers/timing.py': ['C19', 'C20', 'C13', 'C46'],
    'CHECLabPy/calib/pixel_masks.py': ['C30', 'C46'],
    'CHECLabPy/calib/sipm_data_sheet.py': ['C31', 'C46'],
    'CHECLabPy/plotting/camera.py': ['C38', 'C46', 'C43'],
    'CHECLabPy/spectrum_fitters/gentile.py': ['C34', 'C35', 'C36', 'C37',
                                              'C20'],
    'CHECLabPy/spectrum_fitters/mapm.py': ['C34', 'C35', 'C36', 'C37'],
    'CHECLabPy/waveform_reducers/average_wf.py': ['C18', 'C16', 'C13'],
    'CHECLabPy/core/io/hdf5_appender.py': ['C04', 'C05', 'C03', 'C45'],
    'CHECLabPy/utils/resolutions.py': ['C23', 'C24', 'C45'],
    'CHECLabPy/waveform_reducers/cross_correlation.py': ['C17', 'C13'],
    'CHECLabPy/waveform_reducers/superpixel.py': ['C16', 'C13'],
    'CHECLabPy/waveform_reducers/saturation.py': ['C16', 'C13'],
    'CHECLabPy/waveform_reducers/common.py': ['C16', 'C13'],
    'CHECLabPy/waveform_reducers/sliding_window.py': ['C18', 'C13'],
    'CHECLabPy/waveform_reducers/ctapipe_integrators.py': ['C18', 'C13'],
    'CHECLabPy/waveform_reducers/nnls_pulse_extraction.py': ['C41', 'C13'],
    'CHECLabPy/core/reducer.py': ['C13', 'C14', 'C15'],
    'CHECLabPy/core/io/hdf5_writer.py': ['C01', 'C02', 'C03', 'C06', 'C45'],
    'CHECLabPy/core/io/hdf5_reader.py': ['C02', 'C05', 'C08'],
    'CHECLabPy/core/io/tio.py': ['C10', 'C12', 'C06'],
    'CHECLabPy/core/io/simtel.py': ['C11', 'C12'],
    'CHECLabPy/core/io/waveform.py': ['C10', 'C12', 'C11'],
    'CHECLabPy/scripts/extract_dl1.py': ['C06', 'C07', 'C08'],
}
SKIP_FUNCS = {'__repr__', 'print_columns'}
COSMETIC = {'fontsize', 'color', 'lw', 'alpha', 'label', 'linewidth', 'pad',
            'markersize', 'elinewidth', 'mew', 'capsize', 'help', 'desc',
            'transform', 'va', 'ha', 'rotation', 'ls', 'dest', 'metavar'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'],
       ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'],
       ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
       ast.FloorDiv: '/', ast.Mod: '//', ast.Pow: '*', ast.BitAnd: '|',
       ast.BitOr: '&'}
CALLS = {'min': 'max', 'max': 'min', 'argmax': 'argmin', 'argmin': 'argmax',
         'mean': 'median', 'sum': 'mean', 'floor': 'ceil', 'ceil': 'floor',
         'std': 'var', 'sorted': 'list', 'all': 'any', 'any': 'all',
         'append': 'extend', 'copy': 'view', 'ones': 'zeros',
         'zeros': 'ones', 'minimum': 'maximum', 'maximum': 'minimum',
         'round': 'floor'}


def candidates(src):
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def add(n, new, what):
        a, b = span(n)
        if raw[a:b].decode() != new:
            out.append((a, b, new, what, n.lineno))

    def visit(n, cosmetic=False):
        if isinstance(n, (ast.FunctionDef,)) and n.name in SKIP_FUNCS:
            return
        if isinstance(n, ast.Call):
            f = text(n.func)
            if f in ('print', 'warnings.warn', 'warnings.simplefilter',
                     'deprecate') or f.endswith('add_argument') \
                    or f.endswith('ArgumentParser') or f == 'tqdm':
                return
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom,
                          ast.JoinedStr)):
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for op in CMP.get(type(n.ops[0]), []):
                add(n, '{} {} {}'.format(text(n.left), op,
                                         text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN \
                and not isinstance(n.left, ast.Constant):
            add(n, '({} {} {})'.format(text(n.left), BIN[type(n.op)],
                                       text(n.right)), 'binop')
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + op.join(text(v) for v in n.values) + ')', 'bool')
        elif isinstance(n, ast.UnaryOp):
            add(n, '(' + text(n.operand) + ')', 'unary')
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const')
            elif isinstance(v, int):
                add(n, str(v + 1), 'const')
                if v > 0:
                    add(n, str(v - 1), 'const')
            elif isinstance(v, float):
                add(n, repr(v * 1.1 + (0.1 if v == 0 else 0)), 'const')
        elif isinstance(n, ast.Call):
            name = n.func.attr if isinstance(n.func, ast.Attribute) else (
                n.func.id if isinstance(n.func, ast.Name) else '')
            if name in CALLS:
                f = text(n.func)
                add(n.func, f[:len(f) - len(name)] + CALLS[name], 'call')
            if len(n.args) >= 2 and not n.keywords and name not in (
                    'isinstance', 'range'):
                a = [text(x) for x in n.args]
                a[0], a[1] = a[1], a[0]
                if a[0] != a[1]:
                    add(n, '{}({})'.format(text(n.func), ', '.join(a)),
                        'swap-args')
            for k in n.keywords:
                if k.arg and k.arg not in COSMETIC and len(
                        n.args) + len(n.keywords) > 1:
                    a = [text(x) for x in n.args] + [
                        text(q) for q in n.keywords if q is not k]
                    add(n, '{}({})'.format(text(n.func), ', '.join(a)),
                        'drop-kw-' + k.arg)
            if name in ('copy', 'astype') and isinstance(
                    n.func, ast.Attribute):
                add(n, text(n.func.value), 'drop-call')
        elif isinstance(n, ast.If):
            add(n.test, '(not ({}))'.format(text(n.test)), 'if-not')
            add(n.test, 'False', 'if-false')
            add(n.test, 'True', 'if-true')
        elif isinstance(n, ast.IfExp):
            add(n, text(n.body), 'ifexp')
            add(n, text(n.orelse), 'ifexp')
        elif isinstance(n, ast.AugAssign):
            add(n, '{} = {}'.format(text(n.target), text(n.value)), 'aug')
            add(n, 'pass', 'drop-stmt')
        elif isinstance(n, ast.Assign):
            t = n.targets[0]
            if isinstance(t, (ast.Attribute, ast.Subscript)):
                add(n, 'pass', 'drop-stmt')
        elif isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
            add(n, 'pass', 'drop-stmt')
        elif isinstance(n, (ast.Break, ast.Continue)):
            add(n, 'pass', 'drop-stmt')
        elif isinstance(n, ast.Slice):
            for part in ('lower', 'upper'):
                v = getattr(n, part)
                if v is not None and not isinstance(v, ast.Constant):
                    add(v, '({} + 1)'.format(text(v)), 'slice')
        for child in ast.iter_child_nodes(n):
            if isinstance(child, ast.keyword) and child.arg in COSMETIC:
                continue
            if isinstance(child, ast.Expr) and isinstance(
                    child.value, ast.Constant):
                continue
            visit(child)
    visit(tree)
    res = []
    for a, b, new, what, line in sorted(set(out)):
        m = raw[:a] + new.encode() + raw[b:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((m.decode(), what, line, raw[a:b].decode(), new))
    return res


MEMO = '''def _memo(f):
    import functools
    seen = {}

    def part(x):
        if isinstance(x, (str, int, float, bool, type(None))):
            return x
        if hasattr(x, 'shape'):
            return x.shape
        if isinstance(x, (list, tuple, dict)):
            return len(x)
        return id(x)

    @functools.wraps(f)
    def g(*a, **k):
        key = tuple(map(part, a)), tuple((n, part(v)) for n, v in k.items())
        if key not in seen:
            seen[key] = f(*a, **k)
        return seen[key]
    return g


'''


def hidden(src):
    """Changes that need a history or unusual data to show"""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    starts = [0]
    for ln in lines:
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()
    res = []

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset,
                starts[n.end_lineno - 1] + n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    def add(n, new, what, head='', at=None):
        a, b = at or span(n)
        res.append((head + (raw[:a] + new.encode() + raw[b:]).decode(), what,
                    n.lineno, raw[a:b].decode()[:200], new[:200]))

    def jitted(f):
        return any('jit' in text(d) or 'vectorize' in text(d)
                   for d in f.decorator_list)

    for f in ast.walk(tree):
        if isinstance(f, ast.ClassDef):
            for init in f.body:
                if not isinstance(init, ast.FunctionDef) \
                        or init.name != '__init__':
                    continue
                for n in init.body:  # one object for all instances
                    if isinstance(n, ast.Assign) and isinstance(
                            n.targets[0], ast.Attribute):
                        t = n.targets[0].attr
                        new = ('cls_ = type(self)\n{0}if not hasattr(cls_, '
                               '"_shared_{1}"):\n{0}    cls_._shared_{1} = '
                               '{2}\n{0}self.{1} = cls_._shared_{1}').format(
                                   ' ' * n.col_offset, t, text(n.value))
                        add(n, new, 'shared')
        if not isinstance(f, ast.FunctionDef) or f.name in SKIP_FUNCS \
                or f.name == 'main':
            continue
        inner = list(ast.walk(f))
        if not jitted(f):
            if any(isinstance(n, ast.Return) and n.value is not None
                   for n in inner) and not any(isinstance(
                       n, (ast.Yield, ast.YieldFrom)) for n in inner):
                add(f, '@_memo\n' + ' ' * f.col_offset, 'memo', MEMO,
                    (span(f)[0],) * 2)
        names = sorted({n.id for n in inner if isinstance(n, ast.Name)
                        and isinstance(n.ctx, ast.Store)}
                       | {a.arg for a in f.args.args} - {'self', 'cls'})
        for n in inner:
            if isinstance(n, ast.For) and not jitted(f):
                add(n.iter, '__import__("itertools").islice({}, 30)'.format(
                    text(n.iter)), 'loop-cut')
                add(n.iter, '__import__("itertools").islice({}, 1, None)'
                    .format(text(n.iter)), 'loop-skip')
                add(n.iter, 'reversed(list({}))'.format(text(n.iter)),
                    'loop-reversed')
            elif isinstance(n, (ast.ListComp, ast.DictComp,
                                ast.GeneratorExp)) and not jitted(f):
                it = n.generators[0].iter
                add(it, '__import__("itertools").islice({}, 30)'.format(
                    text(it)), 'loop-cut')
            elif isinstance(n, ast.Raise):
                add(n, 'pass', 'no-raise')
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    if h.type is not None and text(h.type) != 'Exception':
                        add(h.type, 'Exception', 'wider-except')
                    if h.type is not None and text(h.type) != 'ImportError':
                        add(h.type, 'ZeroDivisionError', 'narrow-except')
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute):
                k = n.func.attr
                if k in ('zeros', 'ones', 'empty', 'array', 'arange',
                         'zeros_like', 'asarray', 'full') and not any(
                             q.arg == 'dtype' for q in n.keywords):
                    for d in ('np.float32', 'np.int16'):
                        add(n, '{}.astype({})'.format(text(n), d), 'narrow')
                if k in ('sort_values', 'reset_index', 'ravel', 'dropna',
                         'where'):
                    add(n, text(n.func.value), 'drop-call')
            elif isinstance(n, ast.Attribute) and text(n) in (
                    'np.float32', 'np.float64', 'np.int64', 'np.uint64',
                    'np.uint32', 'np.int16', 'np.uint16'):
                new = {'np.float32': 'np.float16', 'np.float64': 'np.float32',
                       'np.int64': 'np.int32', 'np.uint64': 'np.uint32',
                       'np.uint32': 'np.uint16', 'np.int16': 'np.int8',
                       'np.uint16': 'np.uint8'}[text(n)]
                add(n, new, 'narrow')
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) \
                    and n.id in names and len(names) > 1:
                other = names[(names.index(n.id) + 1) % len(names)]
                add(n, other, 'name')
            elif isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], ast.Attribute) and text(
                        n.targets[0]).startswith('self.') \
                    and f.name != '__init__':
                t = text(n.targets[0])
                add(n, 'if getattr(self, {!r}, None) is None:\n{}    {}'
                    .format(t[5:], ' ' * n.col_offset, text(n)), 'kept')
            elif isinstance(n, ast.FormattedValue) and n.format_spec:
                pass
    ok = []
    for r in res:
        try:
            ast.parse(r[0])
        except SyntaxError:
            continue
        ok.append(r)
    return ok


def main():
    p = argparse.ArgumentParser()
    p.add_argument('out')
    p.add_argument('files', nargs='*')
    p.add_argument('-n', type=int, default=50)
    p.add_argument('-j', type=int, default=3)
    p.add_argument('-s', type=int, default=1)
    p.add_argument('--per-file', type=int, default=0)
    p.add_argument('--per-kind', type=int, default=0)
    p.add_argument('--hidden', action='store_true')
    p.add_argument('--kinds', help='only these, e.g. shared,memo')
    p.add_argument('--checks', help='only these, e.g. C51')
    args = p.parse_args()
    by_file = {}
    for line in open('/verif/properties.jsonl'):
        d = json.loads(line)
        for f in d['anchors']['files']:
            by_file.setdefault(f, []).append(d['id'])
    for f, ids in EXTRA.items():
        by_file[f] = ids + [i for i in by_file.get(f, []) if i not in ids]
    rnd = random.Random(args.s)
    todo = []
    for f, ids in sorted(by_file.items()):
        if not f.endswith('.py') or (args.files and not any(
                x in f for x in args.files)):
            continue
        make = hidden if args.hidden else candidates
        c = make(open('/repo/' + f).read())
        rnd.shuffle(c)
        if args.kinds:
            c = [x for x in c if x[1] in args.kinds.split(',')]
        if args.checks:
            ids = args.checks.split(',')
        if args.per_kind:
            kinds = {}
            for x in c:
                kinds.setdefault(x[1], []).append(x)
            c = [x for k in sorted(kinds) for x in kinds[k][:args.per_kind]]
        if args.per_file:
            c = c[:args.per_file]
        todo += [(f, ids) + x for x in c]
    rnd.shuffle(todo)
    done = set()
    if os.path.exists(args.out):
        for line in open(args.out):
            d = json.loads(line)
            done.add((d['file'], d['line'], d['old'], d['new']))
    todo = [t for t in todo if (t[0], t[4], t[5], t[6]) not in done][:args.n]
    print(len(todo), 'mutants')
    base = tempfile.mkdtemp(prefix='mutate_')
    slots = Queue()
    for i in range(args.j):
        d = os.path.join(base, str(i))
        os.makedirs(d)
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        subprocess.check_call(
            ['rsync', '-a', '--exclude', '.git', '/verif/', d + '/verif/']
            if shutil.which('rsync') else
            ['cp', '-a', '/verif', d + '/verif'])
        slots.put(d)

    def run(t):
        f, ids, src, what, line, old, new = t
        d = slots.get()
        path = os.path.join(d, 'repo', f)
        orig = open(path).read()
        res = dict(file=f, what=what, line=line, old=old, new=new, by=None,
                   codes={})
        try:
            with open(path, 'w') as fh:
                fh.write(src)
            for pid in ids:
                r = subprocess.run(
                    ['unshare', '-m', 'bash', '-c',
                     'mount --bind {0}/repo /repo && mount --bind {0}/verif '
                     '/verif && cd /verif && VERIF_SEED=1 python3 run.py {1}'
                     .format(d, pid)], stdout=subprocess.PIPE,
                    stderr=subprocess.STDOUT)
                res['codes'][pid] = r.returncode
                if r.returncode == 1:
                    res['by'] = pid
                    tail = [x for x in r.stdout.decode(
                        errors='replace').splitlines() if 'VIOLATION' in x]
                    res['msg'] = tail[-1][-120:] if tail else ''
                    break
        finally:
            with open(path, 'w') as fh:
                fh.write(orig)
            slots.put(d)
        with open(args.out, 'a') as fh:
            fh.write(json.dumps(res) + '\n')
        return res
    try:
        with ThreadPoolExecutor(args.j) as ex:
            n = k = 0
            for r in ex.map(run, todo):
                n += 1
                k += r['by'] is not None
                if r['by'] is None:
                    print('SURVIVED', r['file'], r['line'], r['what'],
                          repr(r['old'][:60]), '->', repr(r['new'][:60]),
                          r['codes'], flush=True)
        print(n, 'run', k, 'noticed')
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
