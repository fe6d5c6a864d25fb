"""Mutation campaign: python3 mutate.py OUT.jsonl [PATH-PREFIX...] [--sample N] [--jobs N] [--scale X]

Small syntactic changes of /repo's sources (in copies under /tmp), one at a time; those which the stable tests let pass are
given to the checks with a reduced number of cases. Survivors are bugs the checks miss, or changes without effect.
Development tool only: no check depends on it.
"""
import ast
import concurrent.futures as cf
import json
import os
import queue
import random
import shutil
import subprocess
import sys
import tempfile
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'
SKIP = ('kolombos/version.py', 'pytermor/_version.py')

warnings.simplefilter('ignore')
COMPARE = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '//', ast.FloorDiv: '*', ast.Div: '*', ast.Mod: '*', ast.BitAnd: '|', ast.BitOr: '&', ast.LShift: '>>', ast.RShift: '<<'}


class Finder(ast.NodeVisitor):
    """Collects (start, end, replacement, what) over the source."""

    def __init__(self, src):
        self.src, self.out = src, []
        self.lines = src.split('\n')
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l) + 1)

    def pos(self, line, col):  # col is in UTF-8 bytes
        return self.starts[line - 1] + len(self.lines[line - 1].encode()[:col].decode())

    def span(self, n):
        return self.pos(n.lineno, n.col_offset), self.pos(n.end_lineno, n.end_col_offset)

    def text(self, n):
        a, b = self.span(n)
        return self.src[a:b]

    def put(self, n, new, what):
        a, b = self.span(n)
        if self.src[a:b] != new:
            self.out.append((a, b, new, what))

    def between(self, left, right, old, new, what):
        a, b = self.span(left)[1], self.span(right)[0]
        i = self.src.find(old, a, b)
        if i >= 0:
            self.out.append((i, i + len(old), new, what))

    def visit_Compare(self, n):
        left = n.left
        for op, right in zip(n.ops, n.comparators):
            old = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}[type(op)]
            self.between(left, right, old, COMPARE[type(op)], 'compare')
            left = right
        self.generic_visit(n)

    def visit_BinOp(self, n):
        old = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%', ast.BitAnd: '&', ast.BitOr: '|', ast.LShift: '<<', ast.RShift: '>>'}.get(type(n.op))
        if old:
            self.between(n.left, n.right, old, BIN[type(n.op)], 'arith')
            self.put(n, '(' + self.text(n.left) + ')', 'left only')
            self.put(n, '(' + self.text(n.right) + ')', 'right only')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        old, new = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
        for a, b in zip(n.values, n.values[1:]):
            self.between(a, b, old, new, 'bool')
        for i, v in enumerate(n.values):
            rest = [self.text(x) for j, x in enumerate(n.values) if j != i]
            self.put(n, '(' + f' {old} '.join(rest) + ')', 'operand dropped')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.Not, ast.USub)):
            self.put(n, '(' + self.text(n.operand) + ')', 'unary dropped')
        self.generic_visit(n)

    def visit_If(self, n):
        self.put(n.test, 'True', 'if True')
        self.put(n.test, 'False', 'if False')
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.put(n, '(' + self.text(n.body) + ')', 'if-expression')
        self.put(n, '(' + self.text(n.orelse) + ')', 'else-expression')
        self.generic_visit(n)

    def visit_While(self, n):
        self.generic_visit(n)

    def visit_Constant(self, n):
        v = n.value
        if isinstance(v, bool):
            self.put(n, str(not v), 'bool constant')
        elif isinstance(v, int):
            self.put(n, str(v + 1), 'int + 1')
            if v > 0:
                self.put(n, str(v - 1), 'int - 1')
        elif isinstance(v, float):
            self.put(n, repr(v * 1.5 + 0.5), 'float')
        elif isinstance(v, (str, bytes)) and v and not self.in_fstring:
            self.put(n, repr(v[:-1]), 'string end dropped')
            if len(v) > 1:
                self.put(n, repr(v[1:]), 'string start dropped')

    in_fstring = False

    def visit_JoinedStr(self, n):
        was, self.in_fstring = self.in_fstring, True
        # only expressions inside; positions are reliable from 3.12 on
        if sys.version_info >= (3, 12):
            for v in n.values:
                if isinstance(v, ast.FormattedValue):
                    self.visit(v.value)
        self.in_fstring = was

    def visit_Call(self, n):
        for i, k in enumerate(n.keywords):
            if k.arg and len(n.keywords) + len(n.args) > 0:
                args = [self.text(a) for a in n.args] + [self.src[self.pos(x.lineno, x.col_offset):self.pos(x.end_lineno, x.end_col_offset)] for j, x in enumerate(n.keywords) if j != i]
                self.put(n, f'{self.text(n.func)}({", ".join(args)})', 'keyword dropped')
        if len(n.args) == 2 and not n.keywords and not any(isinstance(a, ast.Starred) for a in n.args):
            self.put(n, f'{self.text(n.func)}({self.text(n.args[1])}, {self.text(n.args[0])})', 'arguments swapped')
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'copy', 'clone', 'rjust', 'ljust', 'center', 'replace', 'sub', 'setdefault', 'decode', 'reverse', 'sort', 'get'):
            self.put(n, '(' + self.text(n.func.value) + ')', 'method call dropped')
        self.generic_visit(n)

    def stmt(self, n):
        self.put(n, 'pass', 'statement dropped')
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return  # docstring
        self.stmt(n)

    visit_Assign = visit_AugAssign = visit_Raise = visit_Break = visit_Continue = stmt

    def visit_Return(self, n):
        if n.value is not None:
            self.put(n, 'return', 'return None')
        self.generic_visit(n)

    def visit_Slice(self, n):
        for x in (n.lower, n.upper):
            if x is not None:
                self.put(x, '', 'slice bound dropped')
                self.put(x, self.text(x) + ' + 1', 'slice bound + 1')
        self.generic_visit(n)

    QUIET = ('preview', '_preview_collect', '_preview_sgr', 'printd', '_debug_print_match_segments', 'debug_settings', 'get_separator_line', '__repr__')

    def visit(self, n):
        # wording of debug messages is nobody's business
        if isinstance(n, ast.stmt) and not hasattr(n, 'body') and ('_debug_buffer' in self.text(n) or '_debug_' in self.text(n)):
            return
        return super().visit(n)

    def visit_FunctionDef(self, n):
        if n.name in self.QUIET:
            return
        for x in n.args.defaults + [d for d in n.args.kw_defaults if d]:
            self.visit(x)
        for x in n.body:
            self.visit(x)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)


def mutants(path):
    with open(os.path.join(REPO, path), encoding='utf-8', newline='') as f:
        src = f.read()
    fnd = Finder(src)
    fnd.visit(ast.parse(src))
    seen = set()
    for a, b, new, what in fnd.out:
        res = src[:a] + new + src[b:]
        if res in seen:
            continue
        seen.add(res)
        try:
            compile(res, path, 'exec')
        except SyntaxError:
            continue
        yield {'path': path, 'line': src.count('\n', 0, a) + 1, 'what': what, 'old': src[a:b], 'new': new, 'src': res}


CORE = ['C05', 'C01', 'C08', 'C07', 'C04', 'C06', 'C02', 'C15', 'C11', 'C12', 'C09', 'C10', 'C14', 'C16', 'C19', 'C17', 'C21', 'C23', 'C25', 'C13', 'C24', 'C20', 'C22', 'C18', 'C26', 'C27', 'C03',
        'C30', 'C28', 'C29', 'T02', 'T01']
TERM = {'ansi.py': 'T01 T02 T05 T08 C05 C11 C16', 'color.py': 'T03 T04 T05 T08', 'render.py': 'T05 T06 T07 T08 T13 C05 C11', 'auto_float.py': 'T10 T11 T14', 'prefixed_unit.py': 'T11 T14',
        'time_delta.py': 'T12 T14', 'string_filter.py': 'T09', 'stdlib_ext.py': 'T09', 'util/__init__.py': 'T13', 'pytermor/__init__.py': 'T01', 'pytermor/common.py': 'T16 T02 T05', 'generate_legend.py': 'C29', 'es7s_tpl_processor.py': 'T15 C29'}


def relevant(path):
    if path.startswith(('pytermor', 'dev')):
        return next(c for f, c in TERM.items() if path.endswith(f)).split()
    return CORE


def passed(repo, env):
    r = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-rp', 'tests', '--doctest-modules', 'kolombos', 'pytermor'], cwd=repo, env=env, capture_output=True,
                       timeout=120, text=True)
    return sorted(l for l in r.stdout.splitlines() if l.startswith('PASSED'))


def try_one(m, slot, scale, stable):
    repo, verif = slot + '/repo', slot + '/verif'
    target = os.path.join(repo, m['path'])
    with open(target, encoding='utf-8', newline='') as f:
        orig = f.read()
    try:
        with open(target, 'w', encoding='utf-8', newline='') as f:
            f.write(m['src'])
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        try:
            if passed(repo, env) != stable:
                return 'tests'
        except subprocess.TimeoutExpired:
            return 'tests'
        env.update(VERIF_REPO=repo, VERIF_SCALE=str(scale), VERIF_WORKERS='1', VERIF_SEED='1', VERIF_TIER='quick')
        errors = []
        for c in relevant(m['path']):
            try:
                r = subprocess.run(['python3-vt', verif + '/run.py', c], env=env, capture_output=True, timeout=600, start_new_session=True)
            except subprocess.TimeoutExpired:
                errors.append(c + ': timeout')
                continue
            if r.returncode == 1 and b'VIOLATION property=' in r.stdout:
                return 'killed ' + c
            if r.returncode != 0:
                errors.append(c + ': ' + r.stdout.decode(errors='replace')[-200:])
                if len(errors) >= 3:
                    break
        return 'errors ' + ' | '.join(errors) if errors else 'SURVIVED'
    finally:
        with open(target, 'w', encoding='utf-8', newline='') as f:
            f.write(orig)


def main():
    args = sys.argv[1:]
    sample, jobs, scale = None, 8, 0.12
    rest = []
    while args:
        a = args.pop(0)
        if a == '--sample':
            sample = int(args.pop(0))
        elif a == '--jobs':
            jobs = int(args.pop(0))
        elif a == '--scale':
            scale = float(args.pop(0))
        else:
            rest.append(a)
    out, prefixes = rest[0], tuple(rest[1:]) or ('kolombos/', 'pytermor/')
    files = subprocess.run(['git', '-C', REPO, 'ls-files', '*.py'], capture_output=True, text=True, check=True).stdout.split()
    todo = [m for p in files if p.startswith(prefixes) and p not in SKIP for m in mutants(p) if not (p.endswith('color.py') and m['line'] > 345)]
    random.Random(1).shuffle(todo)
    todo = todo[:sample]
    done = set()
    if os.path.exists(out):
        with open(out) as f:
            done = {tuple(json.loads(l)['key']) for l in f}
    todo = [m for m in todo if (m['path'], m['line'], m['what'], m['old'], m['new']) not in done]
    print(len(todo), 'mutants', flush=True)
    stable = passed(REPO, dict(os.environ, PYTHONDONTWRITEBYTECODE='1'))
    print(len(stable), 'tests')
    top = tempfile.mkdtemp(prefix='mutate', dir='/tmp')
    slots = queue.Queue()
    for i in range(jobs):
        os.makedirs(f'{top}/{i}')
        subprocess.run(['cp', '-a', REPO, f'{top}/{i}/repo'], check=True)
        subprocess.run(['cp', '-a', ROOT, f'{top}/{i}/verif'], check=True)
        slots.put(f'{top}/{i}')

    def job(m):
        s = slots.get()
        try:
            return m, try_one(m, s, scale, stable)
        except Exception as e:
            return m, f'failed {e!r}'
        finally:
            slots.put(s)
    try:
        with open(out, 'a') as f, cf.ThreadPoolExecutor(jobs) as ex:
            for fut in cf.as_completed([ex.submit(job, m) for m in todo]):
                m, res = fut.result()
                f.write(json.dumps({'key': [m['path'], m['line'], m['what'], m['old'], m['new']], 'result': res}) + '\n')
                f.flush()
    finally:
        shutil.rmtree(top)


if __name__ == '__main__':
    main()
