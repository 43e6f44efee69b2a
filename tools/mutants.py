"""Development tool: changes the code under test at random places and lists the
changes no check notices, for reading.

usage: mutants.py OUT SEED FILE=COUNT...      (FILE relative to paradigm/_core)"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.environ.get('VP_TOOLS', os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
CHECKS = {'models.py': 'c05 c01 c02 c03 c04 c06 c08 c09 c07',
          'annotated.py': 'c07 c08 c09', 'signatures.py': 'c13 c14 c10 c11 c16 c15 c12',
          'scoping.py': 'c14 c15 c13 c16', 'stubs.py': 'c14 c15 c13 c18 c12',
          'caching.py': 'c18 c19', 'execution.py': 'c20 c19',
          'index.py': 'c20 c13 c10 c12', 'modules.py': 'c18 c13 c10 c12',
          'catalog.py': 'c13 c10 c14 c12', 'sources.py': 'c14 c13 c20 c12',
          'discovery.py': 'c13 c20', 'namespacing.py': 'c14 c13',
          'pretty.py': 'c18 c13', 'utils.py': 'c13', 'file_system.py': 'c14 c13'}
SMOKE = '''import paradigm
from paradigm.base import *
for f in (print, int, dict, dict.get, len, lambda x, *y, z=1, **k: 0, "".join):
    print(signature_from_callable(f), hash(signature_from_callable(f)))
'''
OTHERS = 'c14 c13 c15 c16 c12 c17'
OPS = {ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is',
       ast.In: 'not in', ast.NotIn: 'in', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=',
       ast.GtE: '>'}


def changes(text):
    """(line, what, new text)"""
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for line in lines:
        starts.append(starts[-1] + len(line.encode()))
    data = text.encode()

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset,
                starts[node.end_lineno - 1] + node.end_col_offset)

    def swap(node, new, what):
        a, b = span(node)
        return (node.lineno, f'{what}: {data[a:b].decode()[:80]!r} -> {new[:80]!r}',
                (data[:a] + new.encode() + data[b:]).decode())

    def source(node):
        a, b = span(node)
        return data[a:b].decode()
    for node in ast.walk(tree):
        if isinstance(node, ast.If) and 'version_info' not in ast.unparse(node.test):
            for value in ('True', 'False'):
                yield swap(node.test, value, 'if')
        elif isinstance(node, ast.IfExp):
            yield swap(node, f'({source(node.body)})', 'ifexp')
            yield swap(node, f'({source(node.orelse)})', 'ifexp')
        elif isinstance(node, ast.BoolOp):
            op = ' or ' if isinstance(node.op, ast.And) else ' and '
            yield swap(node, '(' + op.join(f'({source(v)})' for v in node.values)
                       + ')', 'bool')
            for i in range(len(node.values)):
                rest = [v for j, v in enumerate(node.values) if j != i]
                op = ' and ' if isinstance(node.op, ast.And) else ' or '
                yield swap(node, '(' + op.join(f'({source(v)})' for v in rest) + ')',
                           'bool part')
        elif isinstance(node, ast.Compare) and len(node.ops) == 1:
            yield swap(node, f'({source(node.left)} {OPS[type(node.ops[0])]} '
                             f'{source(node.comparators[0])})', 'compare')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            yield swap(node, f'({source(node.operand)})', 'not')
        elif isinstance(node, ast.Constant) and type(node.value) is int:
            yield swap(node, str(node.value + 1), 'constant')
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            yield swap(node, str(not node.value), 'constant')
        elif isinstance(node, ast.Slice):
            yield swap(node, ':', 'slice')
        elif isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise,
                               ast.Continue, ast.Break)):
            if not (isinstance(node, ast.Expr)
                    and isinstance(node.value, ast.Constant)):
                yield swap(node, 'pass', 'statement')
        elif isinstance(node, ast.ExceptHandler) and node.type is not None:
            if source(node.type) != 'ZeroDivisionError':
                yield swap(node.type, 'ZeroDivisionError', 'except')
        elif isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            for d in node.decorator_list:
                a, b = span(d)
                a = data.rindex(b'@', 0, a + 1)
                yield (d.lineno, f'decorator {source(d)[:80]!r}',
                       (data[:a] + data[b:].lstrip()).decode())
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Name) and node.func.id in (
                    'any', 'all', 'sorted', 'reversed', 'set', 'list', 'tuple'):
                other = {'any': 'all', 'all': 'any'}.get(node.func.id)
                if other:
                    yield swap(node.func, other, 'call')
                elif len(node.args) == 1 and not isinstance(node.args[0],
                                                            ast.Starred):
                    yield swap(node, f'({source(node.args[0])})', 'call')
            for i, argument in enumerate(node.args):
                if len(node.args) > 1 and isinstance(argument, ast.Starred):
                    yield swap(argument, '*()', 'argument')
        elif isinstance(node, ast.Dict) and len(node.keys) > 1:
            pass
        elif isinstance(node, ast.comprehension):
            for condition in node.ifs:
                yield swap(condition, 'True', 'filter')
        elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
            yield swap(node, f'({source(node.left)})', 'plus')
            yield swap(node, f'({source(node.right)})', 'plus')


def judge(job):
    number, file, line, what, text = job
    work = tempfile.mkdtemp(prefix='mutant_')
    found, started = [], time.time()
    try:
        repo = os.path.join(work, 'repo')
        shutil.copytree('/repo', repo, symlinks=True, ignore=shutil.ignore_patterns(
                '.git', '__pycache__', '_mypy_*'))
        with open(os.path.join(repo, 'paradigm', '_core', file), 'w') as f:
            f.write(text)
        smoke = subprocess.run(
                ['timeout', '120', '/opt/venv/bin/python', '-c', SMOKE], cwd=repo,
                stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        checks = CHECKS.get(file, OTHERS).split() if smoke.returncode == 0 else []
        if not checks:
            found.append(['import', 1])
        for check in checks:
            try:
                process = subprocess.run(
                        [sys.executable, os.path.join(VERIF, 'checks', check + '.py')],
                        env={**os.environ, 'VP_REPO': repo, 'VERIF_SEED': '1',
                             'VP_EVIDENCE': work},
                        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                        timeout=1500)
                code, tail = process.returncode, process.stdout[-300:]
            except subprocess.TimeoutExpired:
                code, tail = 'time', ''
            found.append([check, code])
            if code == 1:
                break
            if code != 0:
                found[-1].append(tail)
    finally:
        shutil.rmtree(work)
    return {'n': number, 'file': file, 'line': line, 'what': what, 'found': found,
            'caught': bool(found and found[-1][1] == 1),
            'seconds': round(time.time() - started)}


def main(out, seed, *wanted):
    rng, jobs = random.Random(int(seed)), []
    for want in wanted:
        file, _, count = want.partition('=')
        with open(os.path.join('/repo/paradigm/_core', file)) as f:
            text = f.read()
        possible = []
        for line, what, new in changes(text):
            try:
                compile(new, file, 'exec')
            except (SyntaxError, ValueError):
                continue
            possible.append((file, line, what, new))
        jobs += rng.sample(possible, min(int(count), len(possible)))
    rng.shuffle(jobs)
    jobs = [(i, *job) for i, job in enumerate(jobs)]
    with ThreadPoolExecutor(int(os.environ.get('VP_JOBS', 2))) as pool, \
            open(out, 'w') as file:
        for result in pool.map(judge, jobs):
            file.write(json.dumps(result) + '\n')
            file.flush()


if __name__ == '__main__':
    main(*sys.argv[1:])
