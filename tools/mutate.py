#!/usr/bin/env python3
"""tools/mutate.py ID FUNCTION[,FUNCTION...] [max]: how many small changes of the functions does the proof of the property notice?

Works on scratch copies of /repo; survivors are printed (equivalent changes, or gaps of the contract).
With REPLAY=SECONDS the executable contracts of replay/ are tried instead of the proof."""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.GtE], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.LtE], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift, ast.RShift: ast.LShift}


def log_call(n):
    return isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith('log.')


def mutants(fn):
    """[(description, mutated function)]"""
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if log_call(n):
            skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr):
            skip |= {id(x) for x in ast.walk(n)}
    out = []

    def add(i, what, change):
        m = copy.deepcopy(fn)
        change(list(ast.walk(m))[i])
        out.append((f'line {nodes[i].lineno}: {what}', m))
    for i, n in enumerate(nodes):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for new in CMP.get(type(op), []):
                    add(i, f'{ast.unparse(n)} -> {new.__name__}', lambda x, j=j, new=new: x.ops.__setitem__(j, new()))
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            add(i, f'{ast.unparse(n)} -> {BIN[type(n.op)].__name__}', lambda x: setattr(x, 'op', BIN[type(x.op)]()))
        if isinstance(n, ast.BoolOp):
            add(i, f'{ast.unparse(n)} and<->or', lambda x: setattr(x, 'op', ast.Or() if isinstance(x.op, ast.And) else ast.And()))
            for j in range(len(n.values)):
                add(i, f'{ast.unparse(n)} without operand {j}', lambda x, j=j: x.values.pop(j))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(i, f'{ast.unparse(n)} without not', lambda x: (setattr(x, 'op', ast.Not()), setattr(x, 'operand', ast.UnaryOp(ast.Not(), x.operand))))
        if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
            add(i, f'constant {n.value} + 1', lambda x: setattr(x, 'value', x.value + 1))
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            add(i, f'constant {n.value} negated', lambda x: setattr(x, 'value', not x.value))
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value and ' ' not in n.value:
            add(i, f'constant {n.value!r} changed', lambda x: setattr(x, 'value', x.value + '_'))
        if isinstance(n, ast.IfExp):
            add(i, f'{ast.unparse(n)} swapped', lambda x: x.__dict__.update(body=x.orelse, orelse=x.body))
        if isinstance(n, ast.Break):
            add(i, 'break -> continue', lambda x: setattr(x, '__class__', ast.Continue))
        if isinstance(n, ast.Continue):
            add(i, 'continue -> break', lambda x: setattr(x, '__class__', ast.Break))
        for field in ('body', 'orelse'):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if isinstance(s, ast.stmt) and not log_call(s) and not isinstance(s, (ast.Pass, ast.FunctionDef)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        def drop(x, field=field, j=j):
                            getattr(x, field)[j] = ast.Pass()
                        add(i, f'line {s.lineno} removed: {ast.unparse(s).splitlines()[0][:60]}', drop)
        if isinstance(n, ast.If):
            add(i, f'if {ast.unparse(n.test)[:60]} -> True', lambda x: setattr(x, 'test', ast.Constant(True)))
            add(i, f'if {ast.unparse(n.test)[:60]} -> False', lambda x: setattr(x, 'test', ast.Constant(False)))
    return out


def main():
    pid, names = sys.argv[1], sys.argv[2].split(',')
    limit = int(sys.argv[3]) if len(sys.argv) > 3 else 60
    todo = []
    for mod in sorted(os.listdir(os.path.join(REPO, 'esp_idf_size'))):
        if not mod.endswith('.py'):
            continue
        path = os.path.join(REPO, 'esp_idf_size', mod)
        tree = ast.parse(open(path).read())
        for top in ast.walk(tree):
            if isinstance(top, ast.FunctionDef) and f'{mod[:-3]}.{top.name}' in names:
                for what, m in mutants(top):
                    todo.append((mod, top.name, top.lineno, what, m))
    random.Random(1).shuffle(todo)
    tmp = tempfile.mkdtemp(prefix='mutate-')

    def one(x):
        i, (mod, name, line, what, m) = x
        d = os.path.join(tmp, str(i))
        shutil.copytree(os.path.join(REPO, 'esp_idf_size'), os.path.join(d, 'esp_idf_size'))
        path = os.path.join(d, 'esp_idf_size', mod)
        tree = ast.parse(open(path).read())

        class Put(ast.NodeTransformer):
            def visit_FunctionDef(self, n):
                return m if n.name == name and n.lineno == line else self.generic_visit(n)
        tree = Put().visit(tree)
        try:
            src = ast.unparse(ast.fix_missing_locations(tree))
            compile(src, path, 'exec')
        except (SyntaxError, ValueError):
            return None
        open(path, 'w').write(src)
        out = os.path.join(d, 'out.json')
        env = dict(os.environ, VERIF_REPO=d, PYVC_JOBS='1', PYVC_LIMIT='200')
        if os.environ.get('REPLAY'):
            env = dict(os.environ, PYTHONPATH=d, PYTHONUTF8='1', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='1')
            try:
                subprocess.run(['/opt/venv/bin/python', os.path.join(HERE, 'replay', 'run.py'), 'search', pid, os.environ['REPLAY'], '1000', out],
                               env=env, cwd='/', stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=float(os.environ['REPLAY']) + 100)
                res, unsup = bool(json.load(open(out))['violation']), False
            except Exception:
                res, unsup = False, False
            shutil.rmtree(d, ignore_errors=True)
            return res, unsup, f'{mod[:-3]}.{name} {what}'
        try:
            subprocess.run(['python3-vt', os.path.join(HERE, 'pyvc', 'prove.py'), pid, 'quick', out], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
            r = json.load(open(out))
            bad = [o for o in r['obligations'] if o['status'] != 'discharged']
            res = bool(bad or r.get('error'))
            unsup = bool(bad) and all('reach of the verifier' in o['name'] for o in bad)
        except Exception:
            res, unsup = True, True
        shutil.rmtree(d, ignore_errors=True)
        return res, unsup, f'{mod[:-3]}.{name} {what}'
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '6'))) as ex:
        rs = [r for r in ex.map(one, enumerate(todo[:limit])) if r]
    shutil.rmtree(tmp, ignore_errors=True)
    print(f'{pid}: {len(todo)} changes, {len(rs)} tried, {sum(r[0] for r in rs)} noticed ({sum(r[1] for r in rs)} as out of reach), survivors:')
    for r in rs:
        if not r[0]:
            print('   ', r[2])


main()
