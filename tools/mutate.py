#!/usr/bin/env python3
"""Mutation testing of the checks: mutate.py N [SEED] [FILE...].
Small changes of /repo/src/ncdiff that pass the test suite are given to the
checks; those that no check notices are listed in /tmp/mut/survivors.txt."""
import ast
import concurrent.futures
import json
import os
import random
import shutil
import subprocess
import sys

REPO = os.environ.get('MUT_REPO', '/repo')
SRC = REPO + '/src/ncdiff'
OUT = '/tmp/mut'
CHECKS = {
    'calculator.py': 'C04 C02 C01 C16 C06 C14',
    'netconf.py': 'C01 C02 C06 C03 C16 C19 C05 C04',
    'config.py': 'C07 C22 C23 C25 C05 C08 C19 C03 C04 C14 C18 C01',
    'composer.py': 'C14 C07 C15 C01 C18',
    '__init__.py': 'C24 C26',
    'manager.py': 'C15 C18 C17 C14 C21 C23 C09 C08',
    'model.py': 'C20 C13 C21 C18 C23 C14',
    'ref.py': 'C16 C01 C14',
    'runningconfig.py': 'C10 C11 C12',
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<',
       ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in',
       ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(name):
    text = open(os.path.join(SRC, name)).read()
    tree = ast.parse(text)
    lines = text.splitlines(True)
    off = [0]
    for l in lines:
        off.append(off[-1] + len(l.encode()))
    data = text.encode()

    def span(n):
        return (off[n.lineno - 1] + n.col_offset,
                off[n.end_lineno - 1] + n.end_col_offset)
    out = []

    def add(n, new, what):
        a, b = span(n)
        out.append((name, n.lineno, what, a, b, new))

    def src(n):
        a, b = span(n)
        return data[a:b].decode()

    def walk(n, fn):
        if isinstance(n, ast.Raise):
            return
        if isinstance(n, ast.Expr):
            if isinstance(n.value, ast.Constant):
                return
            if 'logger' in src(n):
                return
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            fn = n.name
        if fn:
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                o = CMP[type(n.ops[0])]
                add(n, '(%s %s %s)' % (src(n.left), o,
                                       src(n.comparators[0])), 'cmp ' + o)
            if isinstance(n, ast.BoolOp):
                o = 'or' if isinstance(n.op, ast.And) else 'and'
                add(n, '(' + (' %s ' % o).join(
                    '(%s)' % src(v) for v in n.values) + ')', 'bool ' + o)
                for i in range(len(n.values)):
                    o2 = ' and ' if isinstance(n.op, ast.And) else ' or '
                    add(n, '(' + o2.join(
                        '(%s)' % src(v) for j, v in enumerate(n.values)
                        if j != i) + ')', 'drop operand %d' % i)
            if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                add(n, '(%s)' % src(n.operand), 'drop not')
            if isinstance(n, (ast.If, ast.IfExp)):
                add(n.test, '(False)', 'if False')
                add(n.test, '(True)', 'if True')
            if isinstance(n, ast.Constant) and n.value is True:
                add(n, 'False', 'False')
            if isinstance(n, ast.Constant) and n.value is False:
                add(n, 'True', 'True')
            if isinstance(n, ast.Constant) and type(n.value) is int:
                add(n, '(%d)' % (n.value + 1), 'const+1')
            if isinstance(n, ast.Break):
                add(n, 'continue', 'continue')
            if isinstance(n, ast.Continue):
                add(n, 'break', 'break')
            if isinstance(n, ast.Return) and n.value is not None and \
                    not isinstance(n.value, ast.Constant):
                add(n, 'return None', 'return None')
            if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)):
                add(n, 'pass', 'drop statement')
            if isinstance(n, ast.Assign) and isinstance(
                    n.targets[0], (ast.Attribute, ast.Subscript)):
                add(n, 'pass', 'drop assignment')
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                    n.func.id in ('deepcopy', 'sorted', 'list', 'reversed',
                                  'set') and len(n.args) == 1:
                add(n, '(%s)' % src(n.args[0]), 'drop ' + n.func.id)
        for c in ast.iter_child_nodes(n):
            walk(c, fn)
    walk(tree, None)
    return out


def make(i, m):
    d = '%s/m%d' % (OUT, i)
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(REPO, d, symlinks=True, ignore=shutil.ignore_patterns(
        '.git', '__pycache__', 'docs'))
    f = os.path.join(d, 'src/ncdiff', m[0])
    t = open(f, 'rb').read()
    t = t[:m[3]] + m[5].encode() + t[m[4]:]
    open(f, 'wb').write(t)
    return d


def tests(i, m):
    d = make(i, m)
    try:
        env = dict(os.environ, PYTHONPATH=d + '/src', PYTHONHASHSEED='0',
                   PYTHONDONTWRITEBYTECODE='1')
        try:
            ast.parse(open(os.path.join(d, 'src/ncdiff', m[0])).read())
        except SyntaxError:
            return False
        y = d + '/src/ncdiff/tests/yang'
        r = subprocess.run(
            ['timeout', '-k', '5', '200', '/opt/venv/bin/python', '-m',
             'pytest', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=30',
             'src'], cwd=d, env=env, stdout=subprocess.DEVNULL,
            stderr=subprocess.DEVNULL)
        return r.returncode == 0
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    n = int(sys.argv[1])
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else 1
    files = sys.argv[3:] or sorted(CHECKS)
    os.makedirs(OUT, exist_ok=True)
    ms = [m for f in files for m in mutants(f)]
    random.Random(seed).shuffle(ms)
    print(len(ms), 'mutants,', n, 'tried')
    ms = ms[:n]
    known = '%s/tested-%d-%d.json' % (OUT, n, seed)
    if os.path.exists(known):
        ok = json.load(open(known))
    else:
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(lambda x: tests(*x), enumerate(ms)))
        json.dump(ok, open(known, 'w'))
    live = [(i, m) for i, (m, o) in enumerate(zip(ms, ok)) if o]
    print(len(live), 'pass the tests', flush=True)
    done = set()
    if os.path.exists('%s/results-%d.txt' % (OUT, seed)):
        done = {tuple(json.loads(x)[1:]) for x in
                open('%s/results-%d.txt' % (OUT, seed))}
    res = open('%s/results-%d.txt' % (OUT, seed), 'a')
    surv = open(OUT + '/survivors.txt', 'a')
    for i, m in live:
        if (m[0], m[1], m[2], m[5][:80]) in done:
            continue
        d = make(i, m)
        got = None
        for c in CHECKS[m[0]].split():
            r = subprocess.run(
                ['timeout', '-k', '5', '300', 'python3', 'check.py', c],
                cwd='/verif', env=dict(os.environ, NCDIFF_SRC=d + '/src'),
                stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 1 and 'VIOLATION' in r.stdout:
                got = c
                break
            if r.returncode != 0:
                got = '%s exit %d' % (c, r.returncode)
                print('!!', got, m[:3], r.stdout[-300:], flush=True)
        shutil.rmtree(d, ignore_errors=True)
        line = json.dumps([got, m[0], m[1], m[2], m[5][:80]])
        print(line, flush=True)
        res.write(line + '\n')
        res.flush()
        if got is None:
            surv.write(line + '\n')
            surv.flush()


main()
