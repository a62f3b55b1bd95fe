#!/usr/bin/env python3
"""Mutate functions of the source tree and report the mutants no check sees.

python3 tools/mutate.py -p C07 [-f file-substring] REGEX...
REGEX is searched in 'Class.function' resp. 'function'.  A developer tool: the
survivors have to be judged by hand (many are equivalent)."""
import ast
import copy
import os
import re
import shutil
import subprocess
import sys
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

warnings.simplefilter('ignore')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def functions(tree):
    def rec(node, prefix):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.FunctionDef):
                yield prefix + n.name, n
            elif isinstance(n, ast.ClassDef):
                yield from rec(n, prefix + n.name + '.')
            elif isinstance(n, (ast.If, ast.Try)):
                yield from rec(n, prefix)
    yield from rec(tree, '')


SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
        ast.Div: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd,
        ast.Pow: ast.Mult, ast.LShift: ast.Add}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}
NAMES = {'adjoint': 'conjugate', 'all': 'any', 'any': 'all',
         'issubset': 'issuperset', 'update': None, 'reversed': 'tuple',
         'create': None}


def mutants(node):
    """yield (description, mutate()) working in place on a copy of node"""
    def at(path, n):
        for f, i in path:
            n = getattr(n, f)
            if i is not None:
                n = n[i]
        return n

    def walk(n, path):
        yield path, n
        for f, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        yield from walk(x, path + ((f, i),))
            elif isinstance(v, ast.AST):
                yield from walk(v, path + ((f, None),))

    def replace(root, path, new):
        if not path:
            return new
        parent = at(path[:-1], root)
        f, i = path[-1]
        if i is None:
            setattr(parent, f, new)
        else:
            getattr(parent, f)[i] = new
        return root

    nodes = list(walk(node, ()))
    for path, n in nodes:
        if any(f in ('decorator_list', 'args', 'annotation') and k == 0
               for k, (f, i) in enumerate(path)):
            continue

        def mk(fn, desc):
            c = copy.deepcopy(node)
            x = at(path, c)
            new = fn(x)
            if new is not None:
                replace(c, path, new)
            return desc, c
        if isinstance(n, ast.BinOp):
            if type(n.op) in SWAP:
                def f(x):
                    x.op = SWAP[type(x.op)]()
                yield mk(f, 'op')
            yield mk(lambda x: x.left, 'drop right')
            yield mk(lambda x: x.right, 'drop left')

            def f(x):
                x.left, x.right = x.right, x.left
            if not isinstance(n.op, ast.Mod):
                yield mk(f, 'swap')
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            if type(n.ops[0]) in CMP:
                def f(x):
                    x.ops[0] = CMP[type(x.ops[0])]()
                yield mk(f, 'cmp')
        elif isinstance(n, ast.BoolOp):
            def f(x):
                x.op = ast.Or() if isinstance(x.op, ast.And) else ast.And()
            yield mk(f, 'boolop')
            for k in range(len(n.values)):
                def f(x, k=k):
                    del x.values[k]
                    return x if len(x.values) > 1 else x.values[0]
                yield mk(f, 'drop cond %d' % k)
        elif isinstance(n, ast.UnaryOp):
            yield mk(lambda x: x.operand, 'unary')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield mk(lambda x: ast.Constant(not x.value), 'bool')
            elif isinstance(n.value, (int, float, complex)):
                yield mk(lambda x: ast.Constant(x.value + 1), 'const+1')
            elif n.value is None:
                pass
        elif isinstance(n, ast.Call):
            if len(n.args) >= 2:
                def f(x):
                    x.args[0], x.args[1] = x.args[1], x.args[0]
                yield mk(f, 'swap args')
            for k in range(len(n.keywords)):
                if n.keywords[k].arg:
                    def f(x, k=k):
                        del x.keywords[k]
                    yield mk(f, 'drop kw ' + n.keywords[k].arg)
            if isinstance(n.func, ast.Attribute) and not n.args and \
                    not n.keywords:
                yield mk(lambda x: x.func.value, 'drop .%s()' % n.func.attr)
            elif isinstance(n.func, ast.Attribute) and len(n.args) == 1 \
                    and n.func.attr not in ('create', 'append', 'update'):
                yield mk(lambda x: x.func.value, 'drop .%s(..)'
                         % n.func.attr)
            if isinstance(n.func, ast.Name) and len(n.args) == 1 and not \
                    n.keywords and not isinstance(n.args[0], ast.Starred):
                yield mk(lambda x: x.args[0], 'drop %s()' % n.func.id)
        elif isinstance(n, ast.If):
            def f(x):
                x.test = ast.Constant(True)
            yield mk(f, 'if True')

            def f(x):
                x.test = ast.Constant(False)
            yield mk(f, 'if False')
        elif isinstance(n, ast.IfExp):
            yield mk(lambda x: x.body, 'ifexp body')
            yield mk(lambda x: x.orelse, 'ifexp else')
        elif isinstance(n, ast.comprehension):
            if n.ifs:
                def f(x):
                    x.ifs = []
                yield mk(f, 'drop if')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            yield mk(lambda x: x.value, 'drop slice')
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id in NAMES and NAMES[n.id]:
            def f(x):
                x.id = NAMES[x.id]
            yield mk(f, n.id)
        if isinstance(n, ast.Attribute) and n.attr in NAMES and \
                NAMES[n.attr]:
            def f(x):
                x.attr = NAMES[x.attr]
            yield mk(f, n.attr)
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Expr)) and path and \
                not (isinstance(n, ast.Expr) and isinstance(
                    n.value, ast.Constant)):
            yield mk(lambda x: ast.Pass(), 'drop statement')


def main():
    args = sys.argv[1:]
    props = []
    fsub = ''
    limit = 4000
    while args and args[0].startswith('-'):
        o = args.pop(0)
        if o == '-p':
            props.append(args.pop(0))
        elif o == '-f':
            fsub = args.pop(0)
        elif o == '-n':
            limit = int(args.pop(0))
    pats = [re.compile(a) for a in args]
    jobs = []
    for d, _, fs in os.walk(REPO + '/src'):
        for fn in sorted(fs):
            p = os.path.join(d, fn)
            if not fn.endswith('.py') or fsub not in p:
                continue
            src = open(p).read()
            for name, n in functions(ast.parse(src)):
                if not any(r.search(name) for r in pats):
                    continue
                for desc, m in mutants(n):
                    try:
                        text = ast.unparse(ast.fix_missing_locations(m))
                    except Exception:
                        continue
                    if text == ast.unparse(n):
                        continue
                    first = min([n.lineno] + [x.lineno for x in
                                              n.decorator_list])
                    lines = src.split('\n')
                    new = lines[:first - 1] + [
                        ' ' * n.col_offset + x for x in text.split('\n')
                    ] + lines[n.end_lineno:]
                    jobs.append((p, name, desc, '\n'.join(new),
                                 ast.unparse(n), text))
    print(len(jobs), 'mutants')
    jobs = jobs[:limit]
    base = tempfile.mkdtemp(prefix='mut.', dir='/tmp')

    def run(k_job):
        k, (p, name, desc, text, old, new) = k_job
        root = os.path.join(base, str(k))
        shutil.copytree(REPO + '/src', root + '/src', ignore=shutil.
                        ignore_patterns('__pycache__', '*.egg-info'))
        q = root + p[len(REPO):]
        open(q, 'w').write(text)
        out = 0
        for c in props:
            r = subprocess.run(
                ['python3', VERIF + '/check.py', c], env=dict(
                    os.environ, QNET_REPO=root, SA_NO_EVIDENCE='1'),
                capture_output=True, text=True)
            if r.returncode:
                out = 1
                if r.returncode != 1:
                    out = 2
        shutil.rmtree(root)
        return out
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(run, enumerate(jobs)))
    finally:
        shutil.rmtree(base)
    print('caught', res.count(1), 'errors', res.count(2), 'survived',
          res.count(0))
    for r, (p, name, desc, _, old, new) in zip(res, jobs):
        if r == 1:
            continue
        i = 0
        while i < min(len(old), len(new)) and old[i] == new[i]:
            i += 1
        j = 0
        while j < min(len(old), len(new)) - i and old[-1 - j] == new[-1 - j]:
            j += 1
        a = max(old.rfind('\n', 0, i) + 1, i - 50)
        e = j - min(j, 25)
        print('SURVIVED' if r == 0 else 'ERROR', name, '[%s]' % desc)
        for sign, x in (('-', old), ('+', new)):
            print('     ', sign + x[a:len(x) - e].replace('\n', ' ')[:160])


if __name__ == '__main__':
    main()
