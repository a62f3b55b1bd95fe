#!/usr/bin/env python3
"""Behaviour-preserving rewrites of the whole source tree, to test that the
checks stay quiet.   python3 tools/equiv.py [--tests] [T1 T2 ...] [-p C01 ...]
"""
import ast
import warnings
warnings.simplefilter("ignore")
import builtins
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FN = (ast.FunctionDef,)


def doc_len(body):
    return 1 if body and isinstance(body[0], ast.Expr) and isinstance(
        body[0].value, ast.Constant) and isinstance(
            body[0].value.value, str) else 0


def own_nodes(fn):
    """nodes of fn without nested function/class bodies"""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def is_gen(fn):
    return any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for n in own_nodes(fn))


def params(fn):
    a = fn.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [
        x.arg for x in (a.vararg, a.kwarg) if x]


def locals_of(fn):
    res = set(params(fn))
    glob = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            res.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            res.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for al in n.names:
                res.add((al.asname or al.name).split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            res.add(n.name)
    return res - glob


def nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda))
               for n in own_nodes(fn))


class PerFunction(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        self.fn(fn)
        return fn


class T1(PerFunction):
    """no-op statement"""
    def fn(self, fn):
        k = doc_len(fn.body)
        fn.body[k:k] = ast.parse('_noop = None').body


class T2(ast.NodeTransformer):
    """return through a local"""
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign([ast.Name('_result', ast.Store())], n.value),
                ast.Return(ast.Name('_result', ast.Load()))]


class T3(ast.NodeTransformer):
    """inverted branches"""
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class T4(PerFunction):
    """renamed local variables"""
    def fn(self, fn):
        if nested(fn) or any(isinstance(n, (ast.Global, ast.Nonlocal))
                             for n in own_nodes(fn)):
            return
        if any(isinstance(n, ast.Name) and n.id in ('locals', 'vars', 'eval')
               for n in own_nodes(fn)):
            return
        names = {}
        for n in own_nodes(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names[n.id] = n.id + '_rn'
        imp = set()
        for n in own_nodes(fn):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                imp |= {(a.asname or a.name).split('.')[0] for a in n.names}
            elif isinstance(n, ast.ExceptHandler) and n.name:
                imp.add(n.name)
        for p in list(params(fn)) + list(imp):
            names.pop(p, None)
        for n in own_nodes(fn):
            if isinstance(n, ast.Name) and n.id in names:
                n.id = names[n.id]


class T5(PerFunction):
    """list comprehension -> loop"""
    cnt = 0

    def fn(self, fn):
        if nested(fn):
            pass

        def block(stmts):
            out = []
            for st in stmts:
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(st, f, None), list) and not \
                            isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                for h in getattr(st, 'handlers', []):
                    h.body = block(h.body)
                v = getattr(st, 'value', None)
                if isinstance(st, (ast.Return, ast.Assign)) and isinstance(
                        v, ast.ListComp) and len(v.generators) == 1:
                    g = v.generators[0]
                    T5.cnt += 1
                    nm = '_acc%d' % T5.cnt
                    names = {x.id for x in ast.walk(g.target)
                             if isinstance(x, ast.Name)}
                    if names & locals_of(fn) - {
                            x.id for x in ast.walk(g.target)
                            if isinstance(x, ast.Name)}:
                        out.append(st)
                        continue
                    body = [ast.Expr(ast.Call(ast.Attribute(
                        ast.Name(nm, ast.Load()), 'append', ast.Load()),
                        [v.elt], []))]
                    for c in reversed(g.ifs):
                        body = [ast.If(c, body, [])]
                    out.append(ast.Assign([ast.Name(nm, ast.Store())],
                                          ast.List([], ast.Load())))
                    out.append(ast.For(g.target, g.iter, body, []))
                    st.value = ast.Name(nm, ast.Load())
                out.append(st)
            return out
        # a comprehension variable must not clash with a local
        cv = set()
        for n in own_nodes(fn):
            if isinstance(n, ast.ListComp):
                for g in n.generators:
                    cv |= {x.id for x in ast.walk(g.target)
                           if isinstance(x, ast.Name)}
        others = set(params(fn))
        for n in own_nodes(fn):
            if isinstance(n, (ast.For,)):
                others |= {x.id for x in ast.walk(n.target)
                           if isinstance(x, ast.Name)}
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    others |= {x.id for x in ast.walk(t)
                               if isinstance(x, ast.Name)}
        if cv & others:
            return
        fn.body = block(fn.body)


class T6(ast.NodeTransformer):
    """extracted helper: each returned expression goes to a new method or
    module function"""
    def __init__(self):
        self.cls = []
        self.n = 0

    def visit_Module(self, m):
        self.extra = []
        self.modlevel = m
        self.generic_visit(m)
        m.body.extend(self.extra)
        # helpers may be needed at import time: put them after the imports
        return m

    def visit_ClassDef(self, c):
        self.cls.append((c, []))
        c.body = [self.visit(x) for x in c.body]
        _, new = self.cls.pop()
        c.body.extend(new)
        return c

    def visit_FunctionDef(self, fn):
        if fn.decorator_list and any(
                not (isinstance(d, ast.Name) and d.id in (
                    'property', 'classmethod', 'staticmethod'))
                for d in fn.decorator_list):
            return fn
        kind = 'method'
        for d in fn.decorator_list:
            kind = d.id
        if kind == 'staticmethod' or is_gen(fn) or nested(fn) or not self.cls:
            return fn
        c, new = self.cls[-1]
        ps = params(fn)
        if not ps:
            return fn
        loc = locals_of(fn)
        for n in own_nodes(fn):
            if not isinstance(n, ast.Return) or n.value is None or isinstance(
                    n.value, (ast.Name, ast.Constant)):
                continue
            v = n.value
            bad = any(isinstance(x, (ast.Lambda, ast.ListComp, ast.DictComp,
                                     ast.SetComp, ast.GeneratorExp,
                                     ast.Await, ast.NamedExpr))
                      or (isinstance(x, ast.Name) and x.id in (
                          'super', '__class__', 'locals'))
                      or (isinstance(x, ast.Attribute) and
                          x.attr.startswith('__') and
                          not x.attr.endswith('__'))
                      for x in ast.walk(v))
            if bad:
                continue
            used = []
            for x in ast.walk(v):
                if isinstance(x, ast.Name) and x.id in loc and \
                        x.id != ps[0] and x.id not in used:
                    used.append(x.id)
            T6.total = getattr(T6, 'total', 0) + 1
            nm = '_helper_%d' % T6.total
            h = ast.FunctionDef(
                nm, ast.arguments([], [ast.arg(ps[0])] + [
                    ast.arg(u) for u in used], None, [], [], None, []),
                [ast.Return(v)],
                [ast.Name('classmethod', ast.Load())]
                if kind == 'classmethod' else [], None)
            if 'type_params' in ast.FunctionDef._fields:
                h.type_params = []
            new.append(h)
            n.value = ast.Call(
                ast.Attribute(ast.Name(ps[0], ast.Load()), nm, ast.Load()),
                [ast.Name(u, ast.Load()) for u in used], [])
        return fn


class T7(ast.NodeTransformer):
    """conditional expression in return/assign -> if statement"""
    def visit_Return(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Return(v.body)],
                          [ast.Return(v.orelse)])
        return n

    def visit_Assign(self, n):
        if isinstance(n.value, ast.IfExp):
            v = n.value
            return ast.If(v.test, [ast.Assign(n.targets, v.body)],
                          [ast.Assign(n.targets, v.orelse)])
        return n


def ends(body):
    return bool(body) and isinstance(body[-1], (ast.Return, ast.Raise))


class T8(PerFunction):
    """`if c: return a; rest` -> `if c: return a else: rest`"""
    def fn(self, fn):
        def block(stmts):
            for i, st in enumerate(stmts):
                if isinstance(st, ast.If) and not st.orelse and \
                        ends(st.body) and stmts[i + 1:]:
                    st.orelse = block(stmts[i + 1:])
                    return stmts[:i + 1]
            return stmts
        k = doc_len(fn.body)
        fn.body = fn.body[:k] + block(fn.body[k:])


class T9(PerFunction):
    """`if c: return a else: rest` -> `if c: return a; rest`"""
    def fn(self, fn):
        def block(stmts):
            out = []
            for st in stmts:
                if isinstance(st, ast.If) and st.orelse and ends(st.body):
                    rest = st.orelse
                    st.orelse = []
                    out.append(st)
                    out.extend(block(rest))
                else:
                    out.append(st)
            return out
        fn.body = block(fn.body)


class T10(ast.NodeTransformer):
    """isinstance(x, (A, B)) -> isinstance(x, A) or isinstance(x, B)"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and \
                len(n.args) == 2 and isinstance(n.args[1], ast.Tuple) and \
                isinstance(n.args[0], ast.Name):
            return ast.BoolOp(ast.Or(), [
                ast.Call(n.func, [n.args[0], e], [])
                for e in n.args[1].elts])
        return n


class T11(PerFunction):
    """every argument of a call in a return goes through a local first"""
    def fn(self, fn):
        def block(stmts):
            out = []
            for st in stmts:
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(st, f, None), list) and not \
                            isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                for h in getattr(st, 'handlers', []):
                    h.body = block(h.body)
                v = getattr(st, 'value', None)
                if isinstance(st, ast.Return) and isinstance(v, ast.Call) \
                        and not any(isinstance(a, ast.Starred)
                                    for a in v.args) and isinstance(
                            v.func, (ast.Name, ast.Attribute)) and not any(
                            isinstance(x, ast.Call) for x in
                            ast.walk(v.func)):
                    for i, a in enumerate(v.args):
                        if isinstance(a, (ast.Name, ast.Constant,
                                          ast.GeneratorExp)):
                            continue
                        nm = '_arg%d' % i
                        out.append(ast.Assign(
                            [ast.Name(nm, ast.Store())], a))
                        v.args[i] = ast.Name(nm, ast.Load())
                out.append(st)
            return out
        fn.body = block(fn.body)


class T12(PerFunction):
    """for x in it: ... -> it through a local; `x += y` -> `x = x + y`"""
    def fn(self, fn):
        ints = set()

        class V(ast.NodeTransformer):
            def visit_For(s, n):
                s.generic_visit(n)
                if isinstance(n.iter, (ast.Name, ast.Constant)):
                    return n
                return [ast.Assign([ast.Name('_it', ast.Store())], n.iter),
                        ast.For(n.target, ast.Name('_it', ast.Load()),
                                n.body, n.orelse)]

            def visit_FunctionDef(s, n):
                return n
        fn.body = [y for x in fn.body for y in (
            lambda r: r if isinstance(r, list) else [r])(V().visit(x))]


class T13(ast.NodeTransformer):
    """a == b -> b == a for constants; `x is None` kept; != -> not =="""
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotEq) and \
                isinstance(n.comparators[0], ast.Constant):
            return ast.UnaryOp(ast.Not(), ast.Compare(
                n.left, [ast.Eq()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.IsNot):
            return ast.UnaryOp(ast.Not(), ast.Compare(
                n.left, [ast.Is()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.NotIn):
            return ast.UnaryOp(ast.Not(), ast.Compare(
                n.left, [ast.In()], n.comparators))
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.Lt) and \
                isinstance(n.comparators[0], ast.Constant):
            return ast.Compare(n.comparators[0], [ast.Gt()], [n.left])
        if len(n.ops) == 1 and isinstance(n.ops[0], ast.Gt) and \
                isinstance(n.comparators[0], ast.Constant):
            return ast.Compare(n.comparators[0], [ast.Lt()], [n.left])
        return n


class T14(PerFunction):
    """if a and b: X (no else) -> nested ifs; if-assign hoisting"""
    def fn(self, fn):
        class V(ast.NodeTransformer):
            def visit_If(s, n):
                s.generic_visit(n)
                if not n.orelse and isinstance(n.test, ast.BoolOp) and \
                        isinstance(n.test.op, ast.And):
                    body = n.body
                    for v in reversed(n.test.values):
                        body = [ast.If(v, body, [])]
                    return body[0]
                return n

            def visit_FunctionDef(s, n):
                return n
        fn.body = [V().visit(x) for x in fn.body]


class T15(PerFunction):
    """loop-append -> comprehension"""
    def fn(self, fn):
        def block(stmts):
            out = []
            i = 0
            while i < len(stmts):
                st = stmts[i]
                for f in ('body', 'orelse', 'finalbody'):
                    if isinstance(getattr(st, f, None), list) and not \
                            isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                        setattr(st, f, block(getattr(st, f)))
                nx = stmts[i + 1] if i + 1 < len(stmts) else None
                if isinstance(st, ast.Assign) and isinstance(
                        st.value, ast.List) and not st.value.elts and \
                        isinstance(nx, ast.For) and not nx.orelse and \
                        len(nx.body) == 1 and len(st.targets) == 1 and \
                        isinstance(st.targets[0], ast.Name):
                    b = nx.body[0]
                    ifs = []
                    if isinstance(b, ast.If) and not b.orelse and \
                            len(b.body) == 1:
                        ifs = [b.test]
                        b = b.body[0]
                    if isinstance(b, ast.Expr) and isinstance(
                            b.value, ast.Call) and isinstance(
                            b.value.func, ast.Attribute) and \
                            b.value.func.attr == 'append' and isinstance(
                            b.value.func.value, ast.Name) and \
                            b.value.func.value.id == st.targets[0].id and \
                            len(b.value.args) == 1:
                        st.value = ast.ListComp(
                            b.value.args[0],
                            [ast.comprehension(nx.target, nx.iter, ifs, 0)])
                        out.append(st)
                        i += 2
                        continue
                out.append(st)
                i += 1
            return out
        fn.body = block(fn.body)


class T16(ast.NodeTransformer):
    """list(x for ..) / tuple([...]) normal forms; super().m(...) local"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('tuple', 'set') and \
                len(n.args) == 1 and isinstance(n.args[0], ast.ListComp):
            n.args[0] = ast.GeneratorExp(n.args[0].elt, n.args[0].generators)
        return n


class T17(PerFunction):
    """tail of a function (after the guards) in a nested helper"""
    def fn(self, fn):
        if is_gen(fn) or nested(fn) or any(
                isinstance(d, ast.Attribute) or isinstance(d, ast.Call)
                for d in fn.decorator_list):
            return
        if any(isinstance(n, (ast.Import, ast.ImportFrom, ast.Global))
               for n in own_nodes(fn)):
            return
        k = doc_len(fn.body)
        last = fn.body[-1]
        if len(fn.body) - k < 2 or not isinstance(last, ast.Return) or \
                last.value is None or isinstance(last.value, ast.Name):
            return
        h = ast.FunctionDef('_tail', ast.arguments(
            [], [], None, [], [], None, []), [ast.Return(last.value)], [],
            None)
        if 'type_params' in ast.FunctionDef._fields:
            h.type_params = []
        if any(isinstance(x, ast.Name) and x.id in ('super', 'locals')
               for x in ast.walk(last.value)):
            return
        fn.body[-1:] = [h, ast.Return(ast.Call(
            ast.Name('_tail', ast.Load()), [], []))]


ALL = {k: v for k, v in list(globals().items())
       if k[0] == 'T' and k[1:].isdigit()}


def make(name, dst):
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    subprocess.check_call(['cp', '-a', '/repo/src', dst])
    for root, _, files in os.walk(dst + '/src/qnet'):
        for f in files:
            if not f.endswith('.py'):
                continue
            p = os.path.join(root, f)
            t = ast.parse(open(p, encoding='utf-8').read())
            t = ALL[name]().visit(t)
            ast.fix_missing_locations(t)
            open(p, 'w', encoding='utf-8').write(ast.unparse(t))


def props():
    import json
    return [c['property'] for c in json.load(
        open(VERIF + '/MANIFEST.json'))['checks']]


def one(job):
    name, prop = job
    env = dict(os.environ, QNET_REPO='/tmp/eq/' + name, SA_NO_EVIDENCE='1')
    r = subprocess.run(['python3', VERIF + '/check.py', prop], env=env,
                       capture_output=True)
    lines = r.stdout.decode().splitlines()
    und = [x for x in lines if x.startswith('obligations')]
    ls = [x.strip()[:260] for x in lines
          if x.startswith('  violated') or 'ERROR' in x]
    if r.returncode not in (0, 1):
        ls += r.stderr.decode().splitlines()[-2:]
    return name, prop, r.returncode, ls, und


if __name__ == '__main__':
    args = sys.argv[1:]
    names = [a for a in args if a in ALL] or sorted(
        ALL, key=lambda x: int(x[1:]))
    ps = args[args.index('-p') + 1:] if '-p' in args else props()
    for n in names:
        if '--keep' not in args or not os.path.exists('/tmp/eq/' + n):
            make(n, '/tmp/eq/' + n)
    if '--tests' in args:
        import seed
        for n in names:
            subprocess.check_call(['cp', '-a', '/repo/tests', '/repo/docs',
                                   '/repo/setup.cfg', '/tmp/eq/' + n])
            b = seed.run_tests('/tmp/eq/' + n)
            print(n, 'tests broken:', len(b), b[:6], flush=True)
    with ThreadPoolExecutor(7) as ex:
        for name, prop, rc, ls, und in ex.map(
                one, [(n, p) for n in names for p in ps]):
            if rc or '-v' in args:
                print(name, prop, rc, und, flush=True)
                for x in ls[:6]:
                    print('    ', x)
    print('done', len(names), 'rewrites x', len(ps), 'checks')
    if '--keep' not in args:
        shutil.rmtree('/tmp/eq', ignore_errors=True)
