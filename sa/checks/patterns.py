"""Matching finds exactly the bindings that rebuild the expression.

The matching code is followed along all its paths, with every question about
an expression (its class, the conditions, equality with another one) answered
both ways.  On each path the answers that were asked for must settle the
outcome, and the outcome must be the one they settle."""
import ast
import itertools
import re
from collections import OrderedDict
from collections.abc import Sequence

from ..core import where
from ..linear import (NONE, Interp, Open, State, is_generator, lconst, num,
                      truthy)
from ..src import AnalysisError

PM = 'qnet.algebra.pattern_matching.'
AP = 'qnet.algebra.core.algebraic_properties.'
SINGLE, MORE, ANY = 1, 2, 3
FUEL = 16


class Need(Exception):
    pass


def atom(name, args=(), kws=(), scalar=False):
    return ('atom', name, tuple(args), tuple(kws), scalar)


class Match(Interp):
    """mutable lists, generators and open questions about expressions"""

    def __init__(self, repo):
        super().__init__(repo)
        for k in ('__init__', '__setitem__'):
            self.builders[('MatchDict', k)] = getattr(
                self, 'super' + k.strip('_'))
        self.fuel = {}

    # -- objects --------------------------------------------------------------
    def alloc(self, st, kind, items):
        o = (kind, next(self.n))
        s = st.copy()
        s.heap[o[1]] = {'$l': tuple(items)}
        return s, o

    @staticmethod
    def content(st, v):
        return st.heap[v[1]]['$l']

    @staticmethod
    def store(st, v, items):
        s = st.copy()
        s.heap[v[1]] = {'$l': tuple(items)}
        return s

    def superinit(self, it, selfv, args, kws, st):
        s = st.copy()
        s.heap[selfv[2]] = dict(s.heap[selfv[2]], **{'$d': ()})
        return [(s, NONE)]

    def supersetitem(self, it, selfv, args, kws, st):
        k, v = args
        d = st.heap[selfv[2]].get('$d', ())
        s = st.copy()
        if k in [x for x, _ in d]:
            d = tuple((x, v if x == k else y) for x, y in d)
        else:
            d += ((k, v),)
        s.heap[selfv[2]] = dict(s.heap[selfv[2]], **{'$d': d})
        return [(s, NONE)]

    def asks(self, st, fact):
        """both answers to a question, or the one already given"""
        known = dict(st.notes)
        if fact in known:
            return [(st, known[fact])]
        res = []
        for b in (True, False):
            s = st.copy()
            s.notes = st.notes + ((fact, b),)
            res.append((s, b))
        return res

    # -- statements -----------------------------------------------------------
    def s_Expr(self, node, env, st):
        if isinstance(node.value, ast.Yield) and node.value.value:
            def then(s, v):
                y = env.get('$yield', ()) + (v,)
                e = dict(env, **{'$yield': y})
                if len(y) >= FUEL:
                    return [(s, dict(e, **{'$cut': True}),
                             ('return', NONE))]
                return [(s, e, None)]
            return self.values(node.value.value, env, st, then)
        if isinstance(node.value, (ast.Constant, ast.YieldFrom)):
            if isinstance(node.value, ast.YieldFrom):
                def then2(s, v):
                    return [(s, dict(env, **{'$yield': env.get(
                        '$yield', ()) + tuple(self.items(
                            self.loose(s, v)))}), None)]
                return self.values(node.value.value, env, st, then2)
            return [(st, env, None)]
        return self.values(node.value, env, st,
                           lambda s, v: [(s, env, None)])

    def s_While(self, node, env, st):
        if node.orelse:
            raise Open('else of a loop')
        live, done = [(st, dict(env))], []
        for _ in range(3 * FUEL):
            nxt = []
            for s, e in live:
                for s2, b in self.cond(node.test, e, s):
                    if b is False:
                        done.append((s2, e, None))
                        continue
                    if b is not True:
                        done.append((s2, e, ('raise', b)))
                        continue
                    for s3, e3, o in self.block(node.body, e, s2):
                        if o is None or o[0] == 'continue':
                            nxt.append((s3, e3))
                        elif o[0] == 'break':
                            done.append((s3, e3, None))
                        else:
                            done.append((s3, e3, o))
            live = nxt
            if not live:
                return done
        raise Open('a long loop')

    def s_For(self, node, env, st):
        tmp = '$it%d' % node.lineno
        res = []
        for s, v in self.ev(node.iter, env, st):
            if v[0] == 'EXC':
                res.append((s, env, ('raise', v[1])))
                continue
            res += super().s_For(ast.For(
                target=node.target, iter=ast.Name(tmp, ast.Load()),
                body=node.body, orelse=node.orelse, lineno=node.lineno),
                dict(env, **{tmp: self.loose(s, v)}), s)
        return res

    def loose(self, st, v):
        """as a tuple of the present items"""
        if v[0] in ('list', 'set'):
            return ('tuple', self.content(st, v))
        if v[0] == 'iter':
            if v[3]:
                raise Open('an endless iteration')
            k = st.heap[v[1]]['$pos']
            return ('tuple', v[2][k:])
        if v[0] == 'obj' and '$d' in st.heap.get(v[2], {}):
            return ('tuple', tuple(k for k, _ in st.heap[v[2]]['$d']))
        if v[0] == 'dict':
            return ('tuple', tuple(('text', k) for k, _ in v[1]))
        return v

    def s_AugAssign(self, node, env, st):
        if isinstance(node.target, ast.Name):
            v = env.get(node.target.id)
            if v is not None and v[0] == 'list' and isinstance(
                    node.op, ast.Add):
                return self.values(node.value, env, st, lambda s, x: [
                    (self.store(s, v, self.content(s, v) + tuple(
                        self.items(self.loose(s, x)))), env, None)])
            return super().s_AugAssign(node, env, st)
        t = node.target
        load = ast.Attribute(t.value, t.attr, ast.Load()) if isinstance(
            t, ast.Attribute) else ast.Subscript(t.value, t.slice,
                                                 ast.Load())
        return self.values(ast.BinOp(load, node.op, node.value), env, st,
                           lambda s, v: self.assign(t, v, env, s))

    def assign(self, target, v, env, st):
        if isinstance(target, (ast.Tuple, ast.List)):
            return super().assign(target, self.loose(st, v), env, st)
        if not isinstance(target, ast.Subscript):
            return super().assign(target, v, env, st)

        def then(s, b):
            if b[0] == 'list' and isinstance(target.slice, ast.Slice):
                x = list(self.content(s, b))
                try:
                    lo, up, step = (
                        None if n is None else ast.literal_eval(n)
                        for n in (target.slice.lower, target.slice.upper,
                                  target.slice.step))
                except ValueError:
                    raise Open('slice')
                x[lo:up:step] = self.items(self.loose(s, v))
                return [(self.store(s, b, x), env, None)]

            def put(s2, k):
                if b[0] == 'list' and k[0] == 'int':
                    i = lconst(k[1])
                    x = list(self.content(s2, b))
                    if i is None:
                        raise Open('index')
                    if not -len(x) <= i < len(x):
                        return [(s2, env, ('raise', 'IndexError'))]
                    x[int(i)] = v
                    return [(self.store(s2, b, x), env, None)]
                if b[0] == 'odict':
                    d = s2.heap[b[1]]['$l']
                    if k in [x for x, _ in d]:
                        d = tuple((x, v if x == k else y) for x, y in d)
                    else:
                        d += ((k, v),)
                    return [(self.store(s2, b, d), env, None)]
                if b[0] != 'obj':
                    raise Open('item of %s' % b[0])
                hit = self.repo.lookup(self.repo.cls(b[1]), '__setitem__')
                if hit is None or hit[1] != 'method':
                    raise Open('item of %s' % b[1])
                return [(s3, env, ('raise', r[1]) if r[0] == 'EXC' else None)
                        for s3, r in self.run(hit[0], hit[2], b, [k, v], {},
                                              s2)]
            return self.values(target.slice, env, s, put)
        return self.values(target.value, env, st, then)

    # -- expressions ------------------------------------------------------------
    def e_Tuple(self, node, env, st):
        if not any(isinstance(x, ast.Starred) for x in node.elts):
            return super().e_Tuple(node, env, st)
        res = []
        for s, vs in self.evs([x.value if isinstance(x, ast.Starred) else x
                               for x in node.elts], env, st):
            if vs and vs[0] == 'EXC':
                res.append((s, vs))
                continue
            xs = []
            for x, v in zip(node.elts, vs):
                xs += self.items(self.loose(s, v)) if isinstance(
                    x, ast.Starred) else [v]
            res.append((s, ('tuple', tuple(xs))))
        return res

    # functions within functions
    def e_Lambda(self, node, env, st):
        return [(st, ('clo', id(node), node, env))]

    def s_FunctionDef(self, node, env, st):
        if node.decorator_list or is_generator(node):
            raise Open('a decorated function or generator')
        return [(st, dict(env, **{node.name: ('clo', id(node), node, env)}),
                 None)]

    def closure(self, st, f, args, kws):
        node, env = f[2], f[3]
        a = node.args
        names = [x.arg for x in a.args]
        if a.vararg or a.kwarg or a.kwonlyargs or len(args) > len(names) or \
                set(kws) - set(names[len(args):]) or self.depth > 30:
            raise Open('closure')
        e = {k: v for k, v in env.items() if k not in ('$locals', '$yield')}
        given = dict(zip(names, args), **kws)
        for n, d in zip(names[len(names) - len(a.defaults):], a.defaults):
            if n not in given:
                (_, given[n]), = self.ev(d, env, st)
        if set(given) != set(names):
            raise Open('closure')
        e.update(given)
        self.depth += 1
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, e, st)
            e[node.name] = f
            return [(s, NONE if o is None else o[1] if o[0] == 'return' else
                     ('EXC', o[1]))
                    for s, _, o in self.block(node.body, e, st)]
        finally:
            self.depth -= 1

    def e_List(self, node, env, st):
        res = []
        for s, v in self.e_Tuple(node, env, st):
            res.append((s, v) if v[0] == 'EXC' else
                       self.alloc(s, 'list', v[1]))
        return res

    def e_ListComp(self, node, env, st):
        res = []
        for s, v in self.comp(node, env, st):
            if v[0] != 'tuple':
                res.append((s, v))
            elif isinstance(node, ast.ListComp):
                res.append(self.alloc(s, 'list', v[1]))
            elif isinstance(node, ast.SetComp):
                res.append(self.alloc(s, 'set', dict.fromkeys(v[1])))
            else:
                res.append((s, v))
        return res

    e_GeneratorExp = e_SetComp = e_ListComp

    def comp(self, node, env, st):
        def gens(i, s, e):
            if i == len(node.generators):
                return [(s2, v if v[0] == 'EXC' else (v,))
                        for s2, v in self.ev(node.elt, e, s)]
            g = node.generators[i]
            out = []
            for s1, seq in self.ev(g.iter, e, s):
                if seq[0] == 'EXC':
                    out.append((s1, seq))
                    continue
                acc = [(s1, ())]
                for x in self.items(self.loose(s1, seq)):
                    nxt = []
                    for s2, vs in acc:
                        if vs[:1] == ('EXC',):
                            nxt.append((s2, vs))
                            continue
                        for s3, e3, o in self.assign(g.target, x, dict(e),
                                                     s2):
                            if o is not None:
                                nxt.append((s3, ('EXC', o[1])))
                                continue
                            for s4, b in self.cond(ast.BoolOp(
                                    ast.And(), g.ifs), e3, s3) if g.ifs \
                                    else [(s3, True)]:
                                if b is False:
                                    nxt.append((s4, vs))
                                elif b is not True:
                                    nxt.append((s4, ('EXC', b)))
                                else:
                                    nxt += [(s5, v if v[:1] == ('EXC',) else
                                             vs + v) for s5, v in gens(
                                                 i + 1, s4, e3)]
                    acc = nxt
                out += acc
            return out
        return [(s, v if v[:1] == ('EXC',) else ('tuple', v))
                for s, v in gens(0, st, dict(env))]

    def e_Name(self, node, env, st):
        if node.id not in env and node.id in env.get('$locals', ()):
            return [(st, ('EXC', 'UnboundLocalError'))]
        return super().e_Name(node, env, st)

    def block(self, body, env, st):
        if '$locals' not in env:
            names = set()
            for x in body:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(
                            y.ctx, ast.Store):
                        names.add(y.id)
            comp = {y.id for x in body for c in ast.walk(x) if isinstance(
                c, ast.comprehension) for y in ast.walk(c.target)
                if isinstance(y, ast.Name)}
            env = dict(env, **{'$locals': frozenset(names - comp)})
        return super().block(body, env, st)

    def e_Subscript(self, node, env, st):
        res = []
        for s, b in self.ev(node.value, env, st):
            if b[0] == 'EXC':
                res.append((s, b))
                continue
            if b[0] in ('list', 'set'):
                for s2, v in super().e_Subscript(ast.Subscript(
                        ast.Name('$v', ast.Load()), node.slice, ast.Load()),
                        dict(env, **{'$v': self.loose(s, b)}), s):
                    if v[0] == 'tuple' and isinstance(node.slice, ast.Slice):
                        s2, v = self.alloc(s2, 'list', v[1])
                    res.append((s2, v))
                continue
            if b[0] in ('obj', 'dict', 'odict') and not isinstance(
                    node.slice, ast.Slice):
                for s2, k in self.ev(node.slice, env, s):
                    if k[0] == 'EXC':
                        res.append((s2, k))
                        continue
                    if b[0] == 'obj' and '$d' not in s2.heap[b[2]]:
                        hit = self.repo.lookup(self.repo.cls(b[1]),
                                               '__getitem__')
                        res += self.run(hit[0], hit[2], b, [k], {}, s2)
                        continue
                    res.append((s2, dict(self.pairs(s2, b)).get(
                        k, ('EXC', 'KeyError'))))
                continue
            res += super().e_Subscript(ast.Subscript(
                ast.Name('$v', ast.Load()), node.slice, ast.Load()),
                dict(env, **{'$v': b}), s)
        return res

    def pairs(self, st, b):
        if b[0] == 'dict':
            return tuple((('text', k), v) for k, v in b[1])
        if b[0] == 'odict':
            return st.heap[b[1]]['$l']
        return st.heap[b[2]]['$d']

    # -- questions ----------------------------------------------------------------
    def compare(self, st, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            return super().compare(st, op, a, b)
        o = self.OPS.get(type(op))
        if o in ('==', '!='):
            r = self.same(st, a, b)
            if r is not None:
                return [(s, ('EXC', x) if x not in (True, False) else
                         truthy(x == (o == '=='))) for s, x in r]
        return super().compare(st, op, a, b)

    def same(self, st, a, b):
        """[(state, equal)]"""
        if a[0] == 'obj' and a[1] == 'Pattern':
            if a == b:
                return [(st, True)]
            hit = self.repo.lookup(self.repo.cls(a[1]), '__eq__')
            if hit is None or hit[1] != 'method':
                return [(st, False)]
            return [(s2, x) for s, v in self.run(
                hit[0], hit[2], a, [b], {}, st)
                for s2, x in (self.truth(s, v) if v[0] != 'EXC' else
                              [(s, v[1])])]
        if a[0] == b[0] == 'atom':
            return [(st, True)] if a == b else self.asks(
                st, ('same',) + tuple(sorted((a[1], b[1]))))
        if a[0] in ('list', 'set', 'tuple') and b[0] in ('list', 'set',
                                                         'tuple'):
            if a[0] != b[0]:
                return [(st, False)]
            x, y = (self.loose(st, v)[1] for v in (a, b))
            if a[0] == 'set':
                return [(st, set(x) == set(y))]
            if len(x) != len(y):
                return [(st, False)]
            live, res = [st], []
            for u, v in zip(x, y):
                nxt = []
                for s in live:
                    for s2, r in self.compare(s, ast.Eq(), u, v):
                        for s3, t in (self.truth(s2, r) if r[0] != 'cond'
                                      else self.split(s2, *r[1:])):
                            (nxt if t is True else res).append(
                                s3 if t is True else (s3, t))
                live = nxt
            return res + [(s, True) for s in live]
        if a[0] == b[0] == 'dict':
            if [k for k, _ in a[1]] != [k for k, _ in b[1]]:
                return [(st, False)]
            return self.same(st, ('tuple', tuple(v for _, v in a[1])),
                             ('tuple', tuple(v for _, v in b[1])))
        kinds = ('atom', 'list', 'set', 'tuple', 'none', 'text', 'int',
                 'bool', 'obj', 'dict', 'condition', 'head', 'cls', 'maker')
        if a[0] != b[0] and a[0] in kinds and b[0] in kinds:
            return [(st, False)]
        if a[0] == b[0] and a[0] in ('condition', 'head', 'text') and \
                None not in (a[1], b[1]):
            return [(st, a == b)]
        return None

    def contains(self, st, seq, x):
        if seq[0] == 'text' or x[0] == 'text' and x[1] is None:
            return [(st, True), (st, False)]
        if seq[0] in ('dict', 'odict') or seq[0] == 'obj' and \
                '$d' in st.heap.get(seq[2], {}):
            return [(st, x in [k for k, _ in self.pairs(st, seq)])]
        if seq[0] in ('list', 'set'):
            seq = self.loose(st, seq)
        return super().contains(st, seq, x)

    def truth(self, st, v):
        if v[0] in ('list', 'set'):
            return [(st, bool(self.content(st, v)))]
        if v[0] == 'odict':
            return [(st, bool(self.content(st, v)))]
        if v[0] == 'obj':
            ci = self.repo.maybe_cls(v[1])
            for n in ('__bool__', '__len__'):
                hit = self.repo.lookup(ci, n) if ci is not None else None
                if hit is not None and hit[1] == 'method':
                    return [(s2, x) for s, r in self.run(
                        hit[0], hit[2], v, [], {}, st)
                        for s2, x in (self.truth(s, r) if r[0] != 'EXC' else
                                      [(s, r[1])])]
        if v[0] in ('atom', 'head', 'condition', 'iter', 'groups', 'bound',
                    'maker'):
            return [(st, True)]
        if v[0] == 'cond':
            return self.split(st, *v[1:])
        return super().truth(st, v)

    def attr(self, st, b, name, env=None):
        if b[0] == 'atom':
            if name != '__class__' and (
                    b[4] or name not in ('args', 'kwargs')):
                return [(st, ('EXC', 'AttributeError'))]
            if name != '__class__':
                return [(st, ('tuple', b[2]) if name == 'args' else
                         ('dict', b[3]))]
        if b[0] == 'head' and name == '__name__':
            return [(st, ('text', None))]
        if b[0] == 'atom' and name == '__class__' or b == ('maker',) and \
                name == 'create':
            return [(st, ('maker',))]
        if name == '__class__':
            return [(st, ('cls', b[1] if b[0] == 'obj' else b[0]))]
        if b == ('G', 'OrderedDict') and name == '__setitem__':
            return [(st, ('odset',))]
        if b[0] in ('list', 'set', 'dict', 'iter', 'odict', 'regex',
                    'groups') or b[0] == 'obj' and \
                '$d' in st.heap.get(b[2], {}) and name in (
                    'items', 'keys', 'values', 'get', 'setdefault'):
            return [(st, ('bound', b, name))]
        if b[0] == 'obj' and name not in st.heap.get(b[2], {}) and hasattr(
                OrderedDict if b[1] == 'MatchDict' else Sequence, name) and \
                self.repo.lookup(self.repo.cls(b[1]), name) is None:
            raise Open('%s.%s' % (b[1], name))
        if b[0] in ('none', 'condition', 'head', 'tuple', 'text') and name \
                in ('args', 'kwargs', 'match', 'mode', 'wc_name',
                         '__name__'):
            return [(st, ('EXC', 'AttributeError'))]
        return super().attr(st, b, name, env)

    # -- calls ----------------------------------------------------------------------
    def run(self, owner, n, selfv, args, kws, st):
        res = super().run(owner, n, selfv, args, kws, st)
        return [self.lazy(n, s, v) for s, v in res]

    def lazy(self, node, s, v):
        if v[0] == 'tuple' and is_generator(node):
            i = next(self.n)
            s = s.copy()
            s.heap[i] = {'$pos': 0}
            return s, ('iter', i, v[1], len(v[1]) >= FUEL)
        return s, v

    def call(self, st, f, args, kws):
        if f[0] == 'clo':
            return self.closure(st, f, args, kws)
        if f == ('odset',):
            return self.supersetitem(self, args[0], args[1:], kws, st)
        if f == ('maker',):
            return [(st, ('made', tuple(args), tuple(sorted(
                kws.items(), key=lambda x: list(kws).index(x[0])))))]
        if f[0] == 'condition':
            x = args[0]
            return [(s, truthy(b)) for s, b in self.asks(
                st, ('cond', f[1], x[1]))]
        return super().call(st, f, args, kws)

    def is_a(self, v, t):
        n = t[1].rpartition('.')[2] if t[0] in ('cls', 'G') else None
        if n in ('list', 'tuple', 'dict', 'set', 'str'):
            return v[0] == {'str': 'text'}.get(n, n)
        if v[0] == 'obj' and n is not None:
            ci = self.repo.maybe_cls(v[1])
            return any(getattr(x, 'name', x) == n for x in ci.mro)
        if v[0] == 'atom' and n in ('Pattern', 'MatchDict', 'ProtoExpr'):
            return False
        raise Open('class of %s' % v[0])

    def e_BoolOp(self, node, env, st):
        stop = isinstance(node.op, ast.Or)
        live, res = [st], []
        for i, x in enumerate(node.values):
            nxt = []
            for s in live:
                for s2, v in self.ev(x, env, s):
                    if v[0] == 'EXC' or i == len(node.values) - 1:
                        res.append((s2, v))
                        continue
                    for s3, b in self.truth(s2, v):
                        if b is stop:
                            res.append((s3, v))
                        elif b in (True, False):
                            nxt.append(s3)
                        else:
                            res.append((s3, ('EXC', b)))
            live = nxt
        return res

    def e_Call(self, node, env, st):
        # what stands for several arguments
        many = [k.value for k in node.keywords if k.arg is None] + [
            x.value for x in node.args if isinstance(x, ast.Starred)]
        if not many or isinstance(node.func, ast.Attribute) and isinstance(
                node.func.value, ast.Call):
            return super().e_Call(node, env, st)
        res = []
        for s, vs in self.evs(many, env, st):
            if vs and vs[0] == 'EXC':
                res.append((s, vs))
                continue
            e, args, kws = dict(env), [], []
            vs = list(vs)
            for k in node.keywords:
                if k.arg is not None:
                    kws.append(k)
                    continue
                for n, x in self.pairs(s, vs.pop(0)):
                    e['$' + n[1]] = x
                    kws.append(ast.keyword(n[1], ast.Name('$' + n[1],
                                                          ast.Load())))
            for i, x in enumerate(node.args):
                if isinstance(x, ast.Starred):
                    for j, v in enumerate(self.items(self.loose(
                            s, vs.pop(0)))):
                        e['$%d_%d' % (i, j)] = v
                        args.append(ast.Name('$%d_%d' % (i, j), ast.Load()))
                else:
                    args.append(x)
            res += super().e_Call(ast.Call(node.func, args, kws), e, s)
        return res

    def builtin(self, st, n, args, kws):
        n = n.rpartition('.')[2]
        if n == 'isinstance' and len(args) == 2:
            v, t = args
            if t[0] == 'tuple' and any(x[0] == 'head' for x in t[1]):
                res, live = [], [st]
                for x in t[1]:
                    nxt = []
                    for s in live:
                        for s2, b in self.asks(s, ('head', x[1], v[1])):
                            if b:
                                res.append((s2, truthy(True)))
                            else:
                                nxt.append(s2)
                    live = nxt
                return res + [(s, truthy(False)) for s in live]
            if t[0] == 'head':
                return [(s, truthy(b)) for s, b in self.asks(
                    st, ('head', t[1], v[1] if v[1:] else v[0]))]
            return super().builtin(st, n, args, kws)
        if n in ('repr', 'str'):
            return [(st, ('text', None))]
        if n in ('iter', 'reversed') and len(args) == 1:
            x = self.items(self.loose(st, args[0]))
            if args[0][0] == 'iter' and n == 'iter':
                return [(st, args[0])]
            i = next(self.n)
            s = st.copy()
            s.heap[i] = {'$pos': 0}
            return [(s, ('iter', i, tuple(x[::-1] if n == 'reversed' else x),
                         False))]
        if n == 'next' and args and args[0][0] == 'iter':
            v = args[0]
            k = st.heap[v[1]]['$pos']
            if k >= len(v[2]):
                if v[3]:
                    raise Open('an endless iteration')
                return [(st, args[1] if len(args) > 1 else
                         ('EXC', 'StopIteration'))]
            s = st.copy()
            s.heap[v[1]] = {'$pos': k + 1}
            return [(s, v[2][k])]
        if n in ('list', 'tuple', 'set', 'frozenset') and len(args) <= 1:
            x = self.items(self.loose(st, args[0])) if args else []
            if n == 'tuple':
                return [(st, ('tuple', tuple(x)))]
            return [self.alloc(st, 'list' if n == 'list' else 'set',
                               x if n == 'list' else dict.fromkeys(x))]
        if n in ('OrderedDict', 'dict') and len(args) <= 1:
            x = self.pairs(st, args[0]) if args else ()
            return [self.alloc(st, 'odict', tuple(x) + tuple(
                (('text', k), v) for k, v in kws.items()))]
        if n == 'len' and len(args) == 1 and args[0][0] in (
                'list', 'set', 'odict'):
            return [(st, num(len(self.content(st, args[0]))))]
        if n == 'len' and len(args) == 1 and args[0][0] == 'text' and \
                args[0][1] is not None:
            return [(st, num(len(args[0][1])))]
        if n == 'len' and len(args) == 1 and args[0][0] == 'dict':
            return [(st, num(len(args[0][1])))]
        if n == 'enumerate' and args:
            x = self.items(self.loose(st, args[0]))
            k = args[1] if len(args) > 1 else kws.get('start', num(0))
            k = int(lconst(k[1]))
            return [(st, ('tuple', tuple(
                ('tuple', (num(i + k), y)) for i, y in enumerate(x))))]
        if n == 'sorted' and len(args) == 1 and not kws:
            x = self.items(self.loose(st, args[0]))
            if not all(y[0] == 'text' and y[1] is not None for y in x):
                raise Open('sorted')
            return [self.alloc(st, 'list', sorted(x))]
        if n == 'zip':
            return [(st, ('tuple', tuple(
                ('tuple', x) for x in zip(*[self.items(self.loose(st, a))
                                            for a in args]))))]
        if n == 'getattr' and len(args) in (2, 3) and args[1][1]:
            return [(s, args[2] if v[0] == 'EXC' and len(args) > 2 else v)
                    for s, v in self.attr(st, args[0], args[1][1])]
        if n == 'hasattr' and len(args) == 2 and args[1][1]:
            return [(s, truthy(v[0] != 'EXC'))
                    for s, v in self.attr(st, args[0], args[1][1])]
        if n in ('all', 'any') and len(args) == 1:
            live, res = [st], []
            for x in self.items(self.loose(st, args[0])):
                nxt = []
                for s in live:
                    for s2, b in self.truth(s, x):
                        if b is (n == 'any'):
                            res.append((s2, truthy(b)))
                        else:
                            nxt.append(s2)
                live = nxt
            return res + [(s, truthy(n == 'all')) for s in live]
        if n == 'compile' and args and args[0][0] == 'text' and args[0][1]:
            return [(st, ('regex', args[0][1]))]
        if n in ('match', 'fullmatch') and len(args) == 2:
            return self.bound(st, ('regex', args[0][1]), n, args[1:], kws)
        return super().builtin(st, n, args, kws)

    def bound(self, st, b, name, args, kws):
        if b[0] in ('list', 'set'):
            x = self.content(st, b)
            if name in ('append', 'add'):
                if b[0] == 'set' and args[0] in x:
                    return [(st, NONE)]
                return [(self.store(st, b, x + (args[0],)), NONE)]
            if name in ('extend', 'update'):
                for a in args:
                    x += tuple(self.items(self.loose(st, a)))
                if b[0] == 'set':
                    x = dict.fromkeys(x)
                return [(self.store(st, b, x), NONE)]
            if name == 'insert' and lconst(args[0][1]) is not None:
                y = list(x)
                y.insert(int(lconst(args[0][1])), args[1])
                return [(self.store(st, b, y), NONE)]
            if name in ('union', '__or__') and b[0] == 'set':
                for a in args:
                    x += tuple(self.items(self.loose(st, a)))
                return [self.alloc(st, 'set', dict.fromkeys(x))]
            if name == 'reverse' and not args:
                return [(self.store(st, b, x[::-1]), NONE)]
        if b[0] in ('dict', 'odict') or b[0] == 'obj' and \
                '$d' in st.heap.get(b[2], {}):
            d = self.pairs(st, b)
            if name == 'items':
                return [(st, ('tuple', tuple(('tuple', x) for x in d)))]
            if name == 'keys':
                return [(st, ('tuple', tuple(k for k, _ in d)))]
            if name == 'values':
                return [(st, ('tuple', tuple(v for _, v in d)))]
            if name == 'setdefault':
                if args[0] in dict(d):
                    return [(st, dict(d)[args[0]])]
                hit = self.repo.lookup(self.repo.cls(b[1]), '__setitem__')
                return [(s, v if v[0] == 'EXC' else args[1])
                        for s, v in self.run(hit[0], hit[2], b, args, kws,
                                             st)]
            if name == 'get':
                return [(st, dict(d).get(args[0], args[1] if len(args) > 1
                                         else NONE))]
        if b[0] == 'regex' and name in ('match', 'fullmatch') and args[0][1] \
                is not None:
            m = getattr(re, name)(b[1], args[0][1])
            return [(st, NONE if m is None else ('groups', tuple(
                NONE if g is None else ('text', g)
                for g in (m.group(0),) + m.groups())))]
        if b[0] == 'groups':
            if name == 'groups':
                return [(st, ('tuple', b[1][1:]))]
            if name == 'group' and len(args) <= 1:
                k = int(lconst(args[0][1])) if args else 0
                return [(st, b[1][k])]
        return super().bound(st, b, name, args, kws)

    def binop(self, op, a, b):
        if a[0] == 'set' or a[0] == 'list':
            raise Open('operation on %s' % a[0])
        return super().binop(op, a, b)


# -- specification ----------------------------------------------------------
class Pat:
    def __init__(self, head=None, args=None, kws=None, mode=SINGLE,
                 name=None, conds=()):
        self.head, self.args, self.kws = head, args, kws
        self.mode, self.name, self.conds = mode, name, conds


def wild(name, mode=SINGLE, head='auto', conds=()):
    return Pat('H' + name if head == 'auto' else head, None, None, mode,
               name, conds)


class Clash(Exception):
    pass


def fact(known, f):
    if f in known:
        return known[f]
    raise Need(f)


def equal(known, a, b):
    if isinstance(a, list) != isinstance(b, list):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(equal(known, x, y)
                                        for x, y in zip(a, b))
    return a == b or fact(known, ('same',) + tuple(sorted((a[1], b[1]))))


def merge(known, d, new):
    for k, v in new.items():
        if k in d and not equal(known, d[k], v):
            raise Clash
        d.setdefault(k, v)


def ref(p, e, known):
    """the bindings, None when there is no match"""
    if not isinstance(p, Pat):
        return {} if equal(known, p, e) else None
    if p.head is not None:
        hs = p.head if isinstance(p.head, tuple) else (p.head,)
        if not any(fact(known, ('head', h, e[1])) for h in hs):
            return None
    for c in p.conds:
        if not fact(known, ('cond', c, e[1])):
            return None
    d = {}
    try:
        if p.args is not None:
            if e[4]:
                return None
            ps = list(p.args)
            multi = [i for i, x in enumerate(ps) if isinstance(x, Pat) and
                     x.mode != SINGLE]
            es = list(e[2])
            if multi:
                i = multi[0]
                k = len(es) - (len(ps) - 1)
                if k < (1 if ps[i].mode == MORE else 0):
                    return None
                group = es[i:i + k]
                acc = {}
                for x in group:
                    r = ref(ps[i], x, known)
                    if r is None:
                        return None
                    for n, v in r.items():
                        if isinstance(v, list) and n in acc:
                            acc[n] = acc[n] + v
                        else:
                            merge(known, acc, {n: v})
                if not group and ps[i].name is not None:
                    acc[ps[i].name] = []
                merge(known, d, acc)
                ps, es = ps[:i] + ps[i + 1:], es[:i] + es[i + k:]
            if len(ps) != len(es):
                return None
            for x, y in zip(ps, es):
                r = ref(x, y, known)
                if r is None:
                    return None
                merge(known, d, r)
        if p.kws is not None:
            if e[4]:
                return None
            have = dict(e[3])
            for k, x in p.kws:
                if k not in have:
                    return None
                r = ref(x, have[k], known)
                if r is None:
                    return None
                merge(known, d, r)
        if p.name is not None:
            merge(known, d, {p.name: e if p.mode == SINGLE else [e]})
    except Clash:
        return None
    return d


def outcomes(f, known):
    """[(facts, result)] for all ways to answer what is still open"""
    try:
        return [(known, f(known))]
    except Need as n:
        res = []
        for b in (True, False):
            res += outcomes(f, dict(known, **{}) | {n.args[0]: b})
        return res


class World:
    def __init__(self, repo):
        self.repo = repo
        self.it = Match(repo)
        self.st = State()

    def put(self, r):
        """the value of the only path"""
        if len(r) != 1:
            raise Open('several ways to construct')
        self.st, v = r[0]
        return v

    def pattern(self, p):
        if not isinstance(p, Pat):
            return p
        kws = {}
        if p.head is not None:
            kws['head'] = ('tuple', tuple(('head', h) for h in p.head)) if \
                isinstance(p.head, tuple) else ('head', p.head)
        if p.args is not None:
            kws['args'] = ('tuple', tuple(self.pattern(x) for x in p.args))
        if p.kws is not None:
            kws['kwargs'] = ('dict', tuple((k, self.pattern(x))
                                           for k, x in p.kws))
        if p.conds:
            self.st, kws['conditions'] = self.it.alloc(
                self.st, 'list', [('condition', c) for c in p.conds])
        kws['mode'] = num(p.mode)
        if p.name is not None:
            kws['wc_name'] = ('text', p.name)
        v = self.put(self.it.new('Pattern', [], kws, self.st))
        if v[0] == 'EXC':
            raise Refused(v[1])
        return v

    def classmethod(self, cls, name):
        hit = self.repo.lookup(self.repo.cls(cls), name)
        return hit[0], hit[2], ('cls', cls)

    def method(self, o, name, *args, **kws):
        return [r for s, f in self.it.attr(self.st, o, name)
                for r in ([(s, f)] if f[0] == 'EXC' else
                          self.it.call(s, f, list(args), kws))]

    def fn(self, dotted, *args, **kws):
        return self.it.call(self.st, ('fn', dotted), list(args), kws)

    def plain(self, s, v):
        """bindings as python values"""
        if v[0] in ('list', 'tuple'):
            return [self.plain(s, x) for x in self.it.loose(s, v)[1]]
        return v


class Refused(Exception):
    pass


def show(v):
    if isinstance(v, dict):
        return '{%s}' % ', '.join('%s: %s' % (k, show(x))
                                  for k, x in sorted(v.items()))
    if isinstance(v, list):
        return '[%s]' % ', '.join(map(show, v))
    return 'nothing' if v is None else str(v[1])


def text_facts(known):
    return ', '.join('%s%s(%s)' % ('' if b else 'not ', f[0],
                                   ', '.join(f[1:])) for f, b in known.items()
                     ) or 'nothing asked'


class Judge:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep

    def at(self, dotted):
        m, _, n = dotted.rpartition('.')
        try:
            if m in self.repo.modules:
                mod = self.repo.modules[m]
                return where(self.repo, mod, mod.functions[n])
            ci = self.repo.cls(m.rpartition('.')[2])
            hit = self.repo.lookup(ci, n)
            return where(self.repo, hit[0].module, hit[2])
        except Exception:
            return dotted

    def judge(self, key, at, make):
        rep = self.rep
        bad, open_ = [], []
        n = 0
        try:
            for why in make():
                n += 1
                rep.count('paths judged')
                if why:
                    bad.append(why)
            if not n:
                open_.append('no path')
        except Open as e:
            open_.append(str(e))
        except RecursionError:
            open_.append('recursion')
        except (AnalysisError, KeyError, AttributeError, IndexError,
                TypeError, ValueError) as e:
            open_.append('%s: %s' % (type(e).__name__, e))
        if bad:
            rep.decide(key, False, at, '; '.join(sorted(set(bad))[:2]))
        elif open_:
            rep.undec(key, '; '.join(sorted(set(open_))[:3]))
        else:
            rep.decide(key, True, at, '')


def judge_match(w, s, v, f, heads):
    """one path of a match against the outcomes its answers leave open"""
    known = dict(s.notes)
    if v[0] == 'EXC':
        return 'the match fails with the error %s (%s)' % (
            v[1], text_facts(known))
    if v[0] != 'obj' or v[1] != 'MatchDict':
        raise Open('a result %s' % v[0])
    h = s.heap[v[2]]
    if h.get('success', ('',))[0] != 'bool':
        raise Open('success')
    ok = h['success'][1]
    got = {k[1]: w.plain(s, x) for k, x in h.get('$d', ())}
    seen = set()
    for q, b in s.notes:
        seen.add((q, b))
        if q[0] == 'cond' and heads.get(q[1]) and (
                ('head', heads[q[1]], q[2]), True) not in seen:
            return 'the condition %s is asked of %s before its class' % q[1:]
    for facts, want in outcomes(f, known):
        if want is None and ok:
            return 'a match is reported although there is none (%s)' % \
                text_facts(facts)
        if want is not None and not ok:
            return 'no match is reported although there is one (%s)' % \
                text_facts(facts)
        if want is None:
            continue
        try:
            fine = set(got) == set(want) and all(
                equal(facts, got[k], want[k]) for k in got)
        except Need:
            fine = False
        if not fine:
            return 'the match is %s instead of %s (%s)' % (
                show(got), show(want), text_facts(facts))
        if h.get('_len') is not None and h['_len'] != num(len(got)):
            return 'the match has the length %s' % (h['_len'],)
    return None


def xs(n, **kws):
    return [atom('x%d' % i) for i in range(n)]


def matching(c):
    at = c.at(PM + 'Pattern.match')

    def heads(p, acc):
        if isinstance(p, Pat):
            for k in p.conds:
                if isinstance(p.head, str):
                    acc[k] = p.head
            for x in (p.args or ()):
                heads(x, acc)
            for _, x in (p.kws or ()):
                heads(x, acc)
        return acc

    def case(name, *pairs):
        def go():
            for p, e in pairs:
                w = World(c.repo)
                try:
                    o = w.pattern(p)
                except Refused as x:
                    yield 'the pattern is refused with %s' % x
                    continue
                for s, v in w.method(o, 'match', e):
                    yield judge_match(w, s, v, lambda k: ref(p, e, k),
                                      heads(p, {}))
        c.judge('match:' + name, at, go)

    def trees(ns, **kws):
        return [atom('e', xs(n), **kws) for n in ns]

    x = atom('x')
    case('wildcard', *[(Pat(h, None, None, m, n, cs), x)
                       for h in (None, 'H', ('H', 'G'))
                       for m in (SINGLE, MORE, ANY) for n in (None, 'a')
                       for cs in ((), ('p',), ('p', 'q'))])
    a, b, d = wild('a'), wild('b', conds=('p',)), wild('d')
    case('arguments', *[(Pat('E', ps), e) for ps in (
        (a,), (a, b), (a, b, d), ()) for e in trees(range(5))])
    case('many right', *[
        (Pat('E', ps + (wild('m', m, conds=('q',)),), name='t'), e)
        for m in (MORE, ANY) for ps in ((), (a,), (a, b))
        for e in trees(range(5))])
    case('many left', *[
        (Pat('E', (wild('m', m, conds=('q',)),) + ps), e)
        for m in (MORE, ANY) for ps in ((a,), (a, b))
        for e in trees(range(5))])
    case('many unnamed', *[
        (Pat(None, ps), e) for m in (MORE, ANY) for u in (
            Pat('M', None, None, m),) for ps in ((u,), (a, u), (u, a))
        for e in trees(range(4))])
    f, g = atom('f'), atom('g')
    case('fixed', *[(Pat(None, ps), e) for ps in (
        (f,), (f, a), (a, f), (f, g), (f, wild('m', ANY)),
        (wild('m', MORE), f)) for e in trees(range(4))])
    case('fixed itself', (Pat(None, (f,)), atom('e', (f,))))
    s_ = wild('a', head=None)
    case('twice', *[(Pat(None, ps), e) for ps in (
        (s_, s_), (s_, b, s_), (s_, s_, s_), (wild('a'), wild('a')))
        for e in trees((2, 3))])
    case('twice by level', *[(Pat(None, (Pat('P', ps), s_), name=n),
                              atom('e', (atom('u', xs(k)), atom('y'))))
                             for ps in ((s_,), (s_, b)) for k in (1, 2)
                             for n in (None, 'a', 't')])
    kw = (('k', atom('y')), ('l', atom('z')))
    m_ = wild('m', MORE, None)
    case('groups twice', *[
        (Pat(None, (Pat('P', (m_,)), Pat('Q', (m_,)))),
         atom('e', (atom('u', xs(j)),
                    atom('v', [atom('y%d' % i) for i in range(k)]))))
        for j in (1, 2) for k in (1, 2)])
    case('keywords', *[(Pat('E', ps, ks), atom('e', xs(n), kk))
                       for ps in (None, (a,)) for n in (0, 1)
                       for kk in (kw, kw[:1], ())
                       for ks in ((('k', wild('c')),),
                                  (('k', wild('c')), ('l', wild('d'))),
                                  (('k', s_), ('l', s_)), (('k', f),))
                       if ps is None or n])
    case('keyword as argument', *[
        (Pat(None, (s_,), (('k', s_),)), atom('e', xs(1), kw))])
    case('nested', *[
        (Pat('E', (Pat('P', (a, wild('m', m)), name='p'), b), name='t'),
         atom('e', (atom('u', xs(n)), atom('y'))))
        for m in (SINGLE, MORE, ANY) for n in range(4)])
    case('nested many', *[
        (Pat('E', (Pat('P', (a,)), wild('m', m))),
         atom('e', (atom('u', xs(1)),) + tuple(
             atom('y%d' % i) for i in range(n))))
        for m in (MORE, ANY) for n in range(3)])
    case('nested many left', *[
        (Pat('E', (wild('m', m), Pat('P', (wild('n', ANY), a)))),
         atom('e', tuple(atom('y%d' % i) for i in range(n)) +
              (atom('u', xs(k)),)))
        for m in (MORE, ANY) for n in range(3) for k in (1, 3)])
    case('numbers', *[
        (Pat(h, ps, ks), atom('s', scalar=True)) for h in (None, 'H')
        for ps, ks in (((a,), None), (None, (('k', a),)),
                       ((wild('m', ANY),), None))])
    case('numbers inside', (Pat('E', (Pat('P', (a,)), b)), atom(
        'e', (atom('s', scalar=True), x))), (
            Pat('E', (wild('m', MORE),)),
            atom('e', (atom('s', scalar=True), x))))

    def free():
        for p, e in ((f, g), (f, f), (wild('a'), f)):
            w = World(c.repo)
            for s, v in w.fn(PM + 'match_pattern', w.pattern(p), e):
                yield judge_match(w, s, v, lambda k: ref(p, e, k), {})
    c.judge('match:match_pattern', c.at(PM + 'match_pattern'), free)


def searching(c):
    z = atom('z', scalar=True)
    x, y = atom('x'), atom('y', (), (('j', z),))
    w_ = atom('w', (atom('u', (), (('i', atom('t')),)),))
    tree = atom('f', (atom('g', (x,)), y), (('k', w_),))
    order = [x, tree[2][0], z, y, w_[2][0][3][0][1], w_[2][0], w_, tree]

    def find(name, p):
        def go():
            w = World(c.repo)
            for s, v in w.method(w.pattern(p), name, tree):
                known = dict(s.notes)
                if v[0] == 'EXC':
                    yield 'the error %s' % v[1]
                    continue
                got = w.it.loose(s, v)
                if got[0] != 'tuple':
                    raise Open('found %s' % got[0])
                for facts, want in outcomes(lambda k: [
                        (e, r) for e in order
                        for r in [ref(p, e, k)] if r is not None], known):
                    if name == 'findall':
                        g, t = list(got[1]), [e for e, _ in want]
                    else:
                        g = [{k[1]: w.plain(s, u) for k, u in
                              s.heap[m[2]]['$d']} for m in got[1]]
                        t = [r for _, r in want]
                    yield None if g == t else '%s found, not %s (%s)' % (
                        [show(u) for u in g], [show(u) for u in t],
                        text_facts(facts))
        return go
    for name in ('findall', 'finditer'):
        for k, p in (('class', wild('a')),
                     ('arguments', Pat(None, (wild('a', ANY),))),
                     ('fixed', Pat(None, (x,), name='t'))):
            c.judge('%s:%s' % (name, k), c.at(PM + 'Pattern.' + name),
                    find(name, p))

    def names():
        a, m = wild('a'), wild('m', ANY)
        for p, want in ((a, 'a'), (Pat(None, (a, m)), 'am'),
                        (Pat('H'), ''), (Pat('H', name='t'), 't'),
                        (Pat('H', (a, x, Pat(None, (m,)))), 'am'),
                        (Pat('H', (a,), (('k', m), ('l', x)), name='t'),
                         'amt'),
                        (Pat(None, (a,), (('k', Pat(None, (m,), name='t')),
                                          ('l', Pat('H', (wild('b'),))))),
                         'abmt')):
            w = World(c.repo)
            o = w.pattern(p)
            for s, v in w.it.attr(w.st, o, 'wc_names'):
                if v[0] == 'EXC':
                    yield 'the error %s' % v[1]
                    continue
                got = {k[1] for k in w.it.loose(s, v)[1]}
                yield None if got == set(want) else \
                    'the names %s, not %s' % (sorted(got), sorted(want))
    c.judge('names', c.at(PM + 'Pattern.wc_names'), names)


def constructing(c):
    def fields(w, s, v, head=NONE, args=None, kws=NONE, mode=1, name=NONE,
               conds=()):
        if v[0] == 'EXC':
            return 'the error %s' % v[1]
        h = s.heap[v[2]]
        for k, want in (('head', head), ('mode', num(mode)),
                        ('wc_name', name), ('kwargs', kws)):
            if h.get(k) != want:
                return '%s is %s, not %s' % (k, h.get(k), want)
        got = h['args']
        got = None if got == NONE else w.plain(s, got)
        if got != args:
            return 'args is %s, not %s' % (got, args)
        if tuple(w.plain(s, h['conditions'])) != conds:
            return 'the conditions are %s' % (w.plain(s, h['conditions']),)

    H, x, y = ('head', 'H'), atom('x'), atom('y')

    def conds(w):
        w.st, v = w.it.alloc(w.st, 'list', [('condition', 'p')])
        return v

    def wilds():
        for text, name, mode in (
                ('A', 'A', 1), ('A_', 'A', 1), ('A__', 'A', 2),
                ('A___', 'A', 3), ('_', None, 1), ('__', None, 2),
                ('___', None, 3), ('Ab1__', 'Ab1', 2)):
            w = World(c.repo)
            for s, v in w.fn(PM + 'wc', ('text', text), head=H,
                             conditions=conds(w)):
                yield fields(w, s, v, H, None, NONE, mode, ('text', name)
                             if name else NONE, (('condition', 'p'),))
        w = World(c.repo)
        ks = ('dict', (('k', y),))
        for s, v in w.fn(PM + 'wc', ('text', 'a'), args=('tuple', (x,)),
                         kwargs=ks):
            yield fields(w, s, v, args=[x], kws=ks, name=('text', 'a'))
        for text in ('A____', 'a_b', 'a-'):
            w = World(c.repo)
            for s, v in w.fn(PM + 'wc', ('text', text)):
                yield None if v == ('EXC', 'ValueError') else \
                    'the name %s is accepted' % text
    c.judge('wc', c.at(PM + 'wc'), wilds)

    def patterns():
        for fn in ('pattern', 'pattern_head'):
            w = World(c.repo)
            pos = [H] if fn == 'pattern' else []
            head = H if pos else ('cls', 'ProtoExpr')
            for s, v in w.fn(PM + fn, *(pos + [x, y]), k=x, j=y,
                             conditions=conds(w)):
                yield fields(w, s, v, head, [x, y], ('dict', (
                    ('j', y), ('k', x))), conds=(('condition', 'p'),))
            for s, v in w.fn(PM + fn, *pos):
                yield fields(w, s, v, head)
        w = World(c.repo)
        for s, v in w.fn(PM + 'pattern', H, mode=num(2),
                         wc_name=('text', 'a')):
            yield fields(w, s, v, H, mode=2, name=('text', 'a'))
        for s, v in w.fn(PM + 'pattern_head', x, wc_name=('text', 'a')):
            yield None if v == ('EXC', 'ValueError') else \
                'a name is accepted'
    c.judge('pattern', c.at(PM + 'pattern'), patterns)

    def refusals():
        for ps, ok in (((wild('a', ANY), x), True), ((x, wild('a', ANY)),
                                                     True),
                       ((x, wild('a', ANY), y), False),
                       ((x, wild('a', MORE), y), False),
                       ((x, y, wild('a', MORE), y), False)):
            try:
                World(c.repo).pattern(Pat(None, ps))
                yield None if ok else 'an ambiguous pattern is accepted'
            except Refused as e:
                yield 'a pattern is refused' if ok else \
                    None if str(e) == 'ValueError' else 'the error %s' % e
        for mode, ok in ((0, 0), (1, 1), (3, 1), (4, 0)):
            try:
                World(c.repo).pattern(Pat(None, None, None, mode))
                yield None if ok else 'the mode %d is accepted' % mode
            except Refused as e:
                yield None if not ok and str(e) == 'ValueError' else \
                    'the error %s' % e
    c.judge('ambiguous', c.at(PM + 'Pattern.__init__'), refusals)

    def proto():
        z = atom('z')
        for n, m in ((0, 0), (2, 0), (0, 2), (1, 1), (2, 2)):
            vals = [atom('v%d' % i) for i in range(n + m)]
            names = 'kj'[:m]

            def make():
                w = World(c.repo)
                w.st, l = w.it.alloc(w.st, 'list', vals[:n])
                o = w.put(w.it.new('ProtoExpr', [l, ('dict', tuple(
                    zip(names, vals[n:])))], {}, w.st))
                return w, o
            w, o = make()
            for s, v in w.method(o, '__len__'):
                yield None if v == num(n + m) else 'length %s' % (v,)
            for i in range(n + m):
                w, o = make()
                for s, v in w.method(o, '__getitem__', num(i)):
                    yield None if v == vals[i] else 'item %d is %s' % (i, v)
                for s, r in w.method(o, '__setitem__', num(i), z):
                    h = s.heap[o[2]]
                    got = w.plain(s, h['args']) + [
                        v for _, v in w.it.pairs(s, h['kwargs'])]
                    want = vals[:i] + [z] + vals[i + 1:]
                    yield None if got == want and r[0] != 'EXC' else \
                        'item %d is set to give %s' % (i, got)
            w, o = make()
            for s, v in w.method(o, 'instantiate', ('maker',)):
                yield None if v == ('made', tuple(vals[:n]), tuple(
                    zip(names, vals[n:]))) else 'instantiates %s' % (v,)
            for s, v in w.method(o, 'instantiate'):
                yield None if v == ('EXC', 'TypeError') else \
                    'instantiates no class'
            e = atom('e', vals[:n], tuple(zip(names, vals[n:])))
            for s, v in w.it.run(
                        *w.classmethod('ProtoExpr', 'from_expr'), [e], {},
                        w.st):
                h = s.heap[v[2]]
                yield None if (
                    w.plain(s, h['args']) == vals[:n] and
                    [v for _, v in w.it.pairs(s, h['kwargs'])] == vals[n:]
                    and h['cls'] == ('maker',)) else 'from_expr'
    c.judge('proto', c.at(PM + 'ProtoExpr.__setitem__'), proto)


class Rules(Match):
    """a class of operations with rules whose effect is open"""
    KLASS = ('klass',)

    def __init__(self, repo):
        super().__init__(repo)
        self.rules = {}
        self.depths = 2
        self.asked = []

    def globalv(self, q, n):
        if n in ('LOG', 'LOG_NO_MATCH'):
            return truthy(False)
        return super().globalv(q, n)

    def attr(self, st, b, name, env=None):
        if b == self.KLASS:
            if name in self.rules:
                return [(st, self.rules[name])]
            if name == 'simplifications':
                return [(st, ('tuple', (('fn', AP + 'assoc'), (
                    'fn', AP + 'match_replace_binary'))))]
            if name == '_neutral_element':
                return [(st, ('neutral',))]
            if name == '__name__':
                return [(st, ('text', None))]
            return [(st, ('EXC', 'AttributeError'))]
        if b[0] == 'two' and name == 'args':
            return [(st, ('tuple', b[1]))]
        return super().attr(st, b, name, env)

    def is_a(self, v, t):
        if t == self.KLASS:
            return v[0] == 'two'
        return super().is_a(v, t)

    def same(self, st, a, b):
        if ('neutral',) in (a, b):
            return [(st, a == b)]
        if a[0] == b[0] == 'fn':
            return [(st, a == b)]
        if 'two' in (a[0], b[0]):
            return [(st, a == b)]
        return super().same(st, a, b)

    def e_BinOp(self, node, env, st):
        res = []
        for s, vs in self.evs([node.left, node.right], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
            elif vs[0][0] == 'list' and isinstance(node.op, ast.Add):
                res.append(self.alloc(
                    s, 'list', self.content(s, vs[0]) + self.content(
                        s, vs[1])) if vs[1][0] == 'list' else
                    (s, ('EXC', 'TypeError')))
            elif vs[0][0] == vs[1][0] == 'int' and isinstance(
                    node.op, ast.FloorDiv):
                x, y = (lconst(v[1]) for v in vs)
                if x is None or not y:
                    raise Open('division')
                res.append((s, num(int(x // y))))
            else:
                res += super().e_BinOp(ast.BinOp(
                    ast.Name('$a', ast.Load()), node.op,
                    ast.Name('$b', ast.Load())),
                    dict(env, **{'$a': vs[0], '$b': vs[1]}), s)
        return res

    def e_Subscript(self, node, env, st):
        k = node.slice
        if not isinstance(k, ast.Slice):
            return super().e_Subscript(node, env, st)
        res = []
        parts = [k.lower, k.upper, k.step]
        for s, vs in self.evs([node.value] + [x for x in parts if x], env,
                              st):
            if vs[0] == 'EXC':
                res.append((s, vs))
                continue
            ks = iter(vs[1:])
            idx = [None if x is None else lconst(next(ks)[1]) for x in parts]
            got = self.items(self.loose(s, vs[0]))[slice(*[
                None if x is None else int(x) for x in idx])]
            res.append(self.alloc(s, 'list', got) if vs[0][0] == 'list'
                       else (s, ('tuple', tuple(got))))
        return res

    def call(self, st, f, args, kws):
        if f[0] == 'fn' and f[1].rpartition('.')[2] == 'match_pattern' and \
                args[0][0] == 'apat':
            h = st.heap.get(args[1][2], {})
            self.asked.append((self.plain(st, h.get('args', NONE)), tuple(
                v for _, v in self.pairs(st, h['kwargs']))))
            o = self.new('MatchDict', [], {}, st)[0]
            res = []
            for s, b in self.asks(o[0], ('match', args[0][1])):
                s = s.copy()
                d = dict(s.heap[o[1][2]], success=truthy(b))
                if b:
                    d['$d'] = ((('text', 'a'), atom('v%d' % args[0][1])),)
                s.heap[o[1][2]] = d
                res.append((s, o[1]))
            return res
        if f[0] == 'repl':
            return [(s, ('result', f[1], tuple(args), tuple(kws.items()))
                     if b else ('EXC', 'CannotSimplify'))
                    for s, b in self.asks(st, ('applies', f[1]))]
        return super().call(st, f, args, kws)

    def plain(self, st, v):
        return list(self.loose(st, v)[1]) if v[0] in ('list', 'tuple') else v

    def truth(self, st, v):
        if v[0] in ('two', 'neutral', 'result', 'fn'):
            return [(st, True)]
        return super().truth(st, v)

    def answer(self, it, args, kws, st):
        """all that the rules may say about two neighbours"""
        x, y = args[:2]
        q = ('pair', x, y)
        known = dict(st.notes)
        one = atom(x[1] + ' ' + y[1])
        t = '(%s)' % (x[1] + ' ' + y[1]).replace(' ', '_')
        two = ('two', (atom('L' + t), atom('R' + t)))
        ways = {'none': NONE, 'neutral': ('neutral',), 'one': one,
                'two': two}
        if q in known:
            return [(st, ways[known[q]])]
        used = sum(1 for k, v in st.notes if k[0] == 'pair' and v != 'none')
        res = []
        for k, v in ways.items():
            if k != 'none' and used >= self.depths:
                continue
            s = st.copy()
            s.notes = st.notes + ((q, k),)
            res.append((s, v))
        return res


def tokens(x):
    return x[1].split(' ')


def rewriting(c):
    kwv = ('dict', (('k', atom('kv')),))

    def setup(n):
        it = Rules(c.repo)
        it.rules['_rules'] = it.rules['_binary_rules'] = ('dict', tuple(
            ('r%d' % i, ('tuple', (('apat', i), ('repl', i))))
            for i in range(n)))
        st, ops = it.alloc(State(), 'list', xs(2))
        return it, st, ops

    def first(known, n):
        for i in range(n):
            if fact(known, ('match', i)) and fact(known, ('applies', i)):
                return i
        return None

    def chosen(fn, call):
        def go():
            for n in range(4):
                it, st, ops = setup(n)
                for s, v in call(it, st, ops):
                    known = dict(s.notes)
                    if v[0] == 'EXC':
                        yield 'the error %s' % v[1]
                        continue
                    for facts, i in outcomes(lambda k: first(k, n), known):
                        if i is None:
                            ok = v == NONE if fn != 'match_replace' else (
                                v[0] == 'tuple' and len(v[1]) == 2 and
                                it.plain(s, v[1][0]) == xs(2) and
                                v[1][1] == kwv)
                        else:
                            ok = v == ('result', i, (), (
                                ('a', atom('v%d' % i)),))
                        yield None if ok else 'the result is %s although ' \
                            'rule %s applies first' % (v[:2], i)
                want = (xs(2), tuple(
                    [kwv[1][0][1]] if fn == 'match_replace' else []))
                for got in it.asked:
                    yield None if got == want else \
                        'rules are matched against %s' % (got,)
        c.judge('rules:' + fn, c.at(AP + fn), go)
    chosen('match_replace', lambda it, st, ops: it.call(
        st, ('fn', AP + 'match_replace'), [it.KLASS, ops, kwv], {}))
    chosen('_get_binary_replacement', lambda it, st, ops: it.call(
        st, ('fn', AP + '_get_binary_replacement'), xs(2) + [it.KLASS], {}))

    def reduced():
        for n in range(5):
            it = Rules(c.repo)
            it.depths = 2 if n < 4 else 1
            it.builders['_get_binary_replacement'] = it.answer
            st, ops = it.alloc(State(), 'list', xs(n))
            for s, v in it.call(st, ('fn', AP + 'match_replace_binary'),
                                [it.KLASS, ops, kwv], {}):
                yield word(it, s, v, n)

    def word(it, s, v, n):
        if v[0] == 'EXC':
            return 'the error %s' % v[1]
        w = [x[1] for x in xs(n)]
        said = []
        for (_, x, y), b in s.notes:
            said.append('%s, %s: %s' % (x[1], y[1], b))
            if b in ('none', 'one'):
                both = tokens(x) + tokens(y) if b == 'one' else []
            else:
                both = tokens(x) + tokens(y)
            if not both:
                continue
            at = [i for i in range(len(w)) if w[i:i + len(both)] == both]
            if not at:
                return 'the factors %s and %s are combined, which are no ' \
                    'neighbours' % (x[1], y[1])
            i = at[0]
            if b == 'neutral':
                w[i:i + len(both)] = []
            elif b == 'two':
                t = '(%s)' % (x[1] + ' ' + y[1]).replace(' ', '_')
                w[i:i + len(both)] = ['L' + t, 'R' + t]
        if v == ('neutral',):
            got = []
        elif v[0] == 'atom':
            got = [v]
        elif v[0] == 'tuple' and len(v[1]) == 2 and v[1][1] == kwv:
            got = it.plain(s, v[1][0])
            if len(got) < 2:
                return '%d factors are left as a product' % len(got)
        else:
            return 'the result %s' % v[0]
        flat = [t for x in got for t in tokens(x)]
        if flat != w:
            return 'the factors %s remain instead of %s (%s)' % (
                ' '.join(flat) or '1', ' '.join(w) or '1', '; '.join(said))
        known = dict(s.notes)
        for x, y in zip(got, got[1:]):
            if x[1][0] == 'L' and y[1] == 'R' + x[1][1:]:
                continue  # the factors of a reduced product
            if known.get(('pair', x, y)) != 'none':
                return 'no rule is tried for the neighbours %s and %s' % (
                    x[1], y[1])
        return None
    c.judge('rules:match_replace_binary', c.at(AP + 'match_replace_binary'),
            reduced)


def check(repo, rep):
    rep.rule('match', 'on every path the questions asked about an expression '
             'settle whether the pattern matches, and with which values')
    rep.rule('search', 'every part of an expression is offered to the '
             'pattern once, innermost first')
    rep.rule('rewriting', 'the first rule that matches and applies decides, '
             'with the values of its match; neighbours are combined in place')
    rep.rule('construction', 'patterns hold what they are given')
    c = Judge(repo, rep)
    matching(c)
    searching(c)
    constructing(c)
    rewriting(c)
