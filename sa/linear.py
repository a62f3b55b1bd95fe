"""Interpretation of functions over labels, positions and linear integers.

A small path-precise abstract interpreter: integers are linear expressions
over unknowns, a tuple of basis labels is a sequence of unknown length whose
entries are known by position, strings are labels by position or strangers,
everything else is opaque.  A branch whose condition is linear constrains the
path (Fourier-Motzkin decides whether a path is possible); calls within the
package are interpreted, errors are followed into their handlers.
"""
import ast
import functools
import itertools
import math
from fractions import Fraction

from .src import AnalysisError, ClassInfo


class Open(Exception):
    """something the interpretation does not cover"""


# -- linear expressions and constraints --------------------------------------

def lin(x=0, **vs):
    d = {k: Fraction(v) for k, v in vs.items() if v}
    if x:
        d[''] = Fraction(x)
    return tuple(sorted(d.items()))


def ladd(a, b, k=1):
    d = dict(a)
    for v, c in b:
        d[v] = d.get(v, 0) + k * c
    return tuple(sorted((v, c) for v, c in d.items() if c))


def lscale(a, k):
    return tuple(sorted((v, c * k) for v, c in a if c * k))


def lconst(a):
    if not a:
        return 0
    if len(a) == 1 and a[0][0] == '':
        return a[0][1]
    return None


def lshow(a):
    if not a:
        return '0'
    r = []
    for v, c in sorted(a, key=lambda x: x[0] == ''):
        s = '%s' % abs(c) if v == '' else (
            v if abs(c) == 1 else '%s*%s' % (abs(c), v))
        r.append((' + ' if c > 0 else ' - ') + s if r else
                 ('' if c > 0 else '-') + s)
    return ''.join(r)


def feasible(cs):
    """can all of the expressions be >= 0?"""
    return _feasible(frozenset(cs))


def _row(c):
    """((variable, integer), ...), constant with coprime coefficients"""
    den = 1
    for _, k in c:
        den = den * k.denominator // math.gcd(den, k.denominator)
    const, vs = 0, []
    for v, k in c:
        k = k.numerator * (den // k.denominator)
        if v:
            vs.append((v, k))
        else:
            const = k
    return _reduced(tuple(vs), const)


def _reduced(vs, const):
    g = 0
    for _, k in vs:
        g = math.gcd(g, k)
    if g > 1:
        vs = tuple((v, k // g) for v, k in vs)
        const = const // g if const % g == 0 else Fraction(const, g)
    return vs, const


@functools.lru_cache(maxsize=None)
def _feasible(cs):
    rows = {}
    for c in cs:
        vs, k = _row(c)
        if not vs:
            if k < 0:
                return False
        elif vs not in rows or k < rows[vs]:
            rows[vs] = k
    while rows:
        up, down = {}, {}
        for vs, k in rows.items():
            neg = tuple((v, -a) for v, a in vs)
            if neg in rows and rows[neg] + k < 0:
                return False
            for v, a in vs:
                d = up if a > 0 else down
                d[v] = d.get(v, 0) + 1
        v = min(set(up) | set(down),
                key=lambda v: (up.get(v, 0) * down.get(v, 0), v))
        lo, hi, new = [], [], {}
        for vs, k in rows.items():
            a = next((a for u, a in vs if u == v), 0)
            if a > 0:
                lo.append((vs, k, a))
            elif a < 0:
                hi.append((vs, k, -a))
            else:
                new[vs] = k
        for vs, k, a in lo:
            for ws, m, b in hi:
                d = {}
                for u, x in vs:
                    if u != v:
                        d[u] = x * b
                for u, x in ws:
                    if u != v:
                        d[u] = d.get(u, 0) + x * a
                r, c = _reduced(tuple(sorted(
                    (u, x) for u, x in d.items() if x)), k * b + m * a)
                if not r:
                    if c < 0:
                        return False
                elif r not in new or c < new[r]:
                    new[r] = c
        rows = new
    return True


def poly(v):
    """a polynomial: sorted ((variables), coefficient)"""
    if v[0] == 'poly':
        return v[1]
    if v[0] == 'prod':
        r = ((((), Fraction(1))),)
        for x in v[1]:
            r = polyop(ast.Mult(), r, poly(('int', x)))
        return r
    if v[0] not in ('int', 'expr'):
        raise Open('polynomial of %s' % v[0])
    return tuple(sorted(((x,) if x else (), c) for x, c in v[1]))


def polyop(op, a, b):
    d = {}
    if isinstance(op, ast.Mult):
        for x, c in a:
            for y, k in b:
                m = tuple(sorted(x + y))
                d[m] = d.get(m, 0) + c * k
    else:
        d = dict(a)
        for y, k in b:
            d[y] = d.get(y, 0) + (k if isinstance(op, ast.Add) else -k)
    return tuple(sorted((m, c) for m, c in d.items() if c))


def is_generator(node):
    todo = list(node.body)
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))
    return False


class State:
    __slots__ = ('cs', 'heap', 'notes')

    def __init__(self, cs=(), heap=None, notes=()):
        self.cs, self.heap, self.notes = tuple(cs), heap or {}, notes

    def copy(self):
        return State(self.cs, {k: dict(v) for k, v in self.heap.items()},
                     self.notes)

    def having(self, *cs):
        s = self.copy()
        s.cs = self.cs + tuple(c for c in cs if c not in self.cs)
        return s if feasible(s.cs) else None


# -- values ------------------------------------------------------------------
# ('int', lin) ('expr', lin) ('label', owner, lin) ('stranger', name)
# ('text',) ('labels', owner, dim-lin) ('obj', class, id) ('sym', class, lin,
# owner) ('G', name) ('cls', class-name) ('tuple', items) ('bool', b)
# ('none',) ('fn', mod, node, self-or-None, owner) ('opaque', what)

def num(x):
    return ('int', lin(x))


NONE = ('none',)


def truthy(b):
    return ('bool', b)


class Interp:
    def __init__(self, repo, opaque_calls=()):
        self.repo = repo
        self.n = itertools.count()
        self.depth = 0
        self.steps = 0
        self.builders = {}       # class name -> function(interp, args, kws, st)
        self.fields = {}         # class name -> function(interp, obj, name, st)
        self.opaque = set(opaque_calls)

    # -- functions ----------------------------------------------------------
    def function(self, mod, node, args, kws, st, owner=None, selfv=None):
        """[(state, ('return'|'raise', value))]"""
        self.depth += 1
        if self.depth > 14:
            self.depth -= 1
            raise Open('recursion in %s' % node.name)
        try:
            a = node.args
            if a.posonlyargs:
                raise Open('parameters of %s' % node.name)
            env = {'$mod': mod, '$owner': owner, '$self': selfv}
            names = [x.arg for x in a.args]
            args = list(args)
            if selfv is not None:
                args = [selfv] + args
            if len(args) > len(names):
                if not a.vararg:
                    return [(st, ('raise', 'TypeError'))]
                env[a.vararg.arg] = ('tuple', tuple(args[len(names):]))
                args = args[:len(names)]
            elif a.vararg:
                env[a.vararg.arg] = ('tuple', ())
            for n, v in zip(names, args):
                env[n] = v
            extra = {}
            for k, v in kws.items():
                if k in names or k in [x.arg for x in a.kwonlyargs]:
                    env[k] = v
                elif a.kwarg:
                    extra[k] = v
                else:
                    return [(st, ('raise', 'TypeError'))]
            if a.kwarg:
                env[a.kwarg.arg] = ('dict', tuple(sorted(extra.items())))
            ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
            ds.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults)
                       if d is not None})
            for n in names + [x.arg for x in a.kwonlyargs]:
                if n not in env:
                    if n not in ds:
                        return [(st, ('raise', 'TypeError'))]
                    vs = self.ev(ds[n], {'$mod': mod, '$owner': None,
                                         '$self': None}, st)
                    if len(vs) != 1:
                        raise Open('default of %s' % n)
                    env[n] = vs[0][1]
            res = []
            gen = is_generator(node)
            for s, e, o in self.block(node.body, env, st):
                if o is None:
                    o = ('return', NONE)
                if gen and o[0] == 'return':
                    y = e.get('$yield', ())
                    o = ('return', y if y[:1] == ('mapped',) else
                         ('tuple', y))
                if o[0] not in ('return', 'raise'):
                    raise Open('%s outside of a loop' % o[0])
                res.append((s, o))
            return res
        finally:
            self.depth -= 1

    def block(self, body, env, st):
        live = [(st, env)]
        done = []
        for stmt in body:
            nxt = []
            for s, e in live:
                for s2, e2, o in self.stmt(stmt, e, s):
                    if o is None:
                        nxt.append((s2, e2))
                    else:
                        done.append((s2, e2, o))
            live = nxt
            if len(live) + len(done) > 300:
                raise Open('too many paths')
        return done + [(s, e, None) for s, e in live]

    # -- statements -----------------------------------------------------------
    def stmt(self, node, env, st):
        self.steps += 1
        if self.steps > 20000:
            raise Open('too many steps')
        m = getattr(self, 's_' + type(node).__name__, None)
        if m is None:
            raise Open(type(node).__name__)
        return m(node, env, st)

    def values(self, node, env, st, then):
        """`then(state, value)` for every outcome; errors are passed on"""
        res = []
        for s, v in self.ev(node, env, st):
            if v[0] == 'EXC':
                res.append((s, env, ('raise', v[1])))
            else:
                res.extend(then(s, v))
        return res

    def s_Expr(self, node, env, st):
        if isinstance(node.value, ast.Constant):
            return [(st, env, None)]
        if isinstance(node.value, ast.Yield) and node.value.value:
            return self.values(
                node.value.value, env, st, lambda s, v: [
                    (s, dict(env, **{'$yield': env.get('$yield', ()) +
                                     (v,)}), None)])
        if isinstance(node.value, ast.YieldFrom):
            return self.values(
                node.value.value, env, st, lambda s, v: [
                    (s, dict(env, **{'$yield': env.get('$yield', ()) +
                                     tuple(self.items(v))}), None)])
        c = node.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) \
                and isinstance(c.func.value, ast.Name) and \
                c.func.attr in ('append', 'extend') and \
                len(c.args) == 1 and \
                env.get(c.func.value.id, ('',))[0] == 'tuple':
            n = c.func.value.id
            return self.values(
                c.args[0], env, st, lambda s, v: [
                    (s, dict(env, **{n: ('tuple', env[n][1] + (
                        (v,) if c.func.attr == 'append' else
                        tuple(self.items(v))))}), None)])
        return self.values(node.value, env, st,
                           lambda s, v: [(s, env, None)])

    def s_Pass(self, node, env, st):
        return [(st, env, None)]

    s_Import = s_Global = s_Pass

    def s_ImportFrom(self, node, env, st):
        e = dict(env)
        for a in node.names:
            if node.level or a.name == '*':
                continue
            q = '%s.%s' % (node.module, a.name)
            e[a.asname or a.name] = self.globalv(
                self.repo.resolve(q) or q, a.name)
        return [(st, e, None)]

    def items(self, v):
        if v[0] == 'tuple':
            return list(v[1])
        if v[0] == 'labels' and lconst(v[2]) is not None:
            return [('label', v[1], lin(i)) for i in range(int(lconst(v[2])))]
        if v[0] == 'range':
            a, b = lconst(v[1]), lconst(v[2])
            if a is not None and b is not None and b - a < 50:
                return [num(i) for i in range(int(a), int(b))]
        raise Open('items of %s' % v[0])

    def s_For(self, node, env, st):
        if node.orelse:
            raise Open('else of a loop')

        def then(s, v):
            if self.unknown_size(v):
                return self.generic_loop(node, env, s, v)
            live, done = [(s, dict(env))], []
            for x in self.items(v):
                nxt = []
                for s1, e1 in live:
                    for s2, e2, o in self.assign(node.target, x, e1, s1):
                        if o is not None:
                            done.append((s2, e2, o))
                            continue
                        for s3, e3, o3 in self.block(node.body, e2, s2):
                            if o3 is None or o3[0] == 'continue':
                                nxt.append((s3, e3))
                            elif o3[0] == 'break':
                                done.append((s3, e3, None))
                            else:
                                done.append((s3, e3, o3))
                live = nxt
            return done + [(s1, e1, None) for s1, e1 in live]
        return self.values(node.iter, env, st, then)

    def generic_loop(self, node, env, st, seq):
        """the body for any element; what it collects is a map over `seq`"""
        x = self.element(seq, '.')
        res = []
        for s1, e1, o1 in self.assign(node.target, x, env, st):
            for s2, e2, o in self.block(node.body, e1, s1):
                if o is not None or s2.cs != st.cs:
                    raise Open('loop over a product')
                e3 = dict(env)
                for n, v in e2.items():
                    if v == env.get(n):
                        continue
                    if v[0] == 'tuple' and len(v[1]) == 1 and env.get(
                            n, ('tuple', ())) == ('tuple', ()) and (
                            n in env or n == '$yield'):
                        e3[n] = ('mapped', seq, v[1][0])
                    elif n == '$yield' and len(v) == 1:
                        e3[n] = ('mapped', seq, v[0])
                    else:
                        e3[n] = ('opaque', 'changed in a loop')
                res.append((s2, e3, None))
        return res

    @staticmethod
    def unknown_size(v):
        return v[0] == 'product' or \
            v[0] == 'labels' and lconst(v[2]) is None or \
            v[0] == 'range' and None in (lconst(v[1]), lconst(v[2]))

    @classmethod
    def mapped(cls, seq, v):
        if seq[0] == 'labels' and v == cls.element(seq, '.'):
            return seq
        return ('mapped', seq, v)

    @staticmethod
    def element(seq, at):
        if seq[0] == 'range':
            return ('int', lin(m=1))
        if seq[0] == 'labels':
            return ('label', seq[1], lin(m=1))
        return ('tuple', tuple(
            ('label', b[1], (('c%d%s[%s]' % (
                i, ''.join(x[1] for x in seq[1]), at), Fraction(1)),))
            for i, b in enumerate(seq[1])))

    def s_Break(self, node, env, st):
        return [(st, env, ('break', NONE))]

    def s_Continue(self, node, env, st):
        return [(st, env, ('continue', NONE))]

    def e_ListComp(self, node, env, st):
        def gens(i, s, e):
            """[(state, tuple of values | ('EXC', name))]"""
            if i == len(node.generators):
                return [(s2, v if v[0] == 'EXC' else (v,))
                        for s2, v in self.ev(node.elt, e, s)]
            g = node.generators[i]
            out = []
            for s1, seq in self.ev(g.iter, e, s):
                if seq[0] == 'EXC':
                    out.append((s1, seq))
                    continue
                if self.unknown_size(seq) and \
                        len(node.generators) == 1 and not g.ifs:
                    for s3, e3, o in self.assign(
                            g.target, self.element(seq, '.'), e, s1):
                        for s4, v in self.ev(node.elt, e3, s3):
                            if v[0] == 'EXC' or s4.cs != s1.cs:
                                raise Open('loop over a product')
                            out.append((s4, self.mapped(seq, v)))
                    continue
                acc = [(s1, ())]
                for x in self.items(seq):
                    nxt = []
                    for s2, vs in acc:
                        if vs[:1] == ('EXC',):
                            nxt.append((s2, vs))
                            continue
                        for s3, e3, o in self.assign(g.target, x, e, s2):
                            if o is not None:
                                raise Open('target of a comprehension')
                            ok = [(s3, True)]
                            for c in g.ifs:
                                ok = [y for s4, b in ok for y in (
                                    self.cond(c, e3, s4) if b is True
                                    else [(s4, b)])]
                            for s4, b in ok:
                                if b is False:
                                    nxt.append((s4, vs))
                                elif b is True:
                                    for s5, v in gens(i + 1, s4, e3):
                                        nxt.append((
                                            s5, v if v[:1] == ('EXC',)
                                            else vs + v))
                                else:
                                    nxt.append((s4, ('EXC', b)))
                    acc = nxt
                out.extend(acc)
            return out
        return [(s, v if v[:1] in (('EXC',), ('mapped',), ('labels',)) else ('tuple', v))
                for s, v in gens(0, st, dict(env))]

    e_GeneratorExp = e_ListComp

    def s_Return(self, node, env, st):
        if node.value is None:
            return [(st, env, ('return', NONE))]
        return self.values(node.value, env, st,
                           lambda s, v: [(s, env, ('return', v))])

    def s_Raise(self, node, env, st):
        if node.exc is None:
            return [(st, env, ('raise', env.get('$exc', 'Exception')))]
        e = node.exc
        if isinstance(e, ast.Name) and env.get(e.id, ('',))[0] == 'exc':
            return [(st, env, ('raise', env[e.id][1]))]
        f = e.func if isinstance(e, ast.Call) else e
        n = f.id if isinstance(f, ast.Name) else getattr(f, 'attr', '?')
        return [(st, env, ('raise', n))]

    def s_Assert(self, node, env, st):
        res = []
        for s, b in self.cond(node.test, env, st):
            if b is True:
                res.append((s, env, None))
            else:
                res.append((s, env, ('raise', 'AssertionError'
                                     if b is False else b)))
        return res

    def s_If(self, node, env, st):
        res = []
        for s, b in self.cond(node.test, env, st):
            if b is True or b is False:
                res.extend(self.block(node.body if b else node.orelse,
                                      dict(env), s))
            else:
                res.append((s, env, ('raise', b)))
        return res

    def assign(self, target, v, env, st):
        if isinstance(target, ast.Name):
            e = dict(env)
            e[target.id] = v
            return [(st, e, None)]
        if isinstance(target, (ast.Tuple, ast.List)):
            if v[0] != 'tuple':
                raise Open('unpacking')
            if len(v[1]) != len(target.elts):
                return [(st, env, ('raise', 'ValueError'))]
            live = [(st, env, None)]
            for t, x in zip(target.elts, v[1]):
                live = [y for s, e, o in live
                        for y in self.assign(t, x, e, s)]
            return live
        if isinstance(target, ast.Attribute):
            def then(s, o):
                if o[0] != 'obj':
                    raise Open('attribute of %s' % o[0])
                s = s.copy()
                s.heap.setdefault(o[2], {})[target.attr] = v
                return [(s, env, None)]
            return self.values(target.value, env, st, then)
        raise Open('assignment')

    def s_Assign(self, node, env, st):
        def then(s, v):
            live = [(s, env, None)]
            for t in node.targets:
                live = [y for s2, e, o in live
                        for y in self.assign(t, v, e, s2)]
            return live
        return self.values(node.value, env, st, then)

    def s_AnnAssign(self, node, env, st):
        if node.value is None:
            return [(st, env, None)]
        return self.values(node.value, env, st, lambda s, v: self.assign(
            node.target, v, env, s))

    def s_AugAssign(self, node, env, st):
        if not isinstance(node.target, ast.Name):
            raise Open('augmented assignment')
        e = ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op,
                      node.value)
        return self.values(e, env, st, lambda s, v: self.assign(
            node.target, v, env, s))

    def s_Try(self, node, env, st):
        res = []
        for s, e, o in self.block(node.body, dict(env), st):
            if o is not None and o[0] == 'raise':
                for h in node.handlers:
                    if self.catches(h, o[1], env):
                        e2 = dict(e)
                        e2['$exc'] = o[1]
                        if h.name:
                            e2[h.name] = ('exc', o[1])
                        res.extend(self.block(h.body, e2, s))
                        break
                else:
                    res.append((s, e, o))
            elif o is None and node.orelse:
                res.extend(self.block(node.orelse, e, s))
            else:
                res.append((s, e, o))
        if node.finalbody:
            out = []
            for s, e, o in res:
                for s2, e2, o2 in self.block(node.finalbody, e, s):
                    out.append((s2, e2, o2 if o2 is not None else o))
            res = out
        return res

    def catches(self, h, name, env):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            n = t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '')
            if self.is_exc(name, n):
                return True
        return False

    def is_exc(self, name, base):
        if name == base:
            return True
        import builtins
        a, b = getattr(builtins, name, None), getattr(builtins, base, None)
        if isinstance(a, type) and isinstance(b, type):
            return issubclass(a, b)
        ci = self.repo.maybe_cls(name)
        if ci is None:
            return base in ('Exception', 'BaseException')
        for x in ci.mro:
            n = x.name if isinstance(x, ClassInfo) else x.rpartition('.')[2]
            if n == base:
                return True
            c = getattr(builtins, n, None)
            if isinstance(c, type) and isinstance(b, type) and \
                    issubclass(c, b):
                return True
        return False

    # -- conditions -----------------------------------------------------------
    def cond(self, node, env, st):
        """[(state, True | False | name of an error)]"""
        if isinstance(node, ast.BoolOp):
            stop = isinstance(node.op, ast.Or)
            live, res = [st], []
            for i, x in enumerate(node.values):
                nxt = []
                for s in live:
                    for s2, b in self.cond(x, env, s):
                        if b is stop or b not in (True, False) or \
                                i == len(node.values) - 1:
                            res.append((s2, b))
                        else:
                            nxt.append(s2)
                live = nxt
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, (not b) if b in (True, False) else b)
                    for s, b in self.cond(node.operand, env, st)]
        res = []
        for s, v in self.ev(node, env, st):
            if v[0] == 'EXC':
                res.append((s, v[1]))
            elif v[0] == 'cond':
                res.extend(self.split(s, *v[1:]))
            else:
                res.extend(self.truth(s, v))
        return res

    def split(self, st, op, d):
        """d op 0"""
        one = lin(1)
        neg = lscale(d, -1)
        alts = {
            '>=': ([d], [ladd(neg, one, -1)]),
            '>': ([ladd(d, one, -1)], [neg]),
            '<=': ([neg], [ladd(d, one, -1)]),
            '<': ([ladd(neg, one, -1)], [d]),
        }
        res = []
        if op in ('==', '!='):
            s = st.having(d, neg)
            if s is not None:
                res.append((s, op == '=='))
            for c in (ladd(d, one, -1), ladd(neg, one, -1)):
                s = st.having(c)
                if s is not None:
                    res.append((s, op != '=='))
            return res
        for b, cs in zip((True, False), alts[op]):
            s = st.having(*cs)
            if s is not None:
                res.append((s, b))
        return res

    def truth(self, st, v):
        if v[0] == 'bool':
            return [(st, v[1])]
        if v[0] == 'none':
            return [(st, False)]
        if v[0] == 'int':
            return self.split(st, '!=', v[1])
        if v[0] in ('tuple', 'dict'):
            return [(st, bool(v[1]))]
        if v[0] == 'text' and v[1] is not None:
            return [(st, bool(v[1]))]
        if v[0] == 'labels':
            return self.split(st, '>', v[2])
        if v[0] in ('obj', 'sym', 'label', 'stranger', 'G', 'cls'):
            return [(st, True)]
        raise Open('truth of %s' % v[0])

    # -- expressions ------------------------------------------------------------
    def ev(self, node, env, st):
        m = getattr(self, 'e_' + type(node).__name__, None)
        if m is None:
            raise Open(type(node).__name__)
        return m(node, env, st)

    def evs(self, nodes, env, st):
        """[(state, [values])]; an error is (state, ('EXC', name))"""
        live, res = [(st, [])], []
        for n in nodes:
            nxt = []
            for s, vs in live:
                for s2, v in self.ev(n, env, s):
                    if v[0] == 'EXC':
                        res.append((s2, v))
                    else:
                        nxt.append((s2, vs + [v]))
            live = nxt
        return res + live

    def e_Constant(self, node, env, st):
        v = node.value
        if isinstance(v, bool):
            return [(st, truthy(v))]
        if v is None:
            return [(st, NONE)]
        if isinstance(v, int):
            return [(st, num(v))]
        return [(st, ('text', v) if isinstance(v, str) else
                 ('opaque', repr(v)))]

    def e_JoinedStr(self, node, env, st):
        return [(st, ('text', None))]

    def e_Name(self, node, env, st):
        if node.id in env:
            return [(st, env[node.id])]
        return [(st, self.name(node.id, env))]

    def name(self, n, env):
        mod = env['$mod']
        q = self.repo.name_in(n, mod)
        if q is None:
            return ('G', n)
        return self.globalv(q if isinstance(q, str) else str(q), n)

    def globalv(self, q, n):
        ci = self.repo.classes.get(q)
        if ci is not None:
            if any('singleton_object' in ast.dump(d)
                   for d in ci.node.decorator_list):
                return ('G', ci.name)
            return ('cls', ci.name)
        try:
            self.repo.func(q)
            return ('fn', q)
        except AnalysisError:
            pass
        return ('G', q.rpartition('.')[2] or n)

    def e_Tuple(self, node, env, st):
        if any(isinstance(x, ast.Starred) for x in node.elts):
            raise Open('star')
        return [(s, v if v[:1] == ('EXC',) else ('tuple', tuple(v)))
                for s, v in self.evs(node.elts, env, st)]

    e_List = e_Tuple

    def e_Dict(self, node, env, st):
        if None in node.keys:
            raise Open('dict')
        n = len(node.keys)
        return [(s, v if v[:1] == ('EXC',) else (
            'dict', tuple(zip([x[1] for x in v[:n]], v[n:]))))
            for s, v in self.evs(node.keys + node.values, env, st)]

    def s_Delete(self, node, env, st):
        for t in node.targets:
            if not isinstance(t, ast.Subscript):
                raise Open('del')
            for s, v in self.ev(t.value, env, st):
                if v[0] != 'opaque':
                    raise Open('del')
        return [(st, env, None)]

    def e_IfExp(self, node, env, st):
        res = []
        for s, b in self.cond(node.test, env, st):
            if b in (True, False):
                res.extend(self.ev(node.body if b else node.orelse, env, s))
            else:
                res.append((s, ('EXC', b)))
        return res

    def e_BoolOp(self, node, env, st):
        if all(isinstance(x, (ast.Compare, ast.UnaryOp, ast.BoolOp, ast.Call,
                              ast.Attribute, ast.Name))
               for x in node.values):
            return [(s, truthy(b) if b in (True, False) else ('EXC', b))
                    for s, b in self.cond(node, env, st)]
        raise Open('and/or')

    def e_UnaryOp(self, node, env, st):
        if isinstance(node.op, ast.Not):
            return [(s, truthy(b) if b in (True, False) else ('EXC', b))
                    for s, b in self.cond(node, env, st)]
        res = []
        for s, v in self.ev(node.operand, env, st):
            if v[0] in ('int', 'expr') and isinstance(node.op, (
                    ast.USub, ast.UAdd)):
                k = -1 if isinstance(node.op, ast.USub) else 1
                v = (v[0], lscale(v[1], k))
            elif v[0] != 'EXC':
                raise Open('sign of %s' % v[0])
            res.append((s, v))
        return res

    def e_BinOp(self, node, env, st):
        res = []
        for s, vs in self.evs([node.left, node.right], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
                continue
            name = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul'}.get(
                type(node.op))
            done = False
            for o, x, pre in ((vs[0], vs[1], '__'), (vs[1], vs[0], '__r')):
                ci = self.repo.maybe_cls(o[1]) if o[0] in ('obj', 'sym') \
                    else None
                if ci is None or name is None:
                    continue
                hit = self.repo.lookup(ci, pre + name + '__')
                if hit is not None and hit[1] == 'method':
                    res.extend(self.run(hit[0], hit[2], o, [x], {}, s))
                    done = True
                    break
                if vs[1][0] in ('int', 'text'):
                    # such an object does not know this operation
                    res.append((s, ('EXC', 'TypeError')))
                    done = True
                    break
            if not done:
                res.append((s, self.binop(node.op, *vs)))
        return res

    @staticmethod
    def whole(l):
        return all(c.denominator == 1 for _, c in l)

    @staticmethod
    def pieces(v):
        if v[0] == 'str':
            return v[1]
        if v[0] == 'text' and v[1] is not None:
            return (v[1],) if v[1] else ()
        if v[0] == 'strof':
            return (v[1],)
        raise Open('text')

    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and a[0] == 'text' and \
                a[1] is not None and b[0] == 'tuple' and a[1].count(
                    '%d') == a[1].count('%') == len(b[1]) and all(
                    x[0] == 'int' for x in b[1]):
            ps = a[1].split('%d')
            r = (ps[0],)
            for x, y in zip(b[1], ps[1:]):
                r += (x[1], y)
            return ('str', tuple(x for x in r if x != ''))
        if a[0] in ('text', 'strof', 'str') and b[0] in (
                'text', 'strof', 'str') and isinstance(op, ast.Add):
            try:
                return ('str', self.pieces(a) + self.pieces(b))
            except Open:
                return ('text', None)
        if a[0] == 'text' or a[0] == 'stranger' and isinstance(op, ast.Mod):
            return ('text', None)
        t = 'int' if a[0] == b[0] == 'int' else 'expr'
        if a[0] in ('int', 'expr') and b[0] in ('int', 'expr'):
            if isinstance(op, ast.Add):
                return (t, ladd(a[1], b[1]))
            if isinstance(op, ast.Sub):
                return (t, ladd(a[1], b[1], -1))
            if isinstance(op, ast.Mult):
                for x, y in ((a, b), (b, a)):
                    k = lconst(x[1])
                    if k is not None:
                        return (t, lscale(y[1], k))
                return ('prod', tuple(sorted((a[1], b[1]))))
            if isinstance(op, ast.Div) and lconst(b[1]):
                return ('expr', lscale(a[1], Fraction(1) / lconst(b[1])))
        if isinstance(op, ast.Mult) and 'prod' in (a[0], b[0]):
            fs = ()
            for x in (a, b):
                if x[0] == 'prod':
                    fs += x[1]
                elif x[0] == 'int' and lconst(x[1]) != 1:
                    fs += (x[1],)
                elif x[0] != 'int':
                    raise Open('product')
            return ('prod', tuple(sorted(fs)))
        if isinstance(op, ast.Add) and a[0] in ('tuple', 'str') and \
                a[0] == b[0]:
            return (a[0], a[1] + b[1])
        if isinstance(op, ast.Add) and {a[0], b[0]} <= {'text', 'str'}:
            return ('str', self.pieces(a) + self.pieces(b))
        kinds = ('int', 'expr', 'prod', 'poly')
        if a[0] in kinds and b[0] in kinds and isinstance(
                op, (ast.Add, ast.Sub, ast.Mult)):
            return ('poly', polyop(op, poly(a), poly(b)))
        if a[0] in kinds and isinstance(op, ast.Pow) and b == num(2):
            return ('poly', polyop(ast.Mult(), poly(a), poly(a)))
        if isinstance(op, ast.Pow) and b == ('expr', lin(Fraction(1, 2))):
            return ('sqrt', poly(a))
        raise Open('operation on %s and %s' % (a[0], b[0]))

    def e_Compare(self, node, env, st):
        if len(node.ops) > 1:
            parts = [ast.Compare(l, [o], [r]) for l, o, r in zip(
                [node.left] + node.comparators, node.ops, node.comparators)]
            return [(s, truthy(b) if b in (True, False) else ('EXC', b))
                    for s, b in self.cond(ast.BoolOp(ast.And(), parts), env,
                                          st)]
        res = []
        for s, vs in self.evs([node.left, node.comparators[0]], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
            else:
                res.extend(self.compare(s, node.ops[0], *vs))
        return res

    OPS = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
           ast.Eq: '==', ast.NotEq: '!=', ast.Is: '==', ast.IsNot: '!='}

    def compare(self, st, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            if b[0] in ('none', 'bool', 'int'):
                return [(st, ('EXC', 'TypeError'))]
            r = self.contains(st, b, a)
            return [(s, truthy(x == isinstance(op, ast.In))) for s, x in r]
        o = self.OPS[type(op)]
        if a[0] in ('int', 'expr') and b[0] in ('int', 'expr'):
            d = ladd(a[1], b[1], -1)
            k = lconst(d)
            if a[0] == b[0] == 'int' or k is not None or self.whole(d):
                return [(st, ('cond', o, d))]
            raise Open('comparison of expressions')
        if o in ('==', '!='):
            if a[0] == 'label' and b[0] == 'label' and a[1] == b[1]:
                return [(st, ('cond', o, ladd(a[2], b[2], -1)))]
            if a == b and a[0] in ('none', 'G', 'cls', 'obj', 'bool',
                                   'stranger') or \
                    a == b and a[0] == 'text' and a[1] is not None:
                return [(st, truthy(o == '=='))]
            if a[0] == b[0] and a[0] in ('obj', 'cls', 'bool') or \
                    a[0] == b[0] == 'text' and None not in (a[1], b[1]):
                return [(st, truthy(o == '!='))]
            if 'none' in (a[0], b[0]) and 'opaque' not in (a[0], b[0]) or 'G' == a[0] == b[0] or \
                    {a[0], b[0]} in ({'label', 'stranger'}, {'G', 'obj'},
                                     {'int', 'label'}, {'int', 'stranger'},
                                     {'int', 'text'}, {'G', 'cls'},
                                     {'labels', 'tuple'},
                                     {'text', 'stranger'}, {'G', 'int'}):
                return [(st, truthy(o == '!='))]
        raise Open('comparison of %s and %s' % (a[0], b[0]))

    def contains(self, st, seq, x):
        if seq[0] == 'labels':
            if x[0] == 'label' and x[1] == seq[1]:
                return [(st, True)]
            if x[0] == 'stranger' or x[0] == 'int':
                return [(st, False)]
        if seq[0] == 'tuple':
            live, res = [st], []
            for y in seq[1]:
                nxt = []
                for s in live:
                    for s2, v in self.compare(s, ast.Eq(), x, y):
                        for s3, b in (self.split(s2, *v[1:])
                                      if v[0] == 'cond' else [(s2, v[1])]):
                            if b:
                                res.append((s3, True))
                            else:
                                nxt.append(s3)
                live = nxt
            return res + [(s, False) for s in live]
        if seq[0] == 'range' and x[0] == 'int':
            res = []
            for s, b in self.split(st, '>=', ladd(x[1], seq[1], -1)):
                if b:
                    res += self.split(s, '<', ladd(x[1], seq[2], -1))
                else:
                    res.append((s, False))
            return res
        raise Open('%s in %s' % (x[0], seq[0]))

    def e_Subscript(self, node, env, st):
        if isinstance(node.slice, ast.Slice):
            def const(x):
                if x is None:
                    return None
                try:
                    return ast.literal_eval(x)
                except ValueError:
                    raise Open('slice')
            k = slice(const(node.slice.lower), const(node.slice.upper),
                      const(node.slice.step))
            return [(s, v if v[0] == 'EXC' else
                     ('tuple', tuple(self.items(v)[k])))
                    for s, v in self.ev(node.value, env, st)]
        res = []
        for s, vs in self.evs([node.value, node.slice], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
                continue
            b, i = vs
            if b[0] == 'labels' and i[0] == 'int':
                for s2, neg in self.split(s, '<', i[1]):
                    j = ladd(i[1], b[2]) if neg else i[1]
                    for s3, ok in self.split(
                            s2, '>=' if neg else '<',
                            j if neg else ladd(j, b[2], -1)):
                        res.append((s3, ('label', b[1], j) if ok else
                                    ('EXC', 'IndexError')))
            elif b[0] == 'labels':
                res.append((s, ('EXC', 'TypeError')))
            elif b[0] == 'product' and i[0] == 'int':
                d = lin(D=1)
                for s2, neg in self.split(s, '<', i[1]):
                    j = ladd(i[1], d) if neg else i[1]
                    for s3, ok in self.split(
                            s2, '>=' if neg else '<',
                            j if neg else ladd(j, d, -1)):
                        res.append((s3, self.element(b, lshow(j)) if ok else
                                    ('EXC', 'IndexError')))
            elif b[0] == 'tuple' and i[0] == 'int' and \
                    lconst(i[1]) is not None:
                k = int(lconst(i[1]))
                if -len(b[1]) <= k < len(b[1]):
                    res.append((s, b[1][k]))
                else:
                    res.append((s, ('EXC', 'IndexError')))
            elif b[0] == 'dict' and i[0] == 'text' and i[1] in dict(b[1]):
                res.append((s, dict(b[1])[i[1]]))
            else:
                raise Open('item of %s' % b[0])
        return res

    def e_Attribute(self, node, env, st):
        res = []
        for s, b in self.ev(node.value, env, st):
            if b[0] == 'EXC':
                res.append((s, b))
            else:
                res.extend(self.attr(s, b, node.attr, env))
        return res

    def attr(self, st, b, name, env=None):
        if b[0] in ('obj', 'sym'):
            if b[0] == 'obj' and name in st.heap.get(b[2], ()):
                return [(st, st.heap[b[2]][name])]
            f = self.fields.get(b[1])
            if f is not None:
                v = f(self, b, name, st)
                if v is not None:
                    return v if isinstance(v, list) else [(st, v)]
            ci = self.repo.maybe_cls(b[1])
            if ci is None:
                raise Open('class %s' % b[1])
            if name == '__class__':
                return [(st, ('cls', b[1]))]
            hit = self.repo.lookup(ci, name)
            if hit is None:
                return [(st, ('EXC', 'AttributeError'))]
            owner, kind, n = hit
            if kind == 'attr':
                return self.ev(n, {'$mod': owner.module, '$owner': None,
                                   '$self': None}, st)
            decs = [ast.dump(d) for d in n.decorator_list]
            if any("'property'" in d or 'cached' in d for d in decs):
                return [(s, o[1] if o[0] == 'return' else ('EXC', o[1]))
                        for s, o in self.function(owner.module, n, (), {},
                                                  st, owner, b)]
            if any("'classmethod'" in d for d in decs):
                return [(st, ('meth', owner, n, ('cls', b[1])))]
            if any("'staticmethod'" in d for d in decs):
                return [(st, ('meth', owner, n, None))]
            return [(st, ('meth', owner, n, b))]
        if b[0] == 'cls':
            ci = self.repo.maybe_cls(b[1])
            if name == 'create':
                return [(st, ('bound', b, name))]
            if name == '__name__':
                return [(st, ('text', b[1]))]
            hit = self.repo.lookup(ci, name) if ci is not None else None
            if hit is not None and hit[1] == 'method':
                bound = any("'classmethod'" in ast.dump(d)
                            for d in hit[2].decorator_list)
                return [(st, ('meth', hit[0], hit[2],
                              b if bound else None))]
            if hit is not None:
                return self.ev(hit[2], {'$mod': hit[0].module,
                                        '$owner': None, '$self': None}, st)
            return [(st, ('bound', b, name))]
        if b[0] in ('int', 'expr') and name == 'is_integer':
            return [(st, truthy(self.whole(b[1])))]
        if b[0] == 'G':
            return [(st, ('G', b[1] + '.' + name))]
        return [(st, ('bound', b, name))]

    # -- calls --------------------------------------------------------------------
    def e_Call(self, node, env, st):
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and \
                'super' not in env:
            return [(st, ('super', env['$owner'], env['$self']))]
        if isinstance(node.func, ast.Attribute) and isinstance(
                node.func.value, ast.Call) and isinstance(
                node.func.value.func, ast.Name) and \
                node.func.value.func.id == 'super':
            return self.super_call(node, env, st)
        res = []
        pos = [x.value if isinstance(x, ast.Starred) else x
               for x in node.args]
        if any(k.arg is None for k in node.keywords):
            raise Open('keywords')
        for s, vs in self.evs([node.func] + pos +
                              [k.value for k in node.keywords], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
                continue
            args = []
            for x, v in zip(node.args, vs[1:]):
                if isinstance(x, ast.Starred):
                    args.extend(self.items(v))
                else:
                    args.append(v)
            kws = dict(zip([k.arg for k in node.keywords],
                           vs[1 + len(pos):]))
            res.extend(self.call(s, vs[0], args, kws))
        return res

    def super_call(self, node, env, st):
        owner, selfv = env['$owner'], env['$self']
        name = node.func.attr
        kws = [k for k in node.keywords if k.arg]
        res = []
        for s, vs in self.evs([getattr(x, 'value', x) if isinstance(
                x, ast.Starred) else x for x in node.args] +
                [k.value for k in kws], env, st):
            if vs and vs[0] == 'EXC':
                res.append((s, vs))
                continue
            args = []
            for x, v in zip(node.args, vs):
                if isinstance(x, ast.Starred):
                    args.extend(self.items(v))
                else:
                    args.append(v)
            kw = dict(zip([k.arg for k in kws], vs[len(node.args):]))
            b = self.builders.get((selfv[1], name)) if selfv else None
            if b is not None:
                res.extend(b(self, selfv, args, kw, s))
                continue
            ci = self.repo.maybe_cls(selfv[1])
            hit = self.repo.lookup(ci, name, after=owner)
            if hit is None or hit[1] != 'method':
                raise Open('super().%s' % name)
            res.extend(self.run(hit[0], hit[2], selfv, args, kw, s))
        return res

    def run(self, owner, n, selfv, args, kws, st):
        return [(s, o[1] if o[0] == 'return' else ('EXC', o[1]))
                for s, o in self.function(owner.module, n, args, kws, st,
                                          owner, selfv)]

    def call(self, st, f, args, kws):
        if f[0] == 'meth':
            b = self.builders.get('%s.%s' % (f[1].name, f[2].name))
            if b is not None:
                return b(self, ([f[3]] if f[3] else []) + args, kws, st)
            return self.run(f[1], f[2], f[3], args, kws, st)
        if f[0] == 'fn':
            b = self.builders.get(f[1].rpartition('.')[2])
            if b is not None:
                return b(self, args, kws, st)
            hit = self.repo.func(f[1])
            mod, node = hit if isinstance(hit, tuple) else (
                self.repo.modules[f[1].rpartition('.')[0]], hit)
            return [(s, o[1] if o[0] == 'return' else ('EXC', o[1]))
                    for s, o in self.function(mod, node, args, kws, st)]
        if f[0] == 'cls':
            b = self.builders.get(f[1])
            if b is not None:
                return b(self, args, kws, st)
            return self.new(f[1], args, kws, st)
        if f[0] == 'G':
            return self.builtin(st, f[1], args, kws)
        if f[0] == 'bound':
            return self.bound(st, f[1], f[2], args, kws)
        raise Open('call of %s' % f[0])

    def new(self, cls, args, kws, st):
        o = ('obj', cls, next(self.n))
        s = st.copy()
        s.heap[o[2]] = {}
        ci = self.repo.maybe_cls(cls)
        hit = self.repo.lookup(ci, '__init__') if ci is not None else None
        if hit is None or hit[1] != 'method':
            raise Open('new %s' % cls)
        return [(s2, o if v[0] != 'EXC' else v) for s2, v in self.run(
            hit[0], hit[2], o, args, kws, s)]

    def bound(self, st, b, name, args, kws):
        if b[0] == 'labels' and name == 'index' and len(args) == 1:
            x = args[0]
            if x[0] == 'label' and x[1] == b[1]:
                return [(st, ('int', x[2]))]
            if x[0] in ('stranger', 'int', 'obj', 'sym'):
                return [(st, ('EXC', 'ValueError'))]
        if b[0] == 'text' and b[1] is not None and name == 'join' and \
                len(args) == 1 and args[0][0] == 'tuple' and \
                all(x[0] in ('label', 'stranger') for x in args[0][1]):
            return [(st, ('joined', b[1], args[0][1]))]
        if b[0] == 'joined' and name == 'split' and len(args) == 1 and \
                args[0] == ('text', b[1]):
            return [(st, ('tuple', b[2]))]
        if b[0] == 'cls' and name == 'create':
            return self.call(st, b, args, kws)
        if b[0] in ('stranger', 'text', 'label') and name in (
                'format', 'join'):
            return [(st, ('text', None))]
        if b[0] == 'exc':
            return [(st, ('text', None))]
        if b[0] == 'idx' and name in ('subs', 'xreplace'):
            return [(st, ('int', b[1]))]
        if b == ('opaque', 're') and name in ('match', 'fullmatch'):
            return [(st, truthy(True))]
        if b[0] == 'opaque' and b[1] == 'dict':
            return [(st, b)]
        if b[0] == 'dict' and name == 'items':
            return [(st, ('tuple', tuple(
                ('tuple', (('text', k), v)) for k, v in b[1])))]
        if b[0] == 'dict' and name == 'copy':
            return [(st, b)]
        if b[0] in ('int', 'expr') and name == 'as_numer_denom':
            if self.whole(b[1]):
                return [(st, ('tuple', (('int', b[1]), num(1))))]
            if self.whole(lscale(b[1], 2)):
                return [(st, ('tuple', (('int', lscale(b[1], 2)), num(2))))]
            if self.whole(lscale(b[1], 3)):
                return [(st, ('tuple', (('int', lscale(b[1], 3)), num(3))))]
        raise Open('%s.%s' % (b[0], name))

    TYPES = {'int': ('int',), 'label': ('str',), 'stranger': ('str',),
             'text': ('str',), 'joined': ('str',), 'str': ('str',),
             'strof': ('str',), 'tuple': ('tuple', 'list'),
             'labels': ('tuple',), 'none': (), 'bool': ('bool', 'int'),
             'expr': ('Basic', 'Expr', 'Symbol'), 'other': ()}

    def is_a(self, v, t):
        n = t[1].rpartition('.')[2] if t[0] in ('cls', 'G') else None
        if n is None:
            raise Open('type')
        if v[0] in ('obj', 'sym'):
            ci = self.repo.maybe_cls(v[1])
            return self.repo.is_sub(ci, n)
        if v[0] in self.TYPES:
            return n in self.TYPES[v[0]]
        if v[0] == 'G':
            ci = self.repo.maybe_cls(v[1])
            return ci is not None and self.repo.is_sub(ci, n)
        raise Open('type of %s' % v[0])

    def builtin(self, st, n, args, kws):
        if n == 'isinstance' and len(args) == 2:
            ts = args[1][1] if args[1][0] == 'tuple' else (args[1],)
            return [(st, truthy(any(self.is_a(args[0], t) for t in ts)))]
        if n == 'len' and len(args) == 1:
            if args[0][0] == 'labels':
                return [(st, ('int', args[0][2]))]
            if args[0][0] == 'tuple':
                return [(st, num(len(args[0][1])))]
        if n == 'abs' and len(args) == 1 and args[0][0] == 'int':
            return [(s, ('int', args[0][1] if b else
                         lscale(args[0][1], -1)))
                    for s, b in self.split(st, '>=', args[0][1])]
        if n in ('min', 'max') and len(args) == 2 and \
                args[0][0] == args[1][0] == 'int':
            return [(s, args[0 if b == (n == 'max') else 1])
                    for s, b in self.split(st, '>=', ladd(
                        args[0][1], args[1][1], -1))]
        if n == 'str' and len(args) == 1:
            if args[0][0] == 'int':
                return [(st, ('strof', args[0][1]))]
            if args[0][0] in ('label', 'stranger', 'strof'):
                return [(st, args[0])]
            return [(st, ('text', None))]
        if n == 'int' and len(args) == 1 and args[0][0] == 'expr':
            if not self.whole(args[0][1]):
                raise Open('int of a fraction')
            return [(st, ('int', args[0][1]))]
        if n in ('int', 'sympify', 'sympy.sympify') and len(args) == 1 and \
                args[0][0] in ('int', 'expr'):
            return [(st, args[0])]
        if n in ('tuple', 'list') and len(args) == 1 and \
                args[0][0] in ('labels', 'tuple', 'product', 'mapped'):
            return [(st, args[0])]
        if n in ('tuple', 'list') and not args:
            return [(st, ('tuple', ()))]
        if n == 'any' and len(args) == 1 and args[0][0] == 'tuple' and all(
                x[0] == 'bool' for x in args[0][1]):
            return [(st, truthy(any(x[1] for x in args[0][1])))]
        if n == 'zip' and args and not kws:
            return [(st, ('tuple', tuple(
                ('tuple', x) for x in zip(*[self.items(a) for a in args]))))]
        if n == 'enumerate' and len(args) == 1:
            return [(st, ('tuple', tuple(
                ('tuple', (num(i), x))
                for i, x in enumerate(self.items(args[0])))))]
        if n == 'reversed' and len(args) == 1:
            return [(st, ('tuple', tuple(self.items(args[0])[::-1])))]
        if n in ('iter', 'tuple', 'list') and len(args) == 1:
            return [(st, ('tuple', tuple(self.items(args[0]))))]
        if n == 'next' and len(args) == 1 and args[0][0] == 'tuple' and \
                args[0][1]:
            return [(st, args[0][1][0])]
        if n in ('cartesian_product', 'itertools.product', 'product') and \
                not kws and all(a[0] == 'labels' for a in args):
            return [(st, ('product', tuple(args)))]
        if n in ('cartesian_product', 'itertools.product', 'product') and \
                not kws:
            return [(st, ('tuple', tuple(
                ('tuple', x) for x in itertools.product(
                    *[self.items(a) for a in args]))))]
        if n in ('functools.reduce', 'reduce') and len(args) in (2, 3) and \
                args[0] in (('G', 'operator.mul'), ('G', 'mul')):
            vs = self.items(args[1])
            acc = args[2] if len(args) == 3 else vs.pop(0)
            for v in vs:
                acc = self.binop(ast.Mult(), acc, v)
            return [(st, acc)]
        if n in ('set', 'frozenset') and len(args) == 1:
            vs = self.items(args[0])
            return [(st, ('tuple', tuple(dict.fromkeys(vs))))]
        if n in ('type',) and len(args) == 1 and args[0][0] in (
                'obj', 'sym'):
            return [(st, ('cls', args[0][1]))]
        if n == 'range' and args and all(x[0] == 'int' for x in args):
            if len(args) == 1:
                return [(st, ('range', lin(0), args[0][1]))]
            if len(args) == 2:
                return [(st, ('range', args[0][1], args[1][1]))]
        if n in ('attr.evolve', 'evolve') and len(args) == 1 and \
                args[0][0] == 'sym' and set(kws) == {'expr'} and \
                kws['expr'][0] in ('int', 'expr'):
            a = args[0]
            return [(st, ('sym', a[1], kws['expr'][1]) + a[3:])]
        if n in ('sqrt', 'sympy.sqrt') and len(args) == 1:
            return [(st, ('sqrt', poly(args[0])))]
        if n == 're.compile':
            return [(st, ('opaque', 're'))]
        if n == 'float':
            return [(st, ('opaque', 'float'))]
        if n in ('OrderedDict', 'collections.OrderedDict', 'dict') and args:
            return [(st, args[0] if args[0][0] == 'dict'
                     else ('opaque', 'dict'))]
        if n == 'sorted' and len(args) == 1 and args[0] == ('tuple', ()):
            return [(st, args[0])]
        if n == 'slice' or n == 'repr':
            return [(st, ('text', None))]
        raise Open('call of %s' % n)
