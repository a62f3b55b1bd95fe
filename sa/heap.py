"""Abstract interpretation of stateful helpers over a symbolic heap.

The functions that change configuration (context managers, caches) are few and
small; what matters about them is which cell of which shared object holds what
when they are left.  :class:`Machine` follows every path of such a function on
an abstract heap: objects are symbolic (a class, a function object, an opaque
token), their attributes are cells, lists and dictionaries keep their identity,
everything that comes from elsewhere is an opaque value, and a branch on an
opaque value is followed both ways.  Nothing of the analysed tree is imported
or executed.
"""
import ast
import builtins

from .src import params_of, decorator_names

MISSING = object()


class Stop(Exception):
    """the function is outside of what is modelled"""


class Thrown(Exception):
    """an exception of the analysed program"""

    def __init__(self, name, node=None):
        self.name, self.node = name, node
        super().__init__(name)


class Return(Exception):
    def __init__(self, value):
        self.value = value


class Break(Exception):
    pass


class Continue(Exception):
    pass


class Obj:
    made = False
    """symbolic object; `cls` for classes of the tree, `base` for inheritance"""

    def __init__(self, name, base=None, cls=None, missing=(), data=None):
        self.name, self.base, self.cls = name, base, cls
        self.attrs, self.missing, self.data = {}, set(missing), data

    def __repr__(self):
        return self.name


class Func(Obj):
    def __init__(self, name, node, mod, env=None, owner=None, bound=None):
        Obj.__init__(self, name)
        self.node, self.mod, self.env = node, mod, env
        self.owner, self.bound = owner, bound


class Manager:
    """a context manager made from a generator function"""

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Native:
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def __repr__(self):
        return self.name


class List:
    def __init__(self, items=()):
        self.items = list(items)

    def __repr__(self):
        return repr(self.items)


class Dict:
    def __init__(self, items=(), default=None):
        self.items = dict(items)
        self.default = default

    def __repr__(self):
        return repr(self.items)


class Set(List):
    pass


def snapshot(v, seen=()):
    """structure of a value; objects by identity"""
    if isinstance(v, (List, Dict)):
        if id(v) in seen:
            return ('rec',)
        seen = seen + (id(v),)
        if isinstance(v, Dict):
            return ('dict', tuple((snapshot(k), snapshot(x, seen))
                                  for k, x in v.items.items()))
        return ('list', tuple(snapshot(x, seen) for x in v.items))
    if isinstance(v, tuple):
        return ('tuple', tuple(snapshot(x, seen) for x in v))
    if isinstance(v, (Obj, Native, Manager)):
        return ('obj', id(v), v)
    return ('const', type(v).__name__, repr(v))


EXC = {}
for _n in dir(builtins):
    _c = getattr(builtins, _n)
    if isinstance(_c, type) and issubclass(_c, BaseException):
        EXC[_n] = _c


def catches(handler, name):
    if handler in EXC and name in EXC:
        return issubclass(EXC[name], EXC[handler])
    return handler == name or handler in ('Exception', 'BaseException')


class Machine:
    STEPS = 60000

    def __init__(self, repo, choices=(), on_yield=None, natives=None):
        self.repo = repo
        self.pending = list(choices)
        self.taken = []
        self.on_yield = on_yield
        self.natives = natives or {}
        self.objects = {}       # dotted -> value
        self.cells = {}         # (id(obj), attr) -> (obj, first value)
        self.boxes = {}         # id(container) -> (container, name, snapshot)
        self.steps = 0
        self.depth = 0
        self.fresh = 0

    # -- choices -------------------------------------------------------------

    def choose(self, n=2):
        c = self.pending.pop(0) if self.pending else 0
        self.taken.append((c, n))
        return c

    # -- cells ---------------------------------------------------------------

    def tok(self, name):
        self.fresh += 1
        o = Obj('%s#%d' % (name, self.fresh))
        o.made = True       # on this path, was not there before
        return o

    def get(self, o, attr):
        v = self.find(o, attr)
        if v is MISSING:
            raise Thrown('AttributeError')
        return v

    def find(self, o, attr):
        if isinstance(o, Obj) and o.data == 'module':
            return self.dotted(o.name + '.' + attr)
        if isinstance(o, Obj):
            x = o
            while x is not None:
                if attr in x.attrs:
                    return x.attrs[attr]
                if x.cls is not None:
                    found = self.repo.lookup(x.cls, attr)
                    if found and found[0] is x.cls:
                        return self.class_attr(x, attr)
                x = x.base
            if attr in o.missing or attr.startswith('__') and attr not in (
                    '__str__', '__repr__', '__name__', '__class__',
                    '__init__', '__enter__', '__exit__', '__dict__'):
                return MISSING
            if o.cls is not None:
                v = self.class_attr(o, attr)
                if v is not MISSING:
                    return v
            if isinstance(o, Func) and o.data is None and attr not in (
                    '__name__', '__doc__'):
                return MISSING
            v = Obj('%s.%s' % (o.name, attr))
            v.made = o.made
            self.touch(o, attr, v)
            o.attrs[attr] = v
            if self.objects.get(o.name) is o:
                self.objects.setdefault(v.name, v)
            return v
        m = method_of(self, o, attr)
        if m is not None:
            return m
        raise Stop('%s of %r' % (attr, o))

    def class_attr(self, o, attr):
        found = self.repo.lookup(o.cls, attr)
        if not found:
            return MISSING
        owner, kind, node = found
        home = self.class_obj(owner)
        if kind == 'method':
            if attr not in home.attrs:
                fn = Func(owner.name + '.' + attr, node, owner.module,
                          owner=owner)
                fn.data = 'method'
                home.attrs[attr] = fn
                self.touch(home, attr, fn)
            return home.attrs[attr]
        if attr not in home.attrs:
            try:
                v = self.expr(node, Env(owner.module))
            except Stop:
                v = Obj('%s.%s' % (owner.name, attr))
            home.attrs[attr] = v
            self.touch(home, attr, v)
            self.box(v, '%s.%s' % (owner.name, attr))
        return home.attrs[attr]

    def set(self, o, attr, v):
        if not isinstance(o, Obj):
            raise Stop('store on %r' % (o,))
        if (id(o), attr) not in self.cells:
            self.touch(o, attr, self.find(o, attr))
            x = o.base      # inherited, from one that has been changed
            while x is not None and attr not in o.attrs:
                if (id(x), attr) in self.cells:
                    self.cells[id(o), attr] = (o, attr) + self.cells[
                        id(x), attr][2:]
                    break
                x = x.base
        o.attrs[attr] = v

    def delete(self, o, attr):
        if not isinstance(o, Obj) or attr not in o.attrs:
            raise Thrown('AttributeError')
        if (id(o), attr) not in self.cells:
            self.touch(o, attr, o.attrs[attr])
        del o.attrs[attr]

    def touch(self, o, attr, v):
        if (id(o), attr) not in self.cells:
            self.cells[id(o), attr] = (o, attr, v, snapshot(v))

    def box(self, v, name):
        if isinstance(v, (List, Dict)) and id(v) not in self.boxes:
            self.boxes[id(v)] = (v, name, snapshot(v))

    def changed(self):
        """cells and containers that are not what they were"""
        res = []
        for o, attr, v, snap in list(self.cells.values()):
            if o.made:
                continue
            now = self.find(o, attr)
            if now is MISSING and v is MISSING:
                continue
            if (now is MISSING) != (v is MISSING) or snapshot(now) != snap:
                res.append('%s.%s' % (o.name, attr))
        for v, name, snap in self.boxes.values():
            if snapshot(v) != snap and not any(
                    x[2] is v for x in self.cells.values()):
                res.append(name)
        return res

    # -- names ---------------------------------------------------------------

    def class_obj(self, ci):
        k = ci.module.name + '.' + ci.name
        if k not in self.objects:
            self.objects[k] = None
            base = None
            mro = [c for c in self.repo._mro(ci, ()) if c is not ci and
                   not isinstance(c, str)]
            if mro:
                base = self.class_obj(mro[0])
            self.objects[k] = Obj(ci.name, cls=ci)
            self.objects[k].base = base
        return self.objects[k]

    def dotted(self, d):
        """value of a dotted name"""
        if d in self.objects:
            return self.objects[d]
        if d in self.natives:
            return Native(d, self.natives[d])
        r = self.repo.resolve(d)
        if r != d:
            return self.dotted(r)
        if d in self.repo.classes:
            return self.class_obj(self.repo.classes[d])
        head, _, name = d.rpartition('.')
        mod = self.repo.modules.get(head)
        if d in self.repo.modules:
            self.objects[d] = Obj(d, data='module')
            return self.objects[d]
        if mod is not None and name in mod.functions:
            self.objects[d] = Func(d, mod.functions[name], mod)
            return self.objects[d]
        if mod is not None:
            v = self.module_value(mod, name)
            if v is not MISSING:
                self.objects[d] = v
                self.box(v, d)
                return v
        self.objects[d] = Obj(d)
        return self.objects[d]

    def module_value(self, mod, name):
        val = MISSING
        for st in mod.tree.body:
            if isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name) and t.id == name:
                        val = st.value
            elif isinstance(st, ast.AnnAssign) and st.value is not None:
                if isinstance(st.target, ast.Name) and st.target.id == name:
                    val = st.value
        if val is MISSING:
            return MISSING
        return self.expr(val, Env(mod))

    def name(self, n, env):
        e = env
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.up
        if n in BUILTIN:
            d = self.repo.name_in(n, env.mod)
            if not d or d.startswith('builtins'):
                return Native(n, BUILTIN[n])
        if n in EXC:
            return Obj(n, data='exc')
        d = self.repo.name_in(n, env.mod)
        if not d:
            return Obj(n)
        if d.startswith('builtins.'):
            return Obj(n)
        return self.dotted(d)

    # -- statements ----------------------------------------------------------

    def block(self, body, env):
        for st in body:
            self.steps += 1
            if self.steps > self.STEPS:
                raise Stop('too long')
            getattr(self, 's_' + type(st).__name__, self.unknown)(st, env)

    def unknown(self, st, env):
        raise Stop(type(st).__name__)

    def s_Pass(self, st, env):
        pass

    def s_Expr(self, st, env):
        self.expr(st.value, env)

    def s_Assign(self, st, env):
        v = self.expr(st.value, env)
        for t in st.targets:
            self.store(t, v, env)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.store(st.target, self.expr(st.value, env), env)

    def s_AugAssign(self, st, env):
        load = ast.copy_location(ast.parse(
            ast.unparse(st.target), mode='eval').body, st)
        old = self.expr(load, env)
        v = self.expr(st.value, env)
        if isinstance(old, List) and isinstance(st.op, ast.Add):
            old.items += self.iterate(v)
            return
        self.store(st.target, self.binary(st.op, old, v), env)

    def store(self, t, v, env):
        if isinstance(t, ast.Name):
            e = env
            if t.id in env.globals:
                raise Stop('global store')
            while e is not None and t.id in e.nonlocals:
                e = e.up
            e.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            self.set(self.expr(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.expr(t.value, env), self.index(t.slice, env), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.iterate(v, len(t.elts))
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Stop('starred target')
            if len(vs) != len(t.elts):
                raise Thrown('ValueError')
            for x, y in zip(t.elts, vs):
                self.store(x, y, env)
        else:
            raise Stop('target')

    def setitem(self, o, k, v):
        if isinstance(o, Dict):
            o.items[self.key(k)] = v
        elif isinstance(o, List) and type(k) is int:
            try:
                o.items[k] = v
            except IndexError:
                raise Thrown('IndexError')
        elif isinstance(o, Obj):
            self.set(o, '[%r]' % (k,), v)
        else:
            raise Stop('item store')

    @staticmethod
    def key(k):
        if isinstance(k, (List, Dict)):
            raise Thrown('TypeError')
        return k

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Attribute):
                self.delete(self.expr(t.value, env), t.attr)
            elif isinstance(t, ast.Subscript):
                o, k = self.expr(t.value, env), self.index(t.slice, env)
                if isinstance(o, Dict):
                    if k not in o.items:
                        raise Thrown('KeyError')
                    del o.items[k]
                elif isinstance(o, List) and isinstance(k, (int, slice)):
                    del o.items[k]
                else:
                    raise Stop('del')
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)

    def s_If(self, st, env):
        self.block(st.body if self.test(st.test, env) else st.orelse, env)

    def s_While(self, st, env):
        n = 0
        while self.test(st.test, env):
            n += 1
            if n > 60:
                raise Stop('loop')
            try:
                self.block(st.body, env)
            except Break:
                return
            except Continue:
                continue
        self.block(st.orelse, env)

    def s_For(self, st, env):
        for v in self.iterate(self.expr(st.iter, env)):
            self.store(st.target, v, env)
            try:
                self.block(st.body, env)
            except Break:
                return
            except Continue:
                continue
        self.block(st.orelse, env)

    def s_Break(self, st, env):
        raise Break()

    def s_Continue(self, st, env):
        raise Continue()

    def s_Return(self, st, env):
        raise Return(self.expr(st.value, env) if st.value else None)

    def s_Raise(self, st, env):
        if st.exc is None:
            raise env.current() or Stop('raise')
        v = self.expr(st.exc.func if isinstance(st.exc, ast.Call)
                      else st.exc, env)
        if isinstance(v, Thrown):
            raise v
        raise Thrown(v.name.rpartition('.')[2] if isinstance(v, Obj)
                     else 'Exception', st)

    def s_Try(self, st, env):
        try:
            try:
                self.block(st.body, env)
            except Thrown as e:
                for h in st.handlers:
                    names = [None] if h.type is None else [
                        ast.unparse(x).rpartition('.')[2] for x in (
                            h.type.elts if isinstance(h.type, ast.Tuple)
                            else [h.type])]
                    if any(n is None or catches(n, e.name) for n in names):
                        old = env.exc
                        env.exc = e
                        if h.name:
                            env.vars[h.name] = e
                        try:
                            self.block(h.body, env)
                        finally:
                            env.exc = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse, env)
        except Stop:
            raise
        except BaseException:
            if st.finalbody:
                self.block(st.finalbody, env)
            raise
        else:
            if st.finalbody:
                self.block(st.finalbody, env)

    def s_With(self, st, env):
        self.with_items(list(st.items), st.body, env)

    def with_items(self, items, body, env):
        if not items:
            self.block(body, env)
            return
        it = items[0]
        v = self.expr(it.context_expr, env)
        if isinstance(v, Manager):
            old = self.on_yield

            def run(value):
                self.on_yield = old
                try:
                    if it.optional_vars is not None:
                        self.store(it.optional_vars, value, env)
                    self.with_items(items[1:], body, env)
                finally:
                    self.on_yield = run
            self.on_yield = run
            try:
                self.call_func(v.fn, v.args, v.kw)
            finally:
                self.on_yield = old
            return
        if isinstance(v, Stack):
            if it.optional_vars is not None:
                self.store(it.optional_vars, v, env)
            try:
                self.with_items(items[1:], body, env)
            finally:
                for f, a, k in reversed(v.callbacks):
                    self.call(f, a, k)
            return
        raise Stop('with %s' % ast.unparse(it.context_expr))

    def s_FunctionDef(self, st, env):
        env.vars[st.name] = Func(st.name, st, env.mod, env)

    def s_Import(self, st, env):
        for a in st.names:
            env.vars[a.asname or a.name.split('.')[0]] = self.dotted(
                a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st, env):
        base = self.repo.abs_import(env.mod, st)
        for a in st.names:
            env.vars[a.asname or a.name] = self.dotted(base + '.' + a.name)

    def s_Global(self, st, env):
        env.globals |= set(st.names)

    def s_Nonlocal(self, st, env):
        env.nonlocals |= set(st.names)

    def s_Assert(self, st, env):
        try:
            if not self.truth(self.expr(st.test, env), False):
                raise Thrown('AssertionError')
        except Stop:
            pass

    # -- expressions ---------------------------------------------------------

    def test(self, node, env):
        return self.truth(self.expr(node, env))

    def truth(self, v, fork=True):
        if isinstance(v, (List, Dict)):
            return bool(v.items)
        if isinstance(v, (Func, Native, Manager, Thrown)):
            return True
        if isinstance(v, Obj):
            if v.cls is not None:
                return True
            if not fork:
                return True
            if id(v) not in self.known:
                self.known[id(v)] = (v, not self.choose())
            return self.known[id(v)][1]
        return bool(v)

    @property
    def known(self):
        return self.__dict__.setdefault('_known', {})

    def expr(self, n, env):
        self.steps += 1
        if self.steps > self.STEPS:
            raise Stop('too long')
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Stop(type(n).__name__)
        return m(n, env)

    def e_Constant(self, n, env):
        return n.value

    def e_Name(self, n, env):
        return self.name(n.id, env)

    def e_Attribute(self, n, env):
        v = self.expr(n.value, env)
        r = self.get(v, n.attr)
        return self.bound(r, v)

    def bound(self, r, v):
        if not isinstance(r, Func) or r.data != 'method' or r.bound is not \
                None or not isinstance(v, Obj):
            return r
        decs = decorator_names(r.node)
        if 'staticmethod' in decs or v.cls is not None and \
                'classmethod' not in decs:
            return r
        f = Func(r.name, r.node, r.mod, r.env, r.owner, v)
        f.data = 'method'
        if 'property' in decs:
            return self.call_func(f, [], {})
        return f

    def e_Tuple(self, n, env):
        return tuple(self.elements(n.elts, env))

    def e_List(self, n, env):
        return List(self.elements(n.elts, env))

    def e_Set(self, n, env):
        return Set(self.elements(n.elts, env))

    def e_Dict(self, n, env):
        d = Dict()
        for k, v in zip(n.keys, n.values):
            if k is None:
                x = self.expr(v, env)
                if not isinstance(x, Dict):
                    raise Stop('**')
                d.items.update(x.items)
            else:
                d.items[self.key(self.expr(k, env))] = self.expr(v, env)
        return d

    def elements(self, elts, env):
        res = []
        for x in elts:
            if isinstance(x, ast.Starred):
                res += self.iterate(self.expr(x.value, env))
            else:
                res.append(self.expr(x, env))
        return res

    def index(self, n, env):
        if isinstance(n, ast.Slice):
            return slice(*[None if x is None else self.expr(x, env)
                           for x in (n.lower, n.upper, n.step)])
        return self.expr(n, env)

    def e_Subscript(self, n, env):
        o, k = self.expr(n.value, env), self.index(n.slice, env)
        return self.getitem(o, k)

    def getitem(self, o, k):
        if isinstance(o, Dict):
            if k in o.items:
                return o.items[k]
            if o.default is not None:
                o.items[k] = self.call(o.default, [], {})
                return o.items[k]
            raise Thrown('KeyError')
        if isinstance(o, List) or isinstance(o, (tuple, str)):
            items = o.items if isinstance(o, List) else o
            if not isinstance(k, (int, slice)):
                raise Stop('index')
            try:
                r = items[k]
            except IndexError:
                raise Thrown('IndexError')
            return List(r) if isinstance(k, slice) and isinstance(
                o, List) else r
        if isinstance(o, Obj):
            return self.get(o, '[%r]' % (k,))
        raise Stop('item')

    def iterate(self, v, want=None):
        if isinstance(v, Dict):
            return list(v.items)
        if isinstance(v, List):
            return list(v.items)
        if isinstance(v, (tuple, str)):
            return list(v)
        if isinstance(v, Obj) and not isinstance(v, Func):
            if want is not None:
                return [self.get(v, '[%d]' % i) for i in range(want)]
            n = 1 if id(v) in self.known else 1 - self.choose()
            return [self.get(v, '[each]')] if n else []
        raise Stop('iterates over %r' % (v,))

    def e_IfExp(self, n, env):
        return self.expr(n.body if self.test(n.test, env) else n.orelse, env)

    def e_BoolOp(self, n, env):
        v = None
        for x in n.values:
            v = self.expr(x, env)
            if self.truth(v) == isinstance(n.op, ast.Or):
                return v
        return v

    def e_UnaryOp(self, n, env):
        v = self.expr(n.operand, env)
        if isinstance(n.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)):
            return -v if isinstance(n.op, ast.USub) else +v
        return self.tok('unary')

    def e_Compare(self, n, env):
        left = self.expr(n.left, env)
        for op, c in zip(n.ops, n.comparators):
            right = self.expr(c, env)
            if not self.compare(op, left, right):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.identical(a, b)
            return r == isinstance(op, ast.Is)
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (List, Dict)):
                r = any(self.same(a, x) for x in b.items)
            elif isinstance(b, (tuple, str)):
                r = any(self.same(a, x) for x in b) if isinstance(
                    b, tuple) else (isinstance(a, str) and a in b)
            else:
                r = self.truth(self.tok('in'))
            return r == isinstance(op, ast.In)
        if isinstance(op, (ast.Eq, ast.NotEq)):
            return self.same(a, b) == isinstance(op, ast.Eq)
        if all(isinstance(x, (int, float)) for x in (a, b)):
            return {ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b,
                    ast.GtE: a >= b}[type(op)]
        return self.truth(self.tok('compare'))

    @staticmethod
    def identical(a, b):
        if isinstance(a, (Obj, List, Dict)) or isinstance(
                b, (Obj, List, Dict)):
            return a is b
        return type(a) is type(b) and a == b

    def same(self, a, b):
        if isinstance(a, (List, Dict)) and isinstance(b, (List, Dict)):
            return snapshot(a) == snapshot(b)
        opaque = [x for x in (a, b) if isinstance(x, Obj) and x.cls is None
                  and not isinstance(x, Func)]
        if opaque and a is not b and not all(
                x.data == 'token' for x in opaque):
            return self.truth(self.tok('equal'))
        return self.identical(a, b)

    def e_BinOp(self, n, env):
        return self.binary(n.op, self.expr(n.left, env),
                           self.expr(n.right, env))

    def binary(self, op, a, b):
        if isinstance(op, ast.Add):
            if type(a) is type(b) and isinstance(a, (tuple, str, int)):
                return a + b
            if isinstance(a, List) and isinstance(b, List):
                return List(a.items + b.items)
        if isinstance(op, ast.Mult) and isinstance(a, List) and type(b) is int:
            return List(a.items * b)
        if isinstance(op, ast.Mod) and isinstance(a, str):
            vs = b if isinstance(b, tuple) else (b,)
            if all(isinstance(x, (str, int)) for x in vs):
                try:
                    return a % b
                except (TypeError, ValueError):
                    raise Thrown('TypeError')
            return Obj('text')
        if type(a) is int and type(b) is int:
            if isinstance(op, ast.Sub):
                return a - b
            if isinstance(op, ast.Mult):
                return a * b
        return self.tok('binary')

    def e_JoinedStr(self, n, env):
        res = ''
        for v in n.values:
            x = self.expr(v.value if isinstance(v, ast.FormattedValue)
                          else v, env)
            if not isinstance(x, (str, int)):
                return Obj('text')
            res += str(x)
        return res

    def e_Lambda(self, n, env):
        return Func('lambda', n, env.mod, env)

    def comp(self, n, env, emit):
        e = Env(env.mod, env)

        def rec(i):
            if i == len(n.generators):
                emit(e)
                return
            g = n.generators[i]
            for v in self.iterate(self.expr(g.iter, e)):
                self.store(g.target, v, e)
                if all(self.test(c, e) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, n, env):
        res = List()
        self.comp(n, env, lambda e: res.items.append(self.expr(n.elt, e)))
        return res

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, env):
        return Set(self.e_ListComp(n, env).items)

    def e_DictComp(self, n, env):
        res = Dict()

        def emit(e):
            k = self.key(self.expr(n.key, e))
            res.items[k] = self.expr(n.value, e)
        self.comp(n, env, emit)
        return res

    def e_Yield(self, n, env):
        v = self.expr(n.value, env) if n.value is not None else None
        if self.on_yield is None:
            raise Stop('yield')
        return self.on_yield(v)

    def e_YieldFrom(self, n, env):
        raise Stop('yield from')

    def e_Starred(self, n, env):
        raise Stop('star')

    def e_Call(self, n, env):
        if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
                not n.args:
            e = env
            while e is not None and e.fn is None:
                e = e.up
            if e is None or e.fn.owner is None:
                raise Stop('super')
            return SuperOf(e.fn.owner, e.fn.bound or e.vars.get(
                e.fn.node.args.args[0].arg))
        f = self.expr(n.func, env)
        args = self.elements(n.args, env)
        kw = {}
        for k in n.keywords:
            v = self.expr(k.value, env)
            if k.arg is not None:
                kw[k.arg] = v
            elif isinstance(v, Dict):   # opaque keys are not known
                kw.update({x: y for x, y in v.items.items()
                           if isinstance(x, str)})
            elif isinstance(v, Obj):
                pass
            else:
                raise Stop('**')
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Native):
            return f.fn(self, args, kw)
        if isinstance(f, Func):
            decs = decorator_names(f.node) if isinstance(
                f.node, ast.FunctionDef) else []
            if any(d.rpartition('.')[2] == 'contextmanager' for d in decs):
                return Manager(f, args, kw)
            return self.call_func(f, args, kw)
        if isinstance(f, Obj):
            n = f.name.rpartition('.')[2]
            if n in BUILTIN and self.objects.get(f.name) is f:
                return BUILTIN[n](self, args, kw)
            if f.data == 'exc' or f.name in EXC:
                return Thrown(n)
            return self.tok(f.name + '()')
        raise Stop('call of %r' % (f,))

    def call_func(self, f, args, kw):
        self.depth += 1
        if self.depth > 25:
            raise Stop('recursion')
        try:
            env = Env(f.mod, f.env)
            env.fn = f
            if f.bound is not None:
                args = [f.bound] + list(args)
            self.bind(f, env, args, dict(kw))
            if isinstance(f.node, ast.Lambda):
                return self.expr(f.node.body, env)
            try:
                self.block(f.node.body, env)
            except Return as r:
                return r.value
            return None
        finally:
            self.depth -= 1

    def bind(self, f, env, args, kw):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):],
                            a.defaults))
        args = list(args)
        for n in names:
            if args:
                if n in kw:
                    raise Thrown('TypeError')
                env.vars[n] = args.pop(0)
            elif n in kw:
                env.vars[n] = kw.pop(n)
            elif n in defaults:
                env.vars[n] = self.expr(defaults[n], Env(f.mod, f.env))
            else:
                raise Thrown('TypeError')
        if a.vararg:
            env.vars[a.vararg.arg] = tuple(args)
        elif args:
            raise Thrown('TypeError')
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg in kw:
                env.vars[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env.vars[x.arg] = self.expr(d, Env(f.mod, f.env))
            else:
                raise Thrown('TypeError')
        if a.kwarg:
            env.vars[a.kwarg.arg] = Dict(kw)
        elif kw:
            raise Thrown('TypeError')


class Env:
    def __init__(self, mod, up=None):
        self.mod, self.up, self.vars = mod, up, {}
        self.globals, self.nonlocals, self.exc, self.fn = set(), set(), None, \
            None

    def current(self):
        e = self
        while e is not None:
            if e.exc is not None:
                return e.exc
            e = e.up


class SuperOf:
    def __init__(self, owner, obj):
        self.owner, self.obj = owner, obj


class Stack:
    """contextlib.ExitStack"""

    def __init__(self):
        self.callbacks = []


# -- builtins ----------------------------------------------------------------

def b_list(m, a, k):
    return List(m.iterate(a[0]) if a else [])


def b_tuple(m, a, k):
    return tuple(m.iterate(a[0])) if a else ()


def b_set(m, a, k):
    return Set(m.iterate(a[0]) if a else [])


def b_dict(m, a, k):
    d = Dict()
    if a and isinstance(a[0], Dict):
        d.items.update(a[0].items)
    elif a:
        for x in m.iterate(a[0]):
            kk, v = m.iterate(x, 2)
            d.items[kk] = v
    d.items.update(k)
    return d


def b_defaultdict(m, a, k):
    d = Dict(default=a[0] if a else None)
    d.items.update(k)
    return d


def b_zip(m, a, k):
    return List(zip(*[m.iterate(x) for x in a]))


def b_enumerate(m, a, k):
    start = a[1] if len(a) > 1 else k.get('start', 0)
    return List(enumerate(m.iterate(a[0]), start))


def b_reversed(m, a, k):
    return List(reversed(m.iterate(a[0])))


def b_range(m, a, k):
    if not all(type(x) is int for x in a):
        raise Stop('range')
    return tuple(range(*a))


def b_len(m, a, k):
    if isinstance(a[0], (List, Dict)):
        return len(a[0].items)
    if isinstance(a[0], (tuple, str)):
        return len(a[0])
    raise Stop('len')


def b_getattr(m, a, k):
    if not isinstance(a[1], str):
        if len(a) > 2:
            return m.tok('getattr')
        raise Stop('getattr')
    v = m.find(a[0], a[1])
    if v is MISSING:
        if len(a) > 2:
            return a[2]
        raise Thrown('AttributeError')
    return v


def b_hasattr(m, a, k):
    if not isinstance(a[1], str):
        return m.truth(m.tok('hasattr'))
    return m.find(a[0], a[1]) is not MISSING


def b_setattr(m, a, k):
    if not isinstance(a[1], str):
        raise Stop('setattr')
    m.set(a[0], a[1], a[2])


def b_delattr(m, a, k):
    m.delete(a[0], a[1])


def b_isinstance(m, a, k):
    v, cls = a
    cs = cls if isinstance(cls, tuple) else (cls,)
    names = [x.name.rpartition('.')[2] for x in cs if isinstance(
        x, (Obj, Native))]
    if isinstance(v, Dict):
        return any(n in ('dict', 'OrderedDict', 'Mapping') for n in names)
    if isinstance(v, List):
        return any(n in ('list', 'Sequence') for n in names)
    if isinstance(v, Obj):
        return m.truth(m.tok('isinstance'))
    return type(v).__name__ in names


def b_issubclass(m, a, k):
    if isinstance(a[0], Obj) and a[0].cls is not None and isinstance(
            a[1], Obj) and a[1].cls is not None:
        return m.repo.is_sub(a[0].cls, a[1].cls.name)
    return True


def b_callable(m, a, k):
    return isinstance(a[0], (Func, Native)) or m.truth(m.tok('callable'))


def b_copy(m, a, k):
    v = a[0]
    if isinstance(v, Dict):
        return Dict(v.items, v.default)
    if isinstance(v, List):
        return type(v)(v.items)
    if isinstance(v, Obj):
        return m.tok('copy of %s' % v.name)
    return v


def b_partial(m, a, k):
    o = m.tok('partial')
    o.data = ('partial', tuple(a), tuple(sorted(k)))
    return o


def b_str(m, a, k):
    return str(a[0]) if a and isinstance(a[0], (str, int)) else Obj('text')


def b_bool(m, a, k):
    return m.truth(a[0]) if a else False


def b_any(m, a, k):
    return any(m.truth(x) for x in m.iterate(a[0]))


def b_all(m, a, k):
    return all(m.truth(x) for x in m.iterate(a[0]))


def b_map(m, a, k):
    return List([m.call(a[0], list(x), {}) for x in zip(
        *[m.iterate(y) for y in a[1:]])])


def b_print(m, a, k):
    return None


def b_import(m, a, k):
    if isinstance(a[0], str):
        return m.dotted(a[0])
    return m.tok('module')


def b_stack(m, a, k):
    return Stack()


def b_id(m, a, k):
    return id(a[0])


def b_sorted(m, a, k):
    return List(m.iterate(a[0]))


BUILTIN = {
    'list': b_list, 'tuple': b_tuple, 'set': b_set, 'frozenset': b_set,
    'dict': b_dict, 'OrderedDict': b_dict, 'defaultdict': b_defaultdict,
    'zip': b_zip, 'enumerate': b_enumerate, 'reversed': b_reversed,
    'range': b_range, 'len': b_len, 'getattr': b_getattr,
    'hasattr': b_hasattr, 'setattr': b_setattr, 'delattr': b_delattr,
    'isinstance': b_isinstance, 'issubclass': b_issubclass,
    'callable': b_callable, 'copy': b_copy, 'deepcopy': b_copy,
    'partial': b_partial, 'str': b_str, 'repr': b_str, 'bool': b_bool,
    'any': b_any, 'all': b_all, 'map': b_map, 'print': b_print,
    'import_module': b_import, 'ExitStack': b_stack, 'sorted': b_sorted,
    'iter': b_list, 'id': b_id,
}


def method_of(m, o, attr):
    """methods of the modelled builtin types"""
    def native(fn):
        return Native(attr, lambda mm, a, k: fn(*a, **k))
    if isinstance(o, SuperOf):
        found = m.repo.lookup(o.owner if o.obj is None or o.obj.cls is None
                              else o.obj.cls, attr, after=o.owner)
        if found and found[1] == 'method':
            f = Func(found[0].name + '.' + attr, found[2], found[0].module,
                     owner=found[0], bound=o.obj)
            f.data = 'method'
            return f
        return Native(attr, lambda mm, a, k: None)
    if isinstance(o, Dict):
        d = o.items

        def pop(k, *dflt):
            if k in d:
                return d.pop(k)
            if dflt:
                return dflt[0]
            raise Thrown('KeyError')

        def update(*a, **k):
            for x in a:
                d.update(b_dict(m, [x], {}).items)
            d.update(k)
        return {
            'items': native(lambda: List(list(d.items()))),
            'keys': native(lambda: List(d)),
            'values': native(lambda: List(list(d.values()))),
            'get': native(lambda k, x=None: d.get(k, x)),
            'copy': native(lambda: Dict(d, o.default)),
            'pop': native(pop), 'update': native(update),
            'setdefault': native(lambda k, x=None: d.setdefault(k, x)),
            'clear': native(lambda: d.clear()),
            'popitem': native(lambda: d.popitem()),
        }.get(attr)
    if isinstance(o, List):
        s = o.items

        def pop(*a):
            try:
                return s.pop(*a)
            except IndexError:
                raise Thrown('IndexError')

        def remove(x):
            if x not in s:
                raise Thrown('ValueError')
            s.remove(x)
        return {
            'append': native(lambda x: s.append(x)),
            'add': native(lambda x: x in s or s.append(x)),
            'extend': native(lambda x: s.extend(m.iterate(x))),
            'update': native(lambda x: s.extend(m.iterate(x))),
            'insert': native(lambda i, x: s.insert(i, x)),
            'pop': native(pop), 'remove': native(remove),
            'copy': native(lambda: type(o)(s)),
            'reverse': native(lambda: s.reverse()),
            'clear': native(lambda: s.clear()),
            'index': native(lambda x: s.index(x)),
        }.get(attr)
    if isinstance(o, str):
        def method(*a):
            if all(isinstance(x, (str, int)) for x in a):
                r = getattr(o, attr)(*a)
                return List(r) if isinstance(r, list) else r
            return Obj('text')
        return native(method) if hasattr(o, attr) else None
    if isinstance(o, Stack):
        return {
            'callback': native(lambda f, *a, **k: o.callbacks.append(
                (f, list(a), k))),
        }.get(attr)
    if isinstance(o, Thrown):
        return native(lambda *a: None)
    if isinstance(o, Native):
        if o.name in ('dict', 'OrderedDict') and attr == 'fromkeys':
            return native(lambda ks, v=None: Dict(
                [(k, v) for k in m.iterate(ks)]))
    return None


def runs(make, limit=3000):
    """call `make(choices)` -> Machine run for every sequence of choices"""
    todo = [[]]
    n = 0
    while todo:
        choices = todo.pop()
        n += 1
        if n > limit:
            raise Stop('too many paths')
        taken = make(choices)
        for i in range(len(choices), len(taken)):
            c, k = taken[i]
            for other in range(k):
                if other != c:
                    todo.append([x[0] for x in taken[:i]] + [other])
    return n
