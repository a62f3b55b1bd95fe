"""Ownership analysis: which objects may a function modify?

Every expression of a function is given sets of owners: those of the object
itself, of what it contains, of what that contains, and so on (the last level
stands for all further ones).  An owner is

* ``('p', name)``: the argument `name` itself,
* ``('in', name)``: something that can be reached from that argument,
* ``('global', name)``: an object of the module,
* ``('made', how)``: the result of `create`, which may be a cached instance.

An object with no owner is new.  Functions of the tree have summaries (owners
of what they return, arguments they modify) that are computed to a fixpoint.
The analysis follows the order of statements, joins at branches and goes
through loops twice.
"""
import ast

from .src import decorator_names, params_of

DEPTH = 4
E0 = frozenset()
NEW = (E0,) * DEPTH


def everything(v):
    return frozenset().union(*v)


def holding(*vals):
    """a new container of the given values"""
    return (E0,) + join(NEW, *vals)[:-1] if vals else NEW

MUTATORS = {
    'append': 'list', 'extend': 'list', 'insert': 'list', 'sort': 'list',
    'reverse': 'list', 'pop': 'any', 'popitem': 'dict', 'clear': 'any',
    'setdefault': 'dict', 'update': 'any', 'add': 'set', 'discard': 'set',
    'remove': 'any', 'difference_update': 'set',
    'intersection_update': 'set', 'symmetric_difference_update': 'set',
    'fill': 'array', 'itemset': 'array', 'put': 'array', 'resize': 'array',
    'setflags': 'array', 'partition': 'array', '__setitem__': 'any',
    '__delitem__': 'any', 'appendleft': 'list', 'popleft': 'list',
    'move_to_end': 'dict', '__iadd__': 'any', '__ior__': 'any',
    'col_swap': 'any', 'row_swap': 'any', 'row_del': 'any',
    'col_del': 'any', 'zip_row_op': 'any',
}
VIEWS = {'items', 'values', 'keys', '__iter__'}
SHARING = {'ravel', 'reshape', 'transpose', 'view', 'squeeze', 'swapaxes',
           'T', 'flat', 'real', 'imag'}      # of arrays
ITERS = {'zip', 'enumerate', 'reversed', 'iter', 'map', 'filter', 'chain',
         'islice', 'sorted', 'list', 'tuple', 'set', 'frozenset', 'dict',
         'OrderedDict', 'product', 'combinations', 'permutations',
         'from_iterable', 'defaultdict', 'groupby', 'copy', 'deque'}
SAME = {'asarray', 'asanyarray', 'atleast_2d', 'cast'}


def join(*vals):
    return tuple(frozenset().union(*[v[i] for v in vals])
                 for i in range(DEPTH))


def inner(v):
    """an element of it, or an attribute"""
    res = v[1:] + v[-1:]
    for o in v[0]:
        o = ('in', o[1]) if o[0] == 'p' else o
        res = tuple(x | {o} for x in res)
    return res


class Site:
    def __init__(self, node, what, owners, kind):
        self.node, self.what = node, what
        self.owners, self.kind = owners, kind   # kind: 'store' or 'content'


class Summary:
    def __init__(self):
        self.ret = NEW
        self.mutates = {}       # owner -> [(Site, text)]

    def key(self):
        return (self.ret, frozenset(self.mutates))


class Analysis:
    def __init__(self, repo):
        self.repo = repo
        self.funcs = []         # (mod, ci or None, node)
        self.by_method = {}
        self.classdefs = {}
        self.summaries = {}
        self.sites = {}         # id(node) -> [Site]
        self.info = {}
        self._memos = {}
        for mod in repo.modules.values():
            for name, fn in mod.functions.items():
                self.add(mod, None, fn)
        for d, ci in repo.classes.items():
            for name, fn in ci.methods.items():
                if id(fn) in self.info:
                    continue
                self.add(ci.module, ci, fn)
                self.by_method.setdefault(fn.name, []).append(fn)
        self.fixpoint()

    def add(self, mod, ci, fn):
        if id(fn) in self.info:
            return
        self.info[id(fn)] = (mod, ci, fn)
        self.funcs.append(fn)
        self.summaries[id(fn)] = Summary()

    # -- what kind of container an expression may be ------------------------

    def attr_defs(self):
        """attribute -> [(function, value)] of all stores on `self`"""
        if self._attr_defs is None:
            self._attr_defs = {}
            for fn in self.funcs:
                for st in ast.walk(fn):
                    if isinstance(st, (ast.Assign, ast.AnnAssign)):
                        ts = st.targets if isinstance(
                            st, ast.Assign) else [st.target]
                        for t in ts:
                            if isinstance(t, ast.Attribute) and isinstance(
                                    t.value, ast.Name) and \
                                    st.value is not None:
                                self._attr_defs.setdefault(
                                    t.attr, []).append((fn, st.value))
        return self._attr_defs

    _attr_defs = None

    def class_containers(self):
        """containers that belong to classes, not to their instances"""
        if self._containers is None:
            self._containers = set()
            for mod in self.repo.modules.values():
                for c in ast.walk(mod.tree):
                    if not isinstance(c, ast.ClassDef):
                        continue
                    for st in c.body:
                        if isinstance(st, ast.Assign) and isinstance(
                                st.value, (ast.Dict, ast.List, ast.Set,
                                           ast.Call)) and self.hint(
                                               st.value, None):
                            self._containers |= {
                                t.id for t in st.targets
                                if isinstance(t, ast.Name)}
            self._containers -= set(self.attr_defs())
        return self._containers

    _containers = None

    def array_attrs(self):
        """attributes that are used as arrays"""
        if self._arrays is None:
            self._arrays = {
                x.value.attr for fn in self.funcs for x in ast.walk(fn)
                if isinstance(x, ast.Attribute) and x.attr in (
                    'ravel', 'dtype', 'flatten') and
                isinstance(x.value, ast.Attribute)}
        return self._arrays

    _arrays = None

    def name_hints(self):
        """hints of attributes and of what methods return"""
        if self._hints is None:
            self._hints = {}
            for _ in range(6):
                self._memo = {}
                now = {}
                for a in set(self.attr_defs()) | set(self.by_method):
                    res = {'array'} if a in self.array_attrs() else set()
                    for f in self.by_method.get(a, ()):
                        if 'property' in decorator_names(f):
                            res |= self.returns_hint(f)
                    for f, v in self.attr_defs().get(a, ()):
                        res |= self.hint(v, f)
                    now['attr', a] = frozenset(res)
                for m, fs in self.by_method.items():
                    if len(fs) < 8:
                        now['call', m] = frozenset().union(
                            *[self.returns_hint(f) for f in fs])
                now['fn'] = {
                    '%s.%s' % (mod.name, name): frozenset(
                        self.returns_hint(f))
                    for mod in self.repo.modules.values()
                    for name, f in mod.functions.items()}
                if now == self._hints:
                    break
                self._hints = now
            self._memo = {}
        return self._hints

    _hints = None

    def hint(self, n, fn, seen=()):
        """subset of {'list', 'set', 'dict', 'array'}"""
        k = (id(n), id(fn))
        if not seen:
            self.name_hints()
            if k not in self._memo:
                self._memo[k] = self.hint(n, fn, (None,))
            return self._memo[k]
        if k in seen:
            return set()
        seen = seen + (k,)
        go = lambda x: self.hint(x, fn, seen)
        if isinstance(n, (ast.List, ast.ListComp)):
            return {'list'}
        if isinstance(n, (ast.Set, ast.SetComp)):
            return {'set'}
        if isinstance(n, (ast.Dict, ast.DictComp)):
            return {'dict'}
        if isinstance(n, ast.IfExp):
            return go(n.body) | go(n.orelse)
        if isinstance(n, ast.BoolOp):
            return set().union(*[go(x) for x in n.values])
        if isinstance(n, ast.BinOp):
            if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub,
                                 ast.BitXor)):
                return (go(n.left) | go(n.right)) & {'set', 'array'}
            return (go(n.left) | go(n.right)) & {'list', 'array'}
        if isinstance(n, ast.Subscript):
            return go(n.value) & {'list', 'array'} if isinstance(
                n.slice, ast.Slice) else set()
        if isinstance(n, ast.Name):
            res = set()
            for st in ast.walk(fn):
                if isinstance(st, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == n.id
                        for t in st.targets):
                    res |= go(st.value)
            return res
        if isinstance(n, ast.Attribute):
            return set(self._hints.get(('attr', n.attr), ()))
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name):
                mod = self.info[id(fn)][0] if id(fn) in self.info else None
                d = mod and self.repo.name_in(f.id, mod)
                last = last_of(d) or f.id
                got = {'list': 'list', 'sorted': 'list', 'set': 'set',
                       'dict': 'dict', 'OrderedDict': 'dict',
                       'defaultdict': 'dict', 'deque': 'list'}.get(last)
                if d and d.startswith('numpy.') and last != 'isscalar':
                    got = 'array'
                if got is None and d and 'fn' in self._hints:
                    return set(self._hints['fn'].get(d, ()))
                return {got} if got else set()
            if isinstance(f, ast.Attribute):
                if f.attr in ('union', 'difference', 'intersection',
                              'symmetric_difference'):
                    return go(f.value) & {'set'}
                if f.attr == 'copy':
                    return go(f.value)
                return set(self._hints.get(('call', f.attr), ()))
        return set()

    def returns_hint(self, f, seen=()):
        res = set()
        for st in ast.walk(f):
            if isinstance(st, ast.Return) and st.value is not None:
                res |= self.hint(st.value, f, seen)
        return res

    # -- classes whose instances are values ---------------------------------

    VALUES = ('Expression', 'HilbertSpace', 'SymbolicLabelBase',
              'IndexRangeBase', 'Eq')
    MUTABLE = ('Pattern', 'ProtoExpr', 'MatchDict', 'KeyTuple')

    def is_value(self, ci):
        if ci is None:
            return False
        names = {getattr(c, 'name', str(c)) for c in ci.mro} | {ci.name}
        if names & set(self.MUTABLE) or 'Printer' in ci.name:
            return False
        return bool(names & set(self.VALUES)) or any(
            self.value_names & {getattr(c, 'name', '')} for c in ci.mro) or \
            ci.name in self.value_names

    @property
    def value_names(self):
        if self._values is None:
            self._values = {
                ci.name for ci in self.repo.classes.values()
                if any(x in ci.methods for x in ('__hash__', '__eq__'))}
            # what they are derived from as well: mix-ins
            for d in list(self.repo.classes.values()):
                names = {getattr(c, 'name', str(c)) for c in d.mro}
                if names & set(self.VALUES) and not names & set(
                        self.MUTABLE):
                    self._values |= {n for n in names
                                     if n not in ('object', 'ABC')
                                     and '.' not in n}
        return self._values

    _values = None

    @staticmethod
    def self_name(fn):
        a = fn.args.posonlyargs + fn.args.args
        return a[0].arg if a else None

    def constructing(self, fn):
        """a constructor, or only called from constructors"""
        if fn.name in ('__init__', '__new__', '__init_subclass__',
                       '__attrs_post_init__'):
            return True
        return fn.name in self.only_constructors()

    def only_constructors(self):
        if self._only is None:
            callers = {}
            for fn in self.funcs:
                for x in ast.walk(fn):
                    if isinstance(x, ast.Attribute):
                        callers.setdefault(x.attr, set()).add(fn.name)
            init = {'__init__', '__new__'}
            for _ in range(3):
                init |= {n for n, c in callers.items()
                         if c <= init and n.startswith('_') and
                         n in self.by_method}
            self._only = init
        return self._only

    _only = None

    def is_memo(self, fn, attr):
        """is the attribute tested, computed from the object itself only, and
        not set by the constructor?"""
        k = (id(fn), attr)
        if k not in self._memos:
            self._memos[k] = self.tests_for(fn, attr) and \
                self.own_value(fn, attr) and self.unset(fn, attr)
        return self._memos[k]

    def unset(self, fn, attr):
        """do constructors only give the attribute constants?"""
        ci = self.info[id(fn)][1]
        names = {id(f) for c in (ci.mro if ci is not None else ())
                 for f in getattr(c, 'methods', {}).values()}
        for f, v in self.attr_defs().get(attr, ()):
            if id(f) in names and f.name in ('__init__', '__new__') and \
                    not isinstance(v, ast.Constant) and not (
                        isinstance(v, (ast.Dict, ast.List, ast.Set,
                                       ast.Tuple)) and not any(
                            True for _ in ast.iter_child_nodes(v)
                            if not isinstance(_, ast.expr_context))):
                return False
        return True

    def own_value(self, fn, attr):
        """are the stored values independent of other arguments?"""
        pos, var, kwonly, kwarg, _ = params_of(fn)
        other = set(pos[1:] + kwonly + [x for x in (var, kwarg) if x])
        if not other:
            return True
        todo = [st.value for st in ast.walk(fn)
                if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign))
                and st.value is not None and any(
                    isinstance(t, ast.Attribute) and t.attr == attr
                    for t in (st.targets if isinstance(st, ast.Assign)
                              else [st.target]))]
        seen = set()
        while todo:
            for x in ast.walk(todo.pop()):
                if isinstance(x, ast.Name) and x.id not in seen:
                    seen.add(x.id)
                    todo += [st.value for st in ast.walk(fn)
                             if isinstance(st, ast.Assign) and any(
                                 isinstance(t, ast.Name) and t.id == x.id
                                 for t in st.targets)]
        return not seen & other

    def tests_for(self, fn, attr):
        def mentions(n):
            return any(isinstance(x, ast.Attribute) and x.attr == attr or
                       isinstance(x, ast.Constant) and x.value == attr
                       for x in ast.walk(n))
        names = {t.id for st in ast.walk(fn) if isinstance(st, ast.Assign)
                 and mentions(st.value) for t in st.targets
                 if isinstance(t, ast.Name)}
        for x in ast.walk(fn):
            if isinstance(x, (ast.If, ast.IfExp, ast.While)):
                if mentions(x.test) or any(
                        isinstance(y, ast.Name) and y.id in names
                        for y in ast.walk(x.test)):
                    return True
            if isinstance(x, ast.Try) and any(mentions(y) for y in x.body):
                return True
        return False

    def allowed(self, fn, site):
        """a modification that is not one of the value"""
        ci = self.info[id(fn)][1]
        me = self.self_name(fn)
        own = {o for o in site.owners if o[1] == me}
        if ci is None or not own or own != set(
                o for o in site.owners if o[0] in ('p', 'in', 'made')):
            return False
        decs = decorator_names(fn)
        if 'classmethod' in decs or 'staticmethod' in decs or \
                fn.name in ('__new__', '__init_subclass__'):
            return True         # configuration of classes
        if not self.is_value(ci):
            return True
        if self.constructing(fn):
            return True
        attr = site.what.partition('store .')[2]
        return bool(attr) and own == {('p', me)} and self.is_memo(fn, attr)

    def fixpoint(self):
        for _ in range(8):
            changed = False
            for fn in self.funcs:
                mod, ci, _ = self.info[id(fn)]
                w = Walk(self, mod, ci, fn)
                s = w.run()
                if s.key() != self.summaries[id(fn)].key():
                    changed = True
                self.summaries[id(fn)] = s
                self.sites[id(fn)] = w.sites
            if not changed:
                break


class Walk:
    def __init__(self, an, mod, ci, fn):
        self.an, self.mod, self.ci, self.fn = an, mod, ci, fn
        self.repo = an.repo
        self.sites = []
        self.ret = NEW
        self.local = set()

    # -- the function --------------------------------------------------------

    def run(self):
        env = {}
        pos, var, kwonly, kwarg, _ = params_of(self.fn)
        for p in pos + kwonly:
            env[p] = (frozenset([('p', p)]),) + (
                frozenset([('in', p)]),) * (DEPTH - 1)
        for p in (var, kwarg):
            if p:
                env[p] = holding((frozenset([('in', p)]),) * DEPTH)
        self.block(self.fn.body, env)
        s = Summary()
        s.ret = self.ret
        for site in self.sites:
            if self.an.allowed(self.fn, site):
                continue
            for o in site.owners:
                if o[0] in ('p', 'in'):
                    s.mutates.setdefault(o, []).append(site)
        return s

    def block(self, body, env):
        """False if the end is not reached"""
        for st in body:
            if not self.stmt(st, env):
                return False
        return True

    def branches(self, env, *bodies):
        """run alternatives on copies of env and join them"""
        ends = []
        for body in bodies:
            e = dict(env)
            if self.block(body, e):
                ends.append(e)
        if not ends:
            return False
        env.clear()
        env.update(ends[0])
        for e in ends[1:]:
            self.merge(env, e)
        return True

    def stmt(self, st, env):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is not None:
            return m(st, env) is not False
        for x in ast.iter_child_nodes(st):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return True

    def s_Return(self, st, env):
        if st.value is not None:
            self.ret = join(self.ret, self.ev(st.value, env))
        return False

    def s_Raise(self, st, env):
        for x in (st.exc, st.cause):
            if x is not None:
                self.ev(x, env)
        return False

    def s_Continue(self, st, env):
        return True     # joined with the rest: more owners, never fewer

    def s_Break(self, st, env):
        return True

    def s_If(self, st, env):
        self.ev(st.test, env)
        return self.branches(env, st.body, st.orelse)

    def s_For(self, st, env):
        it = self.ev(st.iter, env)
        for _ in range(2):
            e = dict(env)
            self.bind(st.target, inner(it), e)
            self.block(st.body, e)
            self.merge(env, e)
        self.block(st.orelse, env)

    s_AsyncFor = s_For

    def s_While(self, st, env):
        for _ in range(2):
            self.ev(st.test, env)
            e = dict(env)
            self.block(st.body, e)
            self.merge(env, e)
        self.block(st.orelse, env)

    @staticmethod
    def merge(env, e):
        for k in [k for k in env if '.' in k and k not in e]:
            del env[k]
        for k, v in e.items():
            if k in env:
                env[k] = join(env[k], v)
            elif '.' not in k:
                env[k] = v

    def s_Try(self, st, env):
        start = dict(env)
        e = dict(env)
        ok = self.block(st.body, e)
        mid = dict(start)
        self.merge(mid, e)
        ends = []
        if ok and self.block(st.orelse, e):
            ends.append(e)
        for h in st.handlers:
            eh = dict(mid)
            if h.name:
                eh[h.name] = NEW
            if self.block(h.body, eh):
                ends.append(eh)
        env.clear()
        if not ends:
            self.block(st.finalbody, dict(mid))
            env.update(mid)
            return False
        env.update(ends[0])
        for x in ends[1:]:
            self.merge(env, x)
        return self.block(st.finalbody, env)

    s_TryStar = s_Try

    def s_With(self, st, env):
        for i in st.items:
            v = self.ev(i.context_expr, env)
            if i.optional_vars is not None:
                self.bind(i.optional_vars, v, env)
        return self.block(st.body, env)

    def s_FunctionDef(self, st, env):
        e = dict(env)
        pos, var, kwonly, kwarg, _ = params_of(st)
        for p in pos + kwonly + [x for x in (var, kwarg) if x]:
            e[p] = NEW
        ret, self.ret = self.ret, NEW
        self.block(st.body, e)
        self.ret = ret
        env[st.name] = NEW
        self.local.add(st.name)

    def s_ClassDef(self, st, env):
        env[st.name] = NEW

    def s_Assign(self, st, env):
        v = self.ev(st.value, env)
        for t in st.targets:
            self.bind(t, v, env, st)

    def s_AnnAssign(self, st, env):
        if st.value is not None:
            self.bind(st.target, self.ev(st.value, env), env, st)

    def s_AugAssign(self, st, env):
        v = self.ev(st.value, env)
        t = st.target
        op = type(st.op).__name__
        if isinstance(t, ast.Name):
            old = env.get(t.id, NEW)
            kinds = self.an.hint(t, self.fn)
            if op in ('BitOr', 'BitAnd', 'Sub', 'BitXor'):
                kinds = kinds & {'set', 'array', 'dict'}
            else:
                kinds = kinds & {'list', 'array'}
            if kinds:
                self.site(st, '%s is modified in place (%s)' % (
                    t.id, '/'.join(sorted(kinds))), old, 'content')
            env[t.id] = join(old, (E0,) + v[1:])
        else:
            self.ev(t.value, env)
            owner = self.ev(t.value, env)
            if isinstance(t, ast.Attribute):
                self.site(st, 'store .%s' % t.attr, owner, 'store')
            else:
                self.site(st, 'item', owner, 'content')

    def s_Delete(self, st, env):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.forget(t.id, env)
                env.pop(t.id, None)
            elif isinstance(t, (ast.Attribute, ast.Subscript)):
                owner = self.ev(t.value, env)
                self.site(st, 'del', owner, 'store' if isinstance(
                    t, ast.Attribute) else 'content')

    def bind(self, t, v, env, st=None):
        if isinstance(t, ast.Name):
            self.forget(t.id, env)
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                if isinstance(x, ast.Starred):
                    self.bind(x.value, holding(inner(v)), env)
                else:
                    self.bind(x, inner(v), env)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            owner = self.ev(t.value, env)
            self.site(st or t, 'store .%s' % t.attr, owner, 'store', t)
            self.into(t.value, v, env, 1)
            if isinstance(t.value, ast.Name):
                memo = t.value.id == self.an.self_name(self.fn) and \
                    self.an.is_memo(self.fn, t.attr)
                if not self.an.constructing(self.fn) and owner[0] and \
                        not memo:
                    v = join(v, inner(owner))
                env['%s.%s' % (t.value.id, t.attr)] = v
        elif isinstance(t, ast.Subscript):
            owner = self.ev(t.value, env)
            self.ev_index(t.slice, env)
            self.site(st or t, 'item', owner, 'content', t)
            self.into(t.value, v, env, 1)

    @staticmethod
    def forget(name, env):
        for k in [k for k in env if k.startswith(name + '.')]:
            del env[k]

    def into(self, node, v, env, level):
        """`v` becomes part of what `node` names, at the given level"""
        while isinstance(node, (ast.Attribute, ast.Subscript)):
            name = dotted_name(node)
            if name in env:
                self.deepen(name, v, env, level)
            node = node.value
            level += 1
        if isinstance(node, ast.Name) and node.id in env:
            self.deepen(node.id, v, env, level)

    @staticmethod
    def deepen(name, v, env, level):
        low = (E0,) * level + v
        last = everything(low[DEPTH - 1:])
        env[name] = join(env[name], low[:DEPTH - 1] + (last,))

    def site(self, node, what, owner, kind, target=None):
        if owner[0]:
            s = Site(node, what, owner[0], kind)
            s.target = target
            self.sites.append(s)

    # -- expressions ---------------------------------------------------------

    def ev_index(self, n, env):
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                self.ev(x, env)

    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is not None:
            return m(n, env)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return NEW

    def e_Name(self, n, env):
        if n.id in env:
            return env[n.id]
        d = self.repo.name_in(n.id, self.mod)
        if d:
            return (frozenset([('global', n.id)]),) * DEPTH
        return NEW

    def e_Attribute(self, n, env):
        name = dotted_name(n)
        if name in env:
            return env[name]
        v = self.ev(n.value, env)
        if n.attr in self.an.class_containers() and self.of_self(n.value):
            return ((frozenset([('class', n.attr)]),) * DEPTH)
        props = [f for f in self.an.by_method.get(n.attr, ())
                 if 'property' in decorator_names(f)]
        if n.attr in SHARING and not props:
            return join(v, inner(v))
        if props:
            return join(*[self.applied(f, [v], {}, None) for f in props])
        return inner(v)

    def of_self(self, n):
        me = self.an.self_name(self.fn)
        if self.ci is None or 'classmethod' in decorator_names(self.fn) or \
                self.fn.name in ('__new__', '__init_subclass__'):
            return False
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id == 'type' and n.args:
            n = n.args[0]
        elif isinstance(n, ast.Attribute) and n.attr == '__class__':
            n = n.value
        return isinstance(n, ast.Name) and n.id == me

    def e_Subscript(self, n, env):
        v = self.ev(n.value, env)
        self.ev_index(n.slice, env)
        if isinstance(n.slice, ast.Slice):
            return holding(inner(v))
        return inner(v)

    def seq(self, n, env):
        return holding(*[
            inner(self.ev(x.value, env)) if isinstance(x, ast.Starred)
            else self.ev(x, env) for x in n.elts])

    e_Tuple = e_List = e_Set = seq

    def e_Dict(self, n, env):
        res = []
        for k, x in zip(n.keys, n.values):
            v = self.ev(x, env)
            if k is not None:
                self.ev(k, env)
            res.append(inner(v) if k is None else v)
        return holding(*res)

    def e_IfExp(self, n, env):
        self.ev(n.test, env)
        return join(self.ev(n.body, env), self.ev(n.orelse, env))

    def e_BoolOp(self, n, env):
        return join(*[self.ev(x, env) for x in n.values])

    def e_NamedExpr(self, n, env):
        v = self.ev(n.value, env)
        env[n.target.id] = v
        return v

    def e_Starred(self, n, env):
        return self.ev(n.value, env)

    def e_BinOp(self, n, env):
        a, b = self.ev(n.left, env), self.ev(n.right, env)
        return (E0,) + join(a, b)[1:]

    def comp(self, n, env):
        e = dict(env)
        for g in n.generators:
            self.bind(g.target, inner(self.ev(g.iter, e)), e)
            for c in g.ifs:
                self.ev(c, e)
        if isinstance(n, ast.DictComp):
            self.ev(n.key, e)
            v = self.ev(n.value, e)
        else:
            v = self.ev(n.elt, e)
        return holding(v)

    e_ListComp = e_SetComp = e_DictComp = e_GeneratorExp = comp

    def e_Lambda(self, n, env):
        e = dict(env)
        for p in [a.arg for a in n.args.args]:
            e[p] = NEW
        self.ev(n.body, e)
        return NEW

    def e_Yield(self, n, env):
        if n.value is not None:
            v = self.ev(n.value, env)
            self.ret = join(self.ret, holding(v))
        return NEW

    def e_YieldFrom(self, n, env):
        v = self.ev(n.value, env)
        self.ret = join(self.ret, holding(inner(v)))
        return NEW

    def e_Call(self, n, env):
        args, kw, star = [], {}, []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = inner(self.ev(a.value, env))
                star.append(v)
            else:
                args.append(self.ev(a, env))
        for k in n.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                star.append(inner(v))
            else:
                kw[k.arg] = v
        every = args + list(kw.values()) + star
        extra = join(*star) if star else None
        f = n.func
        if isinstance(f, ast.Name):
            return self.call_name(n, f.id, args, kw, extra, every, env)
        if isinstance(f, ast.Attribute):
            return self.call_attr(n, f, args, kw, extra, every, env)
        self.ev(f, env)
        return NEW

    def call_name(self, n, name, args, kw, extra, every, env):
        if name in ('setattr', 'delattr') and args:
            self.site(n, 'setattr', args[0], 'store')
            return NEW
        if name == 'getattr' and args:
            return join(*[inner(a) for a in args[:1] + args[2:]])
        if name in ('next', 'min', 'max', 'reduce') and args:
            return join(*[inner(a) for a in args])
        d = None if name in env or name in self.local else \
            self.repo.name_in(name, self.mod)
        last = d.rpartition('.')[2] if d else name
        fn = self.function(d)
        if fn is not None:
            return self.applied(fn, args, kw, extra, n)
        if last in SAME and args:
            return args[0]
        if last in ITERS:
            return self.iterated(last, every)
        if last == 'deepcopy':
            return NEW
        return holding(*every) if self.is_class(d) else NEW

    @staticmethod
    def iterated(name, vals):
        elems = holding(*[inner(v) for v in vals])
        if name in ('zip', 'enumerate', 'product', 'combinations', 'groupby',
                    'permutations'):
            return join(holding(elems))
        if name in ('map', 'defaultdict'):
            return join(elems, *[holding(v) for v in vals])
        return elems

    def is_class(self, d):
        return bool(d) and self.repo.resolve(d) in self.repo.classes

    def function(self, d):
        if not d:
            return None
        d = self.repo.resolve(d)
        head, _, name = d.rpartition('.')
        mod = self.repo.modules.get(head)
        fn = mod.functions.get(name) if mod is not None else None
        return fn if fn is not None and id(fn) in self.an.info else None

    def call_attr(self, n, f, args, kw, extra, every, env):
        name = f.attr
        d = self.repo.dotted(f, self.mod) if not (
            isinstance(f.value, ast.Name) and f.value.id in env) else None
        fn = self.function(d) if d else None
        if fn is not None:
            return self.applied(fn, args, kw, extra, n)
        is_super = isinstance(f.value, ast.Call) and isinstance(
            f.value.func, ast.Name) and f.value.func.id == 'super'
        if is_super and self.fn.args.args:
            recv = env.get(self.fn.args.args[0].arg, NEW)
        else:
            recv = self.ev(f.value, env)
        if name in ('create', '_create', 'create_'):
            return (frozenset([('made', 'create')]),) * DEPTH
        methods = [m for m in self.an.by_method.get(name, ())
                   if 'property' not in decorator_names(m)]
        if name in MUTATORS and (not methods or name != 'remove' or
                                 self.an.hint(f.value, self.fn)):
            self.site(n, name, recv, 'content')
            if every:
                v = join(*every)
                self.into(f.value, inner(v) if name in (
                    'extend', 'update', '__iadd__', 'difference_update',
                    'intersection_update') else v, env, 1)
            if name in ('pop', 'setdefault', 'popitem', 'popleft'):
                return join(inner(recv), *every)
            return NEW
        if last_of(d) in ('copy', 'deepcopy') and args:
            return holding(inner(args[0]))
        if name == 'copy':
            return holding(inner(recv))
        if name == 'get':
            return join(inner(recv), *every)
        if name == 'items':
            return holding(holding(inner(recv)))
        if name in VIEWS:
            return holding(inner(recv))
        if name in SHARING and not methods:
            return join(recv, inner(recv))
        if name in SAME and args:
            return args[0]
        if name in ITERS and every:
            return self.iterated(name, every)
        if methods and len(methods) < 40:
            return join(*[self.applied(m, self.with_self(m, recv, args), kw,
                                       extra, n) for m in methods])
        return NEW

    def with_self(self, m, recv, args):
        decs = decorator_names(m)
        if 'staticmethod' in decs:
            return args
        if 'classmethod' in decs:
            return [NEW] + args
        return [recv] + args

    def applied(self, fn, args, kw, extra, call=None):
        """owners of the result of a call; modified arguments are reported"""
        s = self.an.summaries[id(fn)]
        pos, var, kwonly, kwarg, _ = params_of(fn)
        given = {}
        for p, v in zip(pos, args):
            given[p] = v
        rest = args[len(pos):]
        if var:
            vs = rest + ([extra] if extra else [])
            given[var] = holding(*vs)
        for k, v in kw.items():
            if k in pos or k in kwonly:
                given[k] = v
            elif kwarg:
                given[kwarg] = join(given.get(kwarg, NEW), holding(v))
        if extra:
            for p in pos + kwonly:
                if p not in given:
                    given[p] = extra
            if kwarg:
                given[kwarg] = join(given.get(kwarg, NEW), holding(extra))

        def translate(owners):
            res = set()
            for o in owners:
                if o[0] == 'p':
                    res |= given.get(o[1], NEW)[0]
                elif o[0] == 'in':
                    v = given.get(o[1])
                    if v is not None:
                        res |= everything(inner(v))
                else:
                    res.add(o)
            return frozenset(res)
        if call is not None and not self.initialises(fn):
            for o, sites in s.mutates.items():
                owners = translate([o])
                if owners:
                    kinds = {x.kind for x in sites}
                    site = Site(call, '%s, which modifies its argument %s'
                                % (fn.name, o[1]), owners,
                                'store' if kinds == {'store'} else
                                'content')
                    site.target = None
                    site.via = fn
                    site.owner = o
                    site.inner = sites
                    self.sites.append(site)
        return tuple(translate(x) for x in s.ret)

    @staticmethod
    def initialises(fn):
        return fn.name in ('__init__', '__new__', '__init_subclass__')


def dotted_name(n):
    return '%s.%s' % (n.value.id, n.attr) if isinstance(
        n, ast.Attribute) and isinstance(n.value, ast.Name) else ''


def last_of(d):
    return d.rpartition('.')[2] if d else ''
