"""C04: the cache of expressions"""
import ast
from itertools import product

from ..core import where
from ..heap import (
    MISSING, Dict, Func, List, Machine, Native, Obj, Stop, Thrown, runs,
    snapshot)
from ..src import params_of, decorator_names

BASE = 'qnet.algebra.core.abstract_algebra.Expression'


def _freeze(v):
    if isinstance(v, Dict):
        return ('dict', tuple(sorted((k, _freeze(x))
                                     for k, x in v.items.items())))
    if isinstance(v, dict):
        return _freeze(Dict(v))
    if isinstance(v, List):
        v = tuple(v.items)
    if isinstance(v, tuple):
        return ('tuple', tuple(_freeze(x) for x in v))
    if isinstance(v, Obj):
        return v.name
    return repr(v)


class Key:
    """the key of a class, arguments and keyword arguments"""

    def __init__(self, *k):
        self.k = k

    def __eq__(self, other):
        return isinstance(other, Key) and self.k == other.k

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return 'key%r' % (self.k,)


class Cache(Dict):
    """records the keys that are looked up"""


def token(name, **attrs):
    o = Obj(name)
    o.data = 'token'
    o.made = True
    o.attrs.update(attrs)
    return o


class Scene:
    """one way of creating an expression of a class T

    steps: what the simplifications do: 'pass' (other arguments), 'object'
    (an expression), 'number' (no expression), 'triple' (an object that
    happens to be iterable), or an error
    """

    def __init__(self, caching, idempotent, steps, final, hit, key2_known,
                 kwargs):
        self.caching, self.idempotent = caching, idempotent
        self.steps, self.final, self.hit = steps, final, hit
        self.key2_known, self.kwargs = key2_known, kwargs

    def __str__(self):
        return 'caching %s, %s%s%s%s' % (
            'on' if self.caching else 'off',
            'idempotent, ' if self.idempotent else '',
            'simplifications [%s]' % ', '.join(self.steps),
            '' if self.final == 'ok' else ', instantiation fails',
            ', in the cache' if self.hit else '')


class Run(Machine):
    def __init__(self, repo, choices, scene):
        Machine.__init__(self, repo, choices)
        self.scene = scene
        self.t = Obj('T', base=self.dotted(BASE))
        self.t.data = 'token'
        self.trace = []
        self.msgs = []
        self.build()

    def key_of(self, cls, args, kwargs):
        return Key(cls.name, _freeze(tuple(args)), _freeze(kwargs))

    def build(self):
        s, t = self.scene, self.t
        self.args = (token('a0'), token('b0'))
        self.kw = {'k': token('c0')} if s.kwargs else {}
        t.attrs['_get_instance_key'] = Native(
            'key', lambda m, a, k: self.call_key(a, k))
        t.attrs['instance_caching'] = s.caching
        t.attrs['_create_idempotent'] = s.idempotent
        t.attrs['__name__'] = 'T'
        self.ckey = self.key_of(t, self.args, self.kw)
        self.old = token('old', _instance_key=Key('old'))
        self.other = token('other')
        cache = Cache([(Key('unrelated'), self.other)])
        if s.hit:
            cache.items[self.ckey] = self.old
        # what the simplifications give
        args, kw = self.args, dict(self.kw)
        self.stage = [(args, kw)]
        self.result = None
        for i, step in enumerate(s.steps):
            if step == 'pass':
                args = (token('a%d' % (i + 1)), ) + args[1:]
                kw = {k: token('c%d' % (i + 1)) for k in kw}
                self.stage.append((args, kw))
            elif self.result is None:
                self.result = self.make(step, i)
        if self.result is None and not fails(s.steps):
            self.result = token('instance', _instance_key=self.key_of(
                t, args, kw))
        if s.key2_known and self.result is not None and \
                self.result.attrs.get('_instance_key', self.ckey) != \
                self.ckey:
            cache.items[self.result.attrs['_instance_key']] = token('equal')
        t.attrs['_instances'] = self.cache = cache
        self.before = dict(cache.items)
        t.attrs['simplifications'] = List(
            [Native('simplification %d' % i, self.step(i))
             for i in range(len(s.steps))])

    def make(self, step, i):
        if step in RAISE:
            return None
        o = token('%s%d' % (step, i))
        if step == 'number':
            o.missing.add('_instance_key')
        else:
            o.attrs['_instance_key'] = Key('other class', o.name)
        o.step = step
        return o

    def call_key(self, args, kw):
        args = list(args)
        a = args.pop(0) if args else kw.get('args')
        k = args.pop(0) if args else kw.get('kwargs')
        if a is None or k is None:
            raise Stop('_get_instance_key(...)')
        if isinstance(a, List):
            a = tuple(a.items)
        return self.key_of(self.t, a, k)

    def step(self, i):
        kind = self.scene.steps[i]

        def call(m, a, k):
            self.trace.append(i)
            if len(a) != 3 or k:
                raise Stop('call of a simplification')
            n = len([x for x in self.scene.steps[:i] if x == 'pass'])
            args, kw = self.stage[n]
            if a[0] is not self.t:
                self.msgs.append('simplification %d is not given the class'
                                 % (i + 1))
            if _freeze(a[1]) != _freeze(args) or \
                    _freeze(a[2]) != _freeze(kw):
                self.msgs.append(
                    'simplification %d is not given what the one before it '
                    'returned' % (i + 1))
            if kind in RAISE:
                raise Thrown(kind)
            if kind == 'pass':
                args, kw = self.stage[n + 1]
                return (args, Dict(kw))
            return self.result
        return call

    def call(self, f, args, kw):
        if f is self.t:
            self.trace.append('new')
            a, k = self.stage[-1]
            if _freeze(tuple(args)) != _freeze(a) or \
                    _freeze(kw) != _freeze(k):
                self.msgs.append('the instance is not made from the '
                                 'simplified arguments')
            if self.scene.final != 'ok':
                raise Thrown(self.scene.final)
            return self.result
        return Machine.call(self, f, args, kw)

    def iterate(self, v, want=None):
        step = getattr(v, 'step', None)
        if step == 'triple':
            return [token('x'), token('y'), token('z')]
        if isinstance(v, Obj) and v.data == 'token':
            raise Thrown('TypeError')
        return Machine.iterate(self, v, want)

    def judge(self):
        s = self.scene
        f = self.bound(self.find(self.t, 'create'), self.t)
        got = raised = None
        try:
            got = self.call(f, list(self.args), dict(self.kw))
        except Thrown as e:
            raised = e.name
        cache = self.t.attrs.get('_instances')
        now = cache.items if isinstance(cache, Dict) else None
        hit = s.hit and s.caching
        want = self.old if hit else self.result
        if s.final != 'ok' and not hit and \
                all(x == 'pass' for x in s.steps):
            want = None
        if hit and self.trace:
            # as good as the stored instance, if it does the same
            want = got if got is self.result and got is not None else want
        if want is None:
            if raised is None:
                self.msgs.append('an error is swallowed')
        elif raised is not None:
            self.msgs.append('raises %s' % raised)
        elif got is not want:
            self.msgs.append('the result is not %s' % (
                'the stored instance' if hit else
                'that of the last simplification' if want.name != 'instance'
                else 'the new instance'))
        if not hit and raised is None:
            order = [x for x in self.trace if x != 'new']
            n = next((i for i, x in enumerate(s.steps) if x != 'pass'),
                     len(s.steps) - 1)
            if order != list(range(n + 1)):
                self.msgs.append('the simplifications are not applied one '
                                 'after the other')
        if now is None:
            raise Stop('the cache')
        for k, v in self.before.items():
            if now.get(k) is not v and not (
                    now.get(k) is want and want is not None and
                    k in (self.ckey, want.attrs.get('_instance_key'))):
                self.msgs.append('another instance in the cache is replaced '
                                 'or removed')
        new = [k for k in now if k not in self.before]
        if new and not s.caching:
            self.msgs.append('something is stored although caching is off')
        elif new and want is None:
            self.msgs.append('something is stored although creating fails')
        else:
            for k in new:
                if k == self.ckey:
                    if now[k] is not want:
                        self.msgs.append('what is stored is not what is '
                                         'returned')
                elif k == want.attrs.get('_instance_key') and s.idempotent:
                    if now[k] is not want:
                        self.msgs.append('what is stored for the simplified '
                                         'arguments is not the result')
                else:
                    self.msgs.append(
                        'the result is stored for other arguments (%s)' % (
                            'the simplified ones, although creating is not '
                            'idempotent' if want.attrs.get('_instance_key')
                            == k else k))
        if self.t.attrs['instance_caching'] is not s.caching or \
                self.t.attrs['_create_idempotent'] is not s.idempotent:
            self.msgs.append('the configuration of the class is changed')
        return self.msgs


RAISE = ('SomeError', 'TypeError', 'ValueError', 'KeyError',
         'AttributeError')
STEPS = [(), ('pass',), ('pass', 'pass'), ('pass', 'object'),
         ('object', 'pass'), ('number',), ('pass', 'number'), ('triple',),
         ('object', 'object')] + [
             x for e in RAISE for x in ((e,), ('pass', e))]


def fails(steps):
    return any(x in RAISE for x in steps)


def scenes():
    for caching, idem, steps, hit, kwargs in product(
            (True, False), (True, False), STEPS, (False, True),
            (False, True)):
        for final in ('ok',) + RAISE:
            if final != 'ok' and (fails(steps) or hit or kwargs):
                continue
            for key2 in (False, True):
                if key2 and (hit or kwargs or final != 'ok'):
                    continue
                yield Scene(caching, idem, steps, final, hit, key2, kwargs)


def creation(repo, rep):
    rep.rule('create', 'on every path of the creation of an expression: a '
             'stored instance is returned as it is; otherwise the '
             'simplifications are applied in order, and nothing but the '
             'result is stored, for the arguments it was created from')
    ci = repo.classes.get(BASE)
    found = ci and repo.lookup(ci, 'create')
    if not found or found[1] != 'method':
        rep.undec('create', 'no method create')
        return
    w = where(repo, found[0].module, found[2])
    seen = set()
    for scene in scenes():
        def make(choices):
            m = Run(repo, choices, scene)
            for msg in m.judge():
                seen.add((msg, str(scene)))
            return m.taken
        try:
            n = runs(make)
        except Stop as e:
            rep.undec('create', str(e))
            continue
        rep.count('paths through the creation of expressions', n)
        rep.ok('create')
    done = set()
    for msg, text in sorted(seen):
        if msg not in done:
            done.add(msg)
            rep.violation('create', w, '%s (%s)' % (msg, text))


# -- keys --------------------------------------------------------------------

def overrides(repo, name):
    """classes (of expressions) that define `name` themselves"""
    base = repo.classes.get(BASE)
    for ci in [base] + sorted(repo.subclasses(base),
                              key=lambda c: c.name):
        found = repo.lookup(ci, name)
        if found and found[0] is ci and found[1] == 'method':
            yield ci, found[2]


CONTAINERS = {
    'OrderedDict': lambda v: isinstance(v, Dict) and getattr(
        v, 'ordered', False),
    'Mapping': lambda v: isinstance(v, Dict),
    'dict': lambda v: isinstance(v, Dict),
    'str': lambda v: isinstance(v, str), 'bytes': lambda v: False,
    'Sequence': lambda v: isinstance(v, (tuple, str)) or
    type(v) is List, 'tuple': lambda v: isinstance(v, tuple),
    'list': lambda v: type(v) is List,
    'set': lambda v: type(v).__name__ == 'Set',
    'frozenset': lambda v: False,
}
for _n in ('Container', 'Iterable', 'Sized', 'Collection'):
    CONTAINERS[_n] = lambda v: isinstance(v, (tuple, str, List, Dict))


def key_isinstance(m, a, k):
    v, cls = a
    cs = cls if isinstance(cls, tuple) else (cls,)
    names = [x.name.rpartition('.')[2] for x in cs
             if isinstance(x, (Obj, Native))]
    for n in names:
        if n in CONTAINERS:
            if CONTAINERS[n](v):
                return True
        elif not isinstance(v, Obj):
            raise Stop('isinstance(.., %s)' % n)
    return False


def key_sorted(m, a, k):
    items = m.iterate(a[0])
    if isinstance(a[0], Once):
        a[0].items[:] = []
    try:
        return List(sorted(items, key=_sortkey))
    except TypeError:
        raise Thrown('TypeError')


class Unorderable(Exception):
    pass


def _sortkey(v):
    return _Ord(v)


class _Ord:
    """order of the modelled values: text and numbers have one, tuples too"""

    def __init__(self, v):
        self.v = v

    def __lt__(self, other):
        a, b = self.v, other.v
        if isinstance(a, tuple) and isinstance(b, tuple):
            for x, y in zip(a, b):
                if x is y or type(x) is type(y) and not isinstance(
                        x, Obj) and x == y:
                    continue
                return _Ord(x) < _Ord(y)
            return len(a) < len(b)
        if isinstance(a, str) and isinstance(b, str) or isinstance(
                a, int) and isinstance(b, int):
            return a < b
        raise TypeError


class Once(List):
    """an iterator: it can be consumed once"""


def key_map(m, a, k):
    f = a[0]
    return Once([m.call(f, [x], {}) for x in m.iterate(a[1])])


class KeyRun(Machine):
    """values without choices; iterators are consumed by what iterates"""

    def name(self, n, env):
        v = Machine.name(self, n, env)
        if isinstance(v, Native) and n in (
                'isinstance', 'sorted', 'map', 'list', 'tuple', 'iter',
                'len', 'hash'):
            return Native(n, {
                'isinstance': key_isinstance, 'sorted': key_sorted,
                'map': key_map, 'len': v.fn, 'hash': v.fn,
                'list': lambda m, a, k: List(m.eat(a[0]) if a else ()),
                'tuple': lambda m, a, k: tuple(m.eat(a[0]) if a else ()),
                'iter': lambda m, a, k: Once(m.eat(a[0]))}[n])
        return v

    def e_GeneratorExp(self, n, env):
        r = Machine.e_GeneratorExp(self, n, env) if hasattr(
            Machine, 'e_GeneratorExp') else self.e_ListComp(n, env)
        return Once(self.iterate(r))

    def find(self, o, attr):
        # what is not modelled of an array does not tell arrays apart
        if isinstance(o, Obj) and o.name == 'array' and \
                attr not in o.attrs:
            return Array.common.setdefault(attr, token(attr))
        return Machine.find(self, o, attr)

    def eat(self, v):
        items = self.iterate(v)
        if isinstance(v, Once):
            v.items[:] = []
        return items

    def elements(self, elts, env):
        return Machine.elements(self, elts, env)


def ordered(*items):
    d = Dict(items)
    d.ordered = True
    return d


def flat(v):
    if isinstance(v, tuple):
        return tuple(flat(x) for x in v)
    if isinstance(v, (List, Dict)):
        raise Stop('the key is not hashable')
    return v


def key_cases():
    x, y = token('x'), token('y')
    D, L = (lambda *i: Dict(i)), (lambda *i: List(i))
    from ..heap import Set
    S = lambda *i: Set(list(i))
    # groups of equal arguments; different groups are different
    return [
        [((), {})],
        [((x,), {})], [((y,), {})],
        [((x, y), {})], [((y, x), {})], [((x, x), {})],
        [((x,), {'k': y}), ], [((x,), {'k': x})], [((y,), {'k': y})],
        [((x,), {'j': y})],
        [((x,), {'k': y, 'j': x}), ((x,), {'j': x, 'k': y})],
        [((x,), {'k': x, 'j': y}), ((x,), {'j': y, 'k': x})],
        [(('A', x), {})], [(('B', x), {})],
        [(((x, y),), {})], [(((y, x),), {})], [(((x,), y), {})],
        [((x, (y, (x,))), {})], [((x, (y, (y,))), {})],
        [((D(('a', x), ('b', y)),), {}), ((D(('b', y), ('a', x)),), {})],
        [((D(('a', y), ('b', x)),), {}), ((D(('b', x), ('a', y)),), {})],
        [((D(('a', x),),), {})], [((D(('a', y),),), {})],
        [((D(('a', D(('b', x))),),), {})], [((D(('a', D(('b', y))),),), {})],
        [((L(x, D(('q', y))),), {})], [((L(x, D(('q', x))),), {})],
        [((ordered(('o', x), ('p', y)),), {})],
        [((ordered(('p', y), ('o', x)),), {})],
        [((S('c', 'd'),), {}), ((S('d', 'c'),), {})],
        [((S('c', 'e'),), {})],
        [((S('c', 1),), {})], [((S('c', 2),), {})],
        [((D((1, x), ('s', y)),), {})], [((D((1, y), ('s', y)),), {})],
        [(('a', 'b'), {})], [(('b', 'a'), {})],
        [((('p', 'q'),), {})], [((('q', 'p'),), {})],
        [((L('r', 's'),), {})], [((L('s', 'r'),), {})],
        [(('abc',), {})], [(('abd',), {})],
        [((x,), {'k': (y, x)})], [((x,), {'k': (x, y)})],
    ]


def keys(repo, rep):
    rep.rule('key', 'the key of an expression differs for any other class, '
             'argument, keyword or part of a container, and only for that')
    ci = repo.classes[BASE]
    for owner, fn in overrides(repo, '_get_instance_key'):
        w = where(repo, owner.module, fn)
        key = 'key:%s' % owner.name
        try:
            if owner is ci:
                msgs = general_key(repo)
            else:
                msgs = matrix_key(repo, owner)
        except Stop as e:
            rep.undec(key, str(e))
            continue
        except Thrown as e:
            rep.undec(key, 'raises %s' % e.name)
            continue
        rep.decide(key, not msgs, w, '; '.join(msgs[:3]))


def run_key(repo, owner, cls, args, kwargs):
    m = KeyRun(repo)
    f = m.find(cls if cls.cls is None else cls, '_get_instance_key')
    if not isinstance(f, Func):
        raise Stop('_get_instance_key')
    decs = decorator_names(f.node)
    first = [] if 'staticmethod' in decs else [cls]
    f = Func(f.name, f.node, f.mod, f.env, f.owner)
    r = m.call_func(f, first + [tuple(args), Dict(kwargs)], {})
    if any(n > 1 for _, n in m.taken):
        raise Stop('a choice in the key')
    return flat(r)


def general_key(repo):
    m = Machine(repo)
    base = m.dotted(BASE)
    t, u = Obj('T', base=base), Obj('U', base=base)
    got = []
    msgs = []
    for i, group in enumerate(key_cases()):
        for args, kw in group:
            got.append((('T', i), run_key(repo, None, t, args, kw),
                        (args, kw)))
    x = token('x')
    got.append((('U', 1), run_key(repo, None, u, (x,), {}), ((x,), {})))
    got.append((('T', 'x'), run_key(repo, None, t, (x,), {}), ((x,), {})))
    for j, (g, k, what) in enumerate(got):
        for g2, k2, what2 in got[:j]:
            if g == g2 and k != k2:
                msgs.append('the key depends on the order of %s' % (
                    text(what),))
            if g != g2 and k == k2:
                msgs.append('%s and %s have the same key' % (
                    text(what, g), text(what2, g2)))
    return msgs


def text(what, g=None):
    args, kw = what
    return '%s(%s)' % (g[0] if g else '', ', '.join(
        [show(a) for a in args] + [
            '%s=%s' % (k, show(v)) for k, v in kw.items()]))


def show(v):
    if isinstance(v, tuple):
        return '(%s)' % ', '.join(map(show, v))
    if isinstance(v, Dict):
        return '{%s}' % ', '.join('%s: %s' % (show(a), show(b))
                                  for a, b in v.items.items())
    if type(v).__name__ == 'Set':
        return '{%s}' % ', '.join(map(show, v.items))
    if isinstance(v, List):
        return '[%s]' % ', '.join(map(show, v.items))
    return v.name if isinstance(v, Obj) else repr(v)


class Array:
    """entries and shape of a two-dimensional array"""
    common = {}

    def __init__(self, entries, shape):
        self.obj = token('array', shape=shape)
        flat_ = List(entries)
        for n in ('ravel', 'flatten'):
            self.obj.attrs[n] = Native(n, lambda m, a, k: flat_)
        self.obj.attrs['tolist'] = Native('tolist', lambda m, a, k: List([
            List(entries[i * shape[1]:(i + 1) * shape[1]])
            for i in range(shape[0])]))
        self.obj.attrs['ndim'] = 2
        self.obj.attrs['size'] = len(entries)
        self.obj.attrs['flat'] = flat_


def matrix_key(repo, owner):
    """the key of a class whose argument is an array"""
    m = Machine(repo)
    t = Obj('M', base=m.class_obj(owner))
    x, y, z, w = (token(n) for n in 'xyzw')
    got = []
    for i, (entries, shape) in enumerate([
            ((x, y, z, w), (2, 2)), ((x, y, z, w), (1, 4)),
            ((x, y, z, w), (4, 1)), ((x, z, y, w), (2, 2)),
            ((x, y, z, x), (2, 2)), ((x, x, z, w), (2, 2)),
            ((y, y, z, w), (2, 2)), ((x, y), (2, 1)), ((x, y), (1, 2)),
            ((x, y, y, w), (2, 2)), ((x,), (1, 1)), ((y,), (1, 1))]):
        k = run_key(repo, owner, t, (Array(entries, shape).obj,), {})
        if not isinstance(k, tuple):
            raise Stop('the key')
        if not any(v is t or v == 'M' for v in k):
            return ['the class is not part of the key']
        got.append((entries, shape, k))
    msgs = []
    for j, (e, s, k) in enumerate(got):
        for e2, s2, k2 in got[:j]:
            if k == k2:
                msgs.append('matrices %s of shape %s and %s of shape %s have '
                            'the same key' % (show(e), s, show(e2), s2))
    return msgs


# -- classes with their own create -------------------------------------------

def reads(node):
    return {x.id for x in ast.walk(node) if isinstance(x, ast.Name)
            and isinstance(x.ctx, ast.Load)}


def creators(repo, rep):
    rep.rule('creator', 'what a class does before the general creation '
             'passes on every argument')
    base = repo.classes[BASE]
    for ci, fn in overrides(repo, 'create'):
        if ci is base:
            continue
        pos, var, kwonly, kwarg = params_of(fn)[:4]
        names = pos[1:] + [x for x in (var, kwarg) if x] + kwonly
        key = 'creator:%s' % ci.name
        w = where(repo, ci.module, fn)
        for call in ast.walk(fn):
            if not (isinstance(call, ast.Call) and isinstance(
                    call.func, ast.Attribute) and
                    call.func.attr == 'create' and isinstance(
                        call.func.value, ast.Call) and isinstance(
                            call.func.value.func, ast.Name) and
                    call.func.value.func.id == 'super'):
                continue
            used = set()
            for a in call.args:
                used |= reads(a)
            for k in call.keywords:
                used |= reads(k.value)
            used = closure(fn, used)
            missing = [n for n in names if n not in used]
            rep.decide(key, not missing, w,
                       '%s.create does not pass on %s' % (
                           ci.name, ', '.join(missing)))


def closure(fn, used):
    """the names that the values of `used` are made from"""
    grown = True
    while grown:
        grown = False
        for st in ast.walk(fn):
            if isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                targets = st.targets if isinstance(
                    st, ast.Assign) else [st.target]
                value = st.value
            elif isinstance(st, (ast.For, ast.comprehension)):
                targets, value = [st.target], st.iter
            elif isinstance(st, ast.Expr) and isinstance(
                    st.value, ast.Call) and isinstance(
                        st.value.func, ast.Attribute):
                targets, value = [st.value.func.value], st.value
            elif isinstance(st, ast.With):
                continue
            else:
                continue
            if value is None:
                continue
            names = {x.id for t in targets for x in ast.walk(t)
                     if isinstance(x, ast.Name)}
            if names & used:
                new = reads(value) - used
                if new:
                    used = used | new
                    grown = True
    return used


# -- rules -------------------------------------------------------------------

def rule_cases():
    """(method, positional, keywords, what the rules must be afterwards)"""
    R, B = ('R1', 'R2'), ('R1', 'B2', 'B3')
    new = ['new', token('pattern'), token('replacement')]
    dup = ['B3'] + new[1:]
    for kw, attr in (({}, '_rules'), ({'attr': '_rules'}, '_rules'),
                     ({'attr': None}, '_rules'),
                     ({'attr': '_binary_rules'}, '_binary_rules')):
        both = {'_rules': R, '_binary_rules': B}
        mine = both[attr]

        def after(*names):
            return dict(both, **{attr: names})
        yield 'add_rule', new, kw, after(*(mine + ('new',)))
        if mine is B:
            yield 'add_rule', dup, kw, 'ValueError'
        else:
            yield 'add_rule', dup, kw, after(*(mine + ('B3',)))
            yield 'add_rule', ['R2'] + new[1:], kw, 'ValueError'
        yield 'del_rules', ['R1'], kw, after(*mine[1:])
        yield 'del_rules', [mine[-1], 'R1'], kw, after(*mine[1:-1])
        yield 'del_rules', [], kw, after()
        yield 'del_rules', ['R9'], kw, 'KeyError'
    yield 'add_rule', new, {'attr': '_none'}, 'AttributeError'
    yield 'del_rules', [], {'attr': '_none'}, 'AttributeError'
    yield 'del_rules', ['R1'], {'attr': '_none'}, 'AttributeError'


def rule_changes(repo, rep):
    rep.rule('rules', 'adding or deleting a rule changes that rule and no '
             'other, and no expression of that class is taken from the cache '
             'afterwards')
    ci = repo.classes[BASE]
    result = {}
    for name, args, kw, want in rule_cases():
        found = repo.lookup(ci, name)
        key = 'rules:%s' % name
        if not found or found[1] != 'method':
            rep.undec(key, 'no such method')
            continue
        w = where(repo, found[0].module, found[2])
        msgs = result.setdefault((key, w), set())
        for own in (False, True):
            try:
                rep.count('paths through changes of rules', runs(
                    lambda ch: change_rules(repo, ch, name, args, kw, want,
                                            own, msgs)))
            except Stop as e:
                rep.undec(key, str(e))
    for (key, w), msgs in sorted(result.items()):
        rep.decide(key, not msgs, w, '; '.join(sorted(msgs)))


def change_rules(repo, choices, name, args, kw, want, own, msgs):
    m = Machine(repo, choices)
    base = m.dotted(BASE)
    shared = Dict([(Key('k'), token('stored'))])
    base.attrs['_instances'] = shared
    t = Obj('T', base=base)
    t.data = 'token'
    t.missing.add('_none')
    if own:
        t.attrs['_instances'] = Dict([(Key('k'), token('own'))])
    rules = {n: token(n) for n in ('R1', 'R2', 'B2', 'B3')}
    first = {'_rules': ('R1', 'R2'), '_binary_rules': ('R1', 'B2', 'B3')}
    for attr, names in first.items():
        t.attrs[attr] = Dict([(n, rules[n]) for n in names])
    t.attrs['_rules_attr'] = Native('attr', lambda mm, a, k: '_rules')
    m.objects['qnet.utils.check_rules.check_rules_dict'] = Native(
        'check', lambda mm, a, k: Dict(
            [(x[0], x[1]) for x in mm.iterate(a[0])]))
    f = m.bound(m.find(t, name), t)
    what = '%s(%s)' % (name, ', '.join(
        [show(a) for a in args] + ['%s=%s' % x for x in kw.items()]))
    raised = None
    try:
        m.call(f, list(args), dict(kw))
    except Thrown as e:
        raised = e.name
    if raised is None and isinstance(want, str):
        msgs.add('%s does not raise %s' % (what, want))
        return m.taken
    if raised is not None:
        if raised != want:
            msgs.add('%s raises %s' % (what, raised))
        want = first
    for attr, names in want.items():
        v = m.find(t, attr)
        if not isinstance(v, Dict):
            raise Stop('the rules')
        if list(v.items) != list(names):
            msgs.add('%s leaves the rules %s in %s instead of %s' % (
                what, list(v.items), attr, list(names)))
        for n in names:
            old = rules.get(n)
            now = v.items.get(n)
            if n not in first[attr]:
                if now != tuple(args[1:]) and not (isinstance(
                        now, List) and now.items == list(args[1:])):
                    msgs.add('%s adds another rule' % what)
            elif now is not old:
                msgs.add('%s changes the rule %s' % (what, n))
    v = m.find(t, '_instances')
    if not isinstance(v, Dict):
        raise Stop('the cache')
    if v.items and raised is None:
        msgs.add('%s: expressions created with the earlier rules remain in '
                 'the cache' % name)
    return m.taken


# -- singletons --------------------------------------------------------------

class MetaRun(Machine):
    """classes without `cls` have the methods of a metaclass"""

    def find(self, o, attr):
        if isinstance(o, Obj) and o.cls is None and o.data == 'token' and \
                o.base is not None and attr not in o.attrs and \
                not self.repo.lookup(self.repo.classes[BASE], attr):
            found = self.repo.lookup(self.meta, attr)
            if found and found[1] == 'method':
                f = Func(attr, found[2], found[0].module, owner=found[0])
                f.data = 'method'
                return f
            if found:
                return self.class_attr(self.class_obj(self.meta), attr)
        return Machine.find(self, o, attr)


def singletons(repo, rep):
    rep.rule('singleton', 'a singleton remains the only instance of its '
             'class, whatever is in the cache')
    ci = repo.classes.get('qnet.utils.singleton.Singleton')
    found = ci and repo.lookup(ci, '__call__')
    if not found or found[1] != 'method':
        rep.undec('singleton', 'no such metaclass')
        return
    w = where(repo, found[0].module, found[2])
    bad = set()

    def make(choices):
        m = MetaRun(repo, choices)
        m.meta = ci
        base = m.dotted(BASE)
        base.attrs['_instances'] = Dict()
        made = []

        def one(name):
            t = Obj(name, base=base)
            t.data = 'token'
            return t
        t, u = one('T'), one('U')
        fn = Func('__call__', found[2], found[0].module, owner=ci)
        fn.data = 'method'

        def call(x):
            f = Func(fn.name, fn.node, fn.mod, fn.env, None)
            f.owner = fn.owner
            f.bound = x
            return m.call_func(f, [], {})
        orig = m.call

        def hook(f, args, kw):
            if isinstance(f, Native) and f.name == '__call__':
                made.append(1)
                return token('single%d' % len(made))
            return orig(f, args, kw)
        m.call = hook
        a, b = call(t), call(u)
        if a is b:
            bad.add('two classes share an instance')
        if call(t) is not a:
            bad.add('a second call gives another instance')
        t.attrs['_instances'] = Dict()
        if call(t) is not a:
            bad.add('with a temporary cache of its class there is another '
                    'instance')
        del t.attrs['_instances']
        base.attrs['_instances'] = Dict()
        if call(t) is not a:
            bad.add('with another cache there is another instance')
        return m.taken
    try:
        rep.count('paths through the creation of singletons', runs(make))
    except (Stop, Thrown) as e:
        rep.undec('singleton', '%s' % e)
        return
    rep.decide('singleton', not bad, w, '; '.join(sorted(bad)))


def check(repo, rep):
    creation(repo, rep)
    keys(repo, rep)
    creators(repo, rep)
    rule_changes(repo, rep)
    singletons(repo, rep)
