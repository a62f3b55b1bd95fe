"""C03: nothing that exists is modified"""
import ast

from ..alias import Analysis
from ..core import where
from ..src import decorator_names, params_of


def is_public(mod, ci, fn):
    if fn.name.startswith('_') and not (
            fn.name.startswith('__') and fn.name.endswith('__')):
        return False
    return not (ci is not None and ci.name.startswith('_'))


SKIP = ('qnet.printing', 'qnet.utils.testing', 'qnet._flat_api_tools')
CLASSES = ('cls', 'classes', 'mcs', 'klass')


def of_values(mod):
    return not mod.name.startswith(SKIP)


def sites(an, repo, rep):
    rep.rule('modify', 'no function modifies an existing expression, space, '
             'label, equation or pattern, a part of one, or a container that '
             'a caller has passed in; lazily computed attributes are stored '
             'only by what tests for them')
    for fn in an.funcs:
        mod, ci, _ = an.info[id(fn)]
        rep.count('functions')
        name = (ci.name + '.' if ci else '') + fn.name
        me = an.self_name(fn) if ci is not None else None
        if an.sites[id(fn)]:
            rep.count('functions that modify something not their own')
        bad = []
        for s in an.sites[id(fn)]:
            rep.count('places that modify something not their own')
            if an.allowed(fn, s):
                continue
            via = getattr(s, 'via', None)
            for o in sorted(s.owners, key=repr):
                if o[0] == 'global':
                    continue
                if o[0] == 'class':
                    if of_values(mod) and via is None:
                        bad.append((s, 'the %s of all instances' % o[1]))
                    continue
                if o[0] == 'made':
                    if s.kind == 'store' and via is None:
                        bad.append((s, 'an expression that may be shared '
                                    '(the result of `create`)'))
                    continue
                if o[1] in CLASSES:
                    continue
                if o[1] == me:
                    if 'classmethod' in decorator_names(fn):
                        continue
                    if an.is_value(ci):
                        bad.append((s, 'the object itself' if o[0] == 'p'
                                    else 'a part of the object itself'))
                    continue
                if an.constructing(fn) and o[0] == 'p' and \
                        s.kind == 'store' and ci is not None:
                    pass
                if of_values(mod) and public(an, mod, ci, fn) and \
                        not decorator(repo, mod, fn):
                    bad.append((s, '%sthe argument %s' % (
                        '' if o[0] == 'p' else 'a part of ', o[1])))
        key = 'modify:%s' % name
        seen = set()
        for s, what in bad:
            if (s.node.lineno, what) in seen:
                continue
            seen.add((s.node.lineno, what))
            rep.violation(key, where(repo, mod, s.node),
                          '%s modifies %s: %s' % (name, what, describe(s)))
        if not bad:
            rep.ok(key)


def public(an, mod, ci, fn):
    # what private functions do with arguments is judged at their callers
    return is_public(mod, ci, fn)


def decorator(repo, mod, fn):
    """used as decorator of classes or functions, or a manager of classes"""
    if not hasattr(repo, '_decorators'):
        repo._decorators = {
            d.rpartition('.')[2] for m in repo.modules.values()
            for x in ast.walk(m.tree)
            if isinstance(x, (ast.ClassDef, ast.FunctionDef))
            for d in decorator_names(x)}
    return fn.name in repo._decorators


def describe(s):
    if getattr(s, 'via', None) is not None:
        return 'call of %s' % s.what
    return '%s (%s)' % (s.what, ast.unparse(s.node).split('\n')[0][:70])


# -- what is handed out and taken in ------------------------------------------

def handed_out(an, repo, rep):
    rep.rule('handed-out', 'no method of a value returns a modifiable '
             'container that is a part of the value')
    for fn in an.funcs:
        mod, ci, _ = an.info[id(fn)]
        if not an.is_value(ci) or not of_values(mod) or \
                not is_public(mod, ci, fn) or fn.name in (
                    '__init__', '__new__'):
            continue
        me = an.self_name(fn)
        decs = decorator_names(fn)
        if me is None or 'classmethod' in decs or 'staticmethod' in decs:
            continue
        key = 'handed-out:%s.%s' % (ci.name, fn.name)
        bad = []
        for st in own_statements(fn):
            if not isinstance(st, ast.Return) or st.value is None:
                continue
            for v, attr in parts(an, st.value, fn, me):
                kinds = set()
                for f, x in an.attr_defs().get(attr, ()):
                    kinds |= an.hint(x, f)
                if attr in an.array_attrs():
                    kinds.add('array')
                if kinds:
                    bad.append((st, attr, kinds))
        for st, attr, kinds in bad:
            rep.violation(key, where(repo, mod, st),
                          '%s.%s returns its own %s %s' % (
                              ci.name, fn.name, '/'.join(sorted(kinds)),
                              attr))
        if not bad:
            rep.ok(key)


def own_statements(fn):
    todo = list(fn.body)
    while todo:
        st = todo.pop(0)
        yield st
        for x in ast.iter_child_nodes(st):
            if isinstance(x, (ast.stmt, ast.ExceptHandler)) and \
                    not isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                todo.append(x)


def parts(an, v, fn, me, seen=()):
    """attributes of `me` that the value may be"""
    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and \
            v.value.id == me:
        props = [f for f in an.by_method.get(v.attr, ())
                 if 'property' in decorator_names(f)]
        if not props:
            yield v, v.attr
    elif isinstance(v, ast.IfExp):
        yield from parts(an, v.body, fn, me, seen)
        yield from parts(an, v.orelse, fn, me, seen)
    elif isinstance(v, ast.BoolOp):
        for x in v.values:
            yield from parts(an, x, fn, me, seen)
    elif isinstance(v, ast.Name) and v.id not in seen:
        for st in ast.walk(fn):
            if isinstance(st, ast.Assign):
                names = [t.id for t in st.targets if isinstance(t, ast.Name)]
                if v.id in names:
                    yield from parts(an, st.value, fn, me, seen + (v.id,))
                    # x = self._x = ...
                    for t in st.targets:
                        if isinstance(t, ast.Attribute):
                            yield from parts(an, t, fn, me, seen + (v.id,))
                elif isinstance(st.value, ast.Name) and \
                        st.value.id == v.id:
                    for t in st.targets:
                        if isinstance(t, ast.Attribute):
                            yield from parts(an, t, fn, me, seen + (v.id,))


def taken_in(an, repo, rep):
    rep.rule('taken-in', 'no value keeps a modifiable container that is an '
             'argument of its constructor')
    for fn in an.funcs:
        mod, ci, _ = an.info[id(fn)]
        if fn.name != '__init__' or not an.is_value(ci) or \
                not of_values(mod):
            continue
        me = an.self_name(fn)
        pos, var, kwonly, kwarg, _ = params_of(fn)
        names = set(pos[1:] + kwonly)
        key = 'taken-in:%s' % ci.name
        bad = []
        for st in ast.walk(fn):
            if not isinstance(st, ast.Assign):
                continue
            for t in st.targets:
                if not (isinstance(t, ast.Attribute) and isinstance(
                        t.value, ast.Name) and t.value.id == me):
                    continue
                for p in kept(st.value, fn, names, st):
                    if container_use(an, ci, t.attr, fn, p):
                        bad.append((st, t.attr, p))
        for st, attr, p in bad:
            rep.violation(key, where(repo, mod, st),
                          '%s keeps its argument %s, a container, as %s' % (
                              ci.name, p, attr))
        if not bad:
            rep.ok(key)


def exposed(an, repo, rep):
    rep.rule('exposed', 'what the public attributes of a value hold cannot '
             'be modified: no list, dict or set, arrays are write-protected')
    for fn in an.funcs:
        mod, ci, _ = an.info[id(fn)]
        if not an.is_value(ci) or not of_values(mod) or \
                not an.constructing(fn):
            continue
        me = an.self_name(fn)
        key = 'exposed:%s.%s' % (ci.name, fn.name)
        found = {}
        for st in own_statements(fn):
            if not isinstance(st, (ast.Assign, ast.AnnAssign)) or \
                    st.value is None:
                continue
            for t in (st.targets if isinstance(st, ast.Assign)
                      else [st.target]):
                if isinstance(t, ast.Attribute) and isinstance(
                        t.value, ast.Name) and t.value.id == me and \
                        not t.attr.startswith('_'):
                    kinds = set(an.hint(st.value, fn))
                    if kinds & {'list', 'dict', 'set'} and \
                            t.attr in an.array_attrs():
                        kinds = {'array'}
                    found.setdefault(t.attr, []).append((st, kinds))
        for attr, stores in found.items():
            for st, kinds in stores:
                if kinds == {'array'} and protected(fn, me, attr, st):
                    continue
                rep.decide(key, not kinds, where(repo, mod, st),
                           'the attribute %s of %s is a modifiable %s' % (
                               attr, ci.name, '/'.join(sorted(kinds))))


def protected(fn, me, attr, st):
    """is every array that the attribute gets made read-only?"""
    names = {attr}
    last = max(x.lineno for x in own_statements(fn)
               if isinstance(x, ast.Assign) and any(
                   isinstance(t, ast.Attribute) and t.attr == attr
                   for t in x.targets))
    local = {t.id for x in own_statements(fn) if isinstance(x, ast.Assign)
             and any(isinstance(t, ast.Attribute) and t.attr == attr
                     for t in x.targets) for t in x.targets
             if isinstance(t, ast.Name)}
    local |= {x.value.id for x in own_statements(fn)
              if isinstance(x, ast.Assign) and isinstance(
                  x.value, ast.Name) and any(
                      isinstance(t, ast.Attribute) and t.attr == attr
                      for t in x.targets)}

    def is_it(v):
        return isinstance(v, ast.Attribute) and v.attr in names or \
            isinstance(v, ast.Name) and v.id in local
    for x in fn.body:
        for y in ast.walk(x):
            if isinstance(y, ast.Call) and isinstance(
                    y.func, ast.Attribute) and y.func.attr == 'setflags' \
                    and is_it(y.func.value):
                off = [k.value for k in y.keywords if k.arg == 'write'] + \
                    y.args[:1]
                if off and isinstance(off[0], ast.Constant) and \
                        not off[0].value and (
                            y.lineno > last or
                            isinstance(y.func.value, ast.Name)):
                    return True
            if isinstance(y, ast.Assign) and isinstance(
                    y.value, ast.Constant) and not y.value.value and any(
                        isinstance(t, ast.Attribute) and
                        t.attr == 'writeable' and isinstance(
                            t.value, ast.Attribute) and is_it(t.value.value)
                        for t in y.targets):
                return True
    return False


def kept(v, fn, names, before):
    """parameters that the value may be identical to"""
    if isinstance(v, ast.IfExp):
        yield from kept(v.body, fn, names, before)
        yield from kept(v.orelse, fn, names, before)
    elif isinstance(v, ast.Name) and v.id in names:
        if not converted(fn, v.id, before):
            yield v.id


def converted(fn, name, before):
    """is the name bound to something else on all ways to `before`?"""
    def always(body):
        """True: bound in all cases; 'stop': `before` is in here"""
        for st in body:
            if st is before:
                return 'found'
            if isinstance(st, ast.Assign) and any(
                    isinstance(x, ast.Name) and x.id == name
                    for t in st.targets for x in ast.walk(t)) and \
                    not (isinstance(st.value, ast.Name) and
                         st.value.id == name):
                return True
            if isinstance(st, ast.If):
                a, b = always(st.body), always(st.orelse)
                none = none_test(st.test, name)
                if 'found' in (a, b):
                    return True if none == (a == 'found') and \
                        none is not None else 'found'
                if none is True:
                    a = True
                elif none is False:
                    b = True
                ends = [x for x, blk in ((a, st.body), (b, st.orelse))
                        if not leaves(blk)]
                if ends and all(x is True for x in ends):
                    return True
                if not ends:
                    return True
                # converted where it is not the right kind already
                if (a is True or b is True) and kind_test(st.test, name):
                    return True
            elif isinstance(st, ast.Try):
                a = always(st.body)
                if a:
                    return a
            elif isinstance(st, (ast.With, ast.For, ast.While)):
                a = always(st.body)
                if a == 'found':
                    return a
        return False
    return always(fn.body) is True


def leaves(body):
    return bool(body) and isinstance(body[-1], (ast.Raise, ast.Return))


def none_test(test, name):
    """True: `name is None`, False: `name is not None`"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        res = none_test(test.operand, name)
        return None if res is None else not res
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(
            test.left, ast.Name) and test.left.id == name and isinstance(
                test.comparators[0], ast.Constant) and \
            test.comparators[0].value is None:
        if isinstance(test.ops[0], ast.Is):
            return True
        if isinstance(test.ops[0], ast.IsNot):
            return False
    return None


def kind_test(test, name):
    """isinstance(name, ...) or `name is None`: the others are immutable"""
    for x in ast.walk(test):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                x.func.id == 'isinstance' and isinstance(
                    x.args[0], ast.Name) and x.args[0].id == name:
            text = ast.unparse(x.args[1])
            return not any(w in text for w in (
                'list', 'dict', 'ndarray', 'set', 'Mapping', 'Sequence'))
        if isinstance(x, ast.Compare) and isinstance(x.left, ast.Name) and \
                x.left.id == name and isinstance(x.ops[0], (
                    ast.Is, ast.IsNot)):
            return False
    return False


USES = {'items', 'values', 'ravel', 'flatten', 'keys'}


def container_use(an, ci, attr, fn, p):
    """is the attribute or the argument used as a list, dict or array?"""
    def uses(body, match):
        for x in ast.walk(body):
            if isinstance(x, ast.Attribute) and x.attr in USES and \
                    match(x.value):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and \
                    x.func.id in ('len', 'list', 'tuple', 'sorted', 'dict',
                                  'enumerate', 'zip') and any(
                        match(a) for a in x.args):
                return True
            if isinstance(x, ast.Subscript) and match(x.value):
                return True
            if isinstance(x, (ast.For, ast.comprehension)) and \
                    match(x.iter):
                return True
        return False
    if uses(fn, lambda v: isinstance(v, ast.Name) and v.id == p):
        return True
    me = lambda v: isinstance(v, ast.Attribute) and v.attr == attr
    return any(uses(f, me) for f in ci.methods.values())


def check(repo, rep):
    an = Analysis(repo)
    sites(an, repo, rep)
    handed_out(an, repo, rep)
    taken_in(an, repo, rep)
    exposed(an, repo, rep)
