"""The tables of automatic rules, read from the source.

:func:`tables` follows the functions that fill `_rules` and `_binary_rules`
and returns a :class:`Rule` for every entry, with its pattern as a term and
the paths of its replacement.
"""
import ast

from . import flow as F
from .flow import Flow, State, Ctx, const_val, is_const
from .model import flow

ATTRS = ('_rules', '_binary_rules')


class Rule:
    def __init__(self, cls, attr, name, pattern, repl, fl, ctx, node):
        self.cls, self.attr, self.name = cls, attr, name
        self.pattern, self.repl = pattern, repl
        self.flow, self.ctx, self.node = fl, ctx, node

    @property
    def key(self):
        return '%s.%s:%s' % (self.cls, self.attr, self.name)

    def apply(self, env, heap=None):
        """[(conds, value)] of the replacement for the given parameters"""
        fl = self.flow
        fl.steps = 0
        kws = tuple((k, v) for k, v in env.items())
        st = State(heap=dict(heap or {}))
        if self.repl[0] == 'lam':
            clo = fl.closures[self.repl[1]]
            res = fl._call_closure(clo, self.repl, (), kws, st, self.ctx)
        else:
            res = fl.call(st, self.repl, (), kws, self.ctx)
        return [(s.conds, v) for s, v in res]

    @property
    def params(self):
        a = getattr(self.node, 'args', None)
        return [x.arg for x in a.args + a.kwonlyargs] if a else []

    def unbound(self, names):
        """names that do not fit the parameters of the replacement"""
        a = getattr(self.node, 'args', None)
        if self.repl[0] != 'lam' or a is None or a.vararg or a.posonlyargs:
            return []
        pos = [x.arg for x in a.args]
        free = set(pos[len(pos) - len(a.defaults):]) | {
            x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d}
        have = set(pos) | {x.arg for x in a.kwonlyargs}
        bad = have - free - set(names)
        if not a.kwarg:
            bad |= set(names) - have
        return sorted(bad)


class Unread(Exception):
    pass


def items_of(t):
    """((name, pattern, replacement), ...) of a table"""
    if t[0] == 'call' and t[1][0] == 'G' and t[1][1].rpartition('.')[2] in (
            'check_rules_dict', 'OrderedDict', 'dict', 'list', 'tuple') and \
            len(t[2]) == 1:
        return items_of(t[2][0])
    if t[0] == 'dict':
        pairs = [(k, v) for k, v in t[1]]
    elif t[0] == 'seq':
        pairs = []
        for x in t[2]:
            if x[0] != 'seq' or len(x[2]) != 2:
                raise Unread(F.show(x)[:60])
            pairs.append(x[2])
    else:
        raise Unread(F.show(t)[:60])
    res = []
    for k, v in pairs:
        if not is_const(k) or v[0] != 'seq' or len(v[2]) != 2:
            raise Unread(F.show(v)[:60])
        res.append((const_val(k), v[2][0], v[2][1]))
    return res


def fillers(repo):
    """(module, function) of all functions that mention a table"""
    for mod in repo.modules.values():
        for name, fn in mod.functions.items():
            if any(isinstance(x, ast.Attribute) and x.attr in ATTRS and
                   not isinstance(x.value, ast.Name)
                   or isinstance(x, ast.Attribute) and x.attr in ATTRS and
                   isinstance(x.value, ast.Name) and
                   x.value.id not in ('cls', 'self')
                   for x in ast.walk(fn)):
                yield mod, fn


def tables(repo, inline=None):
    """([Rule], [(where, problem)])"""
    rules, open_ = [], []
    for mod, fn in fillers(repo):
        pre = mod.name + '.'
        fl = flow(repo, inline=inline or (lambda q: q.startswith(pre)),
                  max_paths=60)
        fl.max_steps = 400000
        try:
            paths = fl.summarise(mod, fn)
        except F.Budget:
            open_.append((mod, fn, 'too many paths'))
            continue
        if len(paths) != 1:
            open_.append((mod, fn, '%d paths' % len(paths)))
            continue
        ctx = Ctx(mod, None, None, fn, 0, (pre + fn.name,))
        for e in paths[0].effects:
            if e[0] != 'mut' or e[1][0] != 'A' or e[1][2] not in ATTRS:
                continue
            base = e[1][1]
            if base[0] != 'G':
                continue
            cls = base[1].rpartition('.')[2]
            if e[2] == 'update' and len(e[3]) == 1:
                table = e[3][0]
            elif e[2] in ('__setitem__', 'setitem') and len(e[3]) == 2:
                table = ('dict', ((e[3][0], e[3][1]),))
            else:
                open_.append((mod, fn, '%s of %s' % (e[2], cls)))
                continue
            try:
                for name, pat, repl in items_of(table):
                    node = fl.closures[repl[1]].node if repl[0] == 'lam' \
                        else fn
                    rules.append(Rule(cls, e[1][2], name, pat, repl, fl, ctx,
                                      node))
            except Unread as x:
                open_.append((mod, fn, str(x)))
    return rules, open_
