"""Shared model of the expression classes: constructor summaries etc."""
import ast

from .src import ClassInfo, AnalysisError, params_of, kind_of, decorator_names
from .flow import (Flow, Budget, SELF, NONE, show, walk, contains, is_const,
                   seq_items, const)
from .core import known_functions

_K = None


def known():
    global _K
    if _K is None:
        _K = known_functions()
    return _K


def flow(repo, inline=None, **kw):
    """inline: predicate on qualified names; None: only helpers that are not
    in the list of functions known when the rules were written"""
    return Flow(repo, inline=inline, known=known(), **kw)


def is_singleton_cls(repo, c):
    return any(d == 'singleton_object' for d in decorator_names(c.node))


def is_abstract_cls(repo, c):
    """Explicitly declared abstract (metaclass=ABCMeta in the statement) or
    with abstract methods left"""
    if c.metaclass and c.metaclass.endswith('ABCMeta'):
        return True
    return bool(repo.abstract_names(c))


def concrete_expressions(repo, base='Expression'):
    b = repo.cls(base)
    return sorted([c for c in repo.subclasses(b)
                   if not is_abstract_cls(repo, c)], key=lambda c: c.name)


class Ctor:
    """Constructor of a class: normal paths with the final attribute heap"""

    def __init__(self, repo, cls):
        self.cls = cls
        found = repo.lookup(cls, '__init__')
        self.owner, _, self.fn = found
        pos, var, kwonly, kw, defaults = params_of(self.fn)
        self.pos = pos[1:]
        self.var = var
        self.kwonly = kwonly
        self.kw = kw
        self.defaults = defaults
        self.paths = None
        self.raising = None
        self.error = None
        f = flow(repo, inline=lambda q: q.endswith('.__init__'),
                 max_paths=3000, max_depth=8)
        try:
            ps = f.summarise_method(cls, '__init__')
        except Budget:
            self.error = 'path budget exceeded'
            return
        self.paths = [p for p in ps if p.out[0] != 'raise']
        self.raising = [p for p in ps if p.out[0] == 'raise']

    @property
    def names(self):
        return (self.pos + ([self.var] if self.var else []) + self.kwonly
                + ([self.kw] if self.kw else []))


_ctor_cache = {}


def ctor(repo, cls):
    k = (id(repo), cls.qualname)
    if k not in _ctor_cache:
        _ctor_cache[k] = Ctor(repo, cls)
    return _ctor_cache[k]


def prop_paths(repo, cls, name, heap=None, conds=()):
    """Summary of a property/method on `cls` given a constructor heap"""
    f = flow(repo, inline=lambda q: not q.endswith('.__init__')
             and not q.endswith('.create'), max_paths=600)
    return f.summarise_method(cls, name, heap=heap, conds=conds)


def mentions(t, name):
    return contains(t, ('P', name))


def default_cond(conds, name):
    """Do the path conditions say that parameter `name` has a fixed value?"""
    for c, pol in conds:
        if pol and c[0] == 'cmp' and c[1] in ('is', '==') and (
                mentions(c, name)):
            return True
        if pol and c[0] == 'cmp' and c[1] == 'in' and c[2] == ('P', name):
            return True
        if pol and c[0] == 'cmp' and c[1] == '<' and mentions(c, name) and \
                c[3] == const(1) and c[2][0] == 'call':
            return True   # empty
        if not pol and c == ('P', name):
            return True
    return False


def short(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + '…'
