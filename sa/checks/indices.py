"""Index symbols: a product never captures an index of one factor in the sum
of another one."""
import ast

from ..core import where
from ..flow import (SELF, Budget, const, is_const, const_val, walk, mk_seq)
from ..model import flow, concrete_expressions, short
from ..src import AnalysisError
from .adjoint import inline_all, conds_text
from .arith import OTHER, named, infeasible, type_names

STOP = ('create', 'is_scalar', 'make_disjunct_indices', '_substitute',
        'substitute', '__init__', '_render')
DISJUNCT = 'make_disjunct_indices'


def base_cls(repo):
    return repo.cls('IndexedSum')


# -- terms --------------------------------------------------------------------

def norm(t):
    """the ket of a bra has the same symbols"""
    while True:
        if t[0] == 'A' and t[2] in ('ket', '_ket', 'bra', '_bra'):
            t = t[1]
        elif t[0] == 'sub' and t[1][0] == 'A' and \
                t[1][2] in ('_operands', 'operands') and t[2] == const(0):
            t = t[1][1]
        elif t[0] == 'call' and t[1][0] == 'A' and not t[2] and t[1][2] in (
                'adjoint', 'dag', 'conjugate', '_adjoint'):
            t = t[1][1]
        elif t[0] == 'call' and len(t[2]) == 1 and not t[3] and (
                t[1][0] == 'G' and t[1][1].endswith('.Bra') or
                t[1][0] == 'A' and t[1][2] == 'create' and
                t[1][1][0] == 'G' and t[1][1][1].endswith('.Bra')):
            t = t[2][0]
        else:
            return t


def renaming(t):
    """(what is renamed, arguments) of a call of make_disjunct_indices"""
    if t[0] == 'call' and t[1][0] == 'A' and t[1][2] == DISJUNCT and not t[3]:
        return t[1][1], t[2]
    return None


def base(t):
    t = norm(t)
    while renaming(t):
        t = norm(renaming(t)[0])
    return t


def symbols_of(t):
    """(attribute, object) if t is a collection of symbols of an object"""
    if t[0] == 'A' and t[2] in ('free_symbols', 'bound_symbols',
                                'all_symbols', 'variables', 'ranges'):
        return t[2], t[1]
    if t[0] == 'call' and t[1] == ('G', 'builtins.getattr') and t[2] and \
            is_const(t[2][1]):
        return symbols_of(('A', t[2][0], const_val(t[2][1])))
    if t[0] == 'call' and t[1] in (
            ('G', 'builtins.set'), ('G', 'builtins.list'),
            ('G', 'builtins.tuple'), ('G', 'builtins.sorted')) and \
            len(t[2]) == 1:
        return symbols_of(t[2][0])
    if t[0] in ('P', 'sub') or t[0] == 'slice' and t[1][0] == 'P' and \
            t == ('slice', t[1], const(1), const(None), const(None)):
        return 'ranges', t
    return None


KINDS = {'free_symbols': ('free',), 'bound_symbols': ('bound',),
         'variables': ('bound',), 'ranges': ('bound',),
         'all_symbols': ('free', 'bound')}


def facts(args):
    """what the last renaming avoids: {(kind, object)}; None for an argument
    that is not understood"""
    res = set()
    for a in args:
        if a[0] == '*':
            x = a[1]
            if x[0] == 'map':
                if any(not (c[0][0] == 'isinst' and c[1] and any(
                        'IdxSym' in n for n in type_names(c[0][2])))
                       for c in x[3]):
                    return None
                if x[1] != ('elem', x[2]) and not (
                        x[1][0] == 'A' and x[1][2] == 'index_symbol'):
                    if x[1][0] != 'elem':
                        return None
                x = x[2]
            s = symbols_of(x)
            if s is None:
                return None
            for k in KINDS[s[0]]:
                res.add((k, base(s[1]) if k == 'free' else norm(s[1])))
        else:
            res.add(('free', base(a)))
            res.add(('bound', norm(a)))
    return res


def factors(t):
    """the factors of a product"""
    t = norm(t)
    if t[0] == 'bin' and t[1] in ('*', '@'):
        return factors(t[2]) + factors(t[3])
    return [t]


def summand(t):
    """the sum whose summand t is"""
    t = norm(t)
    if t[0] == 'A' and t[2] in ('term', '_term'):
        return t[1]
    if t[0] == 'sub' and t[1][0] == 'A' and t[1][2] in (
            'operands', 'args') and t[2] == const(0):
        return t[1][1]
    return None


def range_parts(args):
    """objects whose ranges are used"""
    res = []
    for a in args:
        x = a[1] if a[0] == '*' else a
        todo = [x]
        while todo:
            y = todo.pop(0)
            if y[0] == 'bin' and y[1] == '+':
                todo = [y[2], y[3]] + todo
            elif y[0] == 'seq':
                todo = [z[1] if z[0] == '*' else z for z in y[2]] + todo
            elif y[0] == 'call' and len(y[2]) == 1 and y[1] in (
                    ('G', 'builtins.tuple'), ('G', 'builtins.list')):
                todo = [y[2][0]] + todo
            elif y[0] == 'A' and y[2] == 'ranges':
                res.append(norm(y[1]))
            else:
                res.append(y)
    return res


def sum_class(repo, f, cls):
    """is f a constructor of indexed sums?"""
    if f[0] == 'A' and f[2] == 'create':
        f = f[1]
    if f[0] == 'A' and f[2] == '_indexed_sum_cls':
        return True
    if f in (SELF, ('P', 'cls')) or f[0] == 'A' and f[2] == '__class__' or \
            f[0] == 'call' and f[1] == ('G', 'builtins.type'):
        return cls is None or repo.is_sub(cls, base_cls(repo).name)
    if f[0] == 'G':
        c = repo.classes.get(f[1])
        return c is not None and repo.is_sub(c, base_cls(repo).name)
    return False


def check_creation(repo, rep, key, w, t, p, text):
    """t creates an indexed sum out of a product"""
    fs = factors(t[2][0])
    sums = []
    others = []
    for f in fs:
        v = summand(f)
        (others if v is None else sums).append(f if v is None else norm(v))
    parts = range_parts(t[2][1:])
    if not sums:
        rep.count('sums that are not products of sums')
        return
    rep.count('products put under a sum')
    rest = list(parts)
    for v in sums:
        if v in rest:
            rest.remove(v)
        elif len(fs) > 1 or parts and any(base(x) == base(v) for x in parts):
            rep.decide(key + ':ranges', False, w, 'the ranges of %s are missing in %s%s' %
                       (short(v), short(t), conds_text(p)))
            return
    outer = [x for x in rest]
    if len(fs) == 1 and not outer:
        return
    for v in sums:
        r = renaming(v)
        got = facts(r[1]) if r else set()
        if got is None:
            rep.undec(key, 'renaming with ' + short(r[1][0]))
            continue
        for g in fs:
            u = summand(g)
            if u is not None and norm(u) == v:
                continue
            b = base(u if u is not None else g)
            if is_const(b) or b in index_free(p.conds):
                continue
            rep.decide(key, ('free', b) in got, w,
                       'an index of %s can be a free index of %s in %s%s' % (
                           short(v), short(b), short(t), conds_text(p)))
        for u in sums + outer:
            if u == v:
                continue
            r2 = renaming(u)
            g2 = (facts(r2[1]) or set()) if r2 else set()
            rep.decide(key, ('bound', u) in got or ('bound', v) in g2, w,
                       'the sums %s and %s can share an index in %s%s' % (
                           short(v), short(u), short(t), conds_text(p)))


def index_free(conds):
    """objects that have no free index symbols on the path"""
    res = set()
    for c, b in conds:
        if b and c[0] == 'cmp' and c[1] == '<' and c[3] == const(1) and \
                c[2][0] == 'call' and c[2][1] == ('G', 'builtins.len'):
            got = facts((('*', c[2][2][0]),)) or ()
            res |= {x for k, x in got if k == 'free'}
        if b and c[0] == 'exc' and 'AttributeError' in c[2] and \
                OTHER_NAME + '.free_symbols' in c[1]:
            # the other factor is no expression
            res.add(OTHER)
    return res


def creations(repo, v, cls):
    return [x for x in walk(v) if x[0] == 'call' and len(x[2]) >= 2 and
            sum_class(repo, x[1], cls)]


def products(repo, rep, cls, op):
    """a product of an object of class cls"""
    found = repo.lookup(cls, op)
    if not found or found[1] != 'method':
        return
    key = 'product:%s.%s' % (cls.name, op)
    mod, fn = found[0].module, found[2]
    w = where(repo, mod, fn)
    global OTHER_NAME
    OTHER_NAME = fn.args.args[1].arg
    f = flow(repo, inline=inline_all(*STOP), exact_self=cls, max_paths=3000)
    f.merging = False
    try:
        ps = f.summarise_method(cls, fn.name, args={
            fn.args.args[1].arg: OTHER}) or ()
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return
    for p in ps:
        if p.out[0] != 'return' or p.value is None or \
                infeasible(repo, cls, p.conds) or any(
                    c[0] == 'exc' and c[2] == ('AttributeError',) and
                    OTHER_NAME + '.' not in c[1] for c, b in p.conds):
            # (methods of the class itself are not assumed to be missing)
            continue
        for t in creations(repo, p.value, cls):
            check_creation(repo, rep, key, w, t, p, '')


def functions(repo, rep):
    """functions and rules that put something under a sum"""
    sums = {c.name for c in repo.subclasses(base_cls(repo))} | {'IndexedSum'}
    for mod in sorted(repo.modules.values(), key=lambda m: m.name):
        if not mod.name.startswith('qnet.algebra'):
            continue
        uses = ranges_users(mod.tree, sums)
        for fn, name, lead in candidates(mod.tree):
            if not uses(fn):
                continue
            key = 'rule:%s:%s' % (mod.name.rpartition('.')[2], name)
            w = where(repo, mod, fn)
            f = flow(repo, inline=inline_all(*STOP), max_paths=2000)
            f.merging = False
            try:
                ps = f.summarise(mod, fn) or ()
            except (Budget, AnalysisError) as e:
                rep.undec(key, str(e))
                continue
            rep.count('functions that use ranges')
            for p in ps:
                if p.out[0] != 'return' or p.value is None:
                    continue
                for t in creations(repo, p.value, None):
                    check_creation(repo, rep, key, w, t, p, '')
                pulled(repo, rep, key, w, p)


def called_only(tree):
    """private or local functions that are only ever called by name"""
    top = {n.name for n in tree.body if isinstance(n, ast.FunctionDef)}
    rules = {id(n) for x in ast.walk(tree) if isinstance(x, ast.Lambda)
             for n in ast.walk(x)}
    called = {id(n.func) for n in ast.walk(tree) if isinstance(n, ast.Call)
              and id(n) not in rules}
    names = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            names.setdefault(n.id, []).append(id(n) in called)
    return {n.name for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)
            and (n.name not in top or n.name.startswith('_')) and
            names.get(n.name) and all(names[n.name])}


def ranges_users(tree, sums):
    """functions that deal with ranges, possibly in a helper"""
    def direct(fn):
        return any(isinstance(n, ast.Attribute) and n.attr == 'ranges' or
                   isinstance(n, ast.Name) and n.id in sums or
                   isinstance(n, ast.arg) and n.arg in ('indranges', 'ranges')
                   for n in ast.walk(fn))
    helpers = called_only(tree)
    defs = {n.name: n for n in ast.walk(tree)
            if isinstance(n, ast.FunctionDef) and n.name in helpers}

    def uses(fn, seen=()):
        return direct(fn) or any(
            uses(defs[n.func.id], seen + (n.func.id,)) for n in ast.walk(fn)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and
            n.func.id in defs and n.func.id not in seen)
    return uses


def candidates(tree):
    """functions of the module level and those inside of functions, and
    lambdas"""
    res = []
    helpers = called_only(tree)

    def rec(node, name):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, ast.ClassDef):
                continue
            if isinstance(n, ast.FunctionDef):
                inner = name + [n.name]
                if n.name in helpers:
                    pass            # seen where it is called
                elif not any(isinstance(x, ast.Lambda) or isinstance(
                        x, ast.FunctionDef) and x.name not in helpers
                           for y in n.body for x in ast.walk(y)) or \
                        len(name) == 0 and not n.name.startswith(
                            '_algebraic_rules'):
                    res.append((n, '.'.join(inner), len(name)))
                rec(n, inner)
            elif isinstance(n, ast.Lambda):
                res.append((n, '.'.join(name) + ':lambda', len(name)))
            else:
                rec(n, name)
    rec(tree, [])
    return res


class Open(Exception):
    """a term outside of the small model"""


class Sets:
    """evaluates conditions about the free symbols of c and the index symbols
    of the ranges q, for given sets of them; a part of the ranges is taken to
    miss the common symbol"""

    def __init__(self, c, q, free, index, others=()):
        self.c, self.q, self.free, self.index = c, q, free, index
        self.bound = {}
        self.others = others

    def it(self, t):
        v = self.ev(t)
        if not isinstance(v, (set, list)):
            raise Open
        return v

    def each(self, src, conds):
        """bindings of the generic element of src that satisfy the conds"""
        e = ('elem', src)
        for x in sorted(self.it(src), key=str):
            old = self.bound.get(e)
            self.bound[e] = x
            try:
                if all(bool(self.ev(c)) == b for c, b in conds
                       if c[0] != 'isinst'):
                    yield x
            finally:
                if old is None:
                    del self.bound[e]
                else:
                    self.bound[e] = old

    def ev(self, t):
        if t in self.bound:
            return self.bound[t]
        if t == ('A', self.c, 'free_symbols') or t[0] == 'call' and \
                t[1] == ('G', 'builtins.getattr') and t[2][:2] == (
                    self.c, const('free_symbols')):
            return set(self.free)
        if t == self.q or t == ('A', self.q, 'ranges'):
            return [('range', x) for x in sorted(self.index)]
        if t in (('A', self.q, 'bound_symbols'), ('A', self.q, 'variables')):
            return set(self.index)
        if t[0] == 'A' and t[2] == 'index_symbol':
            v = self.ev(t[1])
            if isinstance(v, tuple) and v[0] == 'range':
                return v[1]
            raise Open
        if t in self.others or t[0] == 'A' and t[2] == 'ranges':
            return []               # of another sum
        if t[0] == 'slice':
            return [x for x in self.it(t[1]) if x not in ('i', ('range', 'i'))]
        if t[0] == 'seq':
            res = []
            for x in t[2]:
                if x[0] == '*':
                    res.extend(self.it(x[1]))
                else:
                    res.append(self.ev(x))
            return set(res) if t[1] == 'set' else res
        if t[0] == 'map':
            return [self.ev(t[1]) for x in self.each(t[2], t[3])]
        if is_const(t):
            return const_val(t)
        if t[0] == 'bin':
            a, b = self.ev(t[2]), self.ev(t[3])
            if isinstance(a, set) and isinstance(b, set) and t[1] in '&|-':
                return {'&': a & b, '|': a | b, '-': a - b}[t[1]]
            if isinstance(a, list) and isinstance(b, list) and t[1] == '+':
                return a + b
            raise Open
        if t[0] == 'cmp':
            a, b = self.ev(t[2]), self.ev(t[3])
            try:
                return {'==': lambda: a == b, '<': lambda: a < b,
                        'in': lambda: a in b}[t[1]]()
            except (KeyError, TypeError):
                raise Open
        if t[0] == 'not':
            return not self.ev(t[1])
        if t[0] in ('and', 'or'):
            vs = [self.ev(x) for x in t[1]]
            return all(vs) if t[0] == 'and' else any(vs)
        if t[0] in ('any', 'all'):
            vs = [bool(self.ev(t[1])) for x in self.each(t[2], t[3])]
            return any(vs) if t[0] == 'any' else all(vs)
        if t[0] == 'call' and not t[3]:
            f = t[1]
            if f[0] == 'G' and len(t[2]) == 1 and t[2][0][0] != '*':
                fn = {'len': len, 'bool': bool, 'set': set, 'list': list,
                      'frozenset': set, 'tuple': list}.get(
                          f[1].rpartition('.')[2])
                v = self.ev(t[2][0])
                if fn is not None and isinstance(v, (set, list)):
                    return fn(v)
            if f[0] == 'A' and f[2] in ('intersection', 'union', 'difference',
                                        'isdisjoint', 'issubset'):
                a = self.ev(f[1])
                bs = [set(self.it(x)) for x in t[2]]
                if isinstance(a, set):
                    return getattr(a, f[2])(*bs)
        raise Open

    def possible(self, cond, b):
        """can the condition hold (for some element it speaks about)?"""
        e = next((x for x in walk(cond) if x[0] == 'elem' and
                  x not in self.bound and not any(
                      y[0] == 'map' and y[2] == x[1] for y in walk(cond))),
                 None)
        if e is None:
            return bool(self.ev(cond)) == b
        vs = [self.possible(cond, b) for x in self.each(e[1], ())]
        return any(vs) if b else all(vs)


def excluded(conds, c, q, parts):
    """do the conditions exclude that c has a free index of the ranges q?
    None if one that speaks about both is not understood"""
    opened = False
    for free, index in ((('i',), ('i',)), (('i', 'z'), ('i',)),
                        (('i',), ('i', 'j')), (('i', 'z'), ('i', 'j')),
                        (('i',), ('a', 'i'))):
        for cond, b in conds:
            try:
                if not Sets(c, q, free, index, parts).possible(cond, b):
                    break
            except Open:
                if ('A', c, 'free_symbols') in list(walk(cond)):
                    opened = True
        else:
            return None if opened else False
    return True


def pulled(repo, rep, key, w, p):
    """c * sum: the path knows that no index of the sum occurs in c"""
    v = p.value
    if v[0] != 'bin' or v[1] != '*' or v[3][0] != 'call' or \
            not sum_class(repo, v[3][1], None) or not v[3][2][1:]:
        return
    c = norm(v[2])
    parts = range_parts(v[3][2][1:])
    own = [summand(f) for f in factors(v[3][2][0])]
    if c[0] == 'call' or is_const(c):
        return
    verdicts = [excluded(p.conds, c, q, parts) for q in parts]
    ok = all(verdicts) if None not in verdicts else None
    rep.count('factors taken out of a sum')
    if ok is None:
        rep.undec(key, 'the test for common indices' + conds_text(p))
        return
    rep.decide(key, ok, w, '%s is taken out of the sum over %s although it '
               'may depend on the index%s' % (
                   short(c), ', '.join(short(x) for x in parts),
                   conds_text(p)))


# -- renaming -----------------------------------------------------------------

RANGES = [('P', 'r0'), ('P', 'r1')]
INDEX = [('A', r, 'index_symbol') for r in RANGES]


def loop_start(t):
    """what a variable changed in a loop starts from"""
    while t[0] == 'phi':
        start = [y for y in t[1] if not any(z[0] == 'unk' for z in walk(y))]
        if len(start) != 1:
            return t
        t = start[0]
    return t


def own_class(repo):
    return next(c for c in concrete_expressions(repo)
                if repo.is_sub(c, base_cls(repo).name))


def contains(items, o, kind):
    """do the items of a collection contain the index symbols of o?"""
    if kind == 'symbol':
        return o in items
    if kind == 'range':
        return ('A', o, 'index_symbol') in items
    for x in items:
        if x[0] != '*':
            continue
        y = x[1]
        if y[0] == 'map':
            if any(not (c[0][0] == 'isinst' and c[1]) for c in y[3]):
                continue
            s = y[2]
        else:
            s = y
        if kind == 'expression' and s == ('A', o, 'all_symbols'):
            return True
        if kind == 'list' and s == o and y[0] == 'map' and \
                y[1][0] == 'A' and y[1][2] == 'index_symbol':
            return True
    if kind == 'expression':
        return contains(items, ('A', o, 'term'), 'expression') and all(
            x in items for x in INDEX) if o == SELF else False
    return False


def items_of(t):
    if t[0] == 'seq':
        return list(t[2])
    if t[0] == 'call' and len(t[2]) == 1 and t[1] in (
            ('G', 'builtins.set'), ('G', 'builtins.frozenset')):
        return items_of(t[2][0])
    if t[0] == 'bin' and t[1] in ('|', '+'):
        return items_of(t[2]) + items_of(t[3])
    return [('*', t)]


def fresh(repo, rep):
    cls = own_class(repo)
    found = repo.lookup(cls, DISJUNCT)
    if not found:
        rep.undec('fresh', 'no ' + DISJUNCT)
        return
    w = where(repo, found[0].module, found[2])
    f = flow(repo, inline=inline_all('create', '_substitute', 'substitute'),
             exact_self=cls, max_paths=3000)
    f.merging = False
    whole = ('A', SELF, 'ranges')

    def hook(t):
        if t == whole:
            return mk_seq('tuple', RANGES)
        if t == ('A', SELF, 'variables'):
            return mk_seq('list', INDEX)
        return None
    f.attr_hook = hook
    var = found[2].args.vararg
    if var is None:
        rep.undec('fresh', 'parameters')
        return
    o = ('P', 'o')
    try:
        ps = f.summarise_method(cls, DISJUNCT, args={
            var.arg: mk_seq('tuple', [o])}) or ()
    except (Budget, AnalysisError) as e:
        rep.undec('fresh', str(e))
        return
    for p in ps:
        if p.out[0] != 'return':
            continue
        # what kind of thing is the argument?
        kind = None
        isa = {}
        for c, b in p.conds:
            if c[0] == 'isinst' and c[1] == o:
                for n in type_names(c[2]):
                    isa[n.rpartition('.')[2]] = b
        if isa.get('IdxSym'):
            kind = 'symbol'
        elif isa.get('IndexRangeBase'):
            kind = 'range'
        elif isa.get('Expression'):
            kind = 'expression'
        elif len(isa) >= 3 and not any(isa.values()):
            kind = 'list'
        if kind is None:
            rep.undec('fresh', 'kind of the argument' + conds_text(p))
            continue
        rep.count('paths through ' + DISJUNCT)
        key = 'fresh:' + kind
        if p.value == SELF:
            new = {}
        elif p.value[0] == 'call' and p.value[1] == ('A', SELF, '_substitute') \
                and p.value[2] and p.value[2][0][0] == 'dict':
            new = dict(p.value[2][0][1])
        else:
            rep.undec(key, 'result ' + short(p.value))
            continue
        clash = {i: [(c[3], b) for c, b in p.conds if c[0] == 'cmp' and
                     c[1] == 'in' and c[2] == i] for i in INDEX}
        done = []
        for i in INDEX:
            tests = [(items_of(t), b) for t, b in clash[i]]
            free = [b for t, b in tests if contains(t, o, kind)]
            if i not in new:
                rep.decide(key, False in free, w, 'an index stays although it '
                           'may occur in the argument' + conds_text(p))
                done.append(i)
                continue
            v = new[i]
            if loop_start(v) != i:
                rep.undec(key, 'new index ' + short(v))
                continue
            seen = None
            for c, b in p.conds:
                if c[0] == 'cmp' and c[1] == 'in' and c[2] != i and \
                        loop_start(c[2]) == i:
                    seen = items_of(c[3])
            if seen is None:
                rep.undec(key, 'test of the new index' + conds_text(p))
                continue
            rep.decide(key, contains(seen, o, kind), w, 'the new index may '
                       'occur in the argument%s' % conds_text(p))
            rep.decide(key, contains(seen, SELF, 'expression'), w,
                       'the new index may occur in the sum already%s' %
                       conds_text(p))
            rep.decide(key, all(x in seen for x in done if x not in INDEX), w,
                       'two indices may get the same new name%s' %
                       conds_text(p))
            done.append(v)


def c15(repo, rep):
    rep.rule('product', 'on every path of a product that puts its factors '
             'under one sum: the ranges are those of the summands, the last '
             'renaming of each sum avoids the free indices of every other '
             'factor, and two sums share no index')
    rep.rule('rule', 'the same for the functions and rewrite rules that build '
             'indexed sums; a factor is taken out of a sum only if it does '
             'not depend on the indices')
    rep.rule('fresh', 'renaming avoids the index symbols of the argument, '
             'those in the sum itself, and the ones just chosen')
    for c in concrete_expressions(repo):
        if repo.is_sub(c, 'QuantumExpression'):
            for op in ('__mul__', '__rmul__'):
                products(repo, rep, c, op)
    functions(repo, rep)
    fresh(repo, rep)
