"""C12: free and bound symbols of an expression are those of its parts"""
from ..calculus import instances
from ..core import where
from ..flow import (SELF, Budget, const, is_const, const_val, walk, replace)
from ..model import flow, concrete_expressions, short
from ..src import AnalysisError
from .adjoint import inline_all, conds_text
from .traverse import leaves_of

SETS = {'free_symbols': 'free', 'bound_symbols': 'bound',
        'all_symbols': 'all'}
CACHES = {'free_symbols': '_free_symbols', 'bound_symbols': '_bound_symbols',
          'all_symbols': '_all_symbols'}


class Open(Exception):
    pass


class Atom:
    """the symbols of an object, in a set; `conds` select among them"""

    def __init__(self, kind, obj, conds=()):
        self.kind, self.obj, self.conds = kind, obj, tuple(conds)
        self.its = ()

    def __repr__(self):
        return '%s(%s)%s' % (self.kind, short(self.obj),
                             '' if not self.conds else ' selected')


def seqs(t):
    return t[0] == 'call' and t[1][0] == 'G' and len(t[2]) == 1 and \
        t[1][1].rpartition('.')[2] in ('set', 'frozenset', 'list', 'tuple',
                                       'sorted')


def gather(t):
    """[Atom] of a term that is a set of symbols"""
    if t[0] == 'A' and t[2] in SETS:
        return [Atom(SETS[t[2]], t[1])]
    if t[0] == 'call' and t[1] == ('G', 'builtins.getattr') and \
            len(t[2]) >= 2 and is_const(t[2][1]) and \
            const_val(t[2][1]) in SETS:
        return [Atom(SETS[const_val(t[2][1])], t[2][0])]
    if t[0] == 'seq':
        res = []
        for x in t[2]:
            res += gather(x[1]) if x[0] == '*' else [Atom('item', x)]
        return res
    if t[0] == 'map':
        return mapped(t[1], t[2], t[3])
    if t[0] == 'fold' and t[1] == '|':
        return gather(t[2]) + mapped(('*', t[3]), t[4], t[5])
    if t[0] == 'fold' and t[1] in ('&', '-', '^'):
        return [copied(a, ((('cmp', 'in', ('unk', 'symbol'), t[4]), True),))
                for a in gather(t[2]) + mapped(('*', t[3]), t[4], t[5])]
    if t[0] == 'fold' and t[1] == 'fn' and t[3][0] == 'call' and \
            t[3][1][0] == 'A' and t[3][1][1][0] == 'unk' and not t[3][3]:
        # a loop that changes a set
        op, args = t[3][1][2], t[3][2]
        if op in ('.discard', '.remove') and len(args) == 1:
            taken = ('map', args[0], t[4], t[5])
            return [copied(a, ((('cmp', 'in', ('unk', 'symbol'), taken),
                                False),)) for a in gather(t[2])]
        if op == '.difference_update' and len(args) == 1 and not t[5]:
            taken = ('seq', 'list', (('*', args[0]),))
            return [copied(a, ((('cmp', 'in', ('unk', 'symbol'), taken),
                                False),)) for a in gather(t[2])]
        if op == '.add' and len(args) == 1:
            return gather(t[2]) + mapped(args[0], t[4], t[5])
        if op == '.update':
            return gather(t[2]) + [a for x in args for a in mapped(
                ('*', x), t[4], t[5])]
    if t[0] == 'call' and t[1][0] == 'A' and not t[3] and len(t[2]) == 1 and \
            t[1][2] in ('.discard', '.remove', '.difference_update'):
        base = t[1][1]
        if base[0] == 'phi' and any(x == ('unk', 'loop') for x in base[1]):
            # left the loop early, some are not taken out
            base = ('phi', tuple(x for x in base[1] if x != ('unk', 'loop')))
            if len(base[1]) == 1:
                base = base[1][0]
        taken = ('seq', 'list', (
            ('*', t[2][0]) if t[1][2] == '.difference_update' else t[2][0],))
        return [copied(a, ((('cmp', 'in', ('unk', 'symbol'), taken),
                            False),)) for a in gather(base)]
    if t[0] == 'bin' and t[1] == '|':
        return gather(t[2]) + gather(t[3])
    if t[0] == 'bin' and t[1] == '-':
        return [copied(a, ((('cmp', 'in', ('unk', 'symbol'), t[3]), False),))
                for a in gather(t[2])]
    if seqs(t):
        return gather(t[2][0])
    if t[0] == 'call' and not t[3]:
        f = t[1]
        if f == ('A', ('G', 'builtins.set'), 'union') or f == (
                'G', 'builtins.set.union'):
            return [a for x in t[2] for a in argument(x)]
        if f[0] == 'A' and f[2] in ('union', '.update', '.add'):
            res = gather(f[1])
            for x in t[2]:
                res += [Atom('item', x)] if f[2] == '.add' else argument(x)
            return res
        if f[0] == 'A' and f[2] == 'difference' and len(t[2]) == 1:
            return gather(('bin', '-', f[1], t[2][0]))
        if f[0] == 'A' and f[2] == 'copy' and not t[2]:
            return gather(f[1])
        if f == ('G', 'builtins.set') and not t[2]:
            return []
    if t[0] == 'dict' and not t[1]:
        return []
    if t[0] == 'phi':       # one of them empty for objects without symbols
        res = [gather(x) for x in t[1]]
        if sum(1 for x in res if x) == 1:
            return sum(res, [])
    if t[0] in ('P', 'elem') or t == const(None):
        return []               # no set of symbols
    if t[0] == 'bin' and t[1] in ('&', '^') or t[0] == 'call' and \
            t[1][0] == 'A' and t[1][2] in ('intersection',
                                           'symmetric_difference'):
        # a selection
        l, r = t[2:] if t[0] == 'bin' else (t[1][1], t[2][0])
        return [copied(a, ((('cmp', 'in', ('unk', 'symbol'), y), True),))
                for x, y in ((l, r), (r, l)) for a in gather(x)]
    raise Open(short(t))


def copied(a, conds, its=()):
    b = Atom(a.kind, a.obj, a.conds + tuple(conds))
    b.its = a.its + tuple(its)
    return b


def loose(a):
    """is it just one of the elements of something?"""
    known = set(a.its)
    for t in (a.obj,) + tuple(a.its):
        known |= {x[2] for x in walk(t) if x[0] == 'map'}
        known |= {x[4] for x in walk(t) if x[0] == 'fold'}
    return any(x[0] == 'elem' and x[1] not in known for x in walk(a.obj))


WHOLE = ('ravel', 'flat', 'flatten', 'elements', 'values', 'items', 'keys',
         'reshape', 'T', 'shape', 'copy', 'create', 'operands', '_operands',
         'args', 'kwargs', 'matrix', 'get', 'pop')


def inner(t, leaf, p):
    """is it some attribute of the argument, not the argument itself?"""
    for x in walk(t):
        if x[0] == 'A' and mention(x[1], leaf):
            name, base = x[2].lstrip('.'), x[1]
        elif x[0] == 'call' and x[1] == ('G', 'builtins.getattr') and \
                mention(x[2][0], leaf) and is_const(x[2][1]):
            name, base = const_val(x[2][1]), x[2][0]
        else:
            continue
        if name in WHOLE or name in SETS:
            continue
        if name == 'val' and any(
                b and c[0] == 'isinst' and c[1] == base and len(c[2]) == 1 and
                c[2][0][1].endswith('.ScalarValue') for c, b in p.conds):
            continue
        return True
    return False


def argument(x):
    """an argument of union / update"""
    if x[0] == '*':
        y = x[1]
        if y[0] == 'map':
            return mapped(('*', y[1]), y[2], y[3])
        raise Open(short(x))
    return gather(x)


def mapped(body, it, conds):
    if body == ('elem', it):
        return [copied(a, conds) for a in gather(it)]
    if body[0] == '*':
        if body[1] == ('elem', it):     # a union of sets
            if it[0] == 'map':
                return mapped(('*', it[1]), it[2], it[3] + tuple(conds))
            raise Open(short(it))
        return [copied(a, conds, [it]) for a in gather(body[1])]
    return [copied(Atom('item', body), conds, [it])]


def is_index(t):
    """the index symbols of ranges?"""
    if t[0] == 'seq':
        return bool(t[2]) and all(x[0] == '*' and is_index(x[1])
                                  for x in t[2])
    if t[0] == 'map':
        return t[1][0] == 'A' and t[1][2] == 'index_symbol' and not t[3]
    if seqs(t):
        return is_index(t[2][0])
    return t[0] == 'A' and t[2] == 'variables'


def selected(atom, allow):
    """conditions that are not allowed to select among the symbols"""
    res = []
    for c, b in atom.conds:
        if allow(c, b):
            continue
        if c[0] == 'call' and c[1] == ('G', 'builtins.hasattr') and b:
            continue
        res.append((c, b))
    return res


def not_index(c, b):
    return c[0] == 'cmp' and c[1] == 'in' and not b and is_index(c[3])


def never(c, b):
    return False


def mention(t, x):
    return any(y == x for y in walk(t))


def bare(t):
    """without copying"""
    while True:
        if seqs(t):
            t = t[2][0]
        elif t[0] == 'seq' and len(t[2]) == 1 and t[2][0][0] == '*':
            t = t[2][0][1]
        elif t[0] == 'call' and t[1][0] == 'A' and t[1][2] in (
                'copy', 'union') and not t[2]:
            t = t[1][1]
        elif t[0] == 'map' and t[1] == ('elem', t[2]) and not t[3]:
            t = t[2]
        else:
            return t


def same_set(a, b):
    if bare(a) == bare(b):
        return True
    try:
        a, b = [{(x.kind, x.obj, x.conds, tuple(x.its)) for x in gather(y)}
                for y in (a, b)]
    except Open:
        return False
    return a == b


def caches(rep, key, w, name, p, before):
    """a stored set is the one returned, and stored in its own attribute"""
    for n, attr in CACHES.items():
        v = p.heap.get((SELF, attr))
        if v is None or v == before.get((SELF, attr)):
            continue
        rep.decide(key + ':cache', same_set(v, p.value) if n == name else
                   n in ('free_symbols', 'bound_symbols') and
                   name == 'all_symbols' or name in ('all_symbols',) or
                   stored_by(n, v), w,
                   '%s stores %s as the set of %s%s' % (
                       name, short(v), n, conds_text(p)))


def stored_by(n, v):
    """a set of the right kind stored by a nested call"""
    try:
        return all(a.kind in (SETS[n], 'item') for a in gather(v))
    except Open:
        return True


def mutations(rep, key, w, name, p):
    for e in p.effects:
        if e[0] != 'mut' or e[1][0] != 'A' or e[1][2] not in SETS:
            continue
        x = e[1][1]
        label = any(c[0] == 'isinst' and b and c[1] == x and any(
            n[1].rpartition('.')[2] in ('SymbolicLabelBase', 'str')
            for n in c[2] if n[0] == 'G') for c, b in p.conds)
        rep.decide(key + ':mutation', label, w, '%s changes the %s of %s'
                   % (name, e[1][2], short(x)))


def attribute_errors(p):
    """paths on which an object without symbols was met"""
    return sum(1 for c, b in p.conds if c[0] == 'exc' and b)


def run(repo, cls, name, inst):
    f = flow(repo, inline=inline_all('substitute'), exact_self=cls,
             max_paths=3000)
    return f.summarise_method(cls, name, heap=inst.heap,
                              conds=inst.conds) or ()


def parts_of(repo, rep, cls, name):
    """the set is the union over the constructor's arguments"""
    kind = SETS[name]
    key = '%s:%s' % (kind, cls.name)
    found = repo.lookup(cls, name)
    if not found:
        rep.undec(key, 'no ' + name)
        return
    w = where(repo, found[0].module, found[2])
    sums = repo.is_sub(cls, 'IndexedSum')
    matrix = cls.name == 'Matrix'
    try:
        insts = instances(repo, cls, lengths=(2,))
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return
    n = 0
    for inst in insts:
        leaves = leaves_of(inst)
        try:
            ps = run(repo, cls, name, inst)
        except (Budget, AnalysisError) as e:
            rep.undec(key, str(e))
            continue
        for p in ps:
            if p.out[0] == 'raise':
                rep.undec(key, 'raises' + conds_text(p))
                continue
            if p.out[0] != 'return':
                rep.violation(key, w, '%s returns nothing%s' % (
                    name, conds_text(p)))
                continue
            n += 1
            caches(rep, key, w, name, p, inst.heap)
            mutations(rep, key, w, name, p)
            try:
                atoms = gather(p.value)
            except Open as e:
                rep.undec(key, 'set %s' % e)
                continue
            missing = set()
            for leaf in leaves:
                here = [a for a in atoms if mention(a.obj, leaf)]
                if sums and leaf == ('P', 'ranges'):
                    if kind == 'bound':
                        rep.decide(key, any(
                            a.kind == 'item' and not a.conds and
                            a.obj[0] == 'A' and a.obj[2] == 'index_symbol'
                            for a in here), w, '%s does not contain the '
                            'index symbols: %s' % (name, atoms))
                    else:
                        rep.decide(key, not here, w, '%s contains the index '
                                   'symbols: %s' % (name, atoms))
                    continue
                good = [a for a in here if a.kind == kind and not loose(a)
                        and not inner(a.obj, leaf, p) and not selected(
                    a, not_index if sums and kind == 'free' else never)]
                if matrix:
                    # of the entries, not of the array
                    good = [a for a in good if any(
                        x[0] == 'elem' and (any(
                            y[0] == 'A' and y[2] in ('ravel', 'flat',
                                                     'flatten', 'elements')
                            for y in walk(x)) or any(
                                y[0] == 'elem' for y in walk(x[1])))
                        for x in walk(a.obj))]
                    if not good:
                        rep.violation(key, w, '%s does not go through the '
                                      'entries: %s' % (name, atoms))
                        continue
                if not good:
                    missing.add(leaf)
            # objects without symbols are skipped
            rep.decide(key, len(missing) <= attribute_errors(p), w,
                       '%s lacks those of %s: %s%s' % (
                           name, ', '.join(sorted(x[1] for x in missing)),
                           atoms, conds_text(p)))
            if sums and kind == 'free':
                stray = [a for a in atoms if a.kind != 'free' or not any(
                    not_index(c, b) for c, b in a.conds)]
                rep.decide(key + ':index', not stray, w, 'the index symbols '
                           'are free: %s' % atoms)
            else:
                other = [a for a in atoms if a.kind != kind and not (
                    a.kind == 'item' and sums and a.obj[0] == 'A' and
                    a.obj[2] == 'index_symbol')]
                rep.decide(key + ':only', not other, w, '%s contains %s' % (
                    name, other))
    rep.count('constructor shapes', n)


def derivative(repo, rep, cls):
    """symbols at which a derivative is evaluated are bound, those in the
    values are free"""
    for name, kind in (('free_symbols', 'free'), ('bound_symbols', 'bound')):
        key = '%s:%s' % (kind, cls.name)
        found = repo.lookup(cls, name)
        w = where(repo, found[0].module, found[2])
        f = flow(repo, inline=inline_all('substitute', 'operand', 'vals',
                                         'derivs'), exact_self=cls)
        heap = {(SELF, a): const(None) for a in CACHES.values()}
        try:
            ps = f.summarise_method(cls, name, heap=heap) or ()
        except (Budget, AnalysisError) as e:
            rep.undec(key, str(e))
            continue
        def canon(t):
            return replace(t, lambda x: ('P', 'vals') if x in (
                ('A', SELF, '_vals'), ('A', SELF, 'vals')) else
                ('P', 'operand') if x == ('A', SELF, 'operand') or
                x[0] == 'sub' and x[1] in (
                    ('A', SELF, 'operands'), ('A', SELF, '_operands'))
                else None)
        op, vals = ('P', 'operand'), ('P', 'vals')
        for p in ps:
            if p.out[0] != 'return':
                rep.undec(key, p.out[0])
                continue
            rep.count('paths of derivatives')
            caches(rep, key, w, name, p, heap)
            mutations(rep, key, w, name, p)
            try:
                atoms = gather(canon(p.value))
            except Open as e:
                rep.undec(key, 'set %s' % e)
                continue
            conds = [(canon(c), b) for c, b in p.conds]
            empty = any(b and c[0] == 'cmp' and c[1] in ('<', '==') and
                        mention(c, vals) and c[2][0] == 'call' and
                        (c[1], c[3]) in (('<', const(1)), ('==', const(0)))
                        or
                        not b and c in (vals,) for c, b in conds)
            some = [a for a in atoms if mention(a.obj, op)]
            rest = [a for a in atoms if not mention(a.obj, op)]
            if kind == 'bound':
                rep.decide(key, any(a.kind == 'bound' and a.obj == op and
                                    not a.conds for a in some), w,
                           'bound symbols of the operand are missing: %s' %
                           atoms)
                ok = any(a.kind == 'free' and not a.conds and
                         a.obj[0] == 'elem' and mention(a.obj, vals) and
                         not any(x[0] == 'A' and x[2] == 'values'
                                 for x in walk(a.obj)) for a in rest)
                rep.decide(key, ok or empty, w, 'the symbols of evaluation '
                           'are missing: %s' % atoms)
                rep.decide(key + ':only', all(
                    a.kind == 'bound' or a.obj[0] == 'elem' and
                    mention(a.obj, vals) for a in atoms), w,
                    '%s contains %s' % (name, atoms))
                continue
            if empty:
                rep.decide(key, any(a.kind == 'free' and a.obj == op and
                                    not a.conds for a in some), w,
                           'free symbols of the operand are missing: %s' %
                           atoms)
                continue

            def replaced(a):
                """with the symbols of evaluation replaced, and filtered"""
                if a.kind != 'free' or a.obj[0] != 'call':
                    return False
                return a.obj[1][0] == 'A' and a.obj[1][2] == 'substitute' \
                    and a.obj[1][1] == op and mention(a.obj[2][0], vals)

            def dummies(c, b):
                return not b and c[0] == 'isinst' or not b and \
                    c[0] == 'cmp' and c[1] == 'in'
            rep.decide(key, any(replaced(a) and not selected(a, dummies)
                                for a in some), w, 'free symbols of the '
                       'operand are missing, or those of evaluation are not '
                       'taken out: %s' % atoms)
            rep.decide(key + ':evaluation', all(
                replaced(a) and a.conds for a in some), w,
                'the symbols of evaluation are free: %s' % atoms)
            ok = [a for a in rest if a.kind == 'free' and not a.conds and
                  mention(a.obj, vals) and
                  (a.obj[0] == 'elem' and any(
                      x[0] == 'A' and x[2] in ('values', 'items')
                      for x in walk(a.obj)) or a.obj[0] == 'sub')]
            rep.decide(key + ':values', bool(ok), w, 'the symbols in the '
                       'values are missing: %s' % atoms)


def union_of_both(repo, rep, cls):
    key = 'all:%s' % cls.name
    found = repo.lookup(cls, 'all_symbols')
    if not found:
        return
    w = where(repo, found[0].module, found[2])
    heap = {(SELF, a): const(None) for a in CACHES.values()}
    f = flow(repo, inline=inline_all('free_symbols', 'bound_symbols'),
             exact_self=cls)
    try:
        ps = f.summarise_method(cls, 'all_symbols', heap=heap) or ()
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return
    for p in ps:
        if p.out[0] != 'return':
            rep.undec(key, p.out[0])
            continue
        mutations(rep, key, w, 'all_symbols', p)
        try:
            atoms = gather(p.value)
        except Open as e:
            rep.undec(key, 'set %s' % e)
            continue
        kinds = {a.kind for a in atoms if a.obj == SELF and not a.conds}
        rep.decide(key, {'free', 'bound'} <= kinds or 'all' in kinds, w,
                   'all_symbols is %s' % atoms)


def equations(repo, rep):
    cls = repo.maybe_cls('Eq')
    if cls is None:
        return
    for name, kind in SETS.items():
        found = repo.lookup(cls, name)
        if not found:
            continue
        key = '%s:Eq' % kind
        w = where(repo, found[0].module, found[2])
        f = flow(repo, inline=inline_all('lhs', 'rhs', *(
            ('free_symbols', 'bound_symbols') if kind == 'all' else ())),
            exact_self=cls)
        for p in f.summarise_method(cls, name) or ():
            if p.out[0] != 'return':
                rep.undec(key, p.out[0])
                continue
            try:
                atoms = gather(p.value)
            except Open as e:
                rep.undec(key, 'set %s' % e)
                continue
            if kind == 'all':
                rep.decide(key, {(a.kind, a.obj) for a in atoms
                                 if not a.conds} >= {
                    ('free', SELF), ('bound', SELF)}, w,
                    'all_symbols is %s' % atoms)
                continue
            sides = {s for a in atoms if a.kind == kind and not a.conds
                     for s in ('lhs', 'rhs') if mention(
                         a.obj, ('A', SELF, s)) or mention(
                             a.obj, ('A', SELF, '_' + s))}
            rep.decide(key, 2 - len(sides) <= attribute_errors(p), w,
                       '%s is %s' % (name, atoms))
            rep.decide(key, all(a.kind == kind for a in atoms), w,
                       '%s contains %s' % (name, atoms))


def labels(repo, rep):
    """a symbolic label has the symbols of its formula"""
    for c in repo.subclasses(repo.cls('SymbolicLabelBase')):
        found = repo.lookup(c, 'free_symbols')
        key = 'label:%s' % c.name
        if not found:
            rep.undec(key, 'no free_symbols')
            continue
        w = where(repo, found[0].module, found[2])
        f = flow(repo, inline=inline_all(), exact_self=c)
        for p in f.summarise_method(c, 'free_symbols') or ():
            if p.out[0] != 'return':
                rep.undec(key, p.out[0])
                continue
            try:
                atoms = gather(p.value)
            except Open as e:
                rep.undec(key, str(e))
                continue
            rep.decide(key, any(a.kind == 'free' and not a.conds and
                                a.obj == ('A', SELF, 'expr') for a in atoms),
                       w, 'free_symbols is %s' % atoms)


def c12(repo, rep):
    rep.rule('free', 'the free symbols are the union of those of all '
             'arguments and keyword arguments; for an indexed sum without '
             'the index symbols, for a derivative without the symbols at '
             'which it is evaluated but with those in the values')
    rep.rule('bound', 'the bound symbols are the union of those of all '
             'arguments, and the index symbols or symbols of evaluation')
    rep.rule('all', 'both of them')
    rep.rule('cache', 'a stored set is the one returned; sets of other '
             'expressions are not changed')
    for c in concrete_expressions(repo):
        union_of_both(repo, rep, c)
        if repo.is_sub(c, 'QuantumDerivative'):
            derivative(repo, rep, c)
            continue
        for name in ('free_symbols', 'bound_symbols'):
            parts_of(repo, rep, c, name)
    equations(repo, rep)
    labels(repo, rep)
