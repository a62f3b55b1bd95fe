"""Writing out an indexed sum gives exactly the terms of its ranges.

The ranges' own methods are followed for every kind of range (with bounds in
both directions, steps, empty and endless ones), the methods of the sum for
an arbitrary summand and ranges of arbitrary values."""
import ast
import itertools

from .equations import Sides, show, t
from .patterns import Judge, World
from ..linear import NONE, Open, lconst, num, truthy

MOD = 'qnet.utils.indices.'
SUM = 'qnet.algebra.core.indexed_operations.IndexedSum'
CLS = 'OperatorIndexedSum'
RANGES = ('IndexOverList', 'IndexOverRange', 'IndexOverFockSpace')


def sym(n):
    return ('sym', n)


class Sums(Sides):
    def pairs(self, st, b):
        if b[0] == 'dict':
            return tuple((('text', k) if isinstance(k, str) else k, v)
                         for k, v in b[1])
        return super().pairs(st, b)

    def attr(self, st, b, name, env=None):
        if b[0] == 'rng':
            if name == 'index_symbol':
                return [(st, b[1])]
            if name in ('iter', '__len__'):
                return [(st, ('bound', b, name))]
            raise Open('range.' + name)
        if b[0] == 'space':
            if name == '_dimension':
                return [(st, NONE if b[1] is None else num(b[1]))]
            if name == 'dimension' and b[1] is not None:
                return [(st, num(b[1]))]
            if name == 'has_basis':
                return [(st, truthy(b[1] is not None))]
            raise Open('space.' + name)
        if b[0] == 'cls' and b[1] == CLS and name == 'create':
            return [(st, ('mk',))]
        if b[0] in ('cls', 'G') and b[1].endswith('ScalarValue'):
            if name == 'create':
                return [(st, ('same',))]
            if name == '_val_types':
                return [(st, ('valtypes',))]
        if b[0] == 'obj' and b[1] == CLS and name in ('_zero', '_term') and \
                name not in st.heap[b[2]]:
            return [(st, t('zero'))]
        if b[0] == 't' and name in ('_doit_over_indices', '_doit_full',
                                    'ranges', 'terms', '__len__'):
            return [(st, ('EXC', 'AttributeError'))]
        if b[0] in ('finite', 'interval'):
            return [(st, ('bound', b, name))]
        if b[0] == 'sym' and name == 'primed':
            return [(st, num(b[1].count("'")))]
        if b[0] == 'sym' and name == 'name':
            return [(st, ('text', b[1].rstrip("'")))]
        if b[0] in ('sym', 'num'):
            raise Open('attribute of a symbol')
        return super().attr(st, b, name, env)

    def is_a(self, v, ty):
        if ty == ('valtypes',):
            return False
        n = ty[1].rpartition('.')[2] if ty[0] in ('cls', 'G') else None
        if n == 'IdxSym':
            return v[0] == 'sym'
        if v[0] == 't' and n in ('Expression', 'QuantumExpression'):
            return True
        if v[0] == 't' and n in ('IndexedSum', CLS, 'ScalarValue'):
            return False
        if v[0] == 'rng' and n == 'IndexRangeBase':
            return True
        return super().is_a(v, ty)

    def call(self, st, f, args, kws):
        n = f[1].rpartition('.')[2] if f[0] in ('cls', 'G') and \
            isinstance(f[1], str) else None
        if f == ('same',):
            return [(st, args[0])]
        if f == ('mk',):
            if kws:
                raise Open('keywords')
            res = []
            for s, b in self.asks(st, ('stays a sum', show(args[0]))):
                if b:
                    res.append(self.sum(s, args[0], args[1:]))
                else:
                    res.append((s, ('t', ('rest', args[0],
                                          ('tuple', tuple(args[1:]))))))
            return res
        if n == 'IdxSym' and args and args[0][0] == 'text':
            return [(st, sym(args[0][1]))]
        if n == 'IdxSym' and args and args[0][0] == 'sym':
            return [(st, args[0])]
        if n in RANGES:
            given = dict(zip(self.slots(n), args), **kws)
            return [(st, ('made', n, tuple(sorted(given.items()))))]
        if n == 'FiniteSet':
            return [(st, ('finite', tuple(args)))]
        if n == 'Interval' and len(args) == 2 and not kws:
            return [(st, ('interval',) + tuple(args))]
        if n == 'Range' and args:
            return self.builtin(st, 'range', args, kws)
        if n == 'Piecewise':
            return [(st, ('piecewise', tuple(a[1] for a in args)))]
        if f[0] == 'fun' and f[1] == 'substitute' and len(f) == 3:
            d = args[0] if args else kws['var_map']
            return [(st, ('t', ('sub', f[2], ('tuple', tuple(
                self.pairs(st, d))))))]
        return super().call(st, f, args, kws)

    @staticmethod
    def slots(n):
        return ('index_symbol',) + {
            'IndexOverList': ('values',),
            'IndexOverRange': ('start_from', 'to', 'step'),
            'IndexOverFockSpace': ('hs',)}[n]

    def sum(self, st, term, ranges):
        i = next(self.n)
        s = st.copy()
        s.heap[i] = {'_term': term, 'ranges': ('tuple', tuple(ranges))}
        return s, ('obj', CLS, i)

    def range(self, st, cls, **fields):
        i = next(self.n)
        s = st.copy()
        s.heap[i] = fields
        return s, ('obj', cls, i)

    def builtin(self, st, n, args, kws):
        n = n.rpartition('.')[2]
        if n == 'callable' and len(args) == 1:
            return [(st, truthy(args[0][0] in (
                'bound', 'fn', 'clo', 'method', 'fun')))]
        if n == 'range' and not kws and all(a[0] == 'int' for a in args):
            x = [lconst(a[1]) for a in args]
            if None in x:
                raise Open('range')
            return [(st, ('tuple', tuple(num(k) for k in range(
                *map(int, x)))))]
        if n == 'len' and args and args[0][0] == 'rng':
            return [(st, num(len(args[0][2])) if args[0][2] is not None else
                     ('EXC', 'TypeError'))]
        if n == 'len' and args and args[0][0] == 'obj':
            return [r for s, f in self.attr(st, args[0], '__len__')
                    for r in ([(s, f)] if f[0] == 'EXC' else
                              [(s2, ('EXC', 'TypeError') if v == NONE else v)
                               for s2, v in self.call(s, f, [], {})])]
        return super().builtin(st, n, args, kws)

    def bound(self, st, b, name, args, kws):
        if b[0] == 'rng' and name == 'iter':
            if b[2] is None:
                raise Open('an endless iteration')
            return [(st, ('tuple', tuple(('dict', ((b[1], v),))
                                         for v in b[2])))]
        if b[0] == 'rng' and name == '__len__':
            return self.builtin(st, 'len', [b], {})
        if b[0] == 'odict' and name == 'update' and len(args) <= 1:
            d = dict(self.content(st, b))
            for a in args:
                d.update(self.pairs(st, a))
            d.update((('text', k), v) for k, v in kws.items())
            return [(self.store(st, b, d.items()), NONE)]
        if b[0] in ('finite', 'interval') and name in (
                'contains', 'as_relational') and len(args) == 1 and (
                    b[0], name) != ('finite', 'as_relational'):
            return [(st, ('within', b))]
        return super().bound(st, b, name, args, kws)

    def truth(self, st, v):
        if v[0] in ('sym', 'rng', 'space', 'within'):
            return [(st, True)]
        return super().truth(st, v)

    def same(self, st, a, b):
        if a[0] in ('sym', 'val', 'space') and b[0] in (
                'sym', 'val', 'space', 'none', 'text', 'int'):
            return [(st, a == b)]
        return super().same(st, a, b)

    def binop(self, op, a, b):
        if a[0] == 'tuple' and b[0] == 'int' and isinstance(op, ast.Mult):
            return ('tuple', a[1] * int(lconst(b[1])))
        return super().binop(op, a, b)

    def e_Dict(self, node, env, st):
        if None in node.keys:
            raise Open('** in a dictionary')
        res = []
        n = len(node.keys)
        for s, vs in self.evs(node.keys + node.values, env, st):
            if vs and vs[0] == 'EXC':
                res.append((s, vs))
                continue
            res.append(self.alloc(s, 'odict', dict(zip(
                vs[:n], vs[n:])).items()))
        return res

    def e_DictComp(self, node, env, st):
        raise Open('dictionary comprehension')

    def assign(self, target, v, env, st):
        if isinstance(target, (ast.Tuple, ast.List)):
            k = [i for i, x in enumerate(target.elts)
                 if isinstance(x, ast.Starred)]
            if k:
                x = list(self.items(self.loose(st, v)))
                i, n = k[0], len(target.elts) - 1
                if len(x) < n:
                    return [(st, env, ('raise', 'ValueError'))]
                st, rest = self.alloc(st, 'list', x[i:len(x) - n + i])
                v = ('tuple', tuple(x[:i] + [rest] + x[len(x) - n + i:]))
                target = ast.Tuple([
                    y.value if isinstance(y, ast.Starred) else y
                    for y in target.elts], ast.Store())
        return super().assign(target, v, env, st)

    def e_Attribute(self, node, env, st):
        if node.attr == 'oo':
            return [(st, ('oo',))]
        return super().e_Attribute(node, env, st)


class Space(World):
    def __init__(self, repo):
        super().__init__(repo)
        self.it = Sums(repo)

    def sum(self, term, *ranges):
        self.st, o = self.it.sum(self.st, term, ranges)
        return o


T = t('T')


def rng(n, *values):
    return ('rng', sym(n), tuple(('val', v) for v in values))


class Stray(Exception):
    pass


def terms(v):
    """the substitutions under which the summand is added"""
    if v[0] == 'int' and lconst(v[1]) == 0 or v == t('zero'):
        return []
    if v == T:
        return [{}]
    if v[0] == 't' and v[1][0] == '+':
        return terms(v[1][1]) + terms(v[1][2])
    if v[0] == 't' and v[1][0] == 'sub':
        res = []
        for m in terms(v[1][1]):
            # what is bound already is no longer there
            res.append(dict(dict((k[1], x) for k, x in v[1][2][1]), **m))
        return res
    raise Stray(show(v) if v[0] == 't' else v[0])


def written(m):
    return 'T' + ''.join('[%s=%s]' % (k, x[1] if x[0] == 'val' else
                                      lconst(x[1]) if x[0] == 'int' else x[0])
                         for k, x in sorted(m.items()))


def full(ranges):
    return [dict((r[1][1], v) for r, v in zip(ranges, vs))
            for vs in itertools.product(*[r[2] for r in ranges])]


def judged(got, want, ordered=False):
    a, b = list(map(written, got)), list(map(written, want))
    if not ordered:
        a, b = sorted(a), sorted(b)
    return None if a == b else '%s, not %s' % (
        ' + '.join(a) or 'nothing', ' + '.join(b) or 'nothing')


SETS = (
    (rng('i', 'a'),), (rng('i', 'a', 'b', 'c'),), (rng('i'),),
    (rng('i', 'a', 'b'), rng('j', 'c', 'd', 'e')),
    (rng('i', 'a', 'b'), rng('j')), (rng('i'), rng('j', 'c')),
    (rng('i', 'a', 'b'), rng('j', 'a'), rng('k', 'b', 'c')),
    (rng('i', 'a', 'b'), rng('j', 'c'), rng('k', 'd'), rng('l', 'e', 'f')),
    (rng('i', 'a'), rng('j', 'b'), rng('k', 'c'), rng('l', 'd', 'e'),
     rng('m', 'f')))
ENDLESS = ('rng', sym('n'), None)


def label(ranges):
    return 'over ' + ' '.join('%s in {%s}' % (r[1][1], ','.join(
        v[1] for v in r[2])) for r in ranges)


def outcome(s, v, want, rest=()):
    """compare a written out sum"""
    left = ()
    if v[0] == 'EXC':
        return 'raises %s' % v[1]
    if v[0] == 'obj' and v[1] == CLS:
        o = s.heap[v[2]]
        v, left = o['_term'], o['ranges'][1]
    elif v[0] == 't' and v[1][0] == 'rest':
        v, left = v[1][1], v[1][2][1]
    if v == NONE:
        return 'nothing at all, not %s' % (
            ' + '.join(map(written, want)) or 'zero')
    try:
        got = terms(v)
    except Stray as e:
        raise Open('the term %s' % e)
    return judged(got, want) or (
        None if sorted(map(str, left)) == sorted(map(str, rest)) else
        'a sum left over %s, not %s' % (
            [r[1][1] for r in left], [r[1][1] for r in rest]))


def writing(c):
    def listed():
        for rs in SETS:
            w = Space(c.repo)
            o = w.sum(T, *rs)
            for s, v in w.it.attr(w.st, o, 'terms'):
                if v[0] == 'EXC':
                    yield 'raises %s %s' % (v[1], label(rs))
                    continue
                x = w.it.items(w.it.loose(s, v))
                try:
                    got = [m for y in x for m in terms(y)]
                except Stray as e:
                    raise Open('the term %s' % e)
                why = judged(got, full(rs), True)
                yield why and why + ' ' + label(rs)
    c.judge('terms', c.at(SUM + '.terms'), listed)

    def length():
        for rs in SETS + ((ENDLESS,), (rng('i', 'a', 'b'), ENDLESS)):
            w = Space(c.repo)
            o = w.sum(T, *rs)
            want = ('EXC', 'InfiniteSumError') if ENDLESS in rs else num(
                len(full(rs)))
            for s, v in w.method(o, '__len__'):
                yield None if v == want else \
                    'the length %s, not %s' % (
                        lconst(v[1]) if v[0] == 'int' else v[1],
                        lconst(want[1]) if want[0] == 'int' else want[1])
    c.judge('length', c.at(SUM + '.__len__'), length)

    def whole():
        for rs in SETS:
            w = Space(c.repo)
            o = w.sum(T, *rs)
            for s, v in w.method(o, '_doit'):
                why = outcome(s, v, full(rs))
                yield why and why + ' ' + label(rs)
        w = Space(c.repo)
        o = w.sum(T, rng('i', 'a'), ENDLESS)
        for s, v in w.method(o, '_doit'):
            yield None if v == ('EXC', 'InfiniteSumError') else \
                'no InfiniteSumError for an endless sum'
    c.judge('full', c.at(SUM + '._doit_full'), whole)

    def truncated():
        for rs in SETS:
            for k in range(len(full(rs)) + 2):
                w = Space(c.repo)
                o = w.sum(T, *rs)
                for s, v in w.method(o, '_doit', max_terms=num(k)):
                    why = outcome(s, v, full(rs)[:k])
                    yield why and '%s %s, up to %d terms' % (
                        why, label(rs), k)
    c.judge('truncated', c.at(SUM + '._doit_full'), truncated)

    def partial():
        for rs in SETS:
            if len(rs) > 3:
                continue
            names = [r[1] for r in rs]
            for n in range(len(rs) + 1):
                for sel in itertools.permutations(names, n):
                    for form in ((sel, [('text', x[1]) for x in sel])
                                 if n else (sel,)):
                        w = Space(c.repo)
                        o = w.sum(T, *rs)
                        w.st, ind = w.it.alloc(w.st, 'list', form)
                        ind = ('tuple', tuple(form)) if n == 1 else ind
                        for s, v in w.method(o, '_doit', indices=ind):
                            known = dict(s.notes)
                            if False in [b for q, b in known.items()
                                         if q[0] == 'stays a sum']:
                                # a collapsed rest is judged by not failing
                                why = outcome(s, v, [], ()) if v[0] == 'EXC' \
                                    else None
                            else:
                                done = [r for r in rs if r[1] in sel]
                                rest = [r for r in rs if r[1] not in sel]
                                why = outcome(s, v, full(done), rest)
                            yield why and '%s %s, writing out %s' % (
                                why, label(rs), ' '.join(
                                    x[1] for x in sel) or 'nothing')
        w = Space(c.repo)
        o = w.sum(T, rng('i', 'a'), rng('j', 'b'))
        for s, v in w.method(o, '_doit', indices=('tuple', (sym('i'),)),
                             max_terms=num(1)):
            yield None if v == ('EXC', 'ValueError') else \
                'no ValueError for indices with max_terms'
    c.judge('partial', c.at(SUM + '._doit_over_indices'), partial)


def values(cls, f):
    if cls == 'IndexOverList':
        return [('val', x) for x in f[0]]
    if cls == 'IndexOverRange':
        a, b, d = f
        return [num(k) for k in range(a, b + (1 if d > 0 else -1), d)]
    return None if f[0] is None else [num(k) for k in range(f[0])]


CASES = {
    'IndexOverList': [((),), (('a',),), (('a', 'b', 'c'),),
                      (('b', 'a'),), (('a', 'a'),)],
    'IndexOverRange': [(a, b, d) for a, b in (
        (0, 3), (3, 0), (2, 2), (-1, 2), (1, 0), (0, 5), (5, -1))
        for d in (1, 2, -1, -2)],
    'IndexOverFockSpace': [(None,), (1,), (2,), (4,)]}


def ranging(c):
    def made(cls, f):
        w = Space(c.repo)
        w.st, o = w.it.range(w.st, cls, **dict(zip(
            w.it.slots(cls), [sym('i'), *((('tuple', tuple(
                ('val', x) for x in f[0])),) if cls == 'IndexOverList' else
                map(num, f) if cls == 'IndexOverRange' else
                (('space', f[0]),))])))
        return w, o

    def said(cls, f):
        return 'for %s' % (f if len(f) > 1 else f[0],)

    for cls in RANGES:
        def runs():
            for f in CASES[cls]:
                w, o = made(cls, f)
                for s, v in w.method(o, 'iter'):
                    want = values(cls, f)
                    if v[0] == 'EXC':
                        yield 'raises %s %s' % (v[1], said(cls, f))
                        continue
                    if v[0] == 'iter':
                        x = list(v[2])
                        if v[3]:
                            if want is None:
                                want = [num(k) for k in range(len(x))]
                        elif want is None:
                            yield 'ends for a space of unknown dimension'
                            continue
                    else:
                        x = w.it.items(w.it.loose(s, v))
                    got = []
                    for d in x:
                        p = w.it.pairs(s, d)
                        if len(p) != 1 or p[0][0] != sym('i'):
                            yield 'an index value that is not that of the ' \
                                'symbol'
                            break
                        got.append(p[0][1])
                    else:
                        yield None if got == want else 'not the values ' \
                            'of the range %s' % said(cls, f)
        c.judge('%s:values' % cls, c.at(MOD + cls + '.iter'), runs)

        def counts():
            for f in CASES[cls]:
                w, o = made(cls, f)
                want = values(cls, f)
                want = NONE if want is None else num(len(want))
                for s, v in w.method(o, '__len__'):
                    yield None if v == want or want == NONE and \
                        v[0] == 'EXC' else \
                        'another length %s' % said(cls, f)
        c.judge('%s:length' % cls, c.at(MOD + cls + '.__len__'), counts)

        def members(inner):
            for f in CASES[cls]:
                vs = values(cls, f)
                probe = [('val', x) for x in 'abcd'] \
                    if cls == 'IndexOverList' else \
                    [num(k) for k in range(-4, 8)]
                for p in probe:
                    want = lconst(p[1]) >= 0 if vs is None else p in vs
                    w, o = made(cls, f)
                    yield from inner(w, o, f, p, want)

        def contains():
            def inner(w, o, f, p, want):
                for s, v in w.method(o, '__contains__', p):
                    for _, b in w.it.truth(s, v):
                        yield None if b is want else \
                            '%s %s a value %s' % (
                                p[1] if p[0] == 'val' else lconst(p[1]),
                                'is not' if want else 'is', said(cls, f))
            yield from members(inner)
        c.judge('%s:contains' % cls, c.at(MOD + cls + '.__contains__'),
                contains)

        def one():
            def inner(w, o, f, p, want):
                for s, v in w.method(o, 'piecewise_one', p):
                    if v[0] != 'piecewise':
                        raise Open('no piecewise value')
                    x = picked(v, p)
                    yield None if x == num(int(want)) else \
                        'the weight of %s is not %d %s' % (
                            p[1] if p[0] == 'val' else lconst(p[1]),
                            want, said(cls, f))
            yield from members(inner)
        c.judge('%s:weight' % cls, c.at(MOD + cls + '.piecewise_one'), one)

        def subst():
            for f in CASES[cls]:
                for new in (None, sym('j'), sym("j'"), 'other'):
                    w, o = made(cls, f)
                    fs = dict(w.st.heap[o[2]])
                    d = ('dict', ((sym('z'), sym('j')),) if not new else
                         ((sym('i'), new),) if new != 'other' else
                         ((('val', 'a'), ('val', 'd')),
                          (('space', f[0]), ('space', 'other'))))
                    if new == 'other':
                        if 'values' in fs:
                            fs['values'] = ('tuple', tuple(
                                ('val', 'd') if x == ('val', 'a') else x
                                for x in fs['values'][1]))
                        if 'hs' in fs:
                            fs['hs'] = ('space', 'other')
                    elif new:
                        fs['index_symbol'] = new
                    for s, v in w.method(o, 'substitute', d):
                        if v[0] != 'made' or v[1] != cls:
                            raise Open('no range')
                        g = dict(v[2])
                        if cls == 'IndexOverRange':
                            g.setdefault('step', num(1))
                        if 'values' in g:
                            g['values'] = ('tuple', tuple(w.it.items(
                                w.it.loose(s, g['values']))))
                        yield None if g == fs else 'not the range ' \
                            'with what is replaced, %s' % said(cls, f)
        c.judge('%s:renaming' % cls, c.at(MOD + cls + '.substitute'), subst)


def picked(v, p):
    for val, cond in (b[1] if b[0] == 'tuple' else b for b in v[1]):
        if cond == ('bool', True):
            return val
        if cond[0] != 'within':
            raise Open('condition %s' % cond[0])
        b = cond[1]
        if b[0] == 'finite':
            hit = p in b[1]
        else:
            lo, hi = b[1:]
            hit = lconst(lo[1]) <= lconst(p[1]) and (
                hi == ('oo',) or lconst(p[1]) <= lconst(hi[1]))
        if hit:
            return val
    raise Open('no branch')


def check(repo, rep):
    rep.rule('indexed-sum', 'a range has the values its bounds say in each '
             'of its methods; writing out a sum adds the summand once for '
             'each combination of values')
    c = Judge(repo, rep)
    ranging(c)
    writing(c)
