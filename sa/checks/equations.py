"""Manipulating an equation does the same to both sides and keeps its history.

The methods of equations are followed along all paths for arbitrary sides
(terms of a free algebra); what they give is compared with a list of lines."""
import ast
import itertools
import re

from .patterns import Judge, Match, World
from ..linear import NONE, Open, lconst, num, truthy

EQ = 'qnet.algebra.toolbox.equation.Eq'
OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
       ast.MatMult: '@', ast.Pow: '**'}


def t(*x):
    return ('t', x)


def show(v):
    if v == NONE:
        return 'None'
    if v[0] == 't':
        return '%s(%s)' % (v[1][0], ','.join(
            x if isinstance(x, str) else show(x) for x in v[1][1:])) \
            if v[1][1:] else v[1][0]
    if v[0] == 'int':
        return str(lconst(v[1]))
    if v[0] == 'text':
        return str(v[1])
    if v[0] in ('tuple', 'dict') and not v[1]:
        return v[0]
    if v[0] == 'dict':
        return '{%s}' % ','.join('%s:%s' % (
            k if isinstance(k, str) else show(k), show(x)) for k, x in v[1])
    if v[0] == 'syms':
        return '{%s}' % ','.join(sorted(v[1]))
    return str(v[0])


class Sides(Match):
    def __init__(self, repo):
        super().__init__(repo)
        self.builders['substitute'] = lambda it, a, kw, st: [(
            st, self.applied('substitute', a, kw))]
        self.builders['grapheme_len'] = lambda it, a, kw, st: it.builtin(
            st, 'len', a, kw)

    @staticmethod
    def applied(f, args, kws):
        return t(f, *args, *[x for k in sorted(kws)
                             for x in (k, kws[k])])

    def attr(self, st, b, name, env=None):
        if b[0] == 't':
            if name in ('lhs', 'rhs', 'tag') or name.startswith('_prev') or \
                    b[1][0] == 'number':
                return [(st, ('EXC', 'AttributeError'))]
            if name in ('free_symbols', 'bound_symbols'):
                return [(st, ('syms', frozenset([
                    '%s of %s' % (name, show(b))])))]
            return [(st, ('fun', name, b))]
        if b[0] in ('int', 'none') and name in ('lhs', 'rhs', 'tag',
                                                'free_symbols',
                                                'bound_symbols'):
            return [(st, ('EXC', 'AttributeError'))]
        if b[0] in ('text', 'syms') and b[1] is not None:
            return [(st, ('bound', b, name))]
        return super().attr(st, b, name, env)

    def call(self, st, f, args, kws):
        if f[0] == 'fun':
            return [(st, self.applied(f[1], list(f[2:]) + args, kws))]
        if f == ('render',):
            return [(st, ('text', self.shown(args[0])))]
        return super().call(st, f, args, kws)

    @staticmethod
    def shown(v):
        return '<%s>' % show(v) if v[0] == 't' or v == NONE else show(v)

    def is_a(self, v, t):
        if v[0] in ('t', 'int') and t[0] in ('cls', 'G') and t[1].rpartition(
                '.')[2] in ('Eq', 'str', 'list', 'tuple', 'dict'):
            return False
        return super().is_a(v, t)

    def same(self, st, a, b):
        if a[0] == 't' and b[0] == 't':
            if a == b:
                return [(st, True)]
            return self.asks(st, ('same',) + tuple(sorted((
                show(a), show(b)))))
        if {a[0], b[0]} <= {'t', 'none', 'obj', 'int', 'text'} and \
                a[0] != b[0]:
            return [(st, False)]
        return super().same(st, a, b)

    def truth(self, st, v):
        if v[0] == 't':
            return self.asks(st, ('true', show(v)))
        if v[0] == 'text' and v[1] is not None:
            return [(st, bool(v[1]))]
        return super().truth(st, v)

    def e_UnaryOp(self, node, env, st):
        if isinstance(node.op, ast.USub):
            return [(s, t('neg', v) if v[0] == 't' else
                     ('int', {k: -x for k, x in v[1].items()})
                     if v[0] == 'int' and isinstance(v[1], dict) else
                     num(-lconst(v[1])) if v[0] == 'int' else v)
                    for s, v in self.ev(node.operand, env, st)]
        return super().e_UnaryOp(node, env, st)

    def e_BinOp(self, node, env, st):
        res = []
        for s, vs in self.evs([node.left, node.right], env, st):
            if vs and vs[0] == 'EXC':
                res.append((s, vs))
                continue
            a, b = vs
            if isinstance(node.op, ast.Mod) and a[0] == 'text':
                x = b[1] if b[0] == 'tuple' else (b,)
                res.append((s, ('text', a[1] % tuple(map(self.shown, x)))))
                continue
            try:
                a, b = (('syms', frozenset()) if v[0] == 'set' and
                        not self.content(s, v) else v for v in (a, b))
                if a[0] == b[0] == 'list':
                    res.append(self.alloc(s, 'list', self.content(s, a) +
                                          self.content(s, b)))
                    continue
                res.append((s, self.binop(node.op, a, b)))
            except Open:
                raise
        return res

    def s_AugAssign(self, node, env, st):
        if isinstance(node.target, ast.Name) and env.get(
                node.target.id, NONE)[0] not in ('list', 'set'):
            x = ast.BinOp(ast.Name(node.target.id, ast.Load()), node.op,
                          node.value)
            return self.values(x, env, st, lambda s, v: [
                (s, dict(env, **{node.target.id: v}), None)])
        return super().s_AugAssign(node, env, st)

    def binop(self, op, a, b):
        n = OPS.get(type(op))
        if 't' in (a[0], b[0]) and n and 'obj' not in (a[0], b[0]):
            return t(n, a, b)
        if a[0] == b[0] == 'syms' and isinstance(op, ast.BitOr):
            return ('syms', a[1] | b[1])
        if a[0] == b[0] == 'syms' and isinstance(op, ast.BitAnd):
            return ('syms', a[1] & b[1])
        if a[0] == b[0] == 'text' and n == '+' and None not in (a[1], b[1]):
            return ('text', a[1] + b[1])
        if {a[0], b[0]} == {'text', 'int'} and n == '*':
            x, y = (a, b) if a[0] == 'text' else (b, a)
            return ('text', x[1] * int(lconst(y[1])))
        return super().binop(op, a, b)

    def builtin(self, st, n, args, kws):
        n = n.rpartition('.')[2]
        if n in ('str', 'repr') and len(args) == 1:
            return [(st, ('text', self.shown(args[0])))]
        if n == 'int' and len(args) == 1:
            v = args[0]
            if v[0] == 'int':
                return [(st, v)]
            if v[0] == 'text' and v[1].isdigit():
                return [(st, num(int(v[1])))]
            return [(st, ('EXC', 'ValueError' if v[0] == 'text'
                          else 'TypeError'))]
        if n in ('max', 'min'):
            x = self.items(self.loose(st, args[0])) if len(args) == 1 \
                else args
            return [(st, num(int((max if n == 'max' else min)(
                lconst(y[1]) for y in x))))]
        if n == 'len' and args[0][0] == 'text':
            return [(st, num(len(args[0][1])))]
        if n == 'getattr' and args[0][0] == 't' and len(args) == 2:
            return self.attr(st, args[0], args[1][1])
        return super().builtin(st, n, args, kws)

    def bound(self, st, b, name, args, kws):
        if b[0] == 'list' and name == 'copy':
            return [self.alloc(st, 'list', self.content(st, b))]
        if b[0] == 'list' and name == 'pop' and len(args) <= 1:
            x = list(self.content(st, b))
            v = x.pop(int(lconst(args[0][1])) if args else -1)
            return [(self.store(st, b, x), v)]
        if b[0] == 'text' and name == 'join':
            x = self.items(self.loose(st, args[0]))
            return [(st, ('text', b[1].join(y[1] for y in x)))]
        if b[0] == 'text' and name in (
                'rstrip', 'strip', 'lstrip', 'ljust', 'rjust', 'format'):
            return [(st, ('text', getattr(b[1], name)(*[
                self.shown(x) if x[0] != 'int' or name == 'format' else
                int(lconst(x[1])) for x in args])))]
        if b[0] == 'syms' and name in ('union', 'copy'):
            x = b[1]
            for a in args:
                x |= a[1] if a[0] == 'syms' else frozenset(
                    self.content(st, a))
            return [(st, ('syms', x))]
        return super().bound(st, b, name, args, kws)


class Space(World):
    def __init__(self, repo):
        super().__init__(repo)
        self.it = Sides(repo)

    def eq(self, l, r, tag=NONE):
        return self.put(self.it.new('Eq', [l, r], {'tag': tag}, self.st))


# -- the model ----------------------------------------------------------------
def update(lines, l, r, tag, cont):
    return (lines if cont else ()) + ((l, r, tag),)


def step(name, k):
    """(name, args, kws, change of the sides)"""
    f, x, y = ('fun', 'f%d' % k), t('x%d' % k), t('y%d' % k)
    fl = lambda v: Sides.applied(f[1], [v, x], {'k': y})
    ml = lambda v: Sides.applied('m%d' % k, [v, x], {'k': y})
    vm = ('dict', (('v%d' % k, x),))
    mtd = ('text', 'm%d' % k)
    d = {'k': y}
    return {
        'apply': ([f, x], d, lambda l, r: (fl(l), fl(r))),
        'apply_to_lhs': ([f, x], d, lambda l, r: (fl(l), r)),
        'apply_to_rhs': ([f, x], d, lambda l, r: (l, fl(r))),
        'apply_mtd': ([mtd, x], d, lambda l, r: (ml(l), ml(r))),
        'apply_mtd_to_lhs': ([mtd, x], d, lambda l, r: (ml(l), r)),
        'apply_mtd_to_rhs': ([mtd, x], d, lambda l, r: (l, ml(r))),
        'substitute': ([vm], {}, lambda l, r: tuple(
            ('sub', v, vm) for v in (l, r))),
    }[name]


STEPS = ('apply', 'apply_to_lhs', 'apply_to_rhs', 'apply_mtd',
         'apply_mtd_to_lhs', 'apply_mtd_to_rhs', 'substitute')


def plain(v):
    """a substitution with its arguments in whatever form"""
    if v[0] == 'sub':
        return t('substitute', plain(v[1]), 'var_map', v[2])
    return v


def normal(s, known=()):
    """the substitution with a positional mapping is the same; what is equal
    on the path is written in one way"""
    rules = []

    def use(x):
        x = x.replace('var_map,', '')
        for _ in range(2):
            for a, b in rules:
                x = x.replace(b, a)
        return x
    facts = [f[1:] for f, b in dict(known).items()
             if f[0] == 'same' and b is True]
    for f in facts * 2:
        a, b = sorted(map(use, f), key=len)
        if a != b:
            rules.append((a, b))
    return use(s)


def same(a, b, known=()):
    return normal(show(a), known) == normal(show(b), known)


def plaintext(text):
    res = []
    for line in text.split('\n'):
        m = re.fullmatch(r'\s*(.*?)\s*=\s*(.*?)(?:\s+\((.*)\))?\s*', line)
        res.append(m and m.groups())
    return res


def latex(text):
    text = re.sub(r'\\(begin|end)\{\w+\}', '', text)
    res = []
    for line in text.split('\\\\'):
        m = re.fullmatch(r'\s*(.*?)\s*&?=\s*(.*?)\s*(?:\\tag\{(.*)\})?\s*',
                         line)
        res.append(m and m.groups())
    return res


def shown(lines, got, known):
    """do the printed lines show the equation?"""
    if len(got) != len(lines):
        return '%d lines for %d' % (len(got), len(lines))
    prev = None
    for (l, r, tag), g in zip(lines, got):
        sh = lambda v: normal(Sides.shown(v), known)
        if g is None:
            return 'a line that is no equation'
        left, right, no = g
        if normal(right, known) != sh(r):
            return 'the right-hand side %s, not %s' % (right, sh(r))
        if (no or '') != ('' if tag == NONE else show(tag)):
            return 'the tag %s, not %s' % (no, show(tag))
        equal = prev is not None and same(prev, l, known)
        if normal(left, known) != sh(l) and not (left == '' and equal):
            return 'the left-hand side %s, not %s' % (left or 'left out',
                                                     sh(l))
        prev = l
    return None


def inspect(w, o, lines, name):
    """what an equation shows of itself"""
    l, r, tag = lines[-1]
    printer = ('obj', 'QnetLatexPrinter', next(w.it.n))
    for attr, want in (('lhs', l), ('rhs', r), ('tag', tag)):
        for s, v in w.it.attr(w.st, o, attr):
            yield None if same(v, want, s.notes) else 'the %s after %s is %s, not %s' % (
                attr, name, show(v), show(want))
    for how in ('__str__', '__repr__'):
        for s, v in w.method(o, how):
            if v[0] != 'text' or v[1] is None:
                yield 'no text but %s' % (v[:2],)
                continue
            why = shown(lines, plaintext(v[1]), dict(s.notes))
            yield why and 'printed after %s: %s' % (name, why)
    hit = w.repo.lookup(w.repo.cls('QnetLatexPrinter'), '_print_Eq')
    w.it.fields['QnetLatexPrinter'] = lambda it, o, n, st: ('render',) \
        if n in ('doprint', '_print') else None
    s0 = w.st.copy()
    s0.heap[printer[2]] = {}
    for s, v in w.it.run(hit[0], hit[2], printer, [o], {}, s0):
        if v[0] != 'text' or v[1] is None:
            yield 'no text but %s' % (v[:2],)
            continue
        why = shown(lines, latex(v[1]), dict(s.notes))
        yield why and 'printed as LaTeX after %s: %s' % (name, why)


def after(w, o, lines, names, k):
    """follow one sequence of manipulations"""
    if not names:
        yield w.st, o, lines
        return
    (name, cont, tagged), rest = names[0], names[1:]
    args, kws, f = step(name, k)
    kws = dict(kws)
    if cont is not None:
        kws['cont'] = truthy(cont)
    tag = num(k + 7 if k != 2 else 0) if tagged else NONE
    if tagged:
        kws['tag'] = tag
    for s, v in w.method(o, name, *args, **kws):
        if v[0] == 'EXC':
            yield s, v, None
            continue
        l, r, _ = lines[-1]
        l2, r2 = (plain(x) for x in f(l, r))
        st, w.st = w.st, s
        yield from after(w, v, update(lines, l2, r2, tag, cont), rest, k + 1)
        w.st = st


def manipulations(c):
    for name in STEPS:
        def go(name=name):
            for (cont, tagged), n2, c2 in itertools.product(
                    ((None, False), (False, True), (True, True),
                     (True, False)), STEPS, (False, True)):
                if not c2 and cont is not True:
                    continue
                w = Space(c.repo)
                one = ((t('l'), t('r'), num(1)),)
                o = w.eq(*one[0])
                names = ((name, cont, tagged), (n2, c2, c2 and tagged))
                if n2 == 'apply':
                    names += (('apply_to_rhs', True, True),)
                for s, v, lines in after(w, o, one, names, 1):
                    if lines is None:
                        yield 'the error %s' % v[1]
                        continue
                    label = ' and '.join(x[0] for x in names)
                    st, w.st = w.st, s
                    yield from inspect(w, v, lines, label)
                    for why in inspect(w, o, one, 'a change'):
                        yield why and 'the equation itself: ' + why
                    w.st = st
        c.judge('both sides:' + name, c.at(EQ + '.' + name), go)

    def kept():
        for name, args, tag in (('copy', [], None),
                                ('set_tag', [num(5)], num(5)),
                                ('set_tag', [('text', 'a')], ('text', 'a')),
                                ('set_tag', [NONE], NONE)):
            for names in ((), (('apply_to_rhs', True, True),),
                          (('apply', True, False),
                           ('apply_to_rhs', True, True))):
                w = Space(c.repo)
                one = ((t('l'), t('r'), num(1)),)
                for s, v, lines in after(w, w.eq(*one[0]), one, names, 1):
                    st, w.st = w.st, s
                    for s2, u in w.method(v, name, *args):
                        if u[0] == 'EXC':
                            yield 'the error %s' % u[1]
                            continue
                        w.st = s2
                        l, r, g = lines[-1]
                        new = lines[:-1] + ((l, r, g if tag is None
                                             else tag),)
                        yield from inspect(w, u, new, name)
                        # what is done to the copy is not done to the original
                        for s3, x, more in after(w, u, new, (
                                ('apply', True, False),), 8):
                            w.st = s3
                            for s4, y, most in after(w, v, lines, (
                                    ('apply_to_rhs', True, True),), 9):
                                w.st = s4
                                for e, ls in ((v, lines), (u, new), (x, more),
                                              (y, most)):
                                    yield from inspect(w, e, ls, name)
                    w.st = st
    c.judge('kept', c.at(EQ + '.copy'), kept)

    def depth():
        for n in range(6):
            w = Space(c.repo)
            one = ((t('l'), t('r'), num(1)),)
            for s, v, lines in after(w, w.eq(*one[0]), one, (
                    ('apply_to_lhs', True, False),) + (
                        ('apply_to_rhs', True, n % 2 > 0),) * n, 1):
                w.st = s
                yield from inspect(w, v, lines, '%d steps' % (n + 1))
    c.judge('depth', c.at(EQ + '.lhs'), depth)

    def tags():
        for tag, want in ((NONE, NONE), (num(3), num(3)),
                          (('text', '3'), num(3)),
                          (('text', 'a'), ('text', 'a'))):
            w = Space(c.repo)
            yield from inspect(w, w.eq(t('l'), t('r'), tag),
                               ((t('l'), t('r'), want),), 'construction')
    c.judge('tags', c.at(EQ + '.__init__'), tags)


def arithmetic(c):
    l, r, l2, r2, x = (t(n) for n in ('l', 'r', 'l2', 'r2', 'x'))

    def case(name, sym, pair, flip=False):
        def go():
            op = (lambda a, b: t(sym, b, a)) if flip else \
                (lambda a, b: t(sym, a, b))
            alike = lambda a, b, k: same(a, b, k) or sym == '+' and \
                a[1][0] == '+' and same(t('+', *a[1][:0:-1]), b, k)
            for names in ((), (('apply', True, False),)):
                for other in ('value', 'number', 'equation', 'history')[
                        :4 if pair else 2]:
                    w = Space(c.repo)
                    one = ((l, r, num(1)),)
                    for s, v, lines in after(w, w.eq(l, r, num(1)), one,
                                             names, 1):
                        st, w.st = w.st, s
                        b = x if other == 'value' else num(2)
                        bl = br = b
                        if other == 'equation':
                            b, bl, br = w.eq(l2, r2), l2, r2
                        if other == 'history':
                            e = w.eq(l2, r2)
                            hist = list(after(w, e, ((l2, r2, NONE),), (
                                ('apply_to_rhs', True, False),), 5))
                            if len(hist) != 1:
                                raise Open('several histories')
                            (w.st, b, ls), = hist
                            bl, br, _ = ls[-1]
                        for s2, u in w.method(v, name, b):
                            if u[0] != 'obj':
                                yield 'the result %s' % show(u)
                                continue
                            w.st = s2
                            for a, wants in (
                                    ('lhs', op(lines[-1][0], bl)),
                                    ('rhs', op(lines[-1][1], br))):
                                for s3, g in w.it.attr(s2, u, a):
                                    yield None if g[0] == 't' and alike(
                                        g, wants, s3.notes) else \
                                        'the %s is %s, not %s' % (
                                            a, show(g), show(wants))
                            yield from inspect(w, v, lines, 'an operation')
                        w.st = st
        c.judge('operator:' + name, c.at(EQ + '.' + name), go)
    case('__add__', '+', True)
    case('__radd__', '+', True, True)
    case('__sub__', '-', True)
    case('__mul__', '*', False)
    case('__rmul__', '*', False, True)
    case('__truediv__', '/', False)

    def equality():
        for b, facts in (((l, r), ()), ((l2, r), (('l', 'l2'),)),
                         ((l, r2), (('r', 'r2'),)),
                         ((l2, r2), (('l', 'l2'), ('r', 'r2')))):
            w = Space(c.repo)
            o = w.eq(l, r, num(1))
            for s, v in w.method(o, '__eq__', w.eq(*b)):
                known = dict(s.notes)
                ans = [known.get(('same',) + p) for p in facts]
                for s2, g in w.it.truth(s, v) if v[0] != 'EXC' else \
                        [(s, v[1])]:
                    want = False if False in ans else \
                        None if None in ans else True
                    yield None if g == want else \
                        'equations with sides %s are %s' % (
                            ', '.join('%s %s' % ('same' if a else
                                                 'different', p)
                                      for p, a in zip(facts, ans)), g)
    c.judge('equality', c.at(EQ + '.__eq__'), equality)

    def verify():
        ex = lambda v: t('simplify_scalar', t('expand', v))
        res = t('-', ex(l), ex(r))
        for names in ((), (('apply_to_rhs', True, False),)):
            for args, kws, f in (
                    ((), {}, lambda v: v),
                    ((('fun', 'g'), x), {'k': r2},
                     lambda v: t('g', v, x, 'k', r2))):
                w = Space(c.repo)
                one = ((l, r, num(1)),)
                for s, v, lines in after(w, w.eq(l, r), one, names, 1):
                    st, w.st = w.st, s
                    a, b, _ = lines[-1]
                    want = f(t('-', ex(a), ex(b)))
                    for _, g in w.method(v, 'verify', *args, **kws):
                        yield None if g == want else '%s, not %s' % (
                            show(g), show(want))
                    w.st = st
    c.judge('verify', c.at(EQ + '.verify'), verify)

    def symbols():
        n = t('number')
        for a, b in ((l, r), (l, n), (n, r), (n, n)):
            for names in ((), (('apply_to_rhs', True, False),)):
                if names and n in (a, b):
                    continue
                w = Space(c.repo)
                for s, v, lines in after(w, w.eq(a, b), ((a, b, NONE),),
                                         names, 1):
                    sides = lines[-1][:2]
                    of = lambda *k: {'%s of %s' % (y, show(v)) for y in k
                                     for v in sides if v != n}
                    F, B = 'free_symbols', 'bound_symbols'
                    for q, want in ((F, of(F)), (B, of(B)),
                                    ('all_symbols', of(F, B))):
                        for s2, g in w.it.attr(s, v, q):
                            got = g[1] if g[0] == 'syms' else set(
                                w.it.content(s2, g)) if g[0] == 'set' \
                                else None
                            yield None if got == want else \
                                'the %s are %s, not %s' % (
                                    q, got if got is None else sorted(got),
                                    sorted(want))
    c.judge('symbols', c.at(EQ + '.free_symbols'), symbols)

    def mapping():
        w = Space(c.repo)
        one = ((l, r, num(1)),)
        for names in ((), (('apply_to_rhs', True, False),)):
            for s, v, lines in after(w, w.eq(l, r), one, names, 1):
                for s2, g in w.it.attr(s, v, 'as_dict'):
                    d = g[1] if g[0] == 'dict' else w.it.content(s2, g)
                    d = [(k, x) for k, x in d]
                    yield None if len(d) == 1 and same(
                        ('tuple', d[0]), ('tuple', lines[-1][:2])) else \
                        'the mapping %s' % (d,)
    c.judge('mapping', c.at(EQ + '.as_dict'), mapping)


def check(repo, rep):
    rep.rule('equation', 'manipulations do the same to the sides they name, '
             'keep the others, the history and the equation itself; what is '
             'printed are the lines of the history')
    c = Judge(repo, rep)
    manipulations(c)
    arithmetic(c)
