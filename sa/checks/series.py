"""C08: power series: the coefficients of every expression follow from those
of its operands (Cauchy product, linearity), default to the Taylor
coefficients, and there are exactly order + 1 of them."""
from fractions import Fraction
from math import factorial

from ..algebra import show_nf, dotted
from ..calculus import (NONDEP, ZEROS, ONES, Instance, instances, make_calc,
                        short_operation, unresolved, Calc)
from ..core import where
from ..flow import (SELF, NONE, Budget, is_const, const_val, const, mk_seq,
                    walk)
from ..model import flow, concrete_expressions, short
from ..src import params_of
from .memberwise import matrix_method
from .adjoint import simplify_local, inline_all, conds_text

STOP = ('diff', '_diff', 'adjoint', 'substitute', 'series_expand', 'create',
        'is_scalar')


def hook(t):
    f = t[1]
    if f[0] == 'A' and f[2] in ('series_expand', '_series_expand') and \
            len(t[2]) == 3 and not t[3] and is_const(t[2][2]) and \
            isinstance(const_val(t[2][2]), int):
        return mk_seq('tuple', [('sub', t, const(k))
                                for k in range(const_val(t[2][2]) + 1)])
    return None


def setup(dn, sym, about):
    """attach the coefficient functional to a Calc instance"""
    dn.sym = sym
    dn.about = about
    dn.__class__ = SeriesCalc
    return dn


class SeriesCalc(Calc):
    def coef(self, x, k):
        y = self.coef0(x, k)
        if x in self.scalars:
            self.mark_scalar(y)
        return y

    def coef0(self, x, k):
        t = x[0]
        if t == 'num':
            return x if k == 0 else ('num', 0)
        if t == 'sum' and not any(y[0] == 'star' for y in x[1]):
            return self.sum([self.coef(y, k) for y in x[1]])
        if t == 'dag':
            return self.dag(self.coef(x[1], k))
        if t == 'prod' and not any(y[0] == 'star' for y in x[1] + x[2]):
            fs = list(x[1] + x[2])
            res = []
            for ks in splits(k, len(fs)):
                res.append(self.prod([self.coef(y, j)
                                      for y, j in zip(fs, ks)]))
            return self.sum(res)
        if t == 'atom' and x[1][0] in ('C', 'kw'):
            return x if k == 0 else ('num', 0)
        if t == 'f':
            if x[2] and not x[3] or x[2] and all(
                    a in NONDEP for a, _ in x[3]):
                if all(y[0] == 'star' and self.known_empty(y[2])
                       for y in x[2]):
                    return x if k == 0 else ('num', 0)
            lin = self.linear_param(x)
            if lin is not None and lin in dict(x[3]):
                m = dict(x[3])
                m[lin] = self.coef(m[lin], k)
                return self.linear(('f', x[1], x[2], tuple(
                    sorted(m.items(), key=repr))))
            if self.constant(x):
                return x if k == 0 else ('num', 0)
        if t == 'D':
            n = 0
            y = x
            while y[0] == 'D':
                n += 1
                y = y[1]
            return self.prod([('num', Fraction(
                factorial(n + k), factorial(k))), self.coef(y, n + k)])
        if ('coef', x, k) in self.zero:
            return ('num', 0)
        return ('coef', x, k)

    empty = ()

    def known_empty(self, src):
        return src in self.empty

    def d(self, t):
        if t == ('A', SELF, '_zero'):
            return ('num', 0)
        if t == ('A', SELF, '_one'):
            return ('num', 1)
        if t[0] == 'sub' and is_const(t[2]) and t[1][0] == 'call' and \
                t[1][1][0] == 'A' and t[1][1][2] == 'series_expand':
            if t[1][2][:2] != (self.sym, self.about):
                return ('atom', ('C', 'str', 'series for other arguments'))
            return self.coef(self.d(t[1][1][1]), const_val(t[2]))
        return super().d(t)

    def call(self, t):
        f, args = t[1], t[2]
        if f[0] == 'A' and f[2] == 'substitute' and args == (
                ('dict', ((self.sym, self.about),)),):
            return self.coef(self.d(f[1]), 0)
        if dotted(f) in ('sympy.factorial', 'math.factorial') and \
                len(args) == 1 and is_const(args[0]):
            return ('num', factorial(const_val(args[0])))
        if dotted(f) == 'sympy.Rational' and args and all(
                is_const(a) for a in args):
            return ('num', Fraction(*[const_val(a) for a in args]))
        return super().call(t)

    def apply(self, x):
        x = super().apply(x)
        if x[0] == 'prod':
            for z in self.zero:
                lead, rest = z, []
                if z[0] == 'sum':
                    lead = min(z[1], key=repr)
                    rest = [y for y in z[1] if y != lead]
                if lead[0] != 'prod' or lead in rest:
                    continue
                nums = [y for y in lead[1] if y[0] == 'num']
                y = self.cancel(x, lead, rest)
                if y is not None and not nums:
                    return self.apply(self.dist(y))
        elif x[0] == 'sum':
            for z in self.zero:
                if z[0] == 'sum':
                    lead = min(z[1], key=repr)
                    if lead in x[1]:
                        return self.apply(self.sum(
                            [y for y in x[1] if y != lead] +
                            [self.prod([('num', -1), y])
                             for y in z[1] if y != lead]))
        return x

    def cancel(self, x, lead, rest):
        """x with the factor `lead` replaced by -rest"""
        sc = list(x[1])
        for y in lead[1]:
            if y not in sc:
                return None
            sc.remove(y)
        n = len(lead[2])
        f = list(x[2])
        if self.commuting:
            for y in lead[2]:
                if y not in f:
                    return None
                f.remove(y)
            pre, post = f, []
        else:
            for i in range(len(f) - n + 1):
                if tuple(f[i:i + n]) == lead[2]:
                    pre, post = f[:i], f[i + n:]
                    break
            else:
                return None
        return self.sum([self.prod(sc + pre + [('num', -1), y] + post)
                         for y in rest])

    pathconds = ()

    def natural(self, e):
        """the path conditions say that e = int(x) equals x and is positive"""
        if not (e[0] == 'call' and e[1] == ('G', 'builtins.int')):
            return False
        eq = any(b and c[0] == 'cmp' and c[1] == '==' and
                 {c[2], c[3]} == {e, e[2][0]} for c, b in self.pathconds)
        pos = any(c[0] == 'cmp' and c[1] in ('<', '<=') and
                  (c[2], c[1], c[3], b) in (
                      (e, '<', const(1), False), (e, '<=', const(0), False),
                      (const(0), '<', e, True), (const(1), '<=', e, True))
                  for c, b in self.pathconds)
        return eq and pos

    def construct(self, c, args, kws):
        if c.name == 'ScalarTimes' and len(args) == 1 and args[0][0] == '*':
            m = args[0][1]
            if m[0] == 'map' and not m[3] and m[2][0] == 'call' and \
                    m[2][1] == ('G', 'builtins.range') and \
                    len(m[2][2]) == 1 and not any(
                        isinstance(y, tuple) and y and y[0] == 'elem'
                        for y in walk(m[1])):
                e = m[2][2][0]
                n = self.d(e)
                if not self.natural(e):
                    return ('atom', ('C', 'str', 'repeated product for an '
                                     'exponent that may not be a natural '
                                     'number'))
                b = self.d(m[1])
                pw = self.repo.maybe_cls('ScalarPower')
                if pw is not None:
                    return ('f', 'ScalarPower', (), tuple(sorted(
                        {'b': b, 'e': n}.items(), key=repr)))
        return super().construct(c, args, kws)

    def facts(self, conds):
        super().facts(conds)
        self.pathconds = tuple(conds)
        for z in list(self.zero):
            n, y = 0, z
            while y[0] == 'D':
                n, y = n + 1, y[1]
            if z[0] != 'coef':
                for k in range(n, 8):
                    self.zero.add(('coef', y, k))
        self.zero |= {self.dist(z) for z in self.zero}
        self.empty = {x for c, b in conds for x in [empty_seq(c, b)] if x}


def empty_seq(c, b):
    """the sequence that a condition says is empty"""
    if c[0] == 'cmp' and len(c) == 4:
        for l, r in ((c[2], c[3]), (c[3], c[2])):
            if l[0] == 'call' and l[1] == ('G', 'builtins.len') and \
                    r == const(0) and c[1] in ('==', '!='):
                return base(l[2][0]) if b == (c[1] == '==') else None
            if l[0] == 'call' and l[1] == ('G', 'builtins.len') and \
                    r == const(1) and c[1] == '<' and l == c[2]:
                return base(l[2][0]) if b else None
    if not b and c[0] in ('A', 'P', 'seq'):
        return base(c)
    return None


def base(t):
    while t[0] == 'seq' and len(t[2]) == 1 and t[2][0][0] == '*':
        t = t[2][0][1]
    if t[0] == 'map' and not t[3]:
        t = t[2]
    return t


def splits(k, n):
    if n == 1:
        yield (k,)
        return
    for i in range(k + 1):
        for rest in splits(k - i, n - 1):
            yield (i,) + rest


def fix(dn, x):
    for _ in range(3):
        y = dn.apply(dn.dist(x))
        if y == x:
            break
        x = y
    return x


def plain_instances(repo, cls, lengths):
    if repo.is_sub(cls, 'QuantumDerivative'):
        return [Instance({}, (), None, None, None)]
    return instances(repo, cls, lengths)


def rule_obligations(repo, rep, cls, order, lengths):
    found = repo.lookup(cls, '_series_expand')
    key = 'series:%s' % cls.name
    if not found or found[1] != 'method':
        rep.undec(key, 'no _series_expand')
        return
    pos = params_of(found[2])[0]
    if len(pos) < 4:
        rep.undec(key, 'signature')
        return
    sym, about = ('P', pos[1]), ('P', pos[2])
    w = where(repo, found[0].module, found[2])
    n = 0
    seen = set()
    for inst in plain_instances(repo, cls, lengths):
        try:
            f = flow(repo, inline=inline_all(*STOP), exact_self=cls,
                     max_paths=3000)
            f.call_hook = hook
            f.merging = False
            f.max_steps = 400000
            ps = f.summarise_method(cls, '_series_expand', heap=inst.heap,
                                    conds=inst.conds,
                                    args={pos[3]: const(order)})
        except Budget:
            rep.undec(key, 'path budget')
            continue
        for p in ps or ():
            if p.out[0] != 'return':
                continue
            sig = (p.value, p.conds[len(inst.conds):], inst.args, inst.kwargs)
            if sig in seen:
                continue
            seen.add(sig)
            n += 1
            v = p.value
            if v[0] != 'seq' or any(x[0] == '*' for x in v[2]):
                rep.undec(key, short(v))
                continue
            bad = short_operation(repo, cls, v)
            if bad is not None:
                rep.decide(key, False, w, 'less than two operands: ' +
                           short(bad) + conds_text(p))
                continue
            rep.decide(key, len(v[2]) == order + 1, w, 'an expansion to '
                       'order %d has %d coefficients%s' % (
                           order, len(v[2]), conds_text(p)))
            for k, x in enumerate(v[2][:order + 1]):
                if inst.args is None:
                    dn = Calc(repo, cls, None, None)
                else:
                    dn = make_calc(repo, cls, inst, sym)
                dn = setup(dn, sym, about)
                me = dn.self_nf()
                dn.facts(p.conds[len(inst.conds):])
                got = fix(dn, dn.d(simplify_local(x)))
                want = fix(dn, dn.coef(me, k))
                if got == want:
                    rep.ok(key)
                elif unresolved(got) or unresolved(want):
                    rep.undec(key, 'unresolved: %s / %s' % (
                        show_nf(got)[:200], show_nf(want)[:100]))
                else:
                    rep.violation(key, w, 'coefficient %d of %s is %s, '
                                  'expected %s%s' % (
                                      k, show_nf(me)[:120],
                                      show_nf(got)[:200],
                                      show_nf(want)[:200], conds_text(p)))
    if not n:
        rep.undec(key, 'no returning path')


def entry_obligations(repo, rep, cls):
    """series_expand passes on what _series_expand computes, replaced by the
    zero or one of the algebra where it is zero or one"""
    found = repo.lookup(cls, 'series_expand')
    key = 'entry:%s' % cls.name
    if not found or found[1] != 'method':
        rep.undec(key, 'no series_expand')
        return
    pos = params_of(found[2])[0]
    w = where(repo, found[0].module, found[2])
    if len(pos) < 4:
        rep.undec(key, 'signature')
        return
    sym, about = ('P', pos[1]), ('P', pos[2])
    f = flow(repo, inline=inline_all(*(STOP + (
        '_series_expand', 'is_zero'))), exact_self=cls)
    f.call_hook = hook
    f.merging = False
    order = 1
    n = 0
    try:
        ps = f.summarise_method(cls, 'series_expand',
                                args={pos[3]: const(order)})
    except Budget:
        rep.undec(key, 'path budget')
        return
    for p in ps:
        if p.out[0] != 'return':
            continue
        n += 1
        v = p.value
        if v[0] != 'seq' or any(x[0] == '*' for x in v[2]):
            rep.undec(key, short(v))
            continue
        rep.decide(key, v[1] == 'tuple', w, 'the coefficients are returned '
                   'as a ' + v[1])
        rep.decide(key, len(v[2]) == order + 1, w, 'an expansion to order %d '
                   'has %d coefficients' % (order, len(v[2])))
        asserted = any(q.out[0] == 'raise' and 'AssertionError' in repr(
            q.out) for q in ps)
        src = ('call', ('A', SELF, '_series_expand'), (
            sym, about, const(order)), ())
        for k, x in enumerate(v[2][:order + 1]):
            me = ('sub', src, const(k))
            if x == me:
                for val in (0, 1):
                    if tested(p, me, val):
                        rep.ok(key)
                    elif asserted:
                        rep.decide(key, False, w, 'a coefficient %d is not '
                                   'replaced by that of the algebra%s' % (
                                       val, conds_text(p)))
                    else:
                        rep.undec(key, 'no test for %d' % val)
                continue
            zero = x == ('A', SELF, '_zero') or is_named(repo, cls, x, 'zero')
            one = x == ('A', SELF, '_one') or is_named(repo, cls, x, 'one')
            if zero or one:
                val = const(0 if zero else 1)
                ok = zero and cls.name in ZEROS or any(b and (
                    (c[0] == 'cmp' and c[1] in ('==', 'is') and
                     {c[2], c[3]} == {me, val}) or
                    (zero and c == ('A', me, 'is_zero')))
                    for c, b in p.conds)
                rep.decide(key, ok, w, 'coefficient %d is replaced by %s%s' % (
                    k, short(x), conds_text(p)))
            elif unresolved(x):
                rep.undec(key, short(x))
            else:
                rep.decide(key, False, w, 'coefficient %d becomes %s%s' % (
                    k, short(x), conds_text(p)))
    if not n:
        rep.undec(key, 'no returning path')


def tested(p, me, val):
    return any(not b and c[0] == 'cmp' and c[1] == '==' and
               {c[2], c[3]} == {me, const(val)} for c, b in p.conds)


def is_named(repo, cls, x, which):
    if x[0] != 'G':
        return False
    c = repo.classes.get(x[1])
    if c is None or c.name not in (ZEROS if which == 'zero' else ONES):
        return False
    for base in ('Operator', 'SuperOperator', 'State', 'Scalar'):
        if repo.is_sub(cls, base):
            return repo.is_sub(c, base)
    return False


def c08(repo, rep):
    rep.rule('coefficients', 'for every concrete quantum expression class, '
             'every instance (variadic operations at lengths 2 to 4) and '
             'the orders 0, 1 and 2 (to order 5 for the '
             'Taylor rule), every element returned on every path '
             'equals the coefficient the operands imply: linear in sums and '
             'linear operations, Cauchy product for products, zero above '
             'order zero for constants, Taylor coefficients otherwise; the '
             'tuple has order + 1 elements')
    rep.rule('entry', 'series_expand returns these elements, replaced by the '
             'zero/one of the algebra only where they equal zero/one')
    for c in concrete_expressions(repo, 'QuantumExpression'):
        if c.name == 'ScalarValue':
            continue
        rep.count('classes')
        for order in (0, 1, 2):
            rule_obligations(repo, rep, c, order, (2, 3, 4))
        if rep.tier == 'thorough':
            rule_obligations(repo, rep, c, 3, (2,))
        found = repo.lookup(c, '_series_expand')
        if found and found[0].name == 'QuantumExpression':
            for order in (3, 4, 5):
                rule_obligations(repo, rep, c, order, (2,))
        entry_obligations(repo, rep, c)
    rep.rule('entrywise', 'the coefficients of a matrix are the matrices of '
             'the coefficients of its entries')
    m = repo.lookup(repo.cls('Matrix'), 'series_expand')
    if not m or m[1] != 'method' or len(params_of(m[2])[0]) != 4:
        rep.undec('entrywise:Matrix.series_expand', 'signature')
        return
    _, sym, about, order = params_of(m[2])[0]
    for n in (0, 1, 2):
        matrix_method(
            repo, rep, 'entrywise', 'series_expand', {order: const(n)},
            lambda k, e, x, conds: x == (
                'sub', ('call', ('A', e, 'series_expand'), (
                    ('P', sym), ('P', about), const(n)), ()), const(k)),
            [x for x in STOP if x != 'create'], hook, n + 1)
