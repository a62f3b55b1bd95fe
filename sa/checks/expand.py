"""C09: expand() returns an equal expression in which the operands are
expanded and products and linear operations are distributed over sums."""
from . import leibniz
from ..algebra import show_nf
from ..calculus import (ZEROS, PRODUCTS, short_operation, instances, make_calc, unresolved,
                        Calc, Instance)
from ..core import where
from ..flow import SELF, Budget, const, mk_seq, walk, is_const, const_val
from ..model import flow, concrete_expressions, short
from .memberwise import matrix_method, slh_method, not_expression
from .adjoint import simplify_local, inline_all, conds_text

STOP = ('diff', '_diff', 'adjoint', 'substitute', 'series_expand', 'create',
        'expand')
DISTRIBUTE = ('QuantumPlus', 'QuantumTimes', 'ScalarTimesQuantumExpression',
              'QuantumIndexedSum', 'QuantumAdjoint', 'OperatorTrace',
              'Commutator', 'SPre', 'SPost') + tuple(PRODUCTS)
SUMMANDS = range(3)
METHODS = ('expand', '_expand')


def is_expansion(t):
    return t[0] == 'call' and t[1][0] == 'A' and t[1][2] in METHODS and \
        not t[2] and not t[3]


def is_val(t):
    """the SymPy value of an expansion"""
    return t[0] == 'A' and t[2] in ('val', '_val') and is_expansion(t[1])


def attr_hook(t):
    """the summands of an expansion that is a sum: three of them"""
    if t[2] in ('operands', 'args', '_operands') and (
            is_expansion(t[1]) or is_val(t[1])):
        return mk_seq('tuple', [('sub', t, const(k)) for k in SUMMANDS])
    return None


class ExpandCalc(Calc):
    """X.expand() is the sum of three summands, or something that is no sum"""
    plus = ()
    other = ()

    def d(self, t):
        if is_expansion(t):
            x = self.d(t[1][1])
            if x in self.operands or x[0] == 'atom':
                return self.expanded(x)
            return x
        if t[0] == 'sub' and is_const(t[2]) and t[1][0] == 'A' and \
                t[1][2] in ('operands', 'args', '_operands') and \
                (is_expansion(t[1][1]) or is_val(t[1][1])):
            e = t[1][1]
            x = self.d((e[1] if is_val(e) else e)[1][1])
            y = x[1] if x[0] == 'dag' else x
            if self.known is not None and y not in self.known:
                self.wrong = y
            return self.summand(x, const_val(t[2]))
        return super().d(t)

    operands = ()
    known = None
    wrong = None

    def summand(self, x, k):
        if x[0] == 'dag':
            return self.dag(self.summand(x[1], k))
        y = ('summand', x, k)
        if x in self.scalars:
            self.mark_scalar(y)
        return y

    def expanded(self, x):
        if x[0] == 'dag':
            return self.dag(self.expanded(x[1]))
        if x in self.plus:
            return self.sum([self.summand(x, k) for k in SUMMANDS])
        y = ('expanded', x)
        if x in self.scalars:
            self.mark_scalar(y)
        return y

    def facts(self, conds):
        super().facts(conds)
        self.plus, self.other = set(), set()
        for c, b in conds:
            if c[0] == 'isinst' and is_expansion(c[1]) and any(
                    plus_class(self.repo, x) for x in c[2]):
                x = self.d(c[1][1][1])
                if x[0] == 'dag':
                    x = x[1]
                (self.plus if b else self.other).add(x)
            if c[0] == 'isinst' and is_val(c[1]) and b and any(
                    x[0] == 'G' and x[1].endswith('.Add') for x in c[2]):
                self.plus.add(self.d(c[1][1][1][1]))

    def erase(self, x):
        """forget what is expanded"""
        if not isinstance(x, tuple):
            return x
        if x and x[0] == 'expanded':
            return x[1]
        return tuple(self.erase(y) for y in x)

    def expand_all(self, x):
        """the operands of x replaced by their expansions"""
        k = x[0]
        if x in self.operands:
            return self.expanded(x)
        if k == 'sum':
            return self.sum([self.expand_all(y) for y in x[1]])
        if k == 'prod':
            return self.prod([self.expand_all(y) for y in x[1] + x[2]])
        if k == 'dag':
            return self.dag(self.expand_all(x[1]))
        if k == 'f':
            lin = self.linear_param(x)
            if lin is not None and lin in dict(x[3]):
                m = dict(x[3])
                m[lin] = self.expand_all(m[lin])
                return self.linear(('f', x[1], x[2], tuple(
                    sorted(m.items(), key=repr))))
        return x


def plus_class(repo, t):
    if t[0] == 'A' and t[2] == '_plus_cls':
        return True
    c = t[0] == 'G' and repo.classes.get(t[1])
    return bool(c) and repo.is_sub(c, 'QuantumPlus')


def operands_of(dn, x, scal=False):
    """the generic operands in a denotation"""
    k = x[0]
    if k == 'atom':
        return {x}
    if k in ('sum',):
        return set().union(*[operands_of(dn, y) for y in x[1]])
    if k == 'prod':
        return set().union(*[operands_of(dn, y) for y in x[1] + x[2]
                             if y[0] != 'num'])
    if k == 'dag':
        return operands_of(dn, x[1])
    if k == 'f':
        lin = dn.linear_param(x)
        if lin is not None and lin in dict(x[3]):
            return operands_of(dn, dict(x[3])[lin])
    return set()


def obligations(repo, rep, cls):
    found = repo.lookup(cls, '_expand')
    key = 'expand:%s' % cls.name
    if not found or found[1] != 'method':
        rep.undec(key, 'no _expand')
        return
    w = where(repo, found[0].module, found[2])
    full = any(repo.is_sub(cls, b) for b in DISTRIBUTE)
    n = 0
    seen = set()
    insts = [Instance({}, (), None, None, None)] if repo.is_sub(
        cls, 'QuantumDerivative') else instances(repo, cls)
    for inst in insts:
        f = flow(repo, inline=inline_all(*STOP), exact_self=cls,
                 max_paths=2000)
        f.attr_hook = attr_hook
        f.merging = False
        f.unroll = 100
        f.max_steps = 400000
        try:
            ps = f.summarise_method(cls, '_expand', heap=inst.heap,
                                    conds=inst.conds)
        except Budget:
            rep.undec(key, 'path budget')
            continue
        for p in ps or ():
            if p.out[0] != 'return':
                continue
            sig = (p.value, p.conds[len(inst.conds):], inst.args, inst.kwargs)
            if sig in seen:
                continue
            seen.add(sig)
            n += 1
            if inst.args is None:
                dn = Calc(repo, cls, None, None)
            else:
                dn = make_calc(repo, cls, inst)
            dn.__class__ = ExpandCalc
            dn.theory.setdefault('linear', {}).update(
                SPre='operand', SPost='operand')
            me = dn.self_nf()
            dn.operands = operands_of(dn, me) if full else set()
            dn.facts(p.conds[len(inst.conds):])
            known = set(dn.plus)
            if full:
                # an operand whose expansion is not examined may be a sum
                for x in dn.operands:
                    if x not in dn.other | dn.plus and x not in dn.scalars:
                        dn.plus.add(x)
            dn.known, dn.wrong = known, None
            got = dn.d(simplify_local(p.value))
            dn.known = None
            if dn.wrong is not None:
                rep.violation(key, w, 'the operands of the expansion of %s '
                              'are taken as summands where it may not be a '
                              'sum%s' % (show_nf(dn.wrong), conds_text(p)))
                continue
            bad = short_operation(repo, cls, p.value)
            if bad is not None:
                rep.violation(key, w, 'less than two operands: ' +
                              short(bad) + conds_text(p))
                continue
            want = dn.dist(dn.expand_all(me))
            if got == want:
                rep.ok(key)
                continue
            g2, w2 = dn.dist(got), want
            if unresolved(got) or unresolved(want):
                rep.undec(key, 'unresolved: ' + show_nf(got)[:200])
                continue
            if not full:
                # value only
                rep.decide(key, dn.erase(g2) == dn.erase(dn.dist(me)), w,
                           'expand of %s gives %s%s' % (
                               show_nf(me)[:120], show_nf(got)[:200],
                               conds_text(p)))
                continue
            same = merge_summands(dn, g2) == merge_summands(dn, w2)
            if not same:
                rep.violation(key, w, 'expand of %s gives %s, expected %s%s'
                              % (show_nf(me)[:120], show_nf(got)[:200],
                                 show_nf(want)[:200], conds_text(p)))
            elif g2 != w2:
                rep.violation(key, w, 'an operand is not expanded: expand of '
                              '%s gives %s%s' % (show_nf(me)[:120],
                                                 show_nf(got)[:200],
                                                 conds_text(p)))
            else:
                rep.violation(key, w, 'a product is not distributed: expand '
                              'of %s gives %s%s' % (show_nf(me)[:120],
                                                    show_nf(got)[:200],
                                                    conds_text(p)))
    if not n:
        rep.undec(key, 'no returning path')


def merge_summands(dn, x):
    """write unexpanded operands as their summands and distribute"""
    def rec(y):
        k = y[0]
        if k == 'expanded':
            return y[1]
        if y in dn.plus:
            return dn.sum([dn.summand(y, j) for j in SUMMANDS])
        if k == 'sum':
            return dn.sum([rec(z) for z in y[1]])
        if k == 'prod':
            return dn.prod([rec(z) for z in y[1] + y[2]])
        if k == 'dag':
            return dn.dag(rec(y[1]))
        if k == 'f':
            lin = dn.linear_param(y)
            if lin is not None and lin in dict(y[3]):
                m = dict(y[3])
                m[lin] = rec(m[lin])
                return dn.linear(('f', y[1], y[2], tuple(
                    sorted(m.items(), key=repr))))
        return y
    return dn.dist(rec(x))


def entry(repo, rep, cls):
    """expand() delegates to _expand()"""
    found = repo.lookup(cls, 'expand')
    key = 'entry:%s' % cls.name
    if not found or found[1] != 'method':
        rep.undec(key, 'no expand')
        return
    w = where(repo, found[0].module, found[2])
    f = flow(repo, inline=inline_all(*(STOP + ('_expand',))), exact_self=cls)
    for p in f.summarise_method(cls, 'expand'):
        if p.out[0] != 'return':
            continue
        v = p.value
        ok = is_expansion(v) and v[1][1] == SELF
        if ok or not unresolved(v):
            rep.decide(key, ok, w, 'expand() returns %s%s' % (
                short(v), conds_text(p)))
        else:
            rep.undec(key, short(v))


def c09(repo, rep):
    rep.rule('expansion', 'for every concrete quantum expression class, '
             'every instance (variadic operations at lengths 2 to 4) and '
             'every combination of operands whose expansion is or is not a '
             'sum (of three summands), the value of _expand equals the '
             'denotation of the object with the operands replaced by their '
             'expansions and all products distributed')
    rep.rule('value', 'for all other classes the value is preserved')
    for c in concrete_expressions(repo, 'QuantumExpression'):
        rep.count('classes')
        obligations(repo, rep, c)
        entry(repo, rep, c)
    rep.rule('entrywise', 'expanding a matrix or an SLH triple expands every '
             'entry in its place')

    def call(e):
        return 'call', ('A', e, 'expand'), (), ()

    matrix_method(repo, rep, 'entrywise', 'expand', {}, lambda k, e, x, conds:
                  x == call(e) or x == e and not_expression(repo, e, conds),
                  [x for x in STOP if x != 'expand'])
    slh_method(repo, rep, 'entrywise', 'expand', STOP,
               lambda m, x: x == call(m))
    leibniz.check(repo, rep)
