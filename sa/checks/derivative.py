"""C07: differentiation is the derivation of the algebra: linear, Leibniz on
every product, commuting with the adjoint, zero on constants, and recorded
symbolically where there is no closed form."""
from ..algebra import show_nf, dotted
from ..calculus import (instances, make_calc, unresolved, short_operation, ZEROS, DEP, NONDEP)
from ..core import where
from ..flow import (SELF, NONE, Budget, is_const, const_val, const, walk,
                    mk_seq)
from ..model import flow, concrete_expressions, short
from ..src import params_of
from .adjoint import simplify_local, inline_all, conds_text

STOP = ('diff', '_diff', 'adjoint', 'substitute', 'series_expand',
        'is_scalar')
# no closed form: the derivative of the whole object stays symbolic
ATOMIC = {'PseudoInverse', 'NullSpaceProjector', 'SPre', 'SPost',
          'ScalarPower'}


def sym_of(fn):
    pos, var, kwonly, kw, defaults = params_of(fn)
    return ('P', pos[1]) if len(pos) > 1 else None


def expected(dn, cls, me):
    """normal forms the derivative of `me` may have"""
    if cls.name == 'CoherentStateKet' and me[0] == 'f':
        m = dict(me[3])
        a, hs = m.get('ampl'), m.get('hs')
        dn.mark_scalar(a)
        n = dn.prod([a, dn.dag(a)])
        dn.mark_scalar(dn.dag(a))
        create = ('f', 'Create', (), (('hs', hs),))
        e = dn.prod([dn.sum([dn.prod([dn.D(a), create]), dn.prod(
            [('num', -0.5), dn.D(n)])]), me])
        return [dn.dist(e), ('D', me)]
    if cls.name == 'ScalarPower' and me[0] == 'f':
        m = dict(me[3])
        b, e = m.get('b'), m.get('e')
        if b is None or e is None:
            return [('D', me)]
        p = ('f', 'ScalarPower', (), tuple(sorted(
            {'b': b, 'e': dn.sum([e, ('num', -1)])}.items(), key=repr)))
        full = dn.sum([dn.prod([e, p, dn.D(b)]), dn.prod(
            [('f', 'log', (b,), ()), me, dn.D(e)])])
        return [dn.dist(full), ('D', me)]
    res = [dn.dist(dn.D(me))]
    atom = me[0] == 'f' and dn.linear_param(me) is None or me[0] == 'atom'
    if atom:
        res.append(('D', me))
    return res


def zero_type(repo, cls, v):
    """a returned zero must be the zero of the right algebra"""
    if v[0] != 'G':
        return True
    c = repo.classes.get(v[1])
    if c is None or c.name not in ZEROS:
        return True
    for base in ('Operator', 'SuperOperator', 'State', 'Scalar'):
        if repo.is_sub(cls, base):
            return repo.is_sub(c, base)
    return True


def rule_obligations(repo, rep, cls):
    found = repo.lookup(cls, '_diff')
    key = 'derivative:%s' % cls.name
    if not found or found[1] != 'method':
        rep.undec(key, 'no _diff')
        return
    sym = sym_of(found[2])
    w = where(repo, found[0].module, found[2])
    n = 0
    try:
        for inst in instances(repo, cls):
            f = flow(repo, inline=inline_all(*STOP), exact_self=cls,
                     max_paths=600)
            ps = f.summarise_method(cls, '_diff', heap=inst.heap,
                                    conds=inst.conds)
            for p in ps or ():
                if p.out[0] != 'return':
                    continue
                n += 1
                bad = short_operation(repo, cls, p.value)
                if bad is not None:
                    rep.violation(key, w, 'less than two operands: ' +
                                  short(bad) + conds_text(p))
                    continue
                dn = make_calc(repo, cls, inst, sym)
                me = dn.self_nf()
                dn.facts(p.conds[len(inst.conds):])
                got = dn.apply(dn.dist(dn.d(simplify_local(p.value))))
                want = [dn.apply(x) for x in expected(dn, cls, me)]
                if not zero_type(repo, cls, p.value):
                    rep.violation(key, w, 'derivative of %s is %s, a zero of '
                                  'another algebra' % (cls.name,
                                                       short(p.value)))
                elif got in want:
                    rep.ok(key)
                elif unresolved(got) or any(unresolved(x) for x in want):
                    rep.undec(key, 'unresolved: ' + show_nf(got)[:200])
                else:
                    rep.violation(
                        key, w, 'derivative of %s is %s, expected %s%s' % (
                            show_nf(me)[:160], show_nf(got)[:200],
                            show_nf(want[0])[:200], conds_text(p)))
    except Budget:
        rep.undec(key, 'path budget')
    if not n:
        rep.undec(key, 'no returning path')


# -- symbolic derivatives -----------------------------------------------------

def _attr(t, *names):
    return any(t == ('A', SELF, n) for n in names)


def fresh(t):
    """a copy (mutating it does not touch the object itself)"""
    return t[0] in ('dict', 'call') and not _attr(
        t, '_derivs', '_vals', '_ordered_derivs', '_ordered_vals')


def mutates_self(t):
    """some container of the object itself is modified in place"""
    return any(isinstance(x, tuple) and len(x) == 4 and x[0] == 'call' and
               isinstance(x[1], tuple) and x[1][0] == 'A' and
               x[1][2] in ('.setitem', '.mut', 'update') and
               _attr(x[1][1], '_derivs', '_vals')
               for x in walk(t))


def is_derivs(t):
    while t[0] == 'call' and (
            (t[1][0] == 'A' and t[1][2] == 'copy' and not t[2]) or
            (dotted(t[1]) in ('builtins.dict', 'collections.OrderedDict')
             and len(t[2]) == 1)):
        t = t[1][1] if t[1][0] == 'A' else t[2][0]
    return _attr(t, '_derivs', 'derivs', '_ordered_derivs')


def is_vals(t):
    while t[0] == 'call' and (
            (t[1][0] == 'A' and t[1][2] == 'copy' and not t[2]) or
            (dotted(t[1]) in ('builtins.dict', 'collections.OrderedDict')
             and len(t[2]) == 1)):
        t = t[1][1] if t[1][0] == 'A' else t[2][0]
    return _attr(t, '_vals', 'vals', '_ordered_vals')


def is_operand(t):
    return t in (('A', SELF, 'operand'),
                 ('sub', ('A', SELF, 'operands'), const(0)),
                 ('sub', ('A', SELF, '_operands'), const(0)),
                 ('sub', ('A', SELF, 'args'), const(0)))


def is_incremented(t, sym):
    """derivs with the order of sym raised by one"""
    def get(x):
        if x[0] == 'sub' and x[2] == sym and is_derivs(x[1]):
            return True
        return x[0] == 'call' and x[1][0] == 'A' and x[1][2] == 'get' and \
            len(x[2]) == 2 and x[2] == (sym, const(0)) and \
            is_derivs(x[1][1])

    def plus1(x):
        return x[0] == 'bin' and x[1] == '+' and (
            (get(x[2]) and x[3] == const(1)) or
            (get(x[3]) and x[2] == const(1)))
    if is_derivs(t):
        return False
    if t[0] == 'call' and t[1][0] == 'A' and t[1][2] == '.setitem':
        return fresh(t[1][1]) and is_derivs(t[1][1]) and len(t[2]) == 2 and \
            t[2][0] == sym and plus1(t[2][1])
    if t[0] == 'dict':
        m = list(t[1])
        return len(m) == 2 and m[0][0] == '**' and is_derivs(m[0][1]) and \
            m[1][0] == sym and plus1(m[1][1])
    return None


def independent(p):
    """the path is taken only if no value of the evaluation point depends on
    the symbol"""
    return any(c[0] == 'bin' and c[1] == '&' and not b and any(
        isinstance(x, tuple) and x and is_vals(x) for x in walk(c))
        for c, b in p.conds)


def derivative_obligations(repo, rep, cls):
    """d/dx of a symbolic derivative: the order of x grows by one and nothing
    else changes"""
    found = repo.lookup(cls, '_diff')
    key = 'higher-derivative:%s' % cls.name
    if not found or found[1] != 'method':
        rep.undec(key, 'no _diff')
        return
    sym = sym_of(found[2])
    w = where(repo, found[0].module, found[2])
    f = flow(repo, inline=inline_all(*(STOP + ('operand', 'vals', 'derivs',
                                               'operands', 'args'))),
             exact_self=cls)
    ps = f.summarise_method(cls, '_diff')
    n = 0
    for p in ps:
        if p.out[0] != 'return':
            continue
        n += 1
        v = p.value
        g = v[0] == 'G' and repo.classes.get(v[1])
        if (g and g.name in ZEROS) or v == ('A', SELF, '_zero'):
            ok = any(b and c[0] == 'cmp' and c[1] == 'in' and c[2] == sym and
                     any(is_vals(x) for x in walk(c[3]))
                     for c, b in p.conds) and independent(p)
            rep.decide(key, ok and zero_type(repo, cls, v), w,
                       'derivative of a derivative is zero%s' %
                       conds_text(p))
            continue
        if v == SELF:
            rep.decide(key, False, w, 'the derivative of a derivative is the '
                       'derivative itself' + conds_text(p))
            continue
        if v[0] != 'call':
            rep.undec(key, short(v))
            continue
        kw = dict(v[3])
        own = v[1] in (('call', ('G', 'builtins.type'), (SELF,), ()),) or (
            v[1][0] == 'G' and repo.classes.get(v[1][1]) is cls) or \
            v[1] == ('A', SELF, '_derivative_cls')
        if not own or len(v[2]) != 1 or set(kw) - {'derivs', 'vals'}:
            rep.undec(key, short(v))
            continue
        d = kw.get('derivs', NONE)
        rep.decide(key, not mutates_self(v), w, 'the object itself is '
                   'modified: ' + short(v))
        if d == NONE:
            rep.decide(key, False, w, 'the orders of the derivative are lost')
            continue
        if v[2][0] == SELF:
            ok = d == ('dict', ((sym, const(1)),)) and \
                kw.get('vals', NONE) == NONE
            rep.decide(key, ok, w, 'nested derivative is ' + short(v))
            continue
        if not is_operand(v[2][0]):
            rep.undec(key, short(v))
            continue
        inc = is_incremented(d, sym)
        if inc is None:
            rep.undec(key, short(d))
            continue
        guarded = independent(p) or not is_vals(kw.get('vals', NONE))
        unevaluated = any(
            not b and c[0] == 'cmp' and c[1] == 'in' and c[2] == sym and
            any(is_vals(x) for x in walk(c[3])) for c, b in p.conds)
        rep.decide(key, unevaluated, w, 'the derivative with respect to an '
                   'evaluated symbol is not zero: ' + short(v))
        rep.decide(key, inc, w, 'the orders of the derivative become '
                   + short(d))
        rep.decide(key, is_vals(kw.get('vals', NONE)), w,
                   'the evaluation point becomes ' +
                   short(kw.get('vals', NONE)))
        rep.decide(key, guarded, w, 'an evaluation point that depends on '
                   'the symbol is not taken into account')
    if not n:
        rep.undec(key, 'no returning path')


# -- entry point ---------------------------------------------------------------

def entry_obligations(repo, rep, cls):
    """diff(sym, n): the n-th derivative, or the zero of the algebra if the
    symbol does not occur"""
    found = repo.lookup(cls, 'diff')
    key = 'diff:%s' % cls.name
    if not found or found[1] != 'method':
        rep.undec(key, 'no diff')
        return
    pos = params_of(found[2])[0]
    w = where(repo, found[0].module, found[2])
    if len(pos) < 3:
        rep.undec(key, 'signature')
        return
    sym, num = ('P', pos[1]), ('P', pos[2])
    f = flow(repo, inline=inline_all(*(STOP + ('create', 'free_symbols',
                                               'expand', 'simplify_scalar',
                                               'is_zero'))), exact_self=cls)
    for p in f.summarise_method(cls, 'diff'):
        if p.out[0] != 'return':
            continue
        v = p.value
        while v[0] == 'call' and v[1][0] == 'A' and v[1][2] in (
                'expand', 'simplify_scalar') and not v[2]:
            v = v[1][1]
        c = v[0] == 'G' and repo.classes.get(v[1])
        if (c and c.name in ZEROS) or v == ('A', SELF, '_zero'):
            ok = any(absent_symbol(c2, b, sym) for c2, b in p.conds)
            rep.decide(key, ok and zero_type(repo, cls, v), w,
                       'the derivative is %s%s' % (short(v), conds_text(p)))
        elif v[0] == 'call' and v[1][0] == 'A' and v[1][2] == 'create' and (
                v[1][1] == ('A', SELF, '_derivative_cls') or
                (v[1][1][0] == 'G' and repo.classes.get(v[1][1][1])
                 and repo.is_sub(repo.classes[v[1][1][1]],
                                 'QuantumDerivative'))):
            kw = dict(v[3])
            ok = v[2] == (SELF,) and kw.get('vals', NONE) == NONE and \
                kw.get('derivs') == ('dict', ((sym, num),)) and \
                not set(kw) - {'derivs', 'vals'}
            rep.decide(key, ok, w, 'the n-th derivative is ' + short(v))
        else:
            rep.undec(key, short(v))


def absent_symbol(c, b, sym):
    fs = ('A', sym, 'free_symbols')
    mine = ('A', SELF, 'free_symbols')
    if c[0] == 'call' and c[1][0] == 'A' and c[1][2] == 'issubset' and \
            c[1][1] == fs and c[2] == (mine,):
        return not b
    if c[0] == 'cmp' and c[1] == '<=' and c[2] == fs and c[3] == mine:
        return not b
    if c[0] == 'call' and c[1][0] == 'A' and c[1][2] == 'issuperset' and \
            c[1][1] == mine and c[2] == (fs,):
        return not b
    if c[0] == 'cmp' and c[1] == 'in' and c[2] == sym and c[3] == mine:
        return not b
    return False


def via_diff_obligations(repo, rep):
    """the canonical form of a derivative: repeated _diff, in any order of the
    symbols, as often as requested, evaluated at the requested values"""
    q = 'qnet.algebra.core.algebraic_properties.derivative_via_diff'
    key = 'evaluation:derivative_via_diff'
    try:
        mod, fn = repo.func(q)
    except Exception:
        rep.undec(key, 'not found')
        return
    pos = params_of(fn)[0]
    w = where(repo, mod, fn)
    op, s1, s2, V = [('P', x) for x in ('OP', 'S1', 'S2', 'V')]
    pairs = mk_seq('tuple', [mk_seq('tuple', [s1, const(2)]),
                             mk_seq('tuple', [s2, const(1)])])

    def once(x, s):
        return ('call', ('A', x, '_diff'), (s,), ())
    full = once(once(once(op, s1), s1), s2)
    full2 = once(once(once(op, s2), s1), s1)
    for vals in (NONE, V):
        args = dict(zip(pos, (('P', 'cls'), mk_seq('tuple', [op]), (
            'dict', ((const('derivs'), pairs), (const('vals'), vals))))))
        f = flow(repo, inline=lambda n: False)
        for p in f.summarise(mod, fn, args=args):
            if p.out[0] != 'return':
                continue
            if any(b and c[0] == 'cmp' and c[1] in ('is', '==') and
                   {c[2], c[3]} == {V, NONE} for c, b in p.conds):
                continue
            v = p.value
            absent = [c for c, b in p.conds if not b and c[0] == 'call' and
                      c[1][0] == 'A' and c[1][2] == 'issubset']
            if v[0] == 'A' and v[2] == '_zero':
                rep.decide(key, bool(absent), w, 'zero' + conds_text(p))
                continue
            d = v
            if vals == V:
                good = False
                if d[0] == 'call' and d[1][0] == 'A' and d[1][2] in (
                        'evaluate_at', 'substitute') and len(d[2]) == 1:
                    a = d[2][0]
                    good = a in (V, ('dict', (('**', V),))) or (a[0] == 'call' and dotted(a[1]) in (
                        'builtins.dict', 'collections.OrderedDict') and
                        a[2] == (V,))
                    if d[1][2] == 'substitute' and a == V:
                        good = False   # a tuple is not a mapping
                    d = d[1][1]
                rep.decide(key, good, w, 'with evaluation point the value '
                           'is ' + short(v))
            if unresolved(d):
                rep.undec(key, short(d))
            else:
                rep.decide(key, d in (full, full2), w, 'orders {s1: 2, s2: 1}'
                           ' give ' + short(d))


    # orders of unknown size
    n1, n2 = ('P', 'N1'), ('P', 'N2')
    pairs = mk_seq('tuple', [mk_seq('tuple', [s1, n1]),
                             mk_seq('tuple', [s2, n2])])
    args = dict(zip(pos, (('P', 'cls'), mk_seq('tuple', [op]), (
        'dict', ((const('derivs'), pairs), (const('vals'), NONE))))))
    for p in flow(repo, inline=lambda n: False).summarise(mod, fn, args=args):
        if p.out[0] != 'return' or p.value[0] == 'A':
            continue
        for t in walk(p.value):
            if not (isinstance(t, tuple) and t and t[0] == 'fold'):
                continue
            src = t[4]
            times = [n for n in (n1, n2) if src in (
                ('call', ('G', 'builtins.range'), (n,), ()),
                ('call', ('G', 'builtins.range'), (const(0), n), ()))]
            body = t[3]
            want = {n1: s1, n2: s2}
            if times:
                rep.decide(key, body[0] == 'call' and body[1][0] == 'A' and
                           body[1][2] == '_diff' and
                           body[2] == (want[times[0]],), w,
                           'each step computes ' + short(body))
            elif any(x in (n1, n2) for x in walk(src)) and \
                    not unresolved(src):
                rep.decide(key, False, w, 'the derivative is taken as often '
                           'as ' + short(src))
            else:
                rep.undec(key, short(src))


def evaluate_obligations(repo, rep, cls):
    key = 'evaluation:%s.evaluate_at' % cls.name
    found = repo.lookup(cls, 'evaluate_at')
    if not found or found[1] != 'method':
        rep.undec(key, 'not found')
        return
    w = where(repo, found[0].module, found[2])
    pos = params_of(found[2])[0]
    if len(pos) < 2:
        rep.undec(key, 'signature')
        return
    new = ('P', pos[1])
    f = flow(repo, inline=inline_all(*(STOP + (
        'operand', 'vals', 'derivs', 'operands', 'args'))), exact_self=cls)
    for p in f.summarise_method(cls, 'evaluate_at'):
        if p.out[0] != 'return':
            continue
        v = p.value
        if v == SELF:
            rep.decide(key, False, w, 'evaluating has no effect' +
                       conds_text(p))
            continue
        if v[0] != 'call' or len(v[2]) != 1:
            rep.undec(key, short(v))
            continue
        rep.decide(key, not mutates_self(v), w, 'the object itself is '
                   'modified: ' + short(v))
        kw = dict(v[3])
        x = kw.get('vals', NONE)
        rep.decide(key, is_operand(v[2][0]) and is_derivs(kw.get(
            'derivs', NONE)), w, 'evaluating gives ' + short(v))
        old = any(is_vals(y) for y in walk(x) if isinstance(y, tuple) and y)
        rep.decide(key, old, w, 'the previous evaluation point is dropped: '
                   + short(x))
        rep.decide(key, any(y == new for y in walk(x)), w,
                   'the new values are dropped: ' + short(x))


def c07(repo, rep):
    rep.rule('derivation', 'for every concrete quantum expression class and '
             'every instance (variadic operations at lengths 2 to 4), the '
             'value of _diff(x) on every path equals, after distributing '
             'products over sums, the derivative D of the denotation of the '
             'object: D linear, D(ab) = D(a)b + aD(b) for every product, '
             'D(a†) = D(a)†, D(constant) = 0, chain rule for powers and '
             'coherent states; built-in symbols that depend on parameters '
             'stay symbolic, or zero only where every argument has zero '
             'derivative')
    rep.rule('typed zero', 'a zero derivative is the zero of the same '
             'algebra')
    rep.rule('higher derivative', 'differentiating a symbolic derivative '
             'raises exactly the order of the symbol, keeps the evaluation '
             'point and is zero only at an evaluated symbol')
    rep.rule('entry', 'diff(x, n) requests {x: n} of the object itself; it '
             'short-cuts to zero only if x does not occur; the requested '
             'orders and values are all applied')
    for c in concrete_expressions(repo, 'QuantumExpression'):
        rep.count('classes')
        if repo.is_sub(c, 'QuantumDerivative'):
            derivative_obligations(repo, rep, c)
            evaluate_obligations(repo, rep, c)
        else:
            rule_obligations(repo, rep, c)
        entry_obligations(repo, rep, c)
    via_diff_obligations(repo, rep)
