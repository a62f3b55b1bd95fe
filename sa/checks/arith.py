"""Arithmetic operators: on every path the object an operator builds is the
one that mathematics asks for."""
import ast
from fractions import Fraction

from ..core import where
from ..flow import (SELF, NONE, Budget, const, is_const, const_val, walk)
from ..model import flow, concrete_expressions, short
from ..src import AnalysisError
from .adjoint import inline_all, conds_text

OTHER = ('P', 'other')
STOP = ('create', 'is_scalar', 'make_disjunct_indices', '_disjunct_factors', 'remove', 'intersect',
        'is_strict_tensor_factor_of', 'is_tensor_factor_of', '_render')
ONES = {'One', 'IdentityOperator', 'IdentitySuperOperator', 'TrivialKet',
        '_sympyOne', 'CIdentity'}
ZEROS = {'Zero', 'ZeroOperator', 'ZeroSuperOperator', 'ZeroKet'}
VALUE_ATTRS = ('val', '_val', 'matrix', '_matrix', 'expr')
SUM = ('QuantumPlus',)
PROD = ('QuantumTimes', 'ScalarTimesQuantumExpression', 'OperatorTimesKet',
        'SuperOperatorTimesOperator', 'TensorKet')


class Unclear(Exception):
    pass


# a value is {monomial: coefficient}; a monomial a tuple of (atom, exponent);
# an exponent a number or a value (as sorted items)

def num(c):
    return {(): c} if c else {}


def atom(a):
    return {((a, 1),): 1}


S = atom('self')


def add(x, y, k=1):
    res = dict(x)
    for m, c in y.items():
        res[m] = res.get(m, 0) + k * c
        if res[m] == 0:
            del res[m]
    return res


class Algebra:
    def __init__(self, central):
        self.central = central      # atom -> bool

    def mono(self, fs):
        """product of the factors: the central ones sorted, equal neighbours
        merged"""
        comm = [f for f in fs if self.is_central(f[0])]
        rest = [f for f in fs if not self.is_central(f[0])]
        res = []
        for a, e in sorted(comm, key=repr) + rest:
            if res and res[-1][0] == a:
                e2 = add_exp(res[-1][1], e)
                res.pop()
                if e2 != 0:
                    res.append((a, e2))
            else:
                res.append((a, e))
        return tuple(res)

    def is_central(self, a):
        if isinstance(a, tuple) and a[0] in ('dag', 'pow'):
            return all(self.is_central(f[0]) for m, _ in a[1] for f in m)
        return self.central(a)

    def mul(self, x, y):
        res = {}
        for m, c in x.items():
            for n, d in y.items():
                k = self.mono(m + n)
                res[k] = res.get(k, 0) + c * d
                if res[k] == 0:
                    del res[k]
        return res

    def pow(self, x, e):
        """x to a value"""
        n = as_number(e)
        if n == 0:
            return num(1)
        if n == 1 or x == num(1):
            return x
        if len(x) == 1:
            (m, c), = x.items()
            if len(m) <= 1 or all(self.is_central(f[0]) for f in m):
                if c == 1 or n is not None and n == int(n):
                    ex = n if n is not None else items(e)
                    return {self.mono(tuple(
                        (a, mul_exp(b, ex)) for a, b in m)):
                        Fraction(c) ** int(n) if c != 1 else 1}
        if not x:
            if n is not None and n > 0:
                return {}
            raise Unclear('power of zero')
        return atom(('pow', items(x), items(e)))

    def dag(self, x):
        res = {}
        for m, c in x.items():
            k = []
            for a, e in reversed(m):
                if isinstance(a, tuple) and a[0] == 'dag':
                    (n, _), = a[1]
                    (b, e2), = n
                    k.append((b, mul_exp(e2, e)))
                else:
                    k.append((('dag', ((((a, 1),), 1),)), e))
            res[self.mono(tuple(k))] = c
        return res


def items(x):
    return tuple(sorted(x.items(), key=repr))


def as_number(x):
    if not x:
        return 0
    if set(x) == {()}:
        return x[()]
    return None


def add_exp(a, b):
    x = add(num(a) if not isinstance(a, tuple) else dict(a),
            num(b) if not isinstance(b, tuple) else dict(b))
    n = as_number(x)
    return n if n is not None else items(x)


def mul_exp(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        x = Algebra(lambda a: True).mul(dict(a), dict(b))
        n = as_number(x)
        return n if n is not None else items(x)
    if isinstance(b, tuple):
        a, b = b, a
    if isinstance(a, tuple):
        x = {m: c * b for m, c in a}
        n = as_number(x)
        return n if n is not None else items(x)
    return a * b


def own_part(t):
    """'coeff' or 'term' of self"""
    if t[0] == 'A' and t[1] == SELF:
        return {'coeff': 'coeff', '_coeff': 'coeff', 'term': 'term',
                '_term': 'term'}.get(t[2])
    if t[0] == 'sub' and t[1][0] == 'A' and t[1][1] == SELF and \
            t[1][2] in ('_operands', 'operands') and is_const(t[2]):
        return {0: 'coeff', 1: 'term'}.get(const_val(t[2]))
    return None


def named(repo, name):
    """the class of this name, if there is just one"""
    found = [c for q, c in repo.classes.items()
             if q.rpartition('.')[2] == name]
    return found[0] if len(found) == 1 else None


class Meaning:
    """values of terms for an object `self` of class cls"""

    def __init__(self, repo, cls, conds, scalar_other, other=None):
        self.repo = repo
        self.cls = cls
        self.conds = conds
        scalar = repo.is_sub(cls, 'Scalar')
        self.scalar = scalar
        self.alg = Algebra(lambda a: scalar or a == 'other' and scalar_other
                           or isinstance(a, tuple) and a[0] == 'central')
        self.S = self.own_value()
        self.O = atom('other')
        self.other_cls = None
        for c, b in conds:
            if b and c[0] == 'isinst' and c[1] == OTHER:
                ks = [named(repo, x.rpartition('.')[2])
                      for x in type_names(c[2])]
                if len(ks) == 1 and ks[0] and (
                        self.other_cls is None or not repo.is_sub(
                            self.other_cls, 'ScalarTimesQuantumExpression')):
                    self.other_cls = ks[0]
        if self.other_cls is not None and repo.is_sub(
                self.other_cls, 'ScalarTimesQuantumExpression'):
            self.O = self.alg.mul(atom(('central', 'coeff')), atom('term'))
        for c, b in conds:
            if c == ('cmp', '==', OTHER, SELF) and b:
                self.O = self.S
            elif c[0] == 'cmp' and c[1] in ('==', 'is') and b and \
                    OTHER in c[2:]:
                try:
                    self.O = self.ev(c[3] if c[2] == OTHER else c[2])
                except Unclear:
                    pass
        if other is not None:
            self.O = other

    def own_value(self):
        if self.repo.is_sub(self.cls, 'ScalarTimesQuantumExpression') and any(
                b and c[0] == 'cmp' and c[1] in ('is', '==') and len(c) == 4 and
                own_part(x) == 'term' for c, b in self.conds for x in c[2:]):
            return atom(('central', 'coeff'))
        if self.cls.name == 'ScalarPower':
            b, e = (atom(('central', x)) for x in ('base', 'exp'))
            return self.alg.pow(b, e)
        if self.cls.name in ONES:
            return num(1)
        if self.cls.name in ZEROS:
            return {}
        return S

    def class_of(self, f):
        """class that calling f instantiates"""
        while f[0] == 'A' and f[2] in ('create',):
            f = f[1]
        if f == SELF or f == ('call', ('G', 'builtins.type'), (SELF,), ()):
            return self.cls
        if f[0] == 'G':
            return self.repo.classes.get(f[1])
        of = {SELF: self.cls, OTHER: self.other_cls}
        of.update({('A', k, '__class__'): c for k, c in of.items()})
        if f[0] == 'A' and f[2].endswith('_cls') and of.get(f[1]):
            v = self.repo.lookup(of[f[1]], f[2])
            if v and isinstance(v[2], ast.AST):
                n = v[2].value if isinstance(v[2], ast.Assign) else v[2]
                if isinstance(n, ast.Name):
                    return named(self.repo, n.id)
        return None

    def ev(self, t):
        alg = self.alg
        if t == SELF:
            return self.S
        if t == OTHER:
            return self.O
        if is_const(t):
            v = const_val(t)
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                if isinstance(v, complex) and not v.imag:
                    return num(Fraction(v.real))
                if isinstance(v, complex):
                    return atom(('central', repr(v)))
                raise Unclear(short(t))
            return num(Fraction(v))
        if t[0] == 'G':
            n = t[1].rpartition('.')[2]
            if n in ONES:
                return num(1)
            if n in ZEROS:
                return {}
            raise Unclear(short(t))
        if t[0] == 'A':
            if t[1] == SELF and t[2] in ('base', 'exp', '_base', '_exp') and \
                    self.cls.name == 'ScalarPower':
                return atom(('central', t[2].strip('_')))
            if own_part(t) == 'coeff' and self.S == atom(('central', 'coeff')):
                return self.S
            if t[1] == OTHER and self.other_cls is not None and \
                    self.repo.is_sub(self.other_cls,
                                     'ScalarTimesQuantumExpression'):
                if t[2] in ('coeff', '_coeff'):
                    return atom(('central', 'coeff'))
                if t[2] in ('term', '_term'):
                    return atom('term')
            if t[2] in VALUE_ATTRS and t[1] in (SELF, OTHER):
                return self.ev(t[1])
            if t[2] in ('_one', '_neutral_element') and t[1] in (SELF, OTHER):
                return num(1)
            if t[2] == '_zero':
                return {}
            if t[2] in ('ket', '_ket') and t[1] in (SELF, OTHER):
                return alg.dag(self.ev(t[1]))
            if t[2] == '_operands':
                raise Unclear(short(t))
        if own_part(t) == 'coeff' and self.S == atom(('central', 'coeff')):
            return self.S
        if t[0] == 'sub' and t[1][0] == 'A' and t[1][1] in (SELF, OTHER) and \
                t[1][2] in ('_operands', 'operands') and \
                t[2] == const(0) and self.repo.is_sub(self.cls, 'Bra'):
            return alg.dag(self.ev(t[1][1]))
        if t[0] == 'neg':
            return alg.mul(num(-1), self.ev(t[1]))
        if t[0] == 'un' and t[1] == '-':
            return alg.mul(num(-1), self.ev(t[2]))
        if t[0] == 'bin':
            return self.binary(t[1], t[2], t[3])
        if t[0] == 'call':
            return self.call(t)
        if t[0] == 'fold' and t[1] == '*' and t[4][0] == 'call' and \
                t[4][1] == ('G', 'builtins.range') and len(t[4][2]) == 1 and \
                len(t) == 6 and not t[5]:
            return alg.mul(self.ev(t[2]), alg.pow(
                self.ev(t[3]), self.ev(t[4][2][0])))
        raise Unclear(short(t))

    def binary(self, op, a, b):
        alg = self.alg
        if op == '**':
            return alg.pow(self.ev(a), self.ev(b))
        x, y = self.ev(a), self.ev(b)
        if op == '+':
            return add(x, y)
        if op == '-':
            return add(x, y, -1)
        if op in ('*', '@'):
            return alg.mul(x, y)
        if op == '/':
            return alg.mul(x, alg.pow(y, num(-1)))
        if op in ('//', '%'):
            return self.opaque(op, x, y)
        raise Unclear(op)

    def opaque(self, op, x, y):
        a, b = as_number(x), as_number(y)
        if op == '%' and b == 1 or op in ('//', '%') and a == 0:
            return {}
        if op in ('//', '%') and a is not None and b:
            return num(a // b if op == '//' else a % b)
        if op in ('//', '%', '<<', '(+)'):
            return atom((op, items(x), items(y)))
        raise Unclear(op)

    def call(self, t):
        alg = self.alg
        f, args, kws = t[1:]
        if f[0] == 'A' and not kws:
            m = f[2]
            if m in ('adjoint', 'dag', 'conjugate') and not args:
                return alg.dag(self.ev(f[1]))
            if m == 'dot' and len(args) == 1:
                return alg.mul(self.ev(f[1]), self.ev(args[0]))
            if m == '__mul__' and len(args) == 2:
                return alg.mul(self.ev(args[0]), self.ev(args[1]))
            if m == '__rmul__' and len(args) == 2:
                return alg.mul(self.ev(args[1]), self.ev(args[0]))
            if m in ('__mul__', '__add__') and len(args) == 1 and \
                    f[1][0] != 'super':
                return self.binary({'__mul__': '*', '__add__': '+'}[m],
                                   f[1], args[0])
            if m in ('remove', 'intersect') and len(args) == 1:
                return atom((m, items(self.ev(f[1])),
                             items(self.ev(args[0]))))
        if f[0] == 'G' and len(args) == 1 and not kws and \
                f[1].rpartition('.')[2] in ('sympify', 'adjoint'):
            x = self.ev(args[0])
            return x if f[1].endswith('sympify') else alg.dag(x)
        if f[0] == 'G' and f[1] == 'builtins.abs' and len(args) == 1:
            return atom(('abs', items(self.ev(args[0]))))
        if f[0] == 'G' and len(args) == 1 and f[1] in (
                'builtins.complex', 'builtins.int', 'builtins.float'):
            return self.ev(args[0])
        c = self.class_of(f)
        if c is None or kws:
            raise Unclear(short(t))
        is_a = self.repo.is_sub
        if any(x[0] == '*' for x in args):
            # n equal factors
            if len(args) == 1 and any(is_a(c, k) for k in PROD):
                m = args[0][1]
                if m[0] == 'map' and not m[3] and m[2][0] == 'call' and \
                        m[2][1] == ('G', 'builtins.range') and \
                        len(m[2][2]) == 1:
                    n = m[2][2][0]
                    while n[0] == 'call' and n[1] == ('G', 'builtins.int'):
                        n = n[2][0]
                    return alg.pow(self.ev(m[1]), self.ev(n))
            raise Unclear(short(t))
        if c.name in ('ScalarValue', 'Matrix') and len(args) == 1:
            return self.ev(args[0])
        if is_a(c, 'IntIndex') and len(args) == 1:
            return self.ev(args[0])
        if any(is_a(c, k) for k in SUM):
            res = {}
            for x in args:
                res = add(res, self.ev(x))
            return res
        if c.name == 'BraKet' and len(args) == 2:
            return alg.mul(alg.dag(self.ev(args[0])), self.ev(args[1]))
        if c.name == 'KetBra' and len(args) == 2:
            return alg.mul(self.ev(args[0]), alg.dag(self.ev(args[1])))
        if c.name == 'Bra' and len(args) == 1:
            return alg.dag(self.ev(args[0]))
        if c.name == 'ScalarPower' and len(args) == 2:
            return alg.pow(self.ev(args[0]), self.ev(args[1]))
        if c.name == 'SeriesProduct' and len(args) == 2:
            return self.opaque('<<', self.ev(args[0]), self.ev(args[1]))
        if c.name == 'Concatenation' and len(args) == 2:
            return self.opaque('(+)', self.ev(args[0]), self.ev(args[1]))
        if c.name == 'ProductSpace' or any(is_a(c, k) for k in PROD):
            res = num(1)
            for x in args:
                res = alg.mul(res, self.ev(x))
            return res
        raise Unclear(short(t))


def expected(m, op):
    """value of the operator method `op`"""
    a, o, s = m.alg, m.O, m.S
    if m.repo.is_sub(m.cls, 'Circuit') and op == '__add__':
        return m.opaque('(+)', s, o)
    inv = lambda x: a.pow(x, num(-1))
    if op == '__add__' or op == '__radd__':
        return add(s, o)
    if op == '__sub__':
        return add(s, o, -1)
    if op == '__rsub__':
        return add(o, s, -1)
    if op == '__mul__':
        return a.mul(s, o)
    if op == '__rmul__':
        return a.mul(o, s)
    if op == '__truediv__':
        return a.mul(s, inv(o))
    if op == '__rtruediv__':
        return a.mul(o, inv(s))
    if op == '__pow__':
        return a.pow(s, o)
    if op == '__rpow__':
        return a.pow(o, s)
    if op == '__neg__':
        return a.mul(num(-1), s)
    if op in ('__floordiv__', '__mod__'):
        return m.opaque({'__floordiv__': '//', '__mod__': '%'}[op], s, o)
    if op in ('__rfloordiv__', '__rmod__'):
        return m.opaque({'__rfloordiv__': '//', '__rmod__': '%'}[op], o, s)
    if op in ('__complex__', '__int__', '__float__', 'real'):
        return s
    if op == '__lshift__':
        return m.opaque('<<', s, o)
    raise Unclear(op)


OPS = ['__add__', '__radd__', '__sub__', '__rsub__', '__mul__', '__rmul__',
       '__truediv__', '__rtruediv__', '__pow__', '__rpow__', '__neg__',
       '__floordiv__', '__rfloordiv__', '__mod__', '__rmod__']
CONVERT = ['__complex__', '__int__', '__float__']
COMPARE = ['__lt__', '__le__', '__gt__', '__ge__']
TURNED = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}
NEGATED = {'<': '>=', '>': '<=', '<=': '>', '>=': '<'}
BINOP = {'__add__': '+', '__sub__': '-', '__mul__': '*', '__truediv__': '/',
         '__floordiv__': '//', '__mod__': '%', '__pow__': '**'}


def op_method(repo, cls, op):
    """the function that implements an operator, through aliases"""
    found = repo.lookup(cls, op)
    seen = set()
    while found and found[1] != 'method':
        n = found[2]
        n = n.value if isinstance(n, ast.Assign) else n
        if not isinstance(n, ast.Name) or n.id in seen:
            return None
        seen.add(n.id)
        found = repo.lookup(found[0], n.id)
    return found


NUMERIC = {'int', 'float', 'complex', 'Basic', 'int64', 'complex128',
           'float64', '_val_types', 'SympyBasic'}


def scalar_fact(repo, conds):
    """does the path know that `other` is a scalar?"""
    for c, b in conds:
        if not b:
            continue
        if c[0] == 'isinst' and c[1] == OTHER:
            names = {x.rpartition('.')[2] for x in type_names(c[2])}
            if names and all(n in NUMERIC or named(repo, n) and repo.is_sub(
                    named(repo, n), 'Scalar') for n in names):
                return True
        if c[0] == 'call' and c[1][0] == 'G' and \
                c[1][1].endswith('is_scalar') and c[2] == (OTHER,):
            return True
    return False


def type_names(t):
    if not t or isinstance(t[0], tuple):
        return {y for x in t for y in type_names(x)}
    if t[0] == 'G':
        return {t[1]}
    if t[0] == 'A':
        return {t[2]}
    if t[0] == 'seq':
        return {y for x in t[2] for y in type_names(x)}
    return {'?'}


def infeasible(repo, cls, conds):
    """the path assumes a class of `self` that it does not have"""
    for c, b in conds:
        if c[0] == 'call' and c[1][0] == 'G' and c[2] == (SELF,) and \
                c[1][1].endswith('.is_scalar') and \
                b != repo.is_sub(cls, 'Scalar'):
            return True
        if c[0] == 'isinst' and c[1] == SELF:
            for n in type_names(c[2]):
                k = named(repo, n.rpartition('.')[2])
                if k is not None and len(type_names(c[2])) == 1 and \
                        repo.is_sub(cls, k.name) != b:
                    return True
    return False


def operator(repo, rep, cls, op):
    found = op_method(repo, cls, op)
    if not found:
        return
    key = 'op:%s.%s' % (cls.name, op)
    mod, fn = found[0].module, found[2]
    w = where(repo, mod, fn)
    f = flow(repo, inline=inline_all(*STOP), exact_self=cls, max_paths=3000)
    f.merging = False
    args = {}
    if len(fn.args.args) > 1:
        args[fn.args.args[1].arg] = OTHER
    try:
        ps = f.summarise_method(cls, fn.name, args=args) or ()
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return
    rep.count('operator methods')
    sums = any(repo.is_sub(cls, k) for k in ('IndexedSum',))
    for p in ps:
        rep.count('paths')
        if infeasible(repo, cls, p.conds):
            continue
        if p.out[0] == 'raise':
            continue
        if p.out[0] != 'return' or p.value == NONE:
            rep.decide(key, False, w, 'returns nothing' + conds_text(p))
            continue
        v = p.value
        if v[0] == 'G' and v[1].endswith('NotImplemented'):
            continue
        if any(x[0] == 'call' and x[1] == ('G', 'builtins.super')
               for x in walk(v)):
            # no base class has the method: an AttributeError
            rep.count('calls of methods no base class has')
            continue
        if any(x[0] == 'A' and 'disjunct' in x[2]
               for x in walk(v)):
            rep.count('products of indexed sums, see C15')
            continue
        m = Meaning(repo, cls, p.conds, scalar_fact(repo, p.conds))
        if op in COMPARE:
            compare(rep, key, w, m, op, p)
            continue
        same_op(repo, rep, key, w, cls, op, p)
        try:
            want = expected(m, op)
        except Unclear:
            continue
        try:
            got = m.ev(v)
        except Unclear as e:
            rep.undec(key, '%s%s' % (e, conds_text(p)))
            continue
        if got != want and op == '__mul__' and repo.is_sub(cls, 'Bra'):
            # products of bras on different spaces commute
            want = m.alg.mul(m.O, m.S) if (
                ('A', OTHER, 'isket'), False) in p.conds else want
        rep.decide(key, got == want, w, '%s of %s returns %s%s' % (
            op, cls.name, short(v), conds_text(p)))


def compare(rep, key, w, m, op, p):
    """self <op> other, the other way around, or negated"""
    v = p.value
    want = {'__lt__': '<', '__le__': '<=', '__gt__': '>', '__ge__': '>='}[op]
    neg = v[0] == 'not'
    if neg:
        v = v[1]
    if v[0] != 'cmp' or v[1] not in TURNED:
        rep.undec(key, short(p.value))
        return
    got = NEGATED[v[1]] if neg else v[1]
    try:
        l, r = m.ev(v[2]), m.ev(v[3])
    except Unclear as e:
        rep.undec(key, str(e))
        return
    rep.decide(key, (got, l, r) in ((want, m.S, m.O), (
        TURNED[want], m.O, m.S)), w, '%s of %s compares %s%s' % (
            op, m.cls.name, short(p.value), conds_text(p)))


def same_op(repo, rep, key, w, cls, op, p):
    """the result is the same operation again"""
    v = p.value
    if op not in BINOP or v[0] != 'bin' or v[1] != BINOP[op] or \
            v[2] != SELF or not is_const(v[3]):
        return
    found = op_method(repo, cls, op)
    fn = found[2]
    f = flow(repo, inline=inline_all(*STOP), exact_self=cls, max_paths=3000)
    f.merging = False
    for q in f.summarise_method(cls, fn.name,
                                args={fn.args.args[1].arg: v[3]}) or ():
        rep.decide(key, q.out[0] != 'return' or q.value != v or
                   infeasible(repo, cls, q.conds), w,
                   'calls itself forever: %s%s' % (short(v), conds_text(q)))


def c14(repo, rep):
    rep.rule('op', 'the value of the object returned by an operator method, '
             'in a polynomial algebra over self and the operand, is the '
             'mathematical result under the conditions of the path')
    for c in concrete_expressions(repo):
        if repo.is_sub(c, 'HilbertSpace') or any(
                k is not c and k.qualname in repo.classes and
                c.name == 'QuantumDerivative' for k in c.mro):
            continue
        for op in OPS + CONVERT + (
                COMPARE if repo.is_sub(c, 'Scalar') else []):
            operator(repo, rep, c, op)
    for c in (repo.cls('Matrix'),):
        for op in OPS:
            operator(repo, rep, c, op)
