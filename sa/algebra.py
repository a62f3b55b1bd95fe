"""Denotation of value-flow terms in a small equational theory: sums, ordered
products, scalars, adjoint and uninterpreted constructors.

Normal forms (hashable tuples)
    ('num', value)                      numeric constant
    ('atom', flow term)                 anything not interpreted
    ('sum', (nf, ...))                  sorted
    ('prod', scalars, factors)          scalars sorted, factors in order
    ('each', nf)                        a starred family of operands: body
                                        over the generic element; direction
    ('f', name, args, kwargs)           constructor application
    ('dag', nf)                         adjoint that cannot be pushed further
    ('star', body, source, rev)         generic item of an iterated family
"""
from fractions import Fraction

from .flow import SELF, NONE, is_const, const_val, seq_items, walk, show
from .src import ClassInfo

PLUS = 'QuantumPlus'
TIMES = 'QuantumTimes'
STIMES = 'ScalarTimesQuantumExpression'
ADJ_METHODS = ('adjoint', 'dag', '_adjoint', 'conjugate')
ADJ_FUNCS = ('qnet.algebra.core.operator_algebra.adjoint',)
IDENTITY_METHODS = ('expand', 'simplify_scalar', 'doit', 'toSLH')


class Denoter:
    """cls: class of `self`; args/kwargs: terms self.args / self.kwargs"""

    def __init__(self, repo, cls, args, kwargs, scalars=(), commuting=False,
                 theory=None, identity_methods=(), role_self=True,
                 adj_methods=ADJ_METHODS):
        self.repo = repo
        self.cls = cls
        self.args = args
        self.kwargs = kwargs
        self.scalars = set(scalars)
        self.commuting = commuting
        self.theory = theory or {}
        self.identity_methods = identity_methods
        self.adj_methods = adj_methods
        self.role_self = role_self
        self._self = None

    # -- classes -----------------------------------------------------------
    def is_a(self, c, name):
        return c is not None and self.repo.is_sub(c, name)

    def class_of(self, f):
        """class constructed by calling f, or None"""
        if f[0] == 'A' and f[2] in ('create', '__call__'):
            b = f[1]
            if b == SELF:
                return self.cls
            if b[0] == 'call' and b[1] == ('G', 'builtins.type') and \
                    b[2] == (SELF,):
                return self.cls
            f = b
        if f[0] == 'call' and f[1] == ('G', 'builtins.type') and \
                f[2] == (SELF,):
            return self.cls
        if f[0] == 'G':
            n = f[1]
            c = self.repo.classes.get(n)
            if c is None and n.endswith('.create'):
                c = self.repo.classes.get(n[:-len('.create')])
            return c
        return None

    # -- self --------------------------------------------------------------
    def self_nf(self):
        if self._self is None:
            self._self = ('atom', SELF)
            if self.role_self and self.args is not None:
                self._self = self.construct(self.cls, seq_items(self.args)
                                            if self.args[0] in ('seq', 'map',
                                                                'bin')
                                            else (('*', self.args),),
                                            self.kwargs or ())
        return self._self

    # -- denotation --------------------------------------------------------
    def d(self, t):
        if t == SELF:
            return self.self_nf()
        if is_const(t):
            if t[1] in ('int', 'float', 'complex', 'bool'):
                return ('num', norm_num(const_val(t)))
            return ('atom', t)
        k = t[0]
        if k == 'bin':
            op = t[1]
            if op == '+':
                return self.sum([self.d(t[2]), self.d(t[3])])
            if op == '-':
                return self.sum([self.d(t[2]),
                                 self.prod([('num', -1), self.d(t[3])])])
            if op == '*':
                return self.prod([self.d(t[2]), self.d(t[3])])
            if op == '/':
                return self.prod([self.d(t[2]), self.inv(self.d(t[3]))])
            if op == '<<':
                return self.prod([self.d(t[2]), self.d(t[3])])
            return ('f', 'bin' + op, (self.d(t[2]), self.d(t[3])), ())
        if k == 'un' and t[1] == '-':
            return self.prod([('num', -1), self.d(t[2])])
        if k == 'un' and t[1] == '+':
            return self.d(t[2])
        if k == 'call':
            return self.call(t)
        if k == 'fold':
            return ('atom', t)
        if k == 'sub' and self.theory.get('real') and is_const(t[2]) and \
                t[1][0] == 'call' and t[1][1][0] == 'A' and \
                t[1][1][2] == 'as_real_imag' and not t[1][2]:
            return self.re_im(t[1][1][1], ('real', 'imag')[
                const_val(t[2])])
        if k == 'sub':
            # item of a family
            return ('atom', self.clean(t))
        if k == 'A' and t[2] in ('real', 'imag') and \
                self.theory.get('real'):
            return self.re_im(t[1], t[2])
        if k == 'G' and t[1] in ('sympy.I', 'sympy.core.numbers.I'):
            return ('num', 1j)
        if k == 'G':
            c = self.repo.classes.get(t[1])
            if c is not None:
                n = c.name
                if n in self.theory.get('one', ()):
                    return ('num', 1)
                if n in self.theory.get('zero', ()):
                    return ('num', 0)
                return ('f', n, (), ())
        return ('atom', self.clean(t))

    def re_im(self, t, which):
        x = self.d(t)
        if which == 'real':
            return self.prod([('num', 0.5), self.sum([x, self.dag(x)])])
        return self.prod([('num', -0.5j), self.sum(
            [x, self.prod([('num', -1), self.dag(x)])])])

    def clean(self, t):
        return strip_wrappers(t)

    def inv(self, x):
        if x[0] == 'num' and x[1] not in (0,):
            return ('num', norm_num(Fraction(1, x[1]) if isinstance(
                x[1], (int, Fraction)) else 1 / x[1]))
        return ('f', 'inv', (x,), ())

    def call(self, t):
        f, args, kws = t[1], t[2], t[3]
        if f[0] == 'A' and not args and not kws:
            if f[2] in self.adj_methods:
                return self.dag(self.d(f[1]))
            if f[2] in self.identity_methods:
                return self.d(f[1])
        if f[0] == 'G' and f[1] in ADJ_FUNCS and len(args) == 1:
            return self.dag(self.d(args[0]))
        if len(args) == 1 and not kws and dotted(f) in WRAPPERS:
            return self.d(args[0])
        if f[0] == 'G' and f[1] == 'builtins.sum' and args:
            items = [self.item(x) for x in iter_items(args[0])]
            return self.sum(items)
        c = self.class_of(f)
        if c is not None:
            return self.construct(c, args, kws)
        if f[0] == 'A' and f[2] in ('_times_cls', '_plus_cls',
                                    '_scalar_times_expr_cls',
                                    '_adjoint_cls') or (
                f[0] == 'A' and f[2] == 'create' and f[1][0] == 'A' and
                f[1][2] in ('_times_cls', '_plus_cls', '_adjoint_cls',
                            '_scalar_times_expr_cls')):
            slot = f[2] if f[2] != 'create' else f[1][2]
            if slot == '_times_cls':
                return self.prod([self.item(x) for x in args])
            if slot == '_plus_cls':
                return self.sum([self.item(x) for x in args])
            if slot == '_scalar_times_expr_cls' and len(args) == 2:
                return self.scalar_times(args)
            if slot == '_adjoint_cls' and len(args) == 1:
                return self.dag(self.d(args[0]))
        return ('atom', self.clean(t))

    def item(self, x):
        if x[0] == '*':
            y = x[1]
            body, src, rev = family(y)
            if body is None:
                return ('star', ('atom', ('elem', y)), y, False)
            return ('star', self.d(body), src, rev)
        return self.d(x)

    def scalar_times(self, args):
        c = self.d(args[0])
        t = self.d(args[1])
        self.mark_scalar(c)
        return self.prod([c, t])

    def mark_scalar(self, c):
        self.scalars.add(c)

    def construct(self, c, args, kws):
        n = c.name
        if n in self.theory.get('one', ()):
            return ('num', 1)
        if n in self.theory.get('zero', ()):
            return ('num', 0)
        if self.is_a(c, PLUS):
            return self.sum([self.item(x) for x in args])
        if self.is_a(c, TIMES) or n in self.theory.get('product', ()):
            return self.prod([self.item(x) for x in args],
                             commuting=self.is_a(c, 'Scalar'))
        if self.is_a(c, STIMES) and len(args) == 2 and not any(
                x[0] == '*' for x in args):
            return self.scalar_times(args)
        if (self.is_a(c, 'QuantumAdjoint') or n in self.theory.get(
                'adjoint', ())) and len(args) == 1 and args[0][0] != '*':
            return self.dag(self.d(args[0]))
        if n in WRAPPER_CLASSES and len(args) == 1 and not kws:
            return self.d(args[0])
        return self.app(c, args, kws)

    def linear(self, x):
        """pull sums and numbers out of a linear parameter"""
        lin = self.theory.get('linear', {}).get(x[1])
        if lin is None:
            return x
        m = dict(x[3])
        v = m.get(lin)
        if v is None:
            return x

        def mk(y):
            m2 = dict(m)
            m2[lin] = y
            return ('f', x[1], x[2], tuple(sorted(m2.items(), key=repr)))
        if v[0] == 'sum':
            if any(y[0] == 'star' for y in v[1]):
                return x
            return self.sum([self.linear(mk(y)) for y in v[1]])
        if v[0] == 'prod':
            nums = [y for y in v[1] if y[0] == 'num']
            if nums:
                rest = self.prod([('prod', tuple(
                    y for y in v[1] if y[0] != 'num'), v[2])])
                return self.prod(nums + [self.linear(mk(rest))])
        return x

    def app(self, c, args, kws):
        return self.linear(self.app0(c, args, kws))

    def app0(self, c, args, kws):
        """uninterpreted constructor: bind arguments to parameter names"""
        found = self.repo.lookup(c, '__init__')
        names, var, kwonly = [], None, []
        if found:
            from .src import params_of
            pos, var, kwonly, _, _ = params_of(found[2])
            names = pos[1:]
        if names == [] and var:
            an = self.repo.lookup(c, '_arg_names')
            import ast
            if an and an[1] == 'attr' and isinstance(an[2], ast.Tuple):
                names = [e.value for e in an[2].elts]
        bound = []
        rest = []
        args = list(args)
        if c.name in ARITY and not names:
            names = ARITY[c.name]
        if names and len(args) == 1 and args[0][0] == '*' and \
                len(names) == (ARITY_OF_NAMES(names, c)):
            # one starred source spread over the fixed parameters
            y = args[0]
            body, src, rev = family(y[1])
            if not rev:
                args = []
                for i in range(len(names)):
                    x = ('sub', src, ('C', 'int', str(i)))
                    from .flow import elem, subst
                    e = elem(src)
                    args.append(subst(body, {e: x}) if body is not None
                                else x)
        for i, x in enumerate(args):
            if x[0] == '*':
                rest.extend(args[i:])
                break
            if i < len(names):
                bound.append((names[i], self.d(x)))
            else:
                rest.append(x)
        for k, v in kws:
            if k is None:
                rest.append(('**', v))
            else:
                bound.append((k, self.d(v)))
        return ('f', c.name, tuple(self.item(x) if x[0] != '**' else
                                   ('atom', x) for x in rest),
                tuple(sorted(bound, key=repr)))

    # -- sums and products --------------------------------------------------
    def sum(self, items):
        flat = []
        num = 0
        for x in items:
            if x[0] == 'sum':
                flat.extend(x[1])
            elif x[0] == 'num':
                num += x[1]
            else:
                flat.append(x)
        num = norm_num(num)
        if num:
            flat.append(('num', num))
        flat = collect(flat)
        if not flat:
            return ('num', 0)
        if len(flat) == 1 and flat[0][0] != 'star':
            return flat[0]
        return ('sum', tuple(sorted(flat, key=repr)))

    def is_scalar_nf(self, x):
        return x in self.scalars

    def prod(self, items, commuting=None):
        commuting = self.commuting if commuting is None else commuting
        num = 1
        scal = []
        fac = []
        for x in items:
            if x[0] == 'prod':
                for y in x[1]:
                    if y[0] == 'num':
                        num = num * y[1]
                    else:
                        scal.append(y)
                fac.extend(x[2])
            elif x[0] == 'num':
                num = num * x[1]
            elif self.is_scalar_nf(x):
                scal.append(x)
            else:
                fac.append(x)
        num = norm_num(num)
        if num == 0:
            return ('num', 0)
        if not scal and len(fac) == 1 and fac[0][0] == 'sum' and num != 1:
            return self.sum([self.prod([('num', num), y])
                             for y in fac[0][1]])
        if num != 1:
            scal.append(('num', num))
        if commuting:
            fac = sorted(fac, key=repr)
            fac = [unrev(x) for x in fac]
            fac = sorted(fac, key=repr)
        if not fac and len(scal) == 1 and scal[0][0] == 'num':
            return scal[0]
        if not fac and not scal:
            return ('num', 1)
        if not scal and len(fac) == 1 and fac[0][0] != 'star':
            return fac[0]
        if not fac and len(scal) == 1:
            return scal[0]
        return ('prod', tuple(sorted(scal, key=repr)), tuple(fac))

    # -- adjoint -------------------------------------------------------------
    def dag(self, x):
        k = x[0]
        if k == 'num':
            v = x[1]
            return ('num', v.conjugate() if isinstance(v, complex) else v)
        if k == 'dag':
            return x[1]
        if k == 'sum':
            return self.sum([self.dag(y) for y in x[1]])
        if k == 'star':
            return ('star', self.dag(x[1]), x[2], x[3])
        if k == 'prod':
            sc = []
            for y in x[1]:
                z = self.conj(y)
                sc.append(z)
                self.scalars.add(z)
            fs = []
            for y in reversed(x[2]):
                z = self.dag(y)
                if z[0] == 'star':
                    z = ('star', z[1], z[2], not z[3])
                fs.append(z)
            return self.prod(sc + fs)
        if k == 'f':
            eq = self.theory.get('dag', {}).get(x[1])
            if eq is not None:
                r = eq(self, x)
                if r is not None:
                    return r
        if x in self.scalars:
            z = self.conj(x)
            self.scalars.add(z)
            return z
        return ('dag', x)

    def conj(self, x):
        if self.theory.get('bilinear'):
            return x
        if x[0] == 'num':
            return self.dag(x)
        if x[0] == 'dag':
            return x[1]
        if x[0] in ('sum', 'prod'):
            return self.dag(x)
        return ('dag', x)


ARITY = {'SPre': ['operand'], 'SPost': ['operand']}


def ARITY_OF_NAMES(names, c):
    return len(names)


def norm_num(v):
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, complex):
        v = complex(v.real + 0.0, v.imag + 0.0)
        if v.imag == 0:
            v = v.real
        else:
            return v
    if isinstance(v, float) and abs(v) < 1e15:
        v = Fraction(v)
    if isinstance(v, Fraction) and v.denominator == 1:
        v = int(v)
    return v


def collect(items):
    """merge numeric multiples of equal summands"""
    acc = {}
    order = []
    for x in items:
        c, rest = 1, x
        if x[0] == 'prod':
            nums = [y for y in x[1] if y[0] == 'num']
            if nums:
                c = 1
                for y in nums:
                    c = c * y[1]
                sc = tuple(y for y in x[1] if y[0] != 'num')
                if not sc and len(x[2]) == 1 and x[2][0][0] != 'star':
                    rest = x[2][0]
                elif not x[2] and len(sc) == 1:
                    rest = sc[0]
                else:
                    rest = ('prod', sc, x[2])
        elif x[0] == 'num' or x[0] == 'star':
            order.append(x)
            continue
        if rest not in acc:
            acc[rest] = 0
            order.append(rest)
        acc[rest] += c
    res = []
    for x in order:
        if x not in acc:
            res.append(x)
            continue
        c = norm_num(acc[x])
        if c == 0:
            continue
        if c == 1:
            res.append(x)
        elif x[0] == 'prod':
            res.append(('prod', tuple(sorted(x[1] + (('num', c),),
                                             key=repr)), x[2]))
        else:
            res.append(('prod', (('num', c),), (x,)))
    return res


def unrev(x):
    return ('star', x[1], x[2], False) if x[0] == 'star' else x


WRAPPERS = {
    'qnet.algebra.core.scalar_algebra.ScalarValue.create', 'sympy.sympify',
    'sympy.core.sympify.sympify', 'builtins.tuple', 'builtins.list',
    'builtins.int', 'qnet.algebra.core.scalar_algebra.ScalarValue',
}
WRAPPER_CLASSES = {'ScalarValue'}


def dotted(f):
    if f[0] == 'G':
        return f[1]
    if f[0] == 'A' and f[1][0] == 'G':
        return f[1][1] + '.' + f[2]
    return ''


def strip_wrappers(t):
    """remove identity conversions inside an atom"""
    if isinstance(t, frozenset):
        return frozenset(strip_wrappers(x) for x in t)
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'call' and len(t) == 4 and len(t[2]) == 1 and \
            not t[3] and dotted(t[1]) in WRAPPERS and \
            t[2][0][0] != '*':
        return strip_wrappers(t[2][0])
    if t and t[0] == 'sub' and len(t) == 3 and is_const(t[2]):
        b = t[1]
        if b[0] == 'seq' and len(b[2]) == 1 and b[2][0][0] == '*':
            b = b[2][0][1]
        if b[0] == 'map' and not b[3]:
            from .flow import subst, elem
            body = subst(b[1], {elem(b[2]): ('sub', b[2], t[2])})
            if body != b[1]:
                return strip_wrappers(body)
    return tuple(strip_wrappers(x) for x in t)


def iter_items(t):
    if t[0] == 'seq':
        return t[2]
    return (('*', t),)


def family(y):
    """(body, source, reversed) of an iterated family; body None: identity"""
    rev = False
    while True:
        if y[0] == 'rev':
            rev = not rev
            y = y[1]
            continue
        if y[0] == 'seq' and len(y[2]) == 1 and y[2][0][0] == '*':
            y = y[2][0][1]
            continue
        break
    if y[0] == 'map' and not y[3]:
        src = y[2]
        while src[0] == 'rev':
            rev = not rev
            src = src[1]
        from .flow import elem, strip_iter
        return y[1], strip_iter(src), rev
    if y[0] == 'map':
        return y[1], ('filtered', y[2], y[3]), rev
    from .flow import elem, strip_iter
    return elem(y), strip_iter(y), rev


def show_nf(x, depth=0):
    if not isinstance(x, tuple) or depth > 8:
        return str(x)
    k = x[0]
    if k == 'num':
        return str(x[1])
    if k == 'atom':
        return show(x[1])
    if k == 'sum':
        return '(' + ' + '.join(show_nf(y, depth + 1) for y in x[1]) + ')'
    if k == 'prod':
        return '·'.join([show_nf(y, depth + 1) for y in x[1] + x[2]])
    if k == 'dag':
        return show_nf(x[1], depth + 1) + '†'
    if k == 'star':
        return '[%s%s for %s]' % ('reversed ' if x[3] else '',
                                  show_nf(x[1], depth + 1), show(x[2])[:60])
    if k == 'f':
        return '%s(%s)' % (x[1], ', '.join(
            [show_nf(y, depth + 1) for y in x[2]] +
            ['%s=%s' % (a, show_nf(b, depth + 1)) for a, b in x[3]]))
    return str(x)
