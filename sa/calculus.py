"""Algebraic denotation with a derivation: instances of the expression classes
(variadic operands instantiated at small lengths) and the terms their methods
return, interpreted as sums of products over the operands."""
from .algebra import Denoter, ARITY, dotted
from .flow import (SELF, NONE, Budget, walk, is_const, seq_items, elem,
                   const_val, replace, mk_seq)
from .model import flow, ctor, short
from .src import params_of
from .checks.adjoint import (simplify_local, kwargs_items, inline_all,
                             make_theory, opaque)

ZEROS = ('ZeroOperator', 'ZeroSuperOperator', 'ZeroKet', 'Zero')
ONES = ('IdentityOperator', 'IdentitySuperOperator', 'TrivialKet', 'One')
# binary products: which of the two factors enters conjugated
PRODUCTS = {'OperatorTimesKet': (0, 0), 'SuperOperatorTimesOperator': (0, 0),
            'BraKet': (1, 0), 'KetBra': (0, 1)}
# linear parameter of unary operations (by constructor parameter)
LINEAR = {'OperatorTrace': 'op'}
NONDEP = {'label', 'label_or_index', 'hs', 'j', 'k', 'sign', 'over_space', 'derivs', 'vals',
          'ranges', 'identifier'}
DEP = {'displacement', 'squeezing_factor', 'phase', 'ampl'}


def flat(t):
    """splice known sequences into the sequences that unpack them"""
    def fn(x):
        if x[0] == 'seq' and any(y[0] == '*' and y[1][0] == 'seq'
                                 for y in x[2]):
            items = []
            for y in x[2]:
                if y[0] == '*' and y[1][0] == 'seq':
                    items.extend(y[1][2])
                else:
                    items.append(y)
            return (x[0], x[1], tuple(items))
        return x
    return replace(t, fn)


class Instance:
    def __init__(self, heap, conds, args, kwargs, n):
        self.heap, self.conds = heap, conds
        self.args, self.kwargs, self.n = args, kwargs, n


def instances(repo, cls, lengths=(2, 3, 4), inline=None):
    """[Instance]; classes with variadic operands once per length"""
    ct = ctor(repo, cls)
    if ct.error:
        raise Budget()
    if cls.name in ARITY:
        lengths = (len(ARITY[cls.name]),)
    res = []
    inline = inline or inline_all('adjoint', 'diff', '_diff', 'series_expand')
    for p in ct.paths:
        variants = [(p.heap, p.conds, None)]
        if ct.var and p.heap.get((SELF, '_operands')) == ('P', ct.var):
            variants = []
            for n in lengths:
                ops = mk_seq('tuple', [('P', '%s%d' % (ct.var, i))
                                       for i in range(n)])
                heap = {}
                for k, v in p.heap.items():
                    if k[1] in ('_order_args', '_order_kwargs', '_space',
                                '_instance_key'):
                        continue
                    v2 = replace(v, lambda x: ops if x == (
                        'P', ct.var) else x) if isinstance(v, tuple) else v
                    heap[k] = flat(v2) if isinstance(v2, tuple) else v2
                variants.append((heap, (), n))
        for heap, conds, n in variants:
            f = flow(repo, inline=inline, exact_self=cls, max_paths=600)
            for a in f.summarise_method(cls, 'args', heap=heap,
                                        conds=conds) or ():
                if a.out[0] != 'return':
                    continue
                for k in f.summarise_method(cls, 'kwargs', heap=heap,
                                            conds=a.conds) or ():
                    if k.out[0] != 'return':
                        continue
                    inst = Instance(heap, k.conds, a.value, k.value, n)
                    if not any(_same(inst, x) for x in res):
                        res.append(inst)
    return res


def _same(a, b):
    return a.args == b.args and a.kwargs == b.kwargs and a.conds == b.conds \
        and a.n == b.n


class Calc(Denoter):
    """Denoter with binary products written out and a derivation"""

    sym = None
    diff_methods = ('diff', '_diff')

    def __init__(self, *a, **kw):
        super().__init__(*a, **kw)
        self.zero = set()

    def d(self, t):
        if t[0] == 'A' and t[2] in ('ket', 'operand') and \
                t[1][0] == 'call' and len(t[1][2]) == 1:
            c = self.class_of(t[1][1])
            if self.is_a(c, 'QuantumAdjoint'):
                return self.d(t[1][2][0])
        return super().d(t)

    # -- construction ------------------------------------------------------
    def construct(self, c, args, kws):
        n = c.name
        if n in PRODUCTS and len(args) == 2 and not any(
                x[0] == '*' for x in args):
            fs = [self.d(x) for x in args]
            fs = [self.dag(x) if h else x
                  for x, h in zip(fs, PRODUCTS[n])]
            return self.prod(fs)
        if n in PRODUCTS and len(args) == 1 and args[0][0] == '*' and \
                seq_items(args[0][1]) and len(seq_items(args[0][1])) == 2:
            return self.construct(c, seq_items(args[0][1]), kws)
        if n == 'Commutator' and len(args) == 2:
            a, b = [self.d(x) for x in args]
            return self.sum([self.prod([a, b]), self.prod(
                [('num', -1), self.prod([b, a])])])
        if n == 'OperatorPlusMinusCC' and len(args) == 1 and len(kws) <= 1:
            x = self.d(args[0])
            s = ('num', 1)
            for k, v in kws:
                if k != 'sign':
                    return super().construct(c, args, kws)
                s = self.d(v)
                if s[0] != 'num':
                    s = ('atom', ('kw', 'sign')) if self.is_sign(v) else s
                    self.mark_scalar(s)
            return self.sum([x, self.prod([s, self.dag(x)])])
        if self.is_a(c, 'QuantumDerivative'):
            return self.derivative(c, args, kws, False)
        return super().construct(c, args, kws)

    signs = ()

    def is_sign(self, v):
        return v in self.signs

    def derivative(self, c, args, kws, evaluate):
        m = dict(kws)
        d = m.get('derivs')
        v = m.get('vals', NONE)
        if len(args) == 1 and d is not None and v == NONE and \
                d[0] == 'dict' and len(d[1]) == 1 and \
                d[1][0][0] == self.sym:
            n = d[1][0][1]
            x = self.d(args[0])
            if is_const(n) and isinstance(const_val(n), int):
                for _ in range(const_val(n)):
                    x = self.D(x) if evaluate else ('D', x)
                return x
            if n == ('P', 'n'):
                return ('Dn', x)
        return self.app(c, args, kws)

    def call(self, t):
        f, args, kws = t[1], t[2], t[3]
        if f[0] == 'A' and f[2] in self.diff_methods and len(args) == 1 and \
                not kws and args[0] == self.sym and self.sym is not None:
            return self.D(self.d(f[1]))
        if dotted(f) in ('sympy.diff', 'sympy.core.function.diff') and \
                len(args) == 2 and args[1] == self.sym:
            return self.D(self.d(args[0]))
        if f[0] == 'A' and f[2] == 'create':
            c = self.class_of(f)
            if c is not None and self.is_a(c, 'QuantumDerivative'):
                return self.derivative(c, args, kws, True)
        return super().call(t)

    # -- derivation --------------------------------------------------------
    def D(self, x):
        y = self.D0(x)
        if x in self.scalars:
            self.mark_scalar(y)
        return y

    def D0(self, x):
        k = x[0]
        if ('D', x) in self.zero:
            return ('num', 0)
        if k == 'num':
            return ('num', 0)
        if k == 'sum':
            return self.sum([self.D(y) for y in x[1]])
        if k == 'star':
            return ('star', self.D(x[1]), x[2], x[3])
        if k == 'dag':
            return self.dag(self.D(x[1]))
        if k == 'prod':
            fs = [('s', y) for y in x[1]] + [('f', y) for y in x[2]]
            if any(y[0] == 'star' for _, y in fs):
                return ('D', x)
            res = []
            for i, (_, y) in enumerate(fs):
                res.append(self.prod([self.D(z) if i == j else z
                                      for j, (_, z) in enumerate(fs)]))
            return self.sum(res)
        if k == 'f':
            lin = self.linear_param(x)
            if lin is not None:
                m = dict(x[3])
                if lin in m:
                    m[lin] = self.D(m[lin])
                    return self.linear(('f', x[1], x[2], tuple(
                        sorted(m.items(), key=repr))))
            if self.constant(x):
                return ('num', 0)
            eq = self.theory.get('D', {}).get(x[1])
            if eq is not None:
                r = eq(self, x)
                if r is not None:
                    return r
        if k == 'atom' and x[1][0] in ('C', 'kw'):
            return ('num', 0)
        return ('D', x)

    def linear_param(self, x):
        return self.theory.get('linear', {}).get(x[1])

    def dependents(self, x):
        """subterms of a built-in symbol that can depend on a parameter; None
        if unknown"""
        res = []
        for y in x[2]:
            if y[0] == 'star':
                res.append(y[1])
            else:
                return None
        for k, v in x[3]:
            if k in NONDEP:
                continue
            if k in DEP:
                res.append(v)
            else:
                return None
        return res

    def constant(self, x):
        d = self.dependents(x)
        if d is None:
            return False
        return all(self.D(y) == ('num', 0) for y in d)

    # -- expansion ---------------------------------------------------------
    def dist(self, x):
        """distribute products over sums"""
        k = x[0]
        if k == 'sum':
            return self.sum([self.dist(y) for y in x[1]])
        if k == 'D' or k == 'dag':
            return x
        if k == 'prod':
            terms = [[]]
            for y in list(x[1]) + list(x[2]):
                y = self.dist(y)
                alts = y[1] if y[0] == 'sum' else (y,)
                if y[0] == 'sum' and any(z[0] == 'star' for z in alts):
                    alts = (y,)
                if y in self.scalars:
                    for z in alts:
                        self.mark_scalar(z)
                terms = [a + [z] for a in terms for z in alts]
            if len(terms) == 1:
                return self.prod(terms[0])
            return self.sum([self.dist(self.prod(a)) for a in terms])
        if k == 'f':
            y = self.linear(('f', x[1], tuple(self.dist(z) for z in x[2]),
                             tuple(sorted(((a, self.dist(b))
                                           for a, b in x[3]), key=repr))))
            return y if y[0] == 'f' else self.dist(y)
        return x

    # -- facts -------------------------------------------------------------
    def facts(self, conds):
        ex = {c[1] for c, b in conds if b and c[0] == 'exists'}
        for c, b in conds:
            if c in ex:
                continue
            z = None
            if b and c[0] == 'A' and c[2] == 'is_zero':
                z = c[1]
            elif b and c[0] == 'cmp' and c[1] in ('==', 'is') and len(
                    c) == 4:
                for l, r in ((c[2], c[3]), (c[3], c[2])):
                    if self.d(r) == ('num', 0):
                        z = l
            if z is not None:
                nf = self.d(simplify_local(z))
                self.zero.add(nf)
                if nf[0] == 'D' and nf[1][0] == 'dag':
                    pass
            if not b and c[0] == 'isinst' and c[2] == (
                    ('G', 'sympy.Basic'),):
                self.zero.add(('D', self.d(c[1])))

    def apply(self, x):
        """rewrite with the facts X == 0"""
        if x in self.zero:
            return ('num', 0)
        k = x[0]
        if k == 'sum':
            return self.sum([self.apply(y) for y in x[1]])
        if k == 'prod':
            return self.prod([self.apply(y) for y in x[1] + x[2]])
        if k == 'dag':
            return self.dag(self.apply(x[1]))
        return x


def calc_theory(repo, cls):
    bil = repo.is_sub(cls, 'SuperOperator')
    th = make_theory(repo, bil)
    th['one'] = ONES
    th['zero'] = ZEROS
    lin = dict(LINEAR)
    for k in repo.classes.values():
        if repo.is_sub(k, 'QuantumIndexedSum'):
            lin[k.name] = 'term'
    th['linear'] = lin
    return th


def make_calc(repo, cls, inst, sym=None):
    kw = kwargs_items(inst.kwargs) or ()
    sign = inst.heap.get((SELF, '_sign'))
    if sign is not None:
        kw = tuple((k, v) for k, v in kw if k != 'sign') + (('sign', sign),)
    c = Calc(repo, cls, simplify_local(inst.args), kw, set(),
             repo.is_sub(cls, 'Scalar') and cls.name not in PRODUCTS,
             calc_theory(repo, cls))
    if sign is not None:
        c.signs = (sign, dict(kwargs_items(inst.kwargs) or ()).get('sign'))
    c.sym = sym
    me = c.self_nf()
    if me[0] == 'f':
        for k, v in me[3]:
            if k in DEP:
                c.mark_scalar(v)
                c.mark_scalar(c.dag(v))
    return c


def short_operation(repo, cls, v):
    """a sum or product constructed directly from fewer than two operands"""
    dn = Denoter(repo, cls, None, None)
    for t in walk(v):
        if isinstance(t, tuple) and len(t) == 4 and t[0] == 'call' and not (
                t[1][0] == 'A' and t[1][2] == 'create'):
            c = dn.class_of(t[1])
            if c is not None and len(t[2]) < 2 and not any(
                    x[0] == '*' for x in t[2]) and (
                    dn.is_a(c, 'QuantumPlus') or dn.is_a(c, 'QuantumTimes')):
                return t
    return None


def plain_source(t):
    """an argument or attribute, possibly reordered"""
    while True:
        if t[0] in ('rev', 'sorted', '*', 'slice'):
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'G' and t[1][1] in (
                'builtins.' + x for x in ('reversed', 'list', 'tuple',
                                          'sorted', 'set', 'iter')) and t[2]:
            t = t[2][0]
        elif t[0] == 'seq' and len(t[2]) == 1 and t[2][0][0] == '*':
            t = t[2][0][1]
        else:
            return t[0] in ('P', 'A')


def unresolved(x):
    """contains something the interpretation does not understand"""
    if opaque(x):
        return True
    for y in walk(x):
        if isinstance(y, tuple) and y and y[0] in (
                'map', 'idx', 'RAISE', 'lam', 'exc', 'filtered',
                'fold', 'phi'):
            return True
        if isinstance(y, tuple) and len(y) == 2 and y[0] == 'elem' and \
                not plain_source(y[1]):
            return True
    return False
