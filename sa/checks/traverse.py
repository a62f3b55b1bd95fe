"""Operations that rebuild an expression with every part transformed:
substitution and scalar simplification."""
from ..algebra import show_nf
from ..calculus import DEP, flat, instances, make_calc, unresolved, Instance
from ..core import where
from ..flow import (SELF, NONE, Budget, const, is_const, mk_seq, walk, replace,
                    seq_items, elem, mk_map)
from ..model import flow, concrete_expressions, short, is_abstract_cls
from .adjoint import simplify_local, inline_all, conds_text, kwargs_items
from .memberwise import matrix_method, slh_method, not_expression

TAG = 'T!'


def spread(t):
    """write a map over a display as the display of the images"""
    def fn(x):
        if x[0] == 'map' and not x[3] and x[2][0] == 'seq' and \
                x[2] != ('seq', 'list', ()):
            body, src = spread(x[1]), spread(x[2])
            e = elem(x[2])
            out = []
            for y in src[2]:
                if y[0] == '*':
                    out.append(('*', spread(mk_map(replace(
                        body, lambda z: elem(y[1]) if z == e else None),
                        y[1]))))
                else:
                    out.append(replace(
                        body, lambda z: y if z == e else None))
            return ('seq', 'list', tuple(out))
        return None
    return splice(flat(replace(t, fn)))


def splice(t):
    """f(*[a, b]) is f(a, b)"""
    def fn(x):
        if x[0] == 'call' and any(y[0] == '*' and y[1][0] == 'seq'
                                  for y in x[2]):
            items = []
            for y in x[2]:
                if y[0] == '*' and y[1][0] == 'seq':
                    items.extend(y[1][2])
                else:
                    items.append(y)
            return splice(('call', x[1], tuple(items)) + x[3:])
        return None
    return replace(t, fn)


def known_sign(dn, x, conds):
    """the value of the sign of +/- c.c. on this path"""
    for c, b in conds:
        if c[0] == 'cmp' and c[1] == '<' and c[2] == const(0) and \
                c[3] == ('P', 'sign'):
            v = ('num', 1 if b else -1)

            def rec(y):
                if y == ('atom', ('kw', 'sign')):
                    return v
                if y[0] == 'sum':
                    return dn.sum([rec(z) for z in y[1]])
                if y[0] == 'prod':
                    return dn.prod([rec(z) for z in y[1] + y[2]])
                return y
            return rec(x)
    return x


def leaves_of(inst):
    res = set()
    for t in (inst.args, inst.kwargs):
        if t is None:
            continue
        for x in walk(t):
            if isinstance(x, tuple) and len(x) == 2 and x[0] == 'P' and \
                    x != SELF:
                res.add(x)
    return res


class Substitution:
    name = '_substitute'
    title = 'substitute'
    stop = ('substitute', 'subs', 'create', 'simplify_scalar', 'adjoint',
            'diff', 'series_expand')

    def __init__(self, var):
        self.var = ('P', var)

    def map_like(self, t):
        """the substitution dictionary, possibly restricted"""
        if t == self.var:
            return True
        if t[0] in ('call', 'map', 'dict', 'filtered', 'phi'):
            return any(x == self.var for x in walk(t))
        return False

    def target(self, t):
        """X if t is the image of X under the substitution"""
        if t[0] == 'call':
            f = t[1]
            if f[0] == 'G' and f[1].rpartition('.')[2] == 'substitute' and \
                    len(t[2]) == 2 and self.map_like(t[2][1]):
                return t[2][0]
            if f[0] == 'A' and f[2] in ('substitute', 'subs') and \
                    len(t[2]) == 1 and self.map_like(t[2][0]):
                return f[1]
            if f[0] == 'A' and f[2] == 'get' and self.map_like(f[1]) and \
                    len(t[2]) == 2 and t[2][0] == t[2][1]:
                return t[2][0]
        if t[0] == 'sub' and self.map_like(t[1]):
            return t[2]
        return None

    def excused(self, x, conds):
        return False


class Simplification(Substitution):
    name = '_simplify_scalar'
    title = 'simplify_scalar'

    def __init__(self, func, wrapped=()):
        self.func = ('P', func)
        self.wrapped = wrapped

    def target(self, t):
        if t[0] == 'call':
            f = t[1]
            if f[0] == 'A' and f[2] in ('simplify_scalar',
                                        '_simplify_scalar'):
                given = t[2] + tuple(v for _, v in t[3])
                if given == (self.func,):
                    return f[1]
            if f == self.func and len(t[2]) == 1 and not t[3]:
                return t[2][0]
        return None

    def excused(self, x, conds):
        def of(t):
            return any(y == x for y in walk(t))
        for c, b in conds:
            # unchanged by the simplification
            if c[0] == 'cmp' and len(c) == 4 and b == (
                    c[1] in ('is', '==')) and c[1] in (
                        'is', '==', 'is not', '!='):
                for l, r in ((c[2], c[3]), (c[3], c[2])):
                    if self.target(l) == r and of(r):
                        return True
        # no SymPy value, and no expression holding one
        no = [k[1].rpartition('.')[2] for c, b in conds
              if c[0] == 'isinst' and not b and of(c[1])
              for k in c[2] if k[0] == 'G']
        plain = any(k in ('Basic', 'SympyBasic', 'Expr') for k in no)
        return plain and (x in self.wrapped or any(
            k in ('Scalar', 'ScalarExpression', 'QuantumExpression',
                  'Expression') for k in no))


def strip(op, t, found):
    """replace the image of X by X"""
    def fn(x):
        y = op.target(x)
        if y is not None:
            found.append(y)
            return strip(op, y, found)
        if x[0] == 'map':
            return mk_map(strip(op, x[1], found), strip(op, x[2], found),
                          x[3])
        return None
    return flat(replace(t, fn))


def bare(op, t, leaves, res):
    """arguments that occur in t without having been transformed"""
    if not isinstance(t, tuple):
        return
    if t in leaves:
        res.add(t)
        return
    if t and isinstance(t[0], str) and op.target(t) is not None:
        return
    if t and t[0] == 'map':
        e = elem(t[2])
        src = set()
        bare(op, t[2], leaves, src)
        over = set()
        bare(op, t[1], leaves | {e}, over)
        if e in over:
            over.discard(e)
            res |= src
        res |= over
        for c in t[3]:
            bare(op, c, leaves - src, res)
        return
    for x in t:
        bare(op, x, leaves, res)


def class_of_self(cls, t):
    c = ('G', cls.qualname)

    def fn(x):
        if x == ('A', SELF, 'create'):
            return ('A', c, 'create')
        if x == ('call', ('G', 'builtins.type'), (SELF,), ()) or x == (
                'A', SELF, '__class__'):
            return c
        return None
    return replace(t, fn)


def rebuilds(repo, rep, cls, op, rule, required, args=None, extra=None):
    """required(inst) -> the leaves that have to be transformed"""
    found = repo.lookup(cls, op.name)
    key = '%s:%s' % (rule, cls.name)
    if not found or found[1] != 'method':
        rep.undec(key, 'no ' + op.name)
        return
    w = where(repo, found[0].module, found[2])
    n = 0
    for inst in instances(repo, cls):
        f = flow(repo, inline=inline_all('space', *op.stop), exact_self=cls,
                 max_paths=2000)
        f.merging = False
        hs = dict(kwargs_items(inst.kwargs) or ()).get('hs')
        if hs is not None:
            f.attr_hook = lambda t, hs=hs: hs if t == (
                'A', SELF, 'space') else None
        try:
            ps = f.summarise_method(cls, op.name, heap=inst.heap,
                                    conds=inst.conds, args=args)
        except Budget:
            rep.undec(key, 'path budget')
            continue
        need = required(inst)
        for p in ps or ():
            if p.out[0] != 'return':
                continue
            n += 1
            conds = p.conds[len(inst.conds):]
            v = spread(p.value)
            if op.target(v) == SELF and any(
                    b and c[0] == 'cmp' and c[1] == 'in' and c[2] == SELF
                    for c, b in conds):
                rep.ok(key)
                continue
            dn = make_calc(repo, cls, inst)
            me = dn.self_nf()
            left = set()
            if v == SELF:
                left = set(need)
                got = me
            else:
                v = class_of_self(cls, v)
                bare(op, v, need, left)
                got = dn.d(simplify_local(strip(op, v, [])))
                if any(x == SELF for x in walk(v)) and not any(
                        x == SELF for x in walk((inst.args, inst.kwargs))):
                    got = None
            left = {x for x in left if not op.excused(x, conds)}
            if left:
                rep.violation(key, w, '%s is left as it is%s' % (
                    ', '.join(sorted(short(x) for x in left)),
                    conds_text(p)))
                continue
            if got is None or got != me and unresolved(got):
                rep.undec(key, short(v))
                continue
            me, got = (known_sign(dn, x, p.conds) for x in (me, got))
            rep.decide(key, got == me or dn.dist(got) == dn.dist(me), w,
                       'the parts are put together as %s instead of %s%s' % (
                           show_nf(got)[:200], show_nf(me)[:160],
                           conds_text(p)))
    if not n:
        rep.undec(key, 'no returning path')


def c11(repo, rep):
    rep.rule('substitution', 'the value of _substitute on every path is the '
             'object rebuilt from its arguments, each of which has been '
             'substituted')
    for c in concrete_expressions(repo):
        rep.count('classes')
        if c.name == 'Matrix' or repo.is_sub(c, 'QuantumDerivative'):
            continue
        for safe in (False, True):
            rebuilds(repo, rep, c, Substitution('var_map'), 'substitution',
                     leaves_of, {'safe': const(safe)})


    entry_points(repo, rep)
    for c in concrete_expressions(repo):
        if repo.is_sub(c, 'QuantumDerivative'):
            derivative_substitution(repo, rep, c)
    op = Substitution('var_map')
    matrix_method(repo, rep, 'entrywise', '_substitute', {},
                  lambda k, e, x, conds: op.target(x) == e, ('substitute',),
                  whole=lambda v, conds: op.target(v) == SELF)
    for base in ('SymbolicLabelBase', 'IndexRangeBase'):
        for c in repo.subclasses(repo.cls(base)):
            if not is_abstract_cls(repo, c) and \
                    c.name != base:
                rep.count('index classes')
                index_substitution(repo, rep, c)


# -- entry points -------------------------------------------------------------

def entry_points(repo, rep):
    cls = repo.cls('Expression')
    op = Substitution('var_map')
    for c in concrete_expressions(repo):
        found = repo.lookup(c, 'substitute')
        key = 'entry:%s.substitute' % (found[0].name if found else c.name)
        if not found or found[1] != 'method':
            rep.undec(key, 'no method')
            continue
        w = where(repo, found[0].module, found[2])
        f = flow(repo, inline=inline_all('_substitute'), exact_self=c)
        n = 0
        for p in f.summarise_method(c, 'substitute') or ():
            if p.out[0] != 'return':
                continue
            n += 1
            v = p.value
            if v[0] == 'call' and v[1] == ('A', SELF, '_substitute') and \
                    len(v[2]) + len(v[3]) == 1:
                got = v[2][0] if v[2] else v[3][0][1]
                rep.decide(key, op.map_like(got), w, 'passes %s instead of '
                           'the substitution' % short(got))
            elif op.target(v) == SELF:
                rep.ok(key)
            elif v == SELF:
                empty = any(c0 == op.var and not b for c0, b in p.conds)
                rep.decide(key, empty, w, 'returns the object as it is' +
                           conds_text(p))
            else:
                rep.undec(key, short(v))
        if not n:
            rep.undec(key, 'no returning path')
    q = 'qnet.algebra.core.abstract_algebra.substitute'
    mod, fn = repo.func(q)
    key = 'entry:substitute'
    names = [a.arg for a in fn.args.args]
    if len(names) != 2:
        rep.undec(key, 'parameters')
        return
    x, m = ('P', names[0]), names[1]
    op = Substitution(m)
    w = where(repo, mod, fn)
    f = flow(repo, inline=inline_all('substitute'))
    n = 0
    for p in f.summarise(mod, fn) or ():
        if p.out[0] != 'return':
            continue
        n += 1
        v = p.value
        if op.target(v) == x:
            kept = [c for t in walk(v) if isinstance(t, tuple) and t and
                    t[0] == 'map' and len(t) == 4 for c in t[3]]
            ok = all(c[0] == 'isinst' and b and all(
                k[0] == 'G' and k[1].rpartition('.')[2] in (
                    'Basic', 'SympyBasic') for k in c[2])
                for c, b in kept) and (not kept or v[1][2] == 'subs')
            rep.decide(key, ok, w, 'entries of the substitution are dropped '
                       'for %s' % short(v))
        elif v == x:
            ok = any(c[0] == 'cmp' and c[1] == 'in' and c[2] == x and not b
                     for c, b in p.conds) or any(
                c[0] == 'cmp' and c[1] == 'not in' and c[2] == x and b
                for c, b in p.conds)
            rep.decide(key, ok, w, 'returned as it is' + conds_text(p))
        else:
            rep.undec(key, short(v))
    if not n:
        rep.undec(key, 'no returning path')


# -- symbolic derivatives -----------------------------------------------------

def covers(parts, need):
    """some part applies whenever `need` does (truth table over the atoms)"""
    import itertools
    atoms = sorted({c for p in parts for c, b in p} | {c for c, b in need},
                   key=repr)
    if len(atoms) > 6:
        return False
    for vals in itertools.product((True, False), repeat=len(atoms)):
        v = dict(zip(atoms, vals))
        if all(v[c] == b for c, b in need) and not any(
                all(v[c] == b for c, b in p) for p in parts):
            return False
    return True


def derivative_substitution(repo, rep, cls):
    op = Substitution('var_map')
    key = 'derivative:%s' % cls.name
    found = repo.lookup(cls, '_substitute')
    w = where(repo, found[0].module, found[2])
    derivs, vals = ('A', SELF, '_derivs'), ('A', SELF, '_vals')
    syms = (('A', SELF, '_syms'), ('A', SELF, 'syms'), derivs,
            ('A', SELF, 'derivs'))
    s = elem(derivs)

    def canon(t):
        def fn(x):
            if x == ('A', SELF, 'derivs'):
                return derivs
            if x == ('A', SELF, 'vals'):
                return vals
            for c in (derivs, vals):
                items = ('call', ('A', c, 'items'), (), ())
                if x == ('sub', elem(items), const(0)):
                    return elem(c)
                if x == ('sub', elem(items), const(1)):
                    return ('sub', c, elem(c))
                if x in (items, ('call', ('A', c, 'keys'), (), ())):
                    return c
            if x[0] == 'call' and x[1] == ('A', vals, 'get') and x[2]:
                return ('sub', vals, x[2][0])
            return None
        return replace(t, fn)

    def hygienic(m):
        """the differentiation symbols are exempt"""
        return any(c[:2] == ('cmp', 'in') and c[3] in syms and not b
                   for x in walk(m) if x[0] == 'map' for c, b in x[3])

    def entries(t):
        return [x for d in walk(t) if isinstance(d, tuple) and d and
                d[0] == 'dict' and len(d) == 2 for x in d[1]
                if x[0] == '**' and x[1][0] == 'map' and
                x[1][1][0] == 'seq' and len(x[1][1][2]) == 2 and
                x[1][2] == derivs]

    n = 0
    for safe in (True, False):
        f = flow(repo, inline=inline_all('space', 'operand', 'derivs', 'vals',
                                         *op.stop), exact_self=cls)
        for p in f.summarise_method(cls, '_substitute',
                                    args={'safe': const(safe)}) or ():
            if p.out[0] != 'return' or op.target(p.value) == SELF:
                continue
            n += 1
            v = canon(p.value)
            if v == SELF:
                rep.violation(key, w, 'returned as it is' + conds_text(p))
                continue
            if v[0] != 'call' or len(v[2]) != 1:
                rep.undec(key, short(v))
                continue
            o, kw = v[2][0], dict(v[3])
            if op.target(o) != ('A', SELF, 'operand'):
                if o == ('A', SELF, 'operand'):
                    rep.violation(key, w, 'the operand is left as it is')
                else:
                    rep.undec(key, short(o))
                continue
            m = o[2][-1]
            rep.decide(key, m != op.var and hygienic(m), w,
                       'a substitution for the variable of differentiation '
                       'is made in the operand, before differentiating')
            ds, vs = entries(kw.get('derivs', NONE)), entries(
                kw.get('vals', NONE))
            if not ds or not vs:
                if 'derivs' not in kw or 'vals' not in kw or \
                        NONE in (kw['derivs'], kw['vals']):
                    rep.violation(key, w, '%s is lost' % (
                        'vals' if ds else 'derivs'))
                else:
                    rep.undec(key, short(v))
                continue
            if kw['vals'][0] == 'and':
                rep.violation(key, w, 'vals is ' + short(kw['vals']))
            for what, es, need in (('derivs', ds, [()]), (
                    'vals', vs, [((('cmp', 'in', s, vals), True),),
                                 ((('cmp', 'in', s, op.var), True),)])):
                parts = []
                for _, mp in es:
                    k, x = mp[1][2]
                    parts.append(mp[3])
                    rep.decide(key, op.target(k) == s, w,
                               'the symbols of %s are left as they are: %s' %
                               (what, short(k)))
                    if what == 'derivs':
                        rep.decide(key, any(y == ('sub', derivs, s)
                                            for y in walk(x)), w,
                                   'the orders are lost: ' + short(x))
                    else:
                        t = op.target(x)
                        rep.decide(key, t in (('sub', vals, s), s) and (
                            t != s or not covers([mp[3]], [(
                                ('cmp', 'in', s, vals), True)])), w,
                            'the value of a symbol becomes %s' % short(x))
                for nd in need:
                    rep.decide(key, covers(parts, nd), w, 'some of %s are '
                               'lost' % what)
    if not n:
        rep.undec(key, 'no returning path')


# -- labels and ranges --------------------------------------------------------

def fields_of(repo, cls):
    """the attr.ib fields of a class, and those that only hold numbers"""
    import ast
    res, plain = [], set()
    for c in reversed(cls.mro):
        if not hasattr(c, 'node'):
            continue
        for st in c.node.body:
            if isinstance(st, ast.Assign) and isinstance(
                    st.value, ast.Call) and ast.unparse(
                        st.value.func) == 'attr.ib':
                name = st.targets[0].id
                if name not in res:
                    res.append(name)
                for k in st.value.keywords:
                    if k.arg == 'validator' and ast.unparse(
                            k.value).endswith('instance_of(int)'):
                        plain.add(name)
    return res, plain


def index_substitution(repo, rep, cls):
    op = Substitution('var_map')
    key = 'index:%s' % cls.name
    found = repo.lookup(cls, 'substitute')
    if not found or found[1] != 'method':
        rep.undec(key, 'no substitute')
        return
    w = where(repo, found[0].module, found[2])
    names, plain = fields_of(repo, cls)
    f = flow(repo, inline=inline_all('substitute', '_has_idx_syms'),
             exact_self=cls)
    n = 0
    for p in f.summarise_method(cls, 'substitute') or ():
        if p.out[0] != 'return':
            continue
        n += 1
        v = spread(p.value)
        if v == SELF:
            rep.violation(key, w, 'returned as it is' + conds_text(p))
            continue
        need = {('A', SELF, x) for x in names if x not in plain}
        left = set()
        bare(op, v, need, left)
        v = class_of_self(cls, v)
        own = v[0] == 'call' and v[1] == ('G', cls.qualname)
        rep.decide(key, not left, w, '%s is left as it is in %s%s' % (
            ', '.join(sorted(short(x) for x in left)), short(v),
            conds_text(p)))
        if repo.is_sub(cls, 'SymbolicLabelBase'):
            # rendered if and only if no index symbol is left
            tests = [b if c[0] == 'call' else None for c, b in p.conds
                     if any(op.target(x) == ('A', SELF, 'expr')
                            for x in walk(c))]
            if not tests:
                rep.violation(key, w, 'whether index symbols are left is not '
                              'looked at: ' + short(v))
            elif tests == [True] or tests == [False]:
                rep.decide(key, own == tests[0], w, '%s%s' % (
                    short(v), conds_text(p)))
            else:
                rep.undec(key, 'condition' + conds_text(p))
        if not own:
            continue
        given = dict(zip(names, v[2]))
        given.update(v[3])
        for x in names:
            if x not in given:
                rep.violation(key, w, '%s is lost in %s' % (x, short(v)))
                continue
            got = strip(op, given[x], [])
            core = [y for y in walk(got) if isinstance(y, tuple) and
                    len(y) == 3 and y[0] == 'A' and y[1] == SELF]
            rep.decide(key, set(core) == {('A', SELF, x)}, w,
                       '%s becomes %s' % (x, short(given[x])))
    if not n:
        rep.undec(key, 'no returning path')


def scalar_parts(repo, cls, inst):
    """the leaves that hold scalars or expressions: operands, symbol
    arguments, scalar arguments"""
    dn = make_calc(repo, cls, inst)
    me = dn.self_nf()
    res = set()
    every = leaves_of(inst)
    if cls.name == 'ScalarValue':
        return every
    if repo.is_sub(cls, 'QuantumSymbol') and cls.name != 'BasisKet':
        # the label and the space are kept, the symbol arguments are scalars
        res |= {x for x in every if x[1].lstrip('*') == 'sym_args'}

    def leafs(t):
        return {x for x in walk(t) if isinstance(x, tuple) and
                len(x) == 2 and x in every}
    for x in walk((inst.args, inst.kwargs)):
        if isinstance(x, tuple) and x and x[0] == 'call' and x[1] == (
                'G', 'qnet.algebra.core.scalar_algebra.ScalarValue.create'):
            res |= leafs(x)
    for k, v in (me[3] if me[0] == 'f' else ()):
        if k in DEP:
            res |= leafs(v)
    for b in ('QuantumOperation', 'Operation'):
        if repo.is_sub(cls, b):
            f = flow(repo, inline=inline_all(), exact_self=cls)
            for p in f.summarise_method(cls, 'operands', heap=inst.heap,
                                        conds=inst.conds) or ():
                if p.out[0] == 'return':
                    res |= leafs(p.value)
            break
    return res


def c13(repo, rep):
    rep.rule("simplification", "the value of _simplify_scalar on every path is the object rebuilt, with every scalar, coefficient and operand simplified")
    for c in concrete_expressions(repo, 'QuantumExpression'):
        rep.count('classes')
        if repo.is_sub(c, 'QuantumDerivative') or c.name == 'BasisKet':
            # a basis ket holds no scalar, and its label is checked against
            # its space by the constructor
            continue
        rebuilds(repo, rep, c, Simplification('func', {
            ('P', 'val')}), 'simplification',
                 lambda inst: scalar_parts(repo, c, inst))
    op = Simplification('func')

    def entry_ok(k, e, x, conds):
        return op.target(x) == e or x == e and (
            not_expression(repo, e, conds) and any(
                c[0] == 'isinst' and c[1] == e and not b and any(
                    k[0] == 'G' and k[1].rpartition('.')[2] in (
                        'Basic', 'SympyBasic', 'Expr') for k in c[2])
                for c, b in conds))
    matrix_method(repo, rep, 'entrywise', 'simplify_scalar',
                  {'func': ('P', 'func')}, entry_ok, op.stop)
    slh_method(repo, rep, 'entrywise', 'simplify_scalar', op.stop,
               lambda m, x: op.target(x) == m)
    for c in concrete_expressions(repo, 'QuantumExpression'):
        found = repo.lookup(c, 'simplify_scalar')
        key = 'entry:%s.simplify_scalar' % (found[0].name if found
                                            else c.name)
        if not found or found[1] != 'method':
            rep.undec(key, 'no method')
            continue
        w = where(repo, found[0].module, found[2])
        f = flow(repo, inline=inline_all('_simplify_scalar'), exact_self=c)
        for p in f.summarise_method(c, 'simplify_scalar') or ():
            if p.out[0] == 'return':
                ok = op.target(p.value) == SELF and \
                    p.value[1][2] == '_simplify_scalar'
                if not ok and p.value != SELF and p.value != NONE:
                    rep.undec(key, short(p.value))
                else:
                    rep.decide(key, ok, w, 'returns ' + short(p.value))
