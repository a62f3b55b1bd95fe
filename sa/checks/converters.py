"""Conversion to numeric and symbolic matrices is a homomorphism"""
import ast
import re

from ..core import where
from ..formal import (F0, F1, Formal, IP, ONEP, Poly, ZEROP, const, fun,
                      nd, rows_of, scalar, to_poly)
from ..linear import NONE, Open, State, lconst, num, truthy
from .models import Check, total

QT = 'qnet.convert.to_qutip.'
SY = 'qnet.convert.to_sympy_matrix.'
MAPPING = ('mapping',)
REFUSALS = ('ValueError', 'NotImplementedError', 'AlgebraError')


def gen(*name):
    return Poly({((), ((name, False),), ()): (F1, F0)})


def loc(space, *name):
    return gen('loc', space, *name)


def space(*names):
    return ('space', names)


def dim(v, it):
    p = ONEP
    for n in v[1]:
        p = p.mul(to_poly(it.dimension(n)))
    return p


MX = ('mx', 'smx', 'vec')


class Conv(Formal):
    """expressions are objects of their real classes with the attributes that
    these define; matrices are polynomials over the matrices of the local
    constituents, with the order of the tensor factors"""

    def __init__(self, repo, sizes=None, sympy=False):
        super().__init__(repo)
        self.sizes = sizes or {}
        self.sympy = sympy
        self.spins = ()
        self.opaque = {}
        self.samples = {}
        self.mapped = {}
        self.expanded = {}
        self.labels = ()
        for n in ('Destroy', 'Create', 'LocalSigma', 'OperatorSymbol',
                  'OperatorPlus', 'SPre', 'SPost', 'adjoint', 'is_scalar'):
            self.builders.pop(n, None)
        self.builders[('SLH', '__init__')] = None
        for n in ('convert_to_qutip', 'convert_to_sympy_matrix'):
            self.builders[n] = self.conv(n)
        self.builders['is_scalar'] = lambda it, a, kw, st: [
            (st, truthy(a[0][0] in ('int', 'sc')))]
        self.drive = None
        self.builders['move_drive_to_H'] = lambda it, a, kw, st: [
            (st, it.drive if a and not kw else NONE)]

    def dimension(self, n):
        return num(self.sizes[n]) if n in self.sizes else scalar('~d_' + n)

    def space_of(self, v):
        """the space with that dimension"""
        p = to_poly(v)
        for (s, l, r), c in p.t.items():
            if len(p.t) == 1 and len(s) == 1 and c == (F1, F0):
                n = s[0][0]
                if isinstance(n, str) and n.startswith('~d_'):
                    return n[3:]
        raise Open('a dimension')

    # -- the recursion --------------------------------------------------------
    def conv(self, fname):
        dotted = (SY if 'sympy' in fname else QT) + fname
        names = ['expr', 'full_space'] + (
            [] if 'sympy' in fname else ['mapping'])

        def go(it, args, kws, st):
            kw = dict(zip(names, args), **kws)
            if len(args) > len(names) or set(kw) - set(names):
                return [(st, ('EXC', 'TypeError'))]
            e = kw['expr']
            if e[0] == 'obj' and e[2] in self.opaque:
                own, p = self.opaque[e[2]]
                fs = kw.get('full_space', NONE)
                fs = own if fs == NONE else self.sp(fs)
                if fs[0] != 'space':
                    raise Open('space')
                if not set(own[1]) <= set(fs[1]):
                    return [(st, ('EXC', 'ValueError'))]
                if 'mapping' in names and \
                        kw.get('mapping', NONE) != self.mapping:
                    p = gen('converted without the mapping', e[2])
                k = 'smx' if self.repo.is_sub(self.repo.cls(
                    e[1]), 'SuperOperator') else 'mx'
                return [(st, (k, fs[1], p))]
            if e[0] == 'op' and e[1].scalar():
                fs = self.sp(kw.get('full_space', space()))
                return [(st, ('mx', fs[1], e[1]))]
            mod, node = self.repo.func(dotted)
            return [(s, o[1] if o[0] == 'return' else ('EXC', o[1]))
                    for s, o in self.function(mod, node, args, kws, st)]
        return go

    mapping = MAPPING

    @staticmethod
    def sp(v):
        if v == ('G', 'TrivialSpace'):
            return space()
        return v

    # -- expressions -----------------------------------------------------------
    def legit(self, cls, name):
        ci = self.repo.cls(cls)
        if name.startswith('_') or self.repo.lookup(ci, name) is not None:
            return True
        for c in ci.mro:
            if isinstance(c, str):
                continue
            if any(isinstance(x, ast.Attribute) and x.attr == name and
                   isinstance(x.ctx, ast.Store) for x in ast.walk(c.node)):
                return True
            if any('properties_for_args' in ast.dump(d)
                   for d in c.node.decorator_list):
                hit = self.repo.lookup(ci, '_arg_names')
                if hit is not None and hit[1] == 'attr' and isinstance(
                        hit[2], (ast.Tuple, ast.List)):
                    if name in [x.value for x in hit[2].elts]:
                        return True
        return False

    def attr(self, st, b, name, env=None):
        b = self.sp(b)
        if b[0] == 'space':
            if name == 'dimension':
                if len(b[1]) == 1:
                    return [(st, self.dimension(b[1][0]))]
                p = dim(b, self)
                return [(st, ('sc', p))]
            if name == 'local_factors':
                return [(st, ('tuple', tuple(space(n) for n in b[1])))]
            if name == 'basis_labels':
                return [(st, ('tuple', self.labels))]
            return [(st, ('bound', b, name))]
        if b[0] == 'G' and b[1] in ('IdentityOperator', 'ZeroOperator',
                                    'IdentitySuperOperator',
                                    'ZeroSuperOperator') and name == 'space':
            return [(st, space())]
        if b[0] == 'obj':
            h = st.heap.get(b[2], {})
            if name in h:
                if not self.legit(b[1], name):
                    return [(st, ('EXC', 'AttributeError'))]
                return [(st, h[name])]
            if name in ('expand', 'free_symbols'):
                return [(st, ('bound', b, name))]
        if b[0] in MX:
            if name == 'H' and self.sympy:
                return [(st, (b[0], b[1], b[2].dag()))]
            if name in ('T', 'C') and self.sympy:
                p = conjugated(b[2])
                return [(st, (b[0], b[1], p.dag() if name == 'T' else p))]
            if name == 'dims':
                return [(st, ('dimsof', b[1]))]
            return [(st, ('bound', b, name))]
        if b[0] == 'nd' and name == 'H':
            n, m = b[1]
            t = self.transposed(b)
            return [(st, ('nd', t[1], tuple(
                ('sc', to_poly(x).dag()) for x in t[2])))]
        if b[0] == 'arr' and name in ('T', 'H'):
            return [(st, ('arr', (conjugated(b[1]) if name == 'T' else
                                  b[1]).dag()))]
        if b[0] in ('arr', 'svd'):
            return [(st, ('bound', b, name))]
        if b[0] == 'sc' and name in ('real', 'imag'):
            return [(st, ('sc', fun(name, b[1])))]
        if b[0] in ('sc', 'op') and name == 'free_symbols':
            return [(st, ('set', tuple(
                ('sc', Poly({((g,), (), ()): (F1, F0)}))
                for g in dict.fromkeys(
                    g for s, _, _ in b[1].t for g in self.atoms(s)))))]
        return super().attr(st, b, name, env)

    def atoms(self, s):
        for g in s:
            if isinstance(g[0], str):
                yield g
            else:
                for s2, _, _ in g[0][1].t:
                    for x in self.atoms(s2):
                        yield x

    def is_a(self, v, t):
        n = t[1].rpartition('.')[2] if t[0] in ('cls', 'G') else None
        v = self.sp(v)
        if v[0] == 'G':
            ci = self.repo.maybe_cls(v[1])
            if ci is not None:
                return self.repo.is_sub(ci, n)
        if v[0] == 'obj':
            return self.repo.is_sub(self.repo.cls(v[1]), n)
        if v[0] == 'space':
            return n in ('HilbertSpace', 'Expression') or len(
                v[1]) == 1 and n == 'LocalSpace' or len(
                v[1]) > 1 and n == 'ProductSpace' or n == 'SpinSpace' and \
                v[1][0] in self.spins
        if v[0] in MX:
            return n == ('Matrix' if self.sympy else 'Qobj') or \
                self.sympy and n in ('MatrixBase', 'MutableDenseMatrix')
        if v[0] == 'sc' and n in ('str', 'int', 'Operator', 'Matrix',
                                  'Symbol', 'ScalarValue'):
            return n == 'Symbol' and len(v[1].t) == 1
        if v[0] == 'fnmap':
            return False
        return super().is_a(v, t)

    def compare(self, st, op, a, b):
        a, b = self.sp(a), self.sp(b)
        o = self.OPS.get(type(op))
        if a[0] == b[0] == 'space':
            x, y = set(a[1]), set(b[1])
            r = {'==': x == y, '!=': x != y, '<=': x <= y, '>=': x >= y,
                 '<': x < y, '>': x > y}.get(o)
            if r is not None:
                return [(st, truthy(r))]
        if 'space' in (a[0], b[0]) and o in ('==', '!='):
            return [(st, truthy(o == '!='))]
        if a[0] == b[0] == 'set' and o in ('==', '!='):
            return [(st, truthy((set(a[1]) == set(b[1])) == (o == '==')))]
        if o in ('==', '!=') and 'none' in (a[0], b[0]) and a != b:
            return [(st, truthy(o == '!='))]
        if a[0] == b[0] == 'svd' and o in ('<', '>', '<=', '>=') and \
                a[2] == b[2]:
            if a[1] == 's' and b[1] == 'tol':
                return [(st, ('svd', 'null' if o[0] == '<' else 'range',
                              a[2]))]
            if 's0' in (a[1], b[1]) and 's' in (a[1], b[1]):
                return [(st, ('svd', 'large', a[2]))]
            if a[1] == 'tol' and b[1] == 's':
                return [(st, ('svd', 'null' if o[0] == '>' else 'range',
                              a[2]))]
        if self.is_dim(a) and b[0] in ('int', 'sc') or \
                self.is_dim(b) and a[0] in ('int', 'sc'):
            if o in ('<', '>', '<=', '>='):
                return [(st, truthy(True)), (st, truthy(False))]
        if 'obj' in (a[0], b[0]) and o in ('==', '!='):
            return [(st, truthy((a == b) == (o == '==')))]
        return super().compare(st, op, a, b)

    @staticmethod
    def is_dim(v):
        return v[0] == 'sc' and len(v[1].t) == 1 and all(
            isinstance(g[0], str) and g[0].startswith('~d_')
            for s, _, _ in v[1].t for g in s) and any(
            s for s, _, _ in v[1].t)

    def contains(self, st, seq, x):
        if seq == MAPPING:
            return [(st, x in self.mapped)]
        if seq[0] == 'set':
            return [(st, x in seq[1])]
        if seq[0] == 'tuple' and x[0] == 'space':
            return [(st, x in seq[1])]
        return super().contains(st, seq, x)

    def truth(self, st, v):
        if v[0] == 'set':
            return [(st, bool(v[1]))]
        if v[0] == 'space':
            return [(st, True)]
        return super().truth(st, v)

    # -- arithmetic --------------------------------------------------------------
    def plainv(self, v, st):
        if v[0] == 'obj' and v[1] == 'ScalarValue':
            return st.heap[v[2]]['val']
        return v

    def e_BinOp(self, node, env, st):
        res = []
        for s, vs in self.evs([node.left, node.right], env, st):
            if vs[0] == 'EXC':
                res.append((s, vs))
                continue
            a, b = (self.plainv(v, s) for v in vs)
            res += super().e_BinOp(ast.BinOp(
                ast.Name('$a', ast.Load()), node.op,
                ast.Name('$b', ast.Load())), {'$a': a, '$b': b}, s)
        return res

    def binop(self, op, a, b):
        if 'svd' in (a[0], b[0]) and isinstance(op, ast.Mult):
            x, c = (a, b) if a[0] == 'svd' else (b, a)
            k = to_poly(c).const()
            if x[1] == 's0' and k and k[1] == 0 and k[0] > 0:
                return ('svd', 'tol' if k[0] < 1e-3 else 's0', x[2])
            raise Open('singular values')
        if isinstance(op, ast.Mod) and a[0] == 'text':
            return ('text', None)
        if a[0] == b[0] == 'arr' and isinstance(op, ast.MatMult):
            return ('arr', a[1].mul(b[1]))
        if self.sympy and isinstance(op, (ast.Add, ast.Sub)) and (
                a[0] in MX + ('nd',)) != (b[0] in MX + ('nd',)) and \
                self.scalars(a if b[0] in MX + ('nd',) else b):
            x = to_poly(a if b[0] in MX + ('nd',) else b)
            if x.t or b[0] in MX + ('nd',) and isinstance(op, ast.Sub):
                return ('EXC', 'TypeError')
            return b if b[0] in MX + ('nd',) else a
        if a[0] in MX or b[0] in MX:
            return self.matrices(op, a, b)
        if self.sympy and a[0] == 'nd' and isinstance(op, ast.Pow):
            k = self.index(b)
            r = a
            for _ in range(k - 1):
                r = self.binop(ast.Mult(), r, a)
            return r
        if self.sympy and a[0] == b[0] == 'nd' and isinstance(
                op, (ast.Mult, ast.MatMult)):
            if a[1][1] != b[1][0]:
                return ('EXC', 'ShapeError')
            x, y = rows_of(a), rows_of(b)
            return nd([[('sc', total(
                to_poly(x[i][k]).mul(to_poly(y[k][j]))
                for k in range(len(y)))) for j in range(b[1][1])]
                for i in range(a[1][0])])
        return super().binop(op, a, b)

    def matrices(self, op, a, b):
        if a[0] in MX and b[0] in MX:
            if a[0] == 'smx' and b[0] == 'vec' and isinstance(op, ast.Mult) \
                    and a[1] == b[1]:
                return ('vec', a[1], gen('applied', a[2], b[2]))
            if a[0] != b[0] or a[1] != b[1]:
                return ('EXC', 'TypeError')
            if isinstance(op, (ast.Mult, ast.MatMult)):
                return (a[0], a[1], a[2].mul(b[2]))
            if isinstance(op, ast.Add):
                return (a[0], a[1], a[2].add(b[2]))
            if isinstance(op, ast.Sub):
                return (a[0], a[1], a[2].add(b[2], (-F1, F0)))
            raise Open('matrices')
        m, c = (a, b) if a[0] in MX else (b, a)
        if not self.scalars(c):
            raise Open('%s and a matrix' % c[0])
        p = to_poly(c)
        if isinstance(op, ast.Mult):
            return (m[0], m[1], m[2].mul(p))
        if isinstance(op, ast.Add):
            # a number counts as a multiple of the identity
            one = gen('ones') if m[0] == 'vec' else ONEP
            return (m[0], m[1], m[2].add(one.mul(p))) if p.t else m
        if isinstance(op, ast.Div) and m is a:
            from ..formal import inv
            return (m[0], m[1], m[2].mul(inv(p)))
        if isinstance(op, ast.Pow) and m is a:
            k = self.index(c)
            r = ONEP
            for _ in range(k):
                r = r.mul(m[2])
            return (m[0], m[1], r)
        raise Open('a matrix and a number')

    def e_UnaryOp(self, node, env, st):
        if not isinstance(node.op, ast.USub):
            return super().e_UnaryOp(node, env, st)
        res = []
        for s, v in self.ev(node.operand, env, st):
            if v[0] in MX:
                res.append((s, (v[0], v[1], v[2].mul(const(-1)))))
            else:
                res += super().e_UnaryOp(ast.UnaryOp(
                    node.op, ast.Name('$a', ast.Load())), {'$a': v}, s)
        return res

    def e_Set(self, node, env, st):
        return [(s, v if v[:1] == ('EXC',) else ('set', tuple(v)))
                for s, v in self.evs(node.elts, env, st)]

    def e_Subscript(self, node, env, st):
        res = []
        for s, vs in self.evs([node.value], env, st):
            v = vs if vs[0] == 'EXC' else vs[0]
            if v == MAPPING:
                for s2, k in self.ev(node.slice, env, s):
                    res.append((s2, self.mapped.get(k, ('EXC', 'KeyError'))))
                continue
            if v[0] == 'svd' and v[1] == 's':
                for s2, k in self.ev(node.slice, env, s):
                    if k != num(0):
                        raise Open('singular values')
                    res.append((s2, ('svd', 's0', v[2])))
                continue
            if v[0] == 'svd' and v[1] == 'Vh':
                k = node.slice
                if isinstance(k, ast.Tuple) and len(k.elts) == 2 and \
                        isinstance(k.elts[1], ast.Slice) and not (
                        k.elts[1].lower or k.elts[1].upper or
                        k.elts[1].step):
                    k = k.elts[0]
                for s2, m in self.ev(k, env, s):
                    if m[0] != 'svd' or m[1] not in ('null', 'range',
                                                     'large'):
                        raise Open('singular vectors')
                    res.append((s2, ('arr', gen(
                        'rows', m[1], v[2]))))
                continue
            if v[0] == 'svd':
                res += [(s, ('EXC', 'TypeError'))] if v[1] == 'all' else [
                    self.no('singular values')]
                continue
            if v[0] in MX:
                raise Open('item of a matrix')
            res += super().e_Subscript(ast.Subscript(
                ast.Name('$v', ast.Load()), node.slice, ast.Load()),
                dict(env, **{'$v': v}), s)
        return res

    @staticmethod
    def no(why):
        raise Open(why)

    def assign(self, target, v, env, st):
        if isinstance(target, ast.Subscript) and isinstance(
                target.value, ast.Name):
            a = env.get(target.value.id, ('',))
            if a[0] == 'nd' and len(a[1]) == 2 and a[1][1] == 1 and \
                    not isinstance(target.slice, ast.Tuple):
                t = ast.Subscript(target.value, ast.Tuple(
                    [target.slice, ast.Constant(0)], ast.Load()),
                    ast.Store())
                return super().assign(t, v, env, st)
            if a[0] == 'tuple':
                res = []
                for s, k in self.ev(target.slice, env, st):
                    xs = list(a[1])
                    try:
                        xs[self.key(k, len(xs))] = v
                    except IndexError:
                        res.append((s, env, ('raise', 'IndexError')))
                        continue
                    res.append((s, dict(env, **{
                        target.value.id: ('tuple', tuple(xs))}), None))
                return res
        return super().assign(target, v, env, st)

    def s_AugAssign(self, node, env, st):
        t = node.target
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
            load = ast.Subscript(t.value, t.slice, ast.Load())
            return self.values(
                ast.BinOp(load, node.op, node.value), env, st,
                lambda s, v: self.assign(t, v, env, s))
        return super().s_AugAssign(node, env, st)

    # -- calls -----------------------------------------------------------------
    def bound(self, st, b, name, args, kws):
        b = self.sp(b)
        if b[0] == 'space':
            if name == 'is_tensor_factor_of' and len(args) == 1:
                return [(st, truthy(set(b[1]) <= set(self.sp(
                    args[0])[1])))]
        if b[0] == 'tuple' and name == 'index' and len(args) == 1:
            if args[0] in b[1]:
                return [(st, num(b[1].index(args[0])))]
            return [(st, ('EXC', 'ValueError'))]
        if b[0] == 'obj' and name == 'expand' and not args:
            return [(st, self.expanded.get(b, b))]
        if b[0] in MX:
            if name in ('dag', 'adjoint', 'H') and not args:
                if b[0] != 'mx':
                    raise Open('adjoint')
                return [(st, (b[0], b[1], b[2].dag()))]
            if name in ('conj', 'conjugate', 'trans', 'transpose') and \
                    not args and b[0] == 'mx':
                p = conjugated(b[2])
                return [(st, (b[0], b[1], p if name[0] == 'c' else
                              p.dag()))]
            if name in ('expm', 'exp') and not args:
                return [(st, (b[0], b[1], self.exponential(b)))]
            if name == 'norm':
                return [(st, num(int(bool(b[2].t))))]
            if name == 'full' and not args:
                return [(st, ('arr', b[2]))]
            if name == 'toarray':
                raise Open('toarray')
            if name == 'data':
                raise Open('data')
        if b[0] == 'bound' and b[1][0] == 'mx' and b[2] == 'data' and \
                name in ('toarray', 'todense'):
            return [(st, ('arr', b[1][2]))]
        if b[0] == 'arr':
            if name in ('conjugate', 'conj') and not args:
                return [(st, ('arr', conjugated(b[1])))]
            if name == 'transpose' and not args:
                return [(st, ('arr', conjugated(b[1]).dag()))]
            if name == 'dot' and len(args) == 1 and args[0][0] == 'arr':
                return [(st, ('arr', b[1].mul(args[0][1])))]
        if b[0] == 'sc' and name in ('subs', 'xreplace') and len(args) == 1 \
                and args[0][0] == 'dict':
            return [(st, ('sc', self.replaced(b[1], dict(args[0][1]))))]
        return super().bound(st, b, name, args, kws)

    def exponential(self, b):
        return gen('loc', b[1][0], 'exp', b[2]) if len(b[1]) == 1 else \
            gen('exp', b[2])

    def replaced(self, p, m):
        m = {(k if isinstance(k, Poly) else to_poly(k)):
             v if isinstance(v, Poly) else to_poly(v)
             for k, v in m.items()}
        res = ZEROP
        for (sc, l, r), c in p.t.items():
            t = Poly({((), l, r): c})
            for g in sc:
                k = Poly({((g,), (), ()): (F1, F0)})
                if k in m:
                    k = m[k]
                elif not isinstance(g[0], str):
                    k = fun(g[0][0], self.replaced(g[0][1], m))
                t = t.mul(k)
            res = res.add(t)
        return res

    def call(self, st, f, args, kws):
        if f[0] == 'lamb':
            if len(args) != 1 or kws:
                return [(st, ('EXC', 'TypeError'))]
            free = [g for s, _, _ in f[2][1].t for g in self.atoms(s)]
            if any(Poly({((g,), (), ()): (F1, F0)}) != f[1][1]
                   for g in free):
                return [(st, ('EXC', 'NameError'))]
            return [(st, ('sc', self.replaced(f[2][1],
                                              {f[1][1]: args[0]})))]
        if f[0] == 'fnmap':
            return [(st, ('mx', ('called',), gen('called', args[0]))
                     if len(args) == 1 else ('EXC', 'TypeError'))]
        return super().call(st, f, args, kws)

    # -- libraries ---------------------------------------------------------------
    def eye(self, v):
        if v[0] == 'int':
            k = self.index(v)
            return nd([[num(int(i == j)) for j in range(k)]
                       for i in range(k)])
        p = to_poly(v)
        (((s, l, r), c),) = p.t.items()
        names = tuple(g[0][3:] for g in s)
        if c != (F1, F0) or not all(g[0].startswith('~d_') for g in s):
            raise Open('a dimension')
        return ('mx', tuple(n for n in self.full if n in names), ONEP)

    full = ()

    def builtin(self, st, n, args, kws):
        short = n.rpartition('.')[2]
        lib = n.startswith('qutip.')
        if short == 'isinstance' and len(args) == 2:
            ts = args[1][1] if args[1][0] == 'tuple' else (args[1],)
            for t in ts:
                if t[0] == 'G' and self.repo.maybe_cls(t[1]) is not None:
                    return [(st, ('EXC', 'TypeError'))]
                if self.is_a(args[0], t):
                    return [(st, truthy(True))]
            return [(st, truthy(False))]
        if short == 'callable' and len(args) == 1:
            return [(st, truthy(args[0][0] == 'fnmap'))]
        if short == 'len' and len(args) == 1 and self.sp(
                args[0])[0] == 'space':
            return [(st, num(len(self.sp(args[0])[1])))]
        if short == 'complex' and len(args) == 1:
            v = self.plainv(args[0], st)
            if self.scalars(v):
                return [(st, ('sc', to_poly(v)))]
        if short in ('abs', 'real', 'imag') and len(args) == 1 and \
                self.scalars(args[0]) and \
                to_poly(args[0]).const() is None:
            return [(st, ('sc', fun(short, to_poly(args[0]))))]
        if short in ('str', 'repr') and len(args) == 1:
            return [(st, ('text', self.samples.get(
                args[0][1] if args[0][0] == 'sc' else None)))]
        if n in ('re.sub', 'sub') and len(args) == 3 and all(
                x[0] == 'text' and x[1] is not None for x in args):
            return [(st, ('text', re.sub(*[x[1] for x in args])))]
        if short == 'lambdify' and len(args) == 2:
            return [(st, ('lamb', args[0], args[1]))]
        if short == 'sum' and args:
            vs = self.items(args[0])
            acc = args[1] if len(args) > 1 else num(0)
            for v in vs:
                acc = self.binop(ast.Add(), acc, v)
                if acc[0] == 'EXC':
                    break
            return [(st, acc)]
        if short in ('tensor', 'TensorProduct') and args:
            if len(args) == 1 and args[0][0] == 'tuple':
                args = list(args[0][1])
            if any(a[0] not in ('mx',) for a in args):
                if any(a[0] == 'smx' for a in args):
                    return [(st, ('EXC', 'TypeError'))]
                raise Open('tensor product of %s' % [a[0] for a in args])
            p, d = ONEP, ()
            for a in args:
                p, d = p.mul(a[2]), d + a[1]
            return [(st, ('mx', d, p))]
        if lib or n in ('sympy.eye',):
            r = self.library(st, short, args, kws)
            if r is not None:
                return [(st, r)]
        if n == 'sympy.zeros' and len(args) in (1, 2):
            args = list(args) * (3 - len(args))
            if all(x[0] == 'int' for x in args):
                a, b = (self.index(x) for x in args)
                return [(st, ('nd', (a, b), (num(0),) * (a * b)))]
            if self.is_dim(args[0]):
                e = self.eye(args[0])
                return [(st, ('mx', e[1], ZEROP))]
        if n == 'sympy.diag' and args:
            k = len(args)
            return [(st, nd([[args[i] if i == j else num(0)
                              for j in range(k)] for i in range(k)]))]
        if short == 'sqrt' and len(args) == 1 and self.scalars(args[0]):
            return [(st, ('sc', root(to_poly(args[0]))))]
        if short == 'exp' and len(args) == 1 and args[0][0] == 'nd':
            raise Open('exp of an array')
        if short == 'arange' and len(args) == 1:
            return [(st, ('sc', to_poly(scalar('~k_' + self.space_of(
                args[0])))))]
        if short in ('np_diag', 'diag') and len(args) == 1 and \
                args[0][0] == 'sc':
            return [(st, ('diag', args[0][1]))]
        if short in ('csr_matrix',) and len(args) == 1 and \
                args[0][0] == 'tuple' and len(args[0][1]) == 2 and \
                args[0][1][0] == args[0][1][1]:
            return [(st, ('empty', self.space_of(args[0][1][0])))]
        if short == 'pinv' and args and args[0][0] == 'arr':
            return [(st, ('arr', gen('pinv', args[0][1])))]
        if short == 'svd' and args and args[0][0] == 'arr' and not kws:
            p = args[0][1]
            return [(st, ('tuple', tuple(('svd', k, p)
                                         for k in ('U', 's', 'Vh'))))]
        return super().builtin(st, n, args, kws)

    def library(self, st, n, args, kws):
        if n in ('qeye', 'identity', 'eye') and len(args) == 1:
            return self.eye(args[0])
        if n in ('create', 'destroy') and len(args) == 1:
            s = self.space_of(args[0])
            p = loc(s, 'a')
            return ('mx', (s,), p.dag() if n == 'create' else p)
        if n == 'num' and len(args) == 1:
            s = self.space_of(args[0])
            return ('mx', (s,), loc(s, 'a').dag().mul(loc(s, 'a')))
        if n == 'qzero' and len(args) == 1:
            return ('mx', (self.space_of(args[0]),), ZEROP)
        if n == 'jmat' and len(args) == 2:
            for s in self.spins:
                if to_poly(args[0]) == to_poly(self.dimension(s)).add(
                        ONEP, (-F1, F0)).mul(const(1, 0)).mul(HALF):
                    w = args[1][1]
                    if w in ('+', '-'):
                        p = loc(s, 'j+')
                        return ('mx', (s,), p if w == '+' else p.dag())
                    if w == 'z':
                        return ('mx', (s,), loc(s, 'jz'))
            return ('mx', ('?',), gen('spin matrices of another size'))
        if n in ('displace', 'squeeze') and len(args) == 2 and not kws:
            s = self.space_of(args[0])
            z = to_poly(self.plainv(args[1], st))
            return ('mx', (s,), moved(s, z) if n == 'displace' else
                    squeezed(s, z.mul(const(-1))))
        if n in ('basis', 'fock') and len(args) in (1, 2):
            s = self.space_of(args[0])
            return ('mx', (s,), loc(s, 'ket', args[1] if len(args) > 1
                                    else num(0)))
        if n == 'projection' and len(args) == 3:
            s = self.space_of(args[0])
            return ('mx', (s,), loc(s, 'ket', args[1]).mul(
                loc(s, 'ket', args[2]).dag()))
        if n == 'coherent' and len(args) == 2:
            s = self.space_of(args[0])
            return ('mx', (s,), loc(s, 'coherent', to_poly(args[1])))
        if n in ('spre', 'spost') and len(args) == 1 and args[0][0] == 'mx':
            v = args[0][2]
            return ('smx', args[0][1], (
                self.spre if n == 'spre' else self.spost)(('op', v))[1])
        if n == 'dag' and len(args) == 1:
            if args[0][0] != 'mx':
                return ('EXC', 'TypeError')
            return ('mx', args[0][1], args[0][2].dag())
        if n == 'operator_to_vector' and args[0][0] == 'mx':
            return ('vec',) + args[0][1:]
        if n == 'vector_to_operator' and args[0][0] == 'vec':
            return ('mx',) + args[0][1:]
        if n == 'Qobj' and len(args) == 1:
            v = args[0]
            if v[0] == 'diag' and not kws:
                ks = {g[0][3:] for s, _, _ in v[1].t for g in self.atoms(s)
                      if g[0].startswith('~k_')}
                if len(ks) == 1:
                    s, = ks
                    return ('mx', (s,), loc(s, 'diag', v[1]))
            if v[0] == 'empty' and not kws:
                return ('mx', (v[1],), ZEROP)
            if v[0] == 'arr':
                d = kws.get('dims', ('',))
                if d[0] != 'dimsof':
                    return ('mx', ('?',), v[1])
                return ('mx', d[1], v[1])
        return None


HALF = const(F1 / 2)


def conjugated(p):
    """complex conjugates of the entries of an array"""
    res = ZEROP
    for (sc, l, r), (re_, im) in p.t.items():
        res = res.add(Poly({((), (), ()): (re_, -im)}).mul(
            Poly({(sc, (), ()): (F1, F0)}).dag()).mul(Poly({((), tuple(
                (n[1] if isinstance(n, tuple) and n[0] == '~' else
                 ('~', n), d) for n, d in l), ()): (F1, F0)})))
    return res


def root(p):
    c = p.const()
    if c is not None and not c[1]:
        if not c[0]:
            return ZEROP
        for k in range(1, 40):
            if c[0] == k * k:
                return const(k)
        return Poly({((('~sqrt %s' % c[0], False),), (), ()): (F1, F0)})
    raise Open('sqrt')


def expm(s, p):
    return gen('loc', s, 'exp', p)


def moved(s, z):
    a = loc(s, 'a')
    return expm(s, z.mul(a.dag()).add(z.dag().mul(a), (-F1, F0)))


def squeezed(s, z):
    a = loc(s, 'a')
    return expm(s, z.mul(HALF).mul(a.dag()).mul(a.dag()).add(
        z.dag().mul(HALF).mul(a).mul(a), (-F1, F0)))


# -- worlds ------------------------------------------------------------------
class World:
    def __init__(self, repo, sizes=None, sympy=False, full='ghk'):
        self.it = Conv(repo, sizes, sympy)
        self.it.full = tuple(full)
        self.st = State()
        self.n = 10 ** 6

    def obj(self, cls, sp, **fields):
        self.n += 1
        o = ('obj', cls, self.n)
        self.st = self.st.copy()
        h = dict(fields)
        if sp is not None:
            h['space'] = sp
        if 'operands' in h:
            h['args'] = h['_operands'] = h['operands']
        self.st.heap[o[2]] = h
        return o

    def opaque(self, name, *where, cls='OperatorSymbol'):
        o = self.obj(cls, space(*where))
        p = loc(where[0], name) if len(where) == 1 else gen(name)
        self.it.opaque[o[2]] = (space(*where), p)
        return o, p

    def operation(self, cls, sp, *operands, **named):
        return self.obj(cls, sp, operands=('tuple', operands), **named)

    def value(self, name):
        p = to_poly(scalar(name))
        return self.obj('ScalarValue', space(), val=('sc', p)), p

    def convert(self, expr, full=None, mapping=MAPPING):
        it = self.it
        it.mapping = mapping
        args = [expr]
        kws = {}
        if full is not None:
            kws['full_space'] = full
        if mapping != NONE and not it.sympy:
            kws['mapping'] = mapping
        name = (SY + 'convert_to_sympy_matrix') if it.sympy else (
            QT + 'convert_to_qutip')
        return it.call(self.st, ('fn', name), args, kws)


class Judge(Check):
    def one(self, it, s, v, want):
        if isinstance(want, tuple) and want[:1] == ('refuse',):
            if v[0] == 'EXC' and any(it.is_exc(v[1], x) for x in want[1]):
                return None
            if want[2] is None:
                return 'the error %s' % v[1] if v[0] == 'EXC' else \
                    'a result instead of an error'
            want = want[2]
        if v[0] == 'EXC':
            return 'the error %s' % v[1]
        if callable(want):
            return want(it, s, v)
        wants = want if isinstance(want, list) else [want]
        for w in wants:
            if v[:3] == w:
                return None
        w = wants[0]
        if w[2] == ZEROP and v in (num(0), ('sc', ZEROP)) and it.sympy:
            return None
        if v[0] == w[0] == 'nd':
            if v[1] != w[1]:
                return 'shape %s' % (v[1],)
            for i, (x, y) in enumerate(zip(v[2], w[2])):
                if to_poly(x) != to_poly(y):
                    return 'entry %d is %r, not %r' % (
                        i, to_poly(x), to_poly(y))
            return None
        if v[0] not in MX + ('nd', 'tuple', 'int', 'none', 'sc', 'obj'):
            raise Open('the result %s' % v[0])
        if v[0] != w[0]:
            return 'the result is a %s' % v[0]
        if v[0] in MX and v[1] != w[1]:
            return 'tensor factors %s, not %s' % (
                '*'.join(v[1]), '*'.join(w[1]))
        return '%r is not %r' % (v[2], w[2])


FULL = ('g', 'h', 'k')


def local_cases(w, s):
    """(name, expression of the class, its matrices)"""
    sp = space(s)
    z = scalar('z')
    zp = to_poly(z)
    a = loc(s, 'a')
    k = to_poly(scalar('~k_' + s))
    ph = zp.mul(k)
    yield 'Destroy', w.obj('Destroy', sp), [a]
    yield 'Create', w.obj('Create', sp), [a.dag()]
    cis = fun('cos', ph).add(fun('sin', ph).mul(IP))
    yield 'Phase', w.obj('Phase', sp, phase=z, args=('tuple', (z,))), [
        loc(s, 'diag', cis), loc(s, 'diag', fun('exp', ph.mul(IP)))]
    yield 'Displace', w.obj('Displace', sp, displacement=z,
                            args=('tuple', (z,))), [moved(s, zp)]
    yield 'Squeeze', w.obj('Squeeze', sp, squeezing_factor=z,
                           args=('tuple', (z,))), [squeezed(s, zp)]
    yield 'Jz', w.obj('Jz', sp), [loc(s, 'jz').mul(const(-1))]
    yield 'Jplus', w.obj('Jplus', sp), [loc(s, 'j+').dag()]
    yield 'Jminus', w.obj('Jminus', sp), [loc(s, 'j+')]
    w.it.labels = (('text', 'e'), ('text', 'f'), ('text', 'g'))
    for j, k2 in ((0, 0), (1, 0), (0, 2), (2, 1)):
        for t in (False, True):
            lab = [w.it.labels[x] if t else num(x) for x in (j, k2)]
            yield 'LocalSigma', w.obj(
                'LocalSigma', sp, j=lab[0], k=lab[1],
                args=('tuple', tuple(lab))), [
                loc(s, 'ket', num(j)).mul(loc(s, 'ket', num(k2)).dag())]


def local_operators(c, sympy=False):
    kinds = {}
    pre = 'sympy' if sympy else 'qutip'

    def cases():
        w = World(c.repo, sympy=sympy)
        w.it.spins = FULL
        for s in FULL:
            for name, e, ps in local_cases(w, s):
                yield w, s, name, e, ps
    if not sympy:
        for name in ('Destroy', 'Create', 'Phase', 'Displace', 'Squeeze',
                     'Jz', 'Jplus', 'Jminus', 'LocalSigma'):
            def own(name=name):
                for w, s, n, e, ps in cases():
                    if n == name:
                        yield w.it, w.convert(e), [
                            ('mx', (s,), p) for p in ps]
                        yield w.it, w.convert(e, space(s)), [
                            ('mx', (s,), p) for p in ps]
                        yield w.it, w.convert(e, space(*FULL)), [
                            ('mx', FULL, p) for p in ps]
            c.judge('%s:%s' % (pre, name), at(c, QT, LOCAL), own)


CONVQ = 'convert_to_qutip'
LOCAL = '_convert_local_operator_to_qutip'


def at(c, mod, name):
    r = c.at_fn(mod + name)
    if r == mod + name:
        r = c.at_fn(mod + ('convert_to_sympy_matrix' if mod == SY
                           else CONVQ))
    return r


def operations(c, sympy=False):
    mod = SY if sympy else QT
    pre = 'sympy' if sympy else 'qutip'
    loc_fn = 'convert_to_sympy_matrix' if sympy else \
        '_convert_operator_operation_to_qutip'

    def case(name, fn=loc_fn):
        def deco(f):
            def make():
                w = World(c.repo, sympy=sympy)
                for e, full, want in f(w):
                    yield w.it, w.convert(e, full), want
            c.judge('%s:%s' % (pre, name), at(c, mod, fn), make)
        return deco
    S = space(*FULL)

    @case('constants', 'convert_to_sympy_matrix' if sympy else CONVQ)
    def constants(w):
        for n, p in (('Identity', ONEP), ('Zero', ZEROP)):
            for d in (('g',), ('g', 'h'), FULL):
                yield ('G', n + 'Operator'), space(*d), ('mx', d, p)

    @case('space', 'convert_to_sympy_matrix' if sympy else CONVQ)
    def out(w):
        A, _ = w.opaque('A', 'g')
        e = w.obj('Create', space('g'))
        yield e, space('h', 'k'), ('refuse', ('ValueError',), None)
        if not sympy:
            yield e, space(), ('refuse', ('ValueError',), None)
            yield ('G', 'IdentityOperator'), None, (
                'refuse', ('AlgebraError',), None)
        yield w.obj('OperatorSymbol', space('g')), space('g'), (
            'refuse', ('ValueError',), None)

    @case('OperatorPlus')
    def plus(w):
        A, a = w.opaque('A', 'g')
        B, b = w.opaque('B', 'k')
        C, d = w.opaque('C', 'g', 'k')
        for xs, ps in (((A, B), (a, b)), ((C, A, B), (d, a, b)),
                       ((A, A), (a, a))):
            yield w.operation('OperatorPlus', space('g', 'k'), *xs), S, (
                'mx', FULL, total(ps))
            yield w.operation('OperatorPlus', space('g', 'k'), *xs), \
                space('g', 'k'), ('mx', ('g', 'k'), total(ps))

    @case('OperatorTimes')
    def times(w):
        A, a = w.opaque('A', 'g')
        B, b = w.opaque('B', 'k')
        C, d = w.opaque('C', 'g')
        D, e = w.opaque('D', 'h')
        for xs, ps in (((A, C), (a, d)), ((C, A), (d, a)),
                       ((A, B), (a, b)), ((B, A, C), (b, a, d)),
                       ((C, D, B, A), (d, e, b, a)), ((A, A), (a, a)),
                       ((B, D), (b, e)), ((C, A, C), (d, a, d))):
            p = ONEP
            for x in ps:
                p = p.mul(x)
            names = tuple(n for n in FULL if any(
                w.it.opaque[x[2]][0] == space(n) for x in xs))
            for full in {FULL, names}:
                yield w.operation('OperatorTimes', space(*names), *xs), \
                    space(*full), ('mx', full, p)
            if len(names) == 1:
                yield w.operation('OperatorTimes', space(*names), *xs), \
                    None, ('mx', names, p)

    @case('OperatorTimes:nonlocal')
    def nonlocal_(w):
        A, a = w.opaque('A', 'g')
        C, d = w.opaque('C', 'g', 'k')
        E, e = w.opaque('E', 'g', 'k')
        for xs in ((A, C), (C, A), (C, C)):
            t = w.operation('OperatorTimes', space('g', 'k'), *xs)
            w.it.expanded[t] = E
            for full in (('g', 'k'), FULL):
                yield t, space(*full), ('mx', full, e)
            t = w.operation('OperatorTimes', space('g', 'k'), *xs)
            yield t, S, ('refuse', ('ValueError',), None)

    @case('Adjoint')
    def adjoint(w):
        for X, x in (w.opaque('A', 'g'), w.opaque('C', 'g', 'k')):
            sp = w.it.opaque[X[2]][0]
            t = w.operation('Adjoint', sp, X, operand=X)
            for full in (sp, S):
                yield t, full, ('mx', full[1], x.dag())

    @case('ScalarTimesOperator')
    def scaled(w):
        A, a = w.opaque('A', 'g')
        v, p = w.value('c')
        t = w.operation('ScalarTimesOperator', space('g'), v, A, coeff=v,
                        term=A)
        for full in (space('g'), S):
            yield t, full, ('mx', full[1], p.mul(a))
    if sympy:
        return

    @case('PseudoInverse')
    def pinv(w):
        for X, x in (w.opaque('A', 'g'), w.opaque('C', 'g', 'k')):
            sp = w.it.opaque[X[2]][0]
            t = w.operation('PseudoInverse', sp, X, operand=X)
            for full in (sp, S):
                yield t, full, ('refuse', ('NotImplementedError',), (
                    'mx', full[1], gen('pinv', x)))

    @case('NullSpaceProjector')
    def null(w):
        for X, x in (w.opaque('A', 'g'), w.opaque('C', 'g', 'k')):
            sp = w.it.opaque[X[2]][0]
            t = w.operation('NullSpaceProjector', sp, X, operand=X)
            v = gen('rows', 'null', x)
            for full in (sp, S):
                yield t, full, ('refuse', ('NotImplementedError',), (
                    'mx', full[1], v.dag().mul(v)))

    @case('SuperOperatorTimesOperator')
    def applied(w):
        A, a = w.opaque('A', 'g')
        M, m = w.opaque('M', 'g', cls='SuperOperatorSymbol')
        t = w.operation('SuperOperatorTimesOperator', space('g'), M, A,
                        sop=M, op=A)
        for full in (space('g'), S):
            yield t, full, ('mx', full[1], gen('applied', m, a))

    @case('KetBra', '_convert_state_operation_to_qutip')
    def ketbra(w):
        A, a = w.opaque('A', 'h', cls='KetSymbol')
        B, b = w.opaque('B', 'h', cls='KetSymbol')
        bra = w.operation('Bra', space('h'), B, ket=B, operand=B)
        t = w.operation('KetBra', space('h'), A, B, ket=A, bra=bra)
        for full in (space('h'), S):
            yield t, full, ('mx', full[1], a.mul(b.dag()))

    @case('BraKet', '_convert_state_operation_to_qutip')
    def braket(w):
        A, a = w.opaque('A', 'h', cls='KetSymbol')
        B, b = w.opaque('B', 'h', cls='KetSymbol')
        bra = w.operation('Bra', space('h'), B, ket=B, operand=B)
        t = w.operation('BraKet', space(), B, A, ket=A, bra=bra)
        yield t, space('h'), ('mx', ('h',), b.dag().mul(a))

    KET = '_convert_ket_to_qutip'

    @case('Bra', KET)
    def bras(w):
        for s in FULL:
            A, a = w.opaque('A', s, cls='KetSymbol')
            t = w.operation('Bra', space(s), A, ket=A, operand=A)
            for full in ((s,), FULL):
                yield t, space(*full), ('mx', full, a.dag())

    @case('BasisKet', KET)
    def basis(w):
        for s in FULL:
            for i in range(3):
                t = w.obj('BasisKet', space(s), index=num(i))
                for full in (None, (s,), FULL):
                    yield t, full and space(*full), (
                        'mx', full or (s,), loc(s, 'ket', num(i)))

    @case('CoherentStateKet', KET)
    def coherent(w):
        z = scalar('z')
        for s in FULL:
            t = w.obj('CoherentStateKet', space(s), ampl=z,
                      args=('tuple', (z,)))
            for full in ((s,), FULL):
                yield t, space(*full), ('mx', full, loc(
                    s, 'coherent', to_poly(z)))

    @case('KetPlus', KET)
    def ketplus(w):
        A, a = w.opaque('A', 'h', cls='KetSymbol')
        B, b = w.opaque('B', 'h', cls='KetSymbol')
        C, d = w.opaque('C', 'g', 'h', cls='KetSymbol')
        D, e = w.opaque('D', 'g', 'h', cls='KetSymbol')
        t = w.operation('KetPlus', space('h'), A, B, A)
        for full in (space('h'), S):
            yield t, full, ('mx', full[1], total((a, b, a)))
        yield w.operation('KetPlus', space('g', 'h'), C, D), \
            space('g', 'h'), ('mx', ('g', 'h'), d.add(e))

    @case('TensorKet', KET)
    def tensorket(w):
        A, a = w.opaque('A', 'g', cls='KetSymbol')
        B, b = w.opaque('B', 'h', cls='KetSymbol')
        C, d = w.opaque('C', 'k', cls='KetSymbol')
        for xs, p, d in (((A, B), a.mul(b), 'gh'),
                         ((A, B, C), a.mul(b).mul(d), 'ghk'),
                         ((B, C), b.mul(d), 'hk')):
            d = tuple(d)
            for full in (None, space(*d)):
                yield w.operation('TensorKet', space(*d), *xs), full, (
                    'mx', d, p)
        E, e = w.opaque('E', 'g', 'h', cls='KetSymbol')
        N, _ = w.opaque('N', 'g', 'h', cls='KetSymbol')
        t = w.operation('TensorKet', space(*FULL), N, C)
        w.it.expanded[t] = E
        yield t, None, ('mx', FULL, e)
        t = w.operation('TensorKet', space(*FULL), N, C)
        yield t, None, ('refuse', ('ValueError',), None)

    @case('ScalarTimesKet', KET)
    def scaledket(w):
        A, a = w.opaque('A', 'h', cls='KetSymbol')
        v, p = w.value('c')
        t = w.operation('ScalarTimesKet', space('h'), v, A, coeff=v, term=A)
        for full in (space('h'), S):
            yield t, full, ('mx', full[1], p.mul(a))

    @case('OperatorTimesKet', KET)
    def opket(w):
        A, a = w.opaque('A', 'h')
        B, b = w.opaque('B', 'h', cls='KetSymbol')
        C, d = w.opaque('C', 'g', 'h', cls='KetSymbol')
        t = w.operation('OperatorTimesKet', space('h'), A, B, operator=A,
                        ket=B)
        for full in (space('h'), S):
            yield t, full, ('mx', full[1], a.mul(b))
        t = w.operation('OperatorTimesKet', space('g', 'h'), A, C,
                        operator=A, ket=C)
        yield t, None, ('mx', ('g', 'h'), a.mul(d))

    SUP = '_convert_superoperator_to_qutip'

    @case('superoperator:constants', SUP)
    def superconst(w):
        for n, p in (('Identity', ONEP), ('Zero', ZEROP)):
            for d in (('g',), ('g', 'h'), FULL):
                yield ('G', n + 'SuperOperator'), space(*d), ('smx', d, p)

    @case('superoperator:arithmetic', SUP)
    def superarith(w):
        K = dict(cls='SuperOperatorSymbol')
        A, a = w.opaque('A', 'g', **K)
        B, b = w.opaque('B', 'g', **K)
        C, d = w.opaque('C', 'g', 'k', **K)
        v, p = w.value('c')
        sp = space('g', 'k')
        for full in (sp, S):
            for xs, ps in (((A, B), (a, b)), ((B, C, A), (b, d, a)),
                           ((A, A), (a, a))):
                yield w.operation('SuperOperatorPlus', sp, *xs), full, (
                    'smx', full[1], total(ps))
                q = ONEP
                for x in ps:
                    q = q.mul(x)
                yield w.operation('SuperOperatorTimes', sp, *xs), full, (
                    'smx', full[1], q)
            yield w.operation('ScalarTimesSuperOperator', space('g'), v, A,
                              coeff=v, term=A), full, (
                'smx', full[1], p.mul(a))

    @case('superoperator:SPre,SPost', SUP)
    def sides(w):
        A, a = w.opaque('A', 'g')
        for n in ('SPre', 'SPost'):
            for full in (space('g'), S):
                yield w.operation(n, space('g'), A), full, (
                    'smx', full[1], (w.it.spre if n == 'SPre' else
                                     w.it.spost)(('op', a))[1])

    @case('mapping', CONVQ)
    def mapping(w):
        given = ('mx', ('g',), gen('given'))
        for e in (w.obj('OperatorSymbol', space('g')),
                  w.obj('Create', space('g')),
                  w.obj('KetSymbol', space('g'))):
            w.it.mapped[e] = given
            yield e, space('g'), given
        e = w.obj('OperatorSymbol', space('g'))
        w.it.mapped[e] = ('fnmap',)
        yield e, space('g'), ('mx', ('called',), gen('called', e))

    @case('SLH', CONVQ)
    def slh(w):
        yield w.obj('SLH', space('g')), space('g'), (
            'refuse', ('ValueError',), None)


# -- explicit matrices ---------------------------------------------------------
def explicit(c):
    def case(name):
        def deco(f):
            def make():
                for n in (1, 2, 3, 4):
                    w = World(c.repo, {'g': n}, True, 'g')
                    w.it.spins = ('g',)
                    for e, want in f(w, n):
                        yield w.it, w.convert(e), mat(n, want)
            c.judge('sympy:' + name, at(c, SY, 'convert_to_sympy_matrix'),
                    make)
        return deco

    def mat(n, f):
        return nd([[('sc', f(i, j)) for j in range(n)] for i in range(n)])
    G = space('g')
    sq = lambda x: root(const(x))

    @case('Create')
    def create(w, n):
        yield w.obj('Create', G), lambda i, j: sq(i) if i == j + 1 else ZEROP

    @case('Destroy')
    def destroy(w, n):
        yield w.obj('Destroy', G), \
            lambda i, j: sq(j) if j == i + 1 else ZEROP

    @case('Phase')
    def phase(w, n):
        z = scalar('z')
        yield w.obj('Phase', G, phase=z, args=('tuple', (z,))), \
            lambda i, j: fun('exp', IP.mul(const(i)).mul(to_poly(z))) \
            if i == j else ZEROP

    def spin(n, i):
        return (2 * i - n + 1) * HALF_
    from fractions import Fraction
    HALF_ = Fraction(1, 2)

    @case('Jz')
    def jz(w, n):
        yield w.obj('Jz', G), lambda i, j: const(spin(n, i)) \
            if i == j else ZEROP

    def ladder(n, i):
        m, s = spin(n, i), Fraction(n - 1, 2)
        return root(const(s * (s + 1) - m * (m + 1)))

    @case('Jplus')
    def jplus(w, n):
        yield w.obj('Jplus', G), lambda i, j: ladder(n, j) \
            if i == j + 1 else ZEROP

    @case('Jminus')
    def jminus(w, n):
        yield w.obj('Jminus', G), lambda i, j: ladder(n, i) \
            if j == i + 1 else ZEROP

    @case('LocalSigma')
    def sigma(w, n):
        w.it.labels = tuple(('text', 'xyzw'[i]) for i in range(n))
        for a in range(n):
            for b in range(n):
                for lab in (num, lambda i: w.it.labels[i]):
                    yield w.obj('LocalSigma', G, j=lab(a), k=lab(b),
                                args=('tuple', (lab(a), lab(b)))), \
                        lambda i, j: ONEP if (i, j) == (a, b) else ZEROP

    def exponentials(cls, attr, f):
        def make():
            for s in FULL:
                w = World(c.repo, sympy=True)
                a = loc(s, 'a')
                w.it.builders['SympyCreate'] = \
                    lambda it, args, kws, st: [(st, (
                        'mx', (it.space_of(args[0]),),
                        loc(it.space_of(args[0]), 'a').dag()))]
                z = scalar('z')
                e = w.obj(cls, space(s), args=('tuple', (z,)), **{attr: z})
                for full in ((s,), FULL):
                    yield w.it, w.convert(e, space(*full)), (
                        'mx', full, f(s, to_poly(z)))
        c.judge('sympy:' + cls, at(c, SY, 'convert_to_sympy_matrix'), make)
    exponentials('Displace', 'displacement', moved)
    exponentials('Squeeze', 'squeezing_factor', squeezed)

    def embed():
        for s in FULL:
            w = World(c.repo, sympy=True)
            w.it.builders['SympyCreate'] = lambda it, args, kws, st: [(st, (
                'mx', (it.space_of(args[0]),),
                loc(it.space_of(args[0]), 'a').dag()))]
            for n, p in (('Create', loc(s, 'a').dag()),
                         ('Destroy', loc(s, 'a'))):
                for full in ((s,), FULL):
                    yield w.it, w.convert(w.obj(n, space(s)), space(
                        *full)), ('mx', full, p)
    c.judge('sympy:embedding', at(c, SY, 'convert_to_sympy_matrix'), embed)


# -- models and time dependence --------------------------------------------------
def models(c):
    S = space(*FULL)

    def run(name, make):
        c.judge('qutip:' + name, at(c, QT, 'SLH_to_qutip'), make)

    def listed(H, Ls):
        def want(it, s, v):
            if v[0] != 'tuple' or len(v[1]) != 2 or v[1][1][0] != 'tuple':
                return 'not a Hamiltonian and a list'
            if v[1][0] != H:
                return 'H is %r' % (v[1][0],)
            if list(v[1][1][1]) != Ls:
                return 'the Lindblad operators are %r' % (v[1][1][1],)
            return None
        return want

    def plain():
        for full in ('default', 'given'):
            w = World(c.repo)
            it = w.it
            it.mapping = NONE
            H, h = w.opaque('H', 'g', 'h')
            L, l = w.opaque('L', 'h')
            M, m = w.opaque('M', 'g')
            names = ('g', 'h') if full == 'default' else FULL
            it.drive = w.obj('SLH', space('g', 'h'), H=H, Ls=('tuple', (
                L, num(0), M, ('sc', to_poly(scalar('c'))))))
            src = w.obj('SLH', space('g', 'h'), H=w.opaque('H0', 'g')[0],
                        Ls=('tuple', (w.opaque('L0', 'h')[0],)))
            kws = {} if full == 'default' else {'full_space': S}
            yield it, it.call(w.st, ('fn', QT + 'SLH_to_qutip'), [src],
                              kws), listed(('mx', names, h), [
                                  ('mx', names, l), ('mx', names, m),
                                  ('mx', names, to_poly(scalar('c')))])
        w = World(c.repo)
        it = w.it
        for kws, sp in (({}, space()), ({'full_space': space('h')},
                                        space('g'))):
            src = w.obj('SLH', sp)
            it.drive = src
            yield it, it.call(w.st, ('fn', QT + 'SLH_to_qutip'), [src],
                              kws), ('refuse', ('AlgebraError',), None)
    run('SLH_to_qutip', plain)

    T = scalar('~t')
    W = scalar('~w')
    SAMPLE = 'I*Iin*exp(I*t)*PI + sin(t)*I_0'

    def dependent(w, name, val, term, p):
        free = w.it.attr(w.st, val, 'free_symbols')[0][1]
        v = w.obj('ScalarValue', space(), val=val, free_symbols=free)
        return w.operation('ScalarTimesOperator', space('g'), v, term,
                           coeff=v, term=term, free_symbols=free)

    def setup(full=FULL):
        w = World(c.repo)
        w.it.mapping = NONE
        A, a = w.opaque('A', 'g')
        B, b = w.opaque('B', 'h')
        f = ('sc', to_poly(T).mul(to_poly(T)).mul(IP))
        g = ('sc', fun('exp', IP.mul(to_poly(W)).mul(to_poly(T))).mul(
            to_poly(W)))
        w.it.samples[f[1]] = SAMPLE
        w.it.samples[g[1]] = 'w*exp(I*t)'
        fa = dependent(w, 'f', f, A, a)
        gb = dependent(w, 'g', g, B, b)
        X, x = w.opaque('X', 'k')
        Y, y = w.opaque('Y', 'g', 'h')
        for o in (A, B, X, Y):
            w.st.heap[o[2]]['free_symbols'] = ('set', ())
        return w, (A, a, B, b), (fa, f), (gb, g), (X, x, Y, y)

    def pair(how, m, f):
        def want(it, s, v):
            if v[0] != 'tuple' or len(v[1]) != 2:
                return 'not a pair'
            if v[1][0] != ('mx', FULL, m):
                return 'the operator is %r' % (v[1][0],)
            k = v[1][1]
            if how == 'str':
                w = re.sub(r'\bI\b', '(1.0j)', it.samples[f[1]])
                if k[0] != 'text' or k[1] is None:
                    raise Open('a string')
                return None if k == ('text', w) else \
                    'the coefficient is %r' % k[1]
            tau, om = scalar('~tau'), scalar('~omega')
            for args in ((tau, ('dict', ((W, om),))),):
                for s2, r in it.call(s, k, list(args), {}):
                    if r[0] == 'EXC':
                        return 'the coefficient fails with %s' % r[1]
                    p = it.replaced(f[1], {T[1]: tau, W[1]: om})
                    if to_poly(r) != p:
                        return 'the coefficient is %r, not %r' % (
                            to_poly(r), p)
            return None
        return want

    def tlist(wants):
        def want(it, s, v):
            if v[0] != 'tuple' or len(v[1]) != len(wants):
                return 'not a list of %d' % len(wants)
            for x, y in zip(v[1], wants):
                if callable(y):
                    r = y(it, s, x)
                elif x != y:
                    r = '%r is not %r' % (x, y)
                else:
                    r = None
                if r:
                    return r
            return None
        return want

    def time(how):
        def make():
            kws = {'full_space': S, 'time_symbol': T,
                   'convert_as': ('text', how)}

            def call(w, e):
                return w.it.call(
                    w.st, ('fn', QT + '_time_dependent_to_qutip'), [e], kws)
            w, (A, a, B, b), (fa, f), (gb, g), (X, x, Y, y) = setup()
            for e, m, k in ((fa, a, f), (gb, b, g)):
                yield w.it, call(w, e), pair(how, m, k)
            yield w.it, call(w, Y), ('mx', FULL, y)
            free = ('set', (T, W))
            for ops, want in (
                    ((fa, gb), [pair(how, a, f), pair(how, b, g)]),
                    ((gb, X, fa), [('mx', FULL, x), pair(how, b, g),
                                   pair(how, a, f)]),
                    ((X, fa, Y, gb), [('mx', FULL, x.add(y)),
                                      pair(how, a, f), pair(how, b, g)])):
                e = w.operation('OperatorPlus', S, *ops, free_symbols=free)
                yield w.it, call(w, e), tlist(want)
            e = w.operation('OperatorTimes', S, A, fa, free_symbols=free)
            yield w.it, call(w, e), ('refuse', ('ValueError',), None)
        c.judge('qutip:time:' + how, at(c, QT, '_time_dependent_to_qutip'),
                make)
    time('str')
    time('pyfunc')

    def timed():
        w, (A, a, B, b), (fa, f), (gb, g), (X, x, Y, y) = setup()
        it = w.it
        c = to_poly(scalar('c'))
        it.drive = w.obj('SLH', S, H=Y, Ls=('tuple', (fa, X, ('sc', c))))
        src = w.obj('SLH', S, H=X, Ls=('tuple', (Y,)))
        for how in ('pyfunc', 'str'):
            def want(it, s, v, how=how):
                if v[0] != 'tuple' or len(v[1]) != 2:
                    return 'not a Hamiltonian and a list'
                if v[1][0] != ('mx', FULL, y):
                    return 'H is %r' % (v[1][0],)
                return tlist([pair(how, a, f), ('mx', FULL, x),
                              ('mx', FULL, c)])(it, s, v[1][1])
            yield it, it.call(w.st, ('fn', QT + 'SLH_to_qutip'), [src], {
                'full_space': S, 'time_symbol': T,
                'convert_as': ('text', how)}), want
    run('SLH_to_qutip:time', timed)


def check(repo, rep):
    rep.rule('homomorphism', 'the matrix of a composite expression is built '
             'from the matrices of its constituents by the operation that '
             'the expression denotes, in the order of the tensor factors')
    rep.rule('constituent', 'elementary operators, kets and super-operators '
             'have the matrices of their definitions')
    rep.rule('model', 'models convert to their Hamiltonian and Lindblad '
             'operators with coefficients as functions of the time')
    c = Judge(repo, rep)
    local_operators(c)
    operations(c)
    operations(c, True)
    explicit(c)
    models(c)
