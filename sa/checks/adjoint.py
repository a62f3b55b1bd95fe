"""C06: the adjoint is an involutive, product-reversing, sum-preserving,
conjugate-linear map on every operator, state and super-operator class; the
series inverse is the analogous anti-homomorphism on circuits."""
from ..algebra import Denoter, show_nf, dotted, strip_wrappers
from ..flow import (SELF, NONE, Budget, show, walk, is_const, seq_items, elem,
                    const, const_val, replace)
from ..model import (flow, ctor, concrete_expressions, is_abstract_cls, short)
from ..core import where
from ..src import AnalysisError


# -- the theory -------------------------------------------------------------

def _rename(new):
    def eq(dn, x):
        return ('f', new, x[2], x[3])
    return eq


def _selfadj(dn, x):
    return x


def _swap(a, b, dag=False, new=None):
    def eq(dn, x):
        m = dict(x[3])
        if a not in m or b not in m:
            return None
        m[a], m[b] = m[b], m[a]
        if dag:
            m[a], m[b] = dn.dag(m[a]), dn.dag(m[b])
        return ('f', new or x[1], x[2], tuple(sorted(m.items(), key=repr)))
    return eq


def _negate(name, conj=False):
    """f(alpha)† = f(-alpha) resp. f(-conj alpha)"""
    def eq(dn, x):
        m = dict(x[3])
        if name not in m:
            return None
        v = m[name]
        if conj:
            v = dn.conj(v)
        m[name] = dn.prod([('num', -1), v])
        return ('f', x[1], x[2], tuple(sorted(m.items(), key=repr)))
    return eq


def _dag_operand(*names):
    def eq(dn, x):
        m = dict(x[3])
        for n in names:
            if n in m:
                m[n] = dn.dag(m[n])
                return ('f', x[1], x[2], tuple(sorted(m.items(), key=repr)))
        if x[2] and x[2][0][0] != 'star':
            return ('f', x[1], (dn.dag(x[2][0]),) + tuple(x[2][1:]), x[3])
        return None
    return eq


def _all_bound(conj):
    def eq(dn, x):
        return ('f', x[1], x[2], tuple(sorted(
            ((k, conj(dn, v)) for k, v in x[3]), key=repr)))
    return eq


DAG = {
    'Create': _rename('Destroy'), 'Destroy': _rename('Create'),
    'Jplus': _rename('Jminus'), 'Jminus': _rename('Jplus'),
    'Jz': _selfadj,
    'LocalSigma': _swap('j', 'k'),
    'Phase': _negate('phase', conj=True), 'Displace': _negate('displacement'),
    'Squeeze': _negate('squeezing_factor'),
    'Commutator': _swap('A', 'B', dag=True),
    'SPre': _rename('SPost'), 'SPost': _rename('SPre'),
    'OperatorPlusMinusCC': _dag_operand('op'),
    'IdentityOperator': _selfadj, 'IdentitySuperOperator': _selfadj,
    'TrivialKet': _selfadj, 'ZeroOperator': _selfadj,
    'ZeroSuperOperator': _selfadj, 'ZeroKet': _selfadj,
    'BraKet': _swap('bra', 'ket'), 'KetBra': _swap('ket', 'bra'),
    'ScalarPower': _all_bound(lambda dn, v: dn.dag(v)),
}
BASE = {'QuantumDerivative': _dag_operand('op'),
        'QuantumIndexedSum': _dag_operand('term')}


def make_theory(repo, bilinear=False):
    dag = dict(DAG)
    for c in repo.classes.values():
        for b, eq in BASE.items():
            if repo.is_sub(c, b):
                dag[c.name] = eq
    return {'one': ('One',), 'zero': ('Zero',), 'product': ('TensorKet',),
            'adjoint': ('Bra',), 'dag': dag, 'bilinear': bilinear}


# -- helpers ----------------------------------------------------------------

def simplify_local(t):
    """Peel conversions that are the identity on their image"""
    def fn(x):
        if x[0] == 'call' and not x[3] and len(x[2]) == 1 and \
                dotted(x[1]).endswith('ScalarValue.create'):
            return x[2][0]
        if x[0] == 'call' and x[1][0] == 'G' and x[1][1].endswith(
                '.ensure_local_space') and x[2]:
            return x[2][0]
        return x
    return replace(t, fn) if isinstance(t, tuple) else t


def aliases(kwargs, heap):
    """Terms that denote the value of keyword argument k of the object: what
    `kwargs` returns for it and the private attribute of the same name"""
    res = {}
    for k, v in kwargs_items(kwargs) or ():
        al = {clean(v)}
        h = (heap or {}).get((SELF, '_' + str(k)))
        if h is not None:
            al.add(clean(h))
        res[k] = al
    return res


def fold_kw(nf, alias):
    if not isinstance(nf, tuple):
        return nf
    if nf and nf[0] == 'f' and len(nf) == 4:
        return ('f', nf[1], tuple(fold_kw(x, alias) for x in nf[2]),
                tuple(sorted(((k, fold_value(k, v, alias))
                              for k, v in nf[3]), key=repr)))
    if nf and nf[0] in ('sum', 'prod', 'dag', 'star'):
        return tuple(fold_kw(x, alias) for x in nf)
    if nf and isinstance(nf[0], tuple):
        return tuple(fold_kw(x, alias) for x in nf)
    return nf


def fold_value(k, v, alias):
    if v[0] == 'atom' and v[1] in alias.get(k, ()):
        return ('atom', ('kw', k))
    if v[0] == 'num' and any(is_const(a) and const_val(a) == v[1]
                             for a in alias.get(k, ())):
        return ('atom', ('kw', k))
    return fold_kw(v, alias)


def clean(t):
    return strip_wrappers(simplify_local(t))


def opaque(nf):
    """contains something the summaries could not resolve"""
    for x in walk(nf):
        if isinstance(x, tuple) and x and x[0] in ('?', 'fold', 'unk', 'U'):
            return True
    return False


class Paths:
    """Values of `name` (a method or property of a class) together with the
    args/kwargs of the object, per constructor path"""

    def __init__(self, repo, cls, inline):
        self.repo, self.cls = repo, cls
        self.inline = inline
        ct = ctor(repo, cls)
        self.ct = ct
        self.base = ct.paths

    def flow(self):
        return flow(self.repo, inline=self.inline, exact_self=self.cls,
                    max_paths=600)

    def prop(self, name, heap, conds):
        ps = self.flow().summarise_method(self.cls, name, heap=heap,
                                          conds=conds)
        if ps is None:
            return []
        return [p for p in ps if p.out[0] == 'return']

    def items(self, name):
        """(args, kwargs, path) triples"""
        for b in self.base or ():
            for a in self.prop('args', b.heap, b.conds):
                for k in self.prop('kwargs', b.heap, a.conds):
                    ps = self.flow().summarise_method(
                        self.cls, name, heap=b.heap, conds=k.conds)
                    for p in ps or ():
                        yield a.value, k.value, p


def kwargs_items(kw):
    if kw is None:
        return ()
    if kw[0] == 'dict':
        res = []
        for it in kw[1] if len(kw) == 2 else kw[2]:
            if isinstance(it, tuple) and len(it) == 2 and is_const(it[0]):
                res.append((const_val(it[0]), it[1]))
            else:
                return None
        return tuple(res)
    return None


def inline_all(*stop):
    def fn(q):
        last = q.rpartition('.')[2]
        return last not in ('__init__', 'create', '__call__', '__new__') and \
            q not in stop and last not in stop
    return fn


def denoter(repo, cls, args, kwargs, theory):
    scal = set()
    commuting = repo.is_sub(cls, 'Scalar')
    d = Denoter(repo, cls, simplify_local(args),
                kwargs_items(kwargs) or (), scal, commuting, theory)
    return d


def opaque_terms(p):
    return opaque(p.value)


def method_obligations(repo, rep, cls, entry, theory, adj, expected,
                       rule, mk=None):
    """For every constructor path and every returning path of `entry`:
    denotation of the result == expected(denoter, denotation of self)"""
    P = Paths(repo, cls, inline_all(*adj))
    found = repo.lookup(cls, entry)
    if found is None:
        return
    w = where(repo, found[0].module, found[2])
    key = '%s:%s.%s' % (rule, cls.name, entry)
    if P.ct.error:
        rep.undec(key, P.ct.error)
        return
    n = 0
    try:
        for args, kwargs, p in P.items(entry):
            if p.out[0] == 'raise':
                rep.count('raising_paths')
                continue
            n += 1
            dn = denoter(repo, cls, args, kwargs, theory)
            if mk:
                mk(dn)
            me = dn.self_nf()
            got = dn.d(simplify_local(p.value))
            want = expected(dn, me)
            alias = aliases(kwargs, p.heap)
            wants = want if isinstance(want, list) else [want]
            got = fold_kw(got, alias)
            wants = [fold_kw(x, alias) for x in wants]
            if got in wants:
                rep.ok(key)
            elif opaque(got) or any(opaque(x) for x in wants):
                rep.undec(key, 'unresolved: ' + show_nf(got)[:200])
            else:
                rep.violation(
                    key, w, '%s of %s is %s, expected %s%s' % (
                        entry, show_nf(me)[:160], show_nf(got)[:200],
                        show_nf(wants[0])[:200], conds_text(p)))
    except Budget:
        rep.undec(key, 'path budget')
    if not n:
        rep.undec(key, 'no returning path')


def conds_text(p):
    cs = [('' if b else 'not ') + short(c, 60) for c, b in p.conds[-2:]]
    return (' when ' + ' and '.join(cs)) if cs else ''


def dag_of_self(dn, me):
    return dn.dag(me)


QADJ = ('adjoint', 'qnet.algebra.core.operator_algebra.adjoint')


# -- circuits ---------------------------------------------------------------

def _inv_slh(dn, x):
    m = dict(x[3])
    if set(m) != {'S', 'L', 'H'}:
        return None
    sd = dn.dag(m['S'])
    neg = ('num', -1)
    return ('f', 'SLH', (), tuple(sorted({
        'S': sd, 'L': dn.prod([neg, sd, m['L']]),
        'H': dn.prod([neg, m['H']])}.items(), key=repr)))


def _inv_concat(dn, x):
    return ('f', x[1], tuple(
        ('star', dn.dag(y[1]), y[2], y[3]) if y[0] == 'star' else dn.dag(y)
        for y in x[2]), x[3])


def _inv_feedback(dn, x):
    m = dict(x[3])
    if 'out_port' not in m or 'in_port' not in m:
        return None
    m['out_port'], m['in_port'] = m['in_port'], m['out_port']
    rest = x[2]
    if 'circuit' in m:
        m['circuit'] = dn.dag(m['circuit'])
    else:
        rest = (dn.dag(rest[0]),) + tuple(rest[1:])
    return ('f', x[1], rest, tuple(sorted(m.items(), key=repr)))


def _inv_cperm(dn, x):
    m = dict(x[3])
    if list(m) != ['permutation']:
        return None
    v = m['permutation']
    inv = 'qnet.utils.permutations.invert_permutation'
    if v[0] != 'atom':
        return None
    return ('f', x[1], x[2], (('permutation', ('atom', (
        'call', ('G', inv), (v[1],), ()))),))


def circuit_theory():
    return {'product': ('SeriesProduct',), 'adjoint': ('SeriesInverse',),
            'dag': {'SLH': _inv_slh, 'Concatenation': _inv_concat,
                    'Feedback': _inv_feedback, 'CPermutation': _inv_cperm,
                    'CIdentity': _selfadj, 'CircuitZero': _selfadj}}


# -- matrices ---------------------------------------------------------------

MAT = 'qnet.algebra.core.matrix_algebra.Matrix'
E = ('atom', ('P', 'element'))


class MatDenoter:
    """matrix terms -> (transposed, element-wise function applied to E)"""

    def __init__(self, repo):
        self.repo = repo
        self.dn = Denoter(repo, None, None, None, set(), False,
                          {'real': True, 'one': (), 'zero': (), 'dag': {}},
                          role_self=False)

    def alts(self, t):
        if t[0] == 'phi':
            res = set()
            for a in t[1]:
                if a[0] in ('RAISE', 'raise'):
                    continue
                res |= self.alts(a)
            return res
        return {t}

    def d(self, t):
        """-> set of (transposed, body) or None"""
        if t == SELF or t == ('A', SELF, 'matrix'):
            return {(False, E)}
        if t[0] == 'A' and t[2] in ('T', 'matrix', 'H'):
            r = self.d(t[1])
            if r is None or t[2] == 'matrix':
                return r
            if t[2] == 'H':
                return {(not a, self.dn.dag(b)) for a, b in r}
            return {(not a, b) for a, b in r}
        if t[0] == 'bin' and t[1] in '+-':
            l, r = self.d(t[2]), self.d(t[3])
            if l is None or r is None:
                return None
            res = set()
            for a, x in l:
                for b, y in r:
                    if a != b:
                        return None
                    res.add((a, self.dn.sum([x, self.dn.prod(
                        [('num', 1 if t[1] == '+' else -1), y])])))
            return res
        if t[0] == 'bin' and t[1] in '*/':
            for x, c in ((t[2], t[3]), (t[3], t[2])):
                r = self.d(x)
                k = self.dn.d(c)
                if r is not None and k[0] == 'num' and not (
                        t[1] == '/' and x is t[3]):
                    if t[1] == '/':
                        k = self.dn.inv(k)
                    return {(a, self.dn.prod([k, b])) for a, b in r}
            return None
        if t[0] != 'call':
            return None
        f, args = t[1], t[2]
        g = dotted(f)
        if g in (MAT, MAT + '.create') and len(args) == 1:
            return self.d(args[0])
        if f[0] == 'A' and f[2] in ('transpose', 'conjugate', 'adjoint',
                                    'dag') and not args:
            r = self.d(f[1])
            if r is None:
                return None
            if f[2] == 'transpose':
                return {(not a, b) for a, b in r}
            if f[2] == 'conjugate':
                return {(a, self.dn.dag(b)) for a, b in r}
            return {(not a, self.dn.dag(b)) for a, b in r}
        if g in ('numpy.conjugate', 'numpy.conj') and len(args) == 1:
            r = self.d(args[0])
            return None if r is None else {(a, self.dn.dag(b)) for a, b in r}
        if g == 'numpy.transpose' and len(args) == 1:
            r = self.d(args[0])
            return None if r is None else {(not a, b) for a, b in r}
        if f[0] == 'A' and f[2] == 'element_wise' and len(args) == 1:
            r = self.d(f[1])
            fn = args[0]
            if r is None or fn[0] != 'G':
                return None
            if fn[1] in ('qnet.algebra.core.operator_algebra.adjoint',):
                return {(a, self.dn.dag(b)) for a, b in r}
            return None
        if f[0] == 'A' and f[2] == 'reshape' and f[1][0] == 'call' and \
                dotted(f[1][1]) == 'numpy.array' and len(f[1][2]) == 1:
            from ..algebra import family
            y = f[1][2][0]
            body, src, rev = family(y)
            if rev or body is None:
                return None
            src0 = src
            if src[0] == 'call' and src[1][0] == 'A' and \
                    src[1][2] == 'ravel' and not src[2]:
                src0 = src[1][1]
            else:
                return None
            r = self.d(src0)
            shapes = [('A', src0, 'shape'), ('A', SELF, 'shape')]
            if r is None or len(args) != 1 or not (
                    args[0] in shapes[:1] or args[0] == shapes[1] and
                    all(not a for a, _ in r)):
                return None
            from ..flow import subst
            e = elem(src)
            res = set()
            for a, b in r:
                if b != E:
                    return None
                for alt in self.alts(body):
                    res.add((a, self.dn.d(simplify_local(
                        subst(alt, {e: E[1]})))))
            return res
        return None


def matrix_obligations(repo, rep):
    c = repo.classes.get(MAT)
    if c is None:
        raise AnalysisError('Matrix class not found')
    dn = MatDenoter(repo)
    dd = dn.dn
    re = dd.prod([('num', 0.5), dd.sum([E, dd.dag(E)])])
    im = dd.prod([('num', -0.5j), dd.sum([E, dd.prod([('num', -1),
                                                      dd.dag(E)])])])
    spec = {'transpose': (True, E), 'T': (True, E),
            'conjugate': (False, dd.dag(E)), 'real': (False, re),
            'imag': (False, im), 'adjoint': (True, dd.dag(E)),
            'dag': (True, dd.dag(E)), 'H': (True, dd.dag(E))}
    for name, want in spec.items():
        key = 'matrix:%s' % name
        look = name
        found = repo.lookup(c, name)
        hops = 0
        while found and found[1] == 'attr' and hops < 3 and \
                hasattr(found[2], 'id'):
            look = found[2].id
            found = repo.lookup(c, look)
            hops += 1
        if not found or found[1] != 'method':
            rep.undec(key, 'not resolved')
            continue
        rep.count('matrix_methods')
        f = flow(repo, inline=inline_all(
            'qnet.algebra.core.operator_algebra.adjoint'), exact_self=c)
        try:
            ps = f.summarise_method(c, look)
        except Budget:
            rep.undec(key, 'path budget')
            continue
        for p in ps:
            if p.out[0] != 'return':
                continue
            got = dn.d(p.value)
            if got is None:
                rep.undec(key, 'unresolved: ' + short(p.value))
            else:
                bad = [x for x in got if x != want]
                rep.decide(key, not bad, where(repo, c.module, found[2]),
                           'element of %s is %s%s, expected %s%s' % (
                               name, show_nf(bad[0][1]) if bad else '',
                               ' transposed' if bad and bad[0][0] else '',
                               show_nf(want[1]),
                               ' transposed' if want[0] else ''))


def function_obligations(repo, rep):
    """module level adjoint(): the adjoint of its argument on every path"""
    q = 'qnet.algebra.core.operator_algebra.adjoint'
    mod, fn = repo.func(q)
    ps = flow(repo).summarise(mod, fn)
    x = ('P', fn.args.args[0].arg)
    for p in ps:
        if p.out[0] != 'return':
            continue
        v = p.value
        ok = v[0] == 'call' and v[1][0] == 'A' and v[1][1] == x and \
            v[1][2] in ('adjoint', 'dag', 'conjugate') and not v[2]
        rep.decide('function:adjoint', ok, where(repo, mod, fn),
                   'adjoint(x) returns ' + short(v))


SPEC_REAL = {'real': (0.5, 1), 'imag': (-0.5j, -1)}


def _real_expected(which):
    def fn(dn, me):
        c, s = SPEC_REAL[which]
        return [dn.prod([('num', c), dn.sum([me, dn.prod(
            [('num', s), dn.dag(me)])])])]
    return fn


def c06(repo, rep):
    rep.rule('anti-homomorphism', 'for every constructor path of every '
             'concrete operator, state, scalar and super-operator class, the '
             'value-flow summary of adjoint()/dag() denotes, in the theory '
             '(A+B)†=A†+B†, (AB)†=B†A†, (cA)†=c*A†, A††=A plus one '
             'equation per built-in symbol, the adjoint of the object')
    rep.rule('bilinear super-operators', 'the super-operator adjoint is the '
             'transpose with respect to (M, N) -> Tr[M N]: scalars are not '
             'conjugated, SPre and SPost are exchanged')
    rep.rule('series inverse', 'the same for series_inverse() on circuits: '
             'series products are reversed, concatenations mapped, feedback '
             'ports exchanged, permutations inverted, SLH(S,L,H) becomes '
             'SLH(S†,-S†L,-H)')
    rep.rule('matrix', 'transpose/conjugate/adjoint/real/imag of a matrix '
             'are the element-wise functions of that name, adjoint and '
             'transpose exchanging rows and columns')
    for c in concrete_expressions(repo, 'QuantumExpression'):
        rep.count('quantum_classes')
        bil = repo.is_sub(c, 'SuperOperator')
        th = make_theory(repo, bil)
        for entry in ('adjoint', 'dag'):
            method_obligations(repo, rep, c, entry, th, QADJ, dag_of_self,
                               'adjoint')
        if repo.is_sub(c, 'Scalar'):
            th = make_theory(repo)
            th['real'] = True
            lin = {}
            for k in repo.classes.values():
                if repo.is_sub(k, 'QuantumIndexedSum'):
                    lin[k.name] = 'term'
            th['linear'] = lin
            method_obligations(repo, rep, c, 'conjugate', th,
                               QADJ, dag_of_self, 'conjugate')
            for w in ('real', 'imag'):
                method_obligations(repo, rep, c, w, th, QADJ,
                                   _real_expected(w), 'component')
    ct = circuit_theory()
    for c in concrete_expressions(repo, 'Circuit'):
        rep.count('circuit_classes')

        def mk(dn):
            dn.adj_methods = ('series_inverse', '_series_inverse', 'adjoint',
                              'dag')
        method_obligations(repo, rep, c, 'series_inverse', ct,
                           ('adjoint', 'invert_permutation'), dag_of_self,
                           'series_inverse', mk)
    matrix_obligations(repo, rep)
    function_obligations(repo, rep)
