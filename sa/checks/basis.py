"""Basis states of a space are addressed consistently"""
import ast
from fractions import Fraction

from ..core import where
from ..linear import (Interp, NONE, Open, State, feasible, ladd, lconst, lin,
                      lscale, lshow, num, poly, polyop)
from ..src import AnalysisError, ClassInfo

HSA = 'qnet.algebra.core.hilbert_space_algebra.'
D, I, N, P, Q = (lin(**{v: 1}) for v in 'dinpq')
ONE = lin(1)


def within(x, d=D):
    """0 <= x < d"""
    return [x, ladd(ladd(d, x, -1), ONE, -1)]


def below(x):
    return [lscale(ladd(x, ONE), -1)]


def above(x, d=D):
    return [ladd(x, d, -1)]


class World:
    """a space of some kind, and objects made from it"""

    def __init__(self, repo, kind, spin=None, dim=D):
        self.repo, self.kind = repo, kind
        self.it = it = Interp(repo)
        self.cls = 'SpinSpace' if kind == 'spin' else 'LocalSpace'
        self.hs = ('obj', self.cls, 'hs')
        h = {'_basis': NONE, '_dimension': NONE, '_label': ('text', 'h'),
             'label': ('text', 'h')}
        if kind != 'nobasis':
            h['_basis'] = ('labels', 'h', dim)
            h['_dimension'] = ('int', dim)
        if kind == 'spin':
            h['_spin'] = ('expr', lscale(ladd(dim, ONE, -1), Fraction(1, 2)))
        self.st = State([ladd(dim, ONE, -1)], {'hs': h})

        def local(it, o, args, kws, st):
            st = st.copy()
            st.heap[o[2]].update({
                'label': args[0], '_label': args[0], '_hs': kws['hs'],
                'space': kws['hs']})
            return [(st, NONE)]

        def sigma(it, o, args, kws, st):
            st = st.copy()
            st.heap[o[2]].update({
                'j': args[0], 'k': args[1], '_j': args[0], '_k': args[1],
                '_hs': kws['hs'], 'space': kws['hs']})
            return [(st, NONE)]
        it.builders[('BasisKet', '__init__')] = local
        it.builders[('LocalSigma', '__init__')] = sigma

        def sym(it, o, name, st):
            if o[0] == 'sym' and name == 'expr':
                return ('expr', o[2])
            if o[0] == 'sym' and name == 'hs':
                return self.hs
        for c in ('FockIndex', 'FockLabel', 'SpinIndex', 'StrLabel'):
            it.fields[c] = sym
            it.builders[c] = self.symbol(c)

    def symbol(self, cls):
        """making a symbolic label: a class with declared attributes"""
        ci = self.repo.maybe_cls(cls)
        names = []
        for x in reversed(ci.mro if ci else []):
            if not isinstance(x, ClassInfo):
                continue
            for n in x.node.body:
                if isinstance(n, ast.Assign) and isinstance(
                        n.value, ast.Call) and 'ib' in ast.dump(
                        n.value.func) and isinstance(
                        n.targets[0], ast.Name):
                    names.append(n.targets[0].id)

        def make(it, args, kws, st):
            v = dict(zip(names, args))
            if len(args) > len(names) or set(v) & set(kws) or \
                    set(v) | set(kws) != set(names):
                return [(st, ('EXC', 'TypeError'))]
            v.update(kws)
            if v['expr'][0] not in ('int', 'expr') or \
                    set(names) - {'expr', 'hs'}:
                raise Open('new %s' % cls)
            if 'hs' in v and v['hs'] != self.hs:
                raise Open('a symbol of another space')
            return [(st, ('sym', cls, v['expr'][1],
                          'hs' if 'hs' in v else None))]
        return make

    def call(self, obj, name, args, kws=None, st=None):
        """[(state, outcome)] of obj.name(*args)"""
        st = self.st if st is None else st
        res = []
        for s, f in self.it.attr(st, obj, name):
            if f[0] == 'EXC':
                res.append((s, ('raise', f[1])))
                continue
            for s2, v in self.it.call(s, f, list(args), dict(kws or {})):
                res.append((s2, ('raise', v[1]) if v[0] == 'EXC' else
                            ('return', v)))
        return res

    def get(self, obj, name, st):
        return [(s, ('raise', v[1]) if v[0] == 'EXC' else ('return', v))
                for s, v in self.it.attr(st, obj, name)]

    def fn(self, dotted, args, kws=None, st=None):
        st = self.st if st is None else st
        self.repo.func(dotted)
        return [(s, ('raise', v[1]) if v[0] == 'EXC' else ('return', v))
                for s, v in self.it.call(st, ('fn', dotted), list(args),
                                         dict(kws or {}))]

    def new(self, cls, args, st=None, hs=None):
        st = self.st if st is None else st
        return [(s, ('raise', v[1]) if v[0] == 'EXC' else ('return', v))
                for s, v in self.it.call(st, ('cls', cls), list(args),
                                         {'hs': hs or self.hs})]


def equal(st, a, b):
    """are two values the same wherever the path is taken?"""
    if a == b:
        return True
    if a[0] in ('int', 'expr') and b[0] in ('int', 'expr'):
        return lequal(st, a[1], b[1])
    if a[0] == b[0] == 'label' and a[1] == b[1]:
        return lequal(st, a[2], b[2])
    if a[0] == b[0] == 'strof':
        return lequal(st, a[1], b[1])
    if a[0] == b[0] == 'sym' and a[1] == b[1]:
        return lequal(st, a[2], b[2])
    if a[0] == b[0] == 'tuple' and len(a[1]) == len(b[1]):
        rs = [equal(st, x, y) for x, y in zip(a[1], b[1])]
        return False if False in rs else None if None in rs else True
    if a[0] in ('opaque', 'bound') or b[0] in ('opaque', 'bound') or \
            ('text', None) in (a, b):
        return None
    return False


def lequal(st, a, b):
    d = ladd(a, b, -1)
    k = lconst(d)
    if k is not None:
        return k == 0
    for x in (d, lscale(d, -1)):
        if feasible(st.cs + (ladd(lscale(x, 1000), ONE, -1),)):
            return False
    return True


def show(v):
    if v[0] in ("poly", "sqrt"):
        return "%s of %s" % (v[0], " + ".join(
            "%s*%s" % (c, "*".join(m)) for m, c in v[1]))
    if v[0] == 'raise':
        return 'the error %s' % v[1]
    if v[0] == 'return':
        return show(v[1])
    if v[0] in ('int', 'expr'):
        return lshow(v[1])
    if v[0] == 'label':
        return 'label number %s' % lshow(v[2])
    if v[0] == 'sym':
        return '%s(%s)' % (v[1], lshow(v[2]))
    if v[0] == 'strof':
        return 'the text of %s' % lshow(v[1])
    if v[0] == 'tuple':
        return '(%s)' % ', '.join(show(x) for x in v[1])
    if v[0] == 'none':
        return 'None'
    if v[0] == 'joined':
        return repr(v[1]).join(show(x) for x in v[2])
    if v[0] == 'mapped':
        return 'each (%s)' % show(v[2])
    if v[0] == 'prod':
        return ' * '.join(lshow(x) for x in v[1])
    if v[0] == 'str':
        return ' + '.join(x if isinstance(x, str) else lshow(x)
                          for x in v[1])
    return str(v[1]) if len(v) > 1 else v[0]


class Check:
    def __init__(self, repo, rep):
        self.repo, self.rep = repo, rep

    def judge(self, key, make, regions, at, hint=''):
        """every path from `make()` agrees with every region it can be in;
        regions: [(constraints, wanted(world-state, outcome), text)]"""
        rep = self.rep
        try:
            paths = make()
        except Open as e:
            rep.undec(key, str(e))
            return
        except (AnalysisError, KeyError, AttributeError, IndexError,
                TypeError) as e:
            rep.undec(key, '%s: %s' % (type(e).__name__, e))
            return
        seen = [False] * len(regions)
        bad, open_ = [], []
        for s, o in paths:
            for i, (cs, want, text) in enumerate(regions):
                s2 = s.having(*cs)
                if s2 is None:
                    continue
                seen[i] = True
                try:
                    r = want(s2, o)
                except Open as e:
                    r = None
                self.rep.count('paths judged')
                if r is None:
                    open_.append(text)
                elif not r:
                    bad.append('%s%s gives %s, not %s' % (
                        hint, ', '.join('%s >= 0' % lshow(c) for c in cs[:2]),
                        show(o), text))
        if bad:
            rep.decide(key, False, at, '; '.join(sorted(set(bad))[:3]))
        elif open_ or not all(seen):
            rep.undec(key, 'not resolved: %s' % '; '.join(sorted(set(
                open_)) or ['no path']))
        else:
            rep.decide(key, True, at, '')


def is_error(repo_it, name):
    def want(st, o):
        return o[0] == 'raise' and repo_it.is_exc(o[1], name)
    return want


def returns(v):
    def want(st, o):
        return o[0] == 'return' and equal(st, o[1], v)
    return want


def check(repo, rep):
    rep.rule('next', 'the label or index n steps from a basis state is that '
             'of the state n positions further, an error outside of the '
             'space')
    rep.rule('unpack', 'an index and a label of the same basis state are '
             'recognised as the same state; others are refused')
    rep.rule('ket', 'a basis state knows its label and index, can be made '
             'again from its arguments, and moves by as many positions as '
             'asked, to zero outside of the space')
    rep.rule('sigma', 'a transition operator knows the positions of both of '
             'its levels, moves them as asked, to zero outside of the space')
    rep.rule('state', 'the basis state with an index or label is the one at '
             'that position; others are errors')
    rep.rule('product', 'labels, states and single states of a product space '
             'follow one order')
    rep.rule('space', 'a space has the labels it is given, or as many as its '
             'dimension says')
    rep.rule('spin', 'the levels of a spin run from -s to s, their labels '
             'and positions agree, and the spin operators have the values '
             'that belong to the position of a level')
    c = Check(repo, rep)
    for kind in ('basis', 'nobasis', 'spin'):
        spaces(c, kind)
    trivial(c)
    product(c)
    spin(c)


def anchor(repo, dotted, name):
    ci = repo.classes.get(dotted) or repo.maybe_cls(dotted)
    if ci is None:
        return dotted
    hit = repo.lookup(ci, name)
    if hit is None or hit[1] != 'method':
        return dotted
    return where(repo, hit[0].module, hit[2])


def inputs(w):
    """{what: (value, constraints, position or None, label or None)}"""
    kind = w.kind
    r = {}
    if kind == 'spin':
        r['symbol'] = (('sym', 'SpinIndex', lin(e=1), 'hs'), [],
                       lin(e=1), None)
    else:
        r['symbol'] = (('sym', 'FockIndex', lin(e=1), None), [],
                       lin(e=1), None)
        r['symbolic label'] = (('sym', 'FockLabel', lin(e=1), 'hs'), [],
                               lin(e=1), None)
    if kind != 'nobasis':
        r['label'] = (('label', 'h', P), within(P), P, None)
    r['index'] = (('int', I), within(I) if kind != 'nobasis' else [I], I,
                  None)
    return r


def fock(w, v, l):
    """the position that a symbolic or plain label or index stands for"""
    if v[0] == 'sym' and v[1] == 'SpinIndex':
        return ('expr', ladd(l, lscale(ladd(D, ONE, -1), Fraction(1, 2))))
    return ('expr' if v[0] == 'sym' else 'int', l)


def spaces(c, kind):
    repo = c.repo
    w = World(repo, kind)
    it = w.it
    ins = inputs(w)
    spec = w.cls if kind != 'spin' else 'SpinSpace'
    at = anchor(repo, spec, 'next_basis_label_or_index')
    n = ('int', N)
    err = lambda name: (is_error(it, name), 'the error %s' % name)
    strange = ('stranger', 'x')

    def outside(x):
        return [below(x)] + ([above(x)] if kind != 'nobasis' else [])

    def key(rule, *parts):
        return ':'.join((rule, kind) + parts)

    def address(pos):
        """an index or label of that position"""
        def want(st, o):
            if o[0] != 'return':
                return False
            if o[1][0] == 'int':
                return lequal(st, o[1][1], pos) and kind != 'spin'
            if o[1][0] == 'label':
                return lequal(st, o[1][2], pos)
            return False
        return want

    # next label or index
    for what, (v, cs, pos, _) in ins.items():
        to = ladd(pos, N)
        if v[0] == 'sym':
            want = v[:2] + (to,) + v[3:]
            regions = [(cs, returns(want), 'the symbol plus n')]
        else:
            regions = [(cs + (within(to) if kind != 'nobasis' else [to]),
                        address(to), 'position %s' % lshow(to))]
            regions += [(cs + x,) + err('IndexError') for x in outside(to)]
        c.judge(key('next', what), lambda: w.call(
            w.hs, 'next_basis_label_or_index', [v, n]), regions, at,
            'the next of %s: ' % what)
        if v[0] != 'sym':
            one = ladd(pos, ONE)
            regions = [(cs + (within(one) if kind != 'nobasis' else [one]),
                        address(one), 'the next position')]
            c.judge(key('next', what, 'default'), lambda: w.call(
                w.hs, 'next_basis_label_or_index', [v]), regions, at,
                'without a number, the next of %s: ' % what)
    c.judge(key('next', 'unknown label'), lambda: w.call(
        w.hs, 'next_basis_label_or_index', [strange, n]),
        [([],) + err('ValueError' if kind != 'nobasis' else
                     'BasisNotSetError')], at, 'an unknown label: ')
    c.judge(key('next', 'other'), lambda: w.call(
        w.hs, 'next_basis_label_or_index', [('other', 'x'), n]),
        [([],) + err('TypeError')], at, 'something else: ')

    # label and index from either
    at = anchor(repo, spec, '_unpack_basis_label_or_index')

    def full(v, pos):
        if v[0] == 'sym':
            return v[:2] + (pos,) + v[3:]
        if kind == 'nobasis':
            return ('strof', pos)
        return ('label', 'h', pos)

    refused = {}
    if kind == 'spin':
        refused['index'] = (('int', I), [], 'TypeError')
        refused['symbol of another kind'] = (
            ('sym', 'FockIndex', lin(e=1), None), [], 'TypeError')
    else:
        refused['negative index'] = (('int', I), below(I), 'ValueError')
        if kind == 'basis':
            refused['too large index'] = (('int', I), above(I), 'ValueError')
    refused['unknown label'] = (strange, [], 'ValueError' if
                                kind != 'nobasis' else 'BasisNotSetError')
    refused['other'] = (('other', 'x'), [], 'TypeError')
    accepted = {k: x for k, x in ins.items()
                if not (kind == 'spin' and k == 'index')}
    for what, (v, cs, pos, _) in accepted.items():
        c.judge(key('unpack', what), lambda: w.call(
            w.hs, '_unpack_basis_label_or_index', [v]),
            [(cs, returns(('tuple', (full(v, pos), fock(w, v, pos)))),
              'its label and index')], at, '%s: ' % what)
    for what, (v, cs, e) in refused.items():
        c.judge(key('unpack', what), lambda: w.call(
            w.hs, '_unpack_basis_label_or_index', [v]),
            [(cs,) + err(e)], at, '%s: ' % what)

    # basis states
    def then(paths, f):
        res = []
        for s, o in paths:
            if o[0] == 'raise':
                res.append((s, o))
            else:
                res.extend(f(s, o[1]))
        return res

    def ket_at(pos, label=None, v=None):
        def want(st, o):
            if o[0] != 'return' or o[1][0] != 'obj' or \
                    o[1][1] != 'BasisKet':
                return False
            x = st.heap[o[1][2]]
            if x.get('space') != w.hs:
                return False
            rs = [equal(st, x['_index'], pos)]
            if label is not None:
                rs.append(equal(st, x['label'], label))
            for s2, i in w.get(o[1], 'index', st):
                rs.append(i[0] == 'return' and equal(s2, i[1], pos))
            return False if False in rs else None if None in rs else True
        return want

    zero = returns(('G', 'ZeroKet'))
    at = anchor(repo, 'BasisKet', '__init__')
    for what, (v, cs, pos, _) in accepted.items():
        made = lambda: [(s, o) for s, o in w.new('BasisKet', [v])
                        if s.having(*cs) is not None]
        c.judge(key('ket', what), made, [
            (cs, ket_at(fock(w, v, pos), full(v, pos)),
             'the state at %s' % lshow(pos))], at, '%s: ' % what)

        def again():
            return then(made(), lambda s, k: then(
                w.get(k, 'args', s), lambda s, a: w.new(
                    'BasisKet', w.it.items(a), s)))
        c.judge(key('ket', what, 'args'), again, [
            (cs, ket_at(fock(w, v, pos), full(v, pos)), 'the same state')],
            anchor(repo, 'BasisKet', 'args'),
            'made again from the arguments, %s: ' % what)
        for name, k in (('next', 1), ('prev', -1)):
            to = ladd(pos, N, k)
            if v[0] == 'sym':
                regions = [(cs, ket_at(fock(w, v, to), full(v, to)),
                            'the state at %s' % lshow(to))]
            else:
                regions = [(cs + (within(to) if kind != 'nobasis' else [to]),
                            ket_at(('int', to), full(v, to)),
                            'the state at %s' % lshow(to))]
                regions += [(cs + x, zero, 'zero') for x in outside(to)]
            c.judge(key('ket', what, name), lambda: then(
                made(), lambda s, x: w.call(x, name, [n], {}, s)), regions,
                anchor(repo, 'BasisKet', name), '%s of %s: ' % (name, what))
            to = ladd(pos, ONE, k)
            if v[0] != 'sym':
                c.judge(key('ket', what, name, 'default'), lambda: then(
                    made(), lambda s, x: w.call(x, name, [], {}, s)),
                    [(cs + (within(to) if kind != 'nobasis' else [to]),
                      ket_at(('int', to)), 'the neighbour')],
                    anchor(repo, 'BasisKet', name),
                    '%s of %s: ' % (name, what))
    for what, (v, cs, e) in refused.items():
        c.judge(key('ket', what), lambda: w.new('BasisKet', [v]),
                [(cs,) + err(e)], at, '%s: ' % what)

    # zero for an index outside of the space
    name = 'qnet.algebra.core.algebraic_properties.basis_ket_zero_outside_hs'
    kws = ('dict', (('hs', w.hs),))
    try:
        mod, node = repo.func(name)
        at = where(repo, mod, node)
    except AnalysisError:
        at = name

    def simplified(v):
        return lambda: w.fn(name, [('cls', 'BasisKet'), ('tuple', (v,)),
                                   kws])
    if kind != 'spin':
        v, cs, pos, _ = ins['index']
        same = returns(('tuple', (('tuple', (v,)), kws)))
        regions = [(cs, same, 'the same arguments')]
        regions += [(x, zero, 'zero') for x in outside(I)]
        c.judge(key('ket', 'index', 'create'), simplified(v), regions, at,
                'created with an index: ')
    for what, (v, cs, pos, _) in accepted.items():
        if v[0] != 'int':
            c.judge(key('ket', what, 'create'), simplified(v), [
                (cs, returns(('tuple', (('tuple', (v,)), kws))),
                 'the same arguments')], at, 'created with %s: ' % what)

    # transition operators
    zero = returns(('G', 'ZeroOperator'))

    def sigma_at(j, k):
        def want(st, o):
            if o[0] != 'return' or o[1][0] != 'obj' or \
                    o[1][1] != 'LocalSigma':
                return False
            rs = [st.heap[o[1][2]].get('space') == w.hs]
            for n, x in (('index_j', j), ('index_k', k)):
                for s2, i in w.get(o[1], n, st):
                    rs.append(i[0] == 'return' and equal(s2, i[1], x))
            return False if False in rs else None if None in rs else True
        return want

    second = (('label', 'h', Q), within(Q)) if kind != 'nobasis' else (
        ('int', Q), [Q])
    at = anchor(repo, 'LocalSigma', '__init__')
    a, b = lin(a=1), lin(b=1)
    for what, (v, cs, pos, _) in accepted.items():
        for swap in (False, True):
            pair = lambda x, y: [y, x] if swap else [x, y]
            cs2 = cs + second[1]
            made = lambda: [
                (s, o) for s, o in w.new('LocalSigma', pair(v, second[0]))
                if s.having(*cs2) is not None]
            side = 'right' if swap else 'left'
            pj, pk = pair(fock(w, v, pos), ('int', Q))
            c.judge(key('sigma', what, side), made,
                    [(cs2, sigma_at(pj, pk), 'the positions of the levels')],
                    at, '%s on the %s: ' % (what, side))
            vj, vk = pair(pos, Q)
            tj, tk = ladd(vj, a), ladd(vk, b)
            regions = []
            inn = lambda x: within(x) if kind != 'nobasis' else [x]
            sp, sq = pair(v[0] == 'sym', False)
            ins_j = [] if sp else inn(tj)
            ins_k = [] if sq else inn(tk)
            regions.append((cs2 + ins_j + ins_k, sigma_at(
                fock(w, v, tj) if not swap else ('int', tj),
                fock(w, v, tk) if swap else ('int', tk)),
                'the levels moved'))
            if not sp:
                regions += [(cs2 + x, zero, 'zero') for x in outside(tj)]
            if not sq:
                regions += [(cs2 + x, zero, 'zero') for x in outside(tk)]
            c.judge(key('sigma', what, side, 'moved'), lambda: then(
                made(), lambda s, x: w.call(
                    x, 'raise_jk', [], {'j_incr': ('int', a),
                                        'k_incr': ('int', b)}, s)),
                regions, anchor(repo, 'LocalSigma', 'raise_jk'),
                'moving %s on the %s: ' % (what, side))
            c.judge(key('sigma', what, side, 'args'), lambda: then(
                made(), lambda s, k: then(
                    w.get(k, 'args', s), lambda s, a: w.new(
                        'LocalSigma', w.it.items(a), s))),
                [(cs2, sigma_at(pj, pk), 'the same operator')], at,
                'made again from the arguments, %s: ' % what)
            c.judge(key('sigma', what, side, 'adjoint'), lambda: then(
                made(), lambda s, x: w.call(x, '_adjoint', [], {}, s)),
                [(cs2, sigma_at(pk, pj), 'the levels exchanged')],
                anchor(repo, 'LocalSigma', '_adjoint'),
                'adjoint with %s on the %s: ' % (what, side))
        c.judge(key('sigma', what, 'projector'), lambda: w.fn(
            'qnet.algebra.core.operator_algebra.LocalProjector', [v],
            {'hs': w.hs}),
            [(cs, sigma_at(fock(w, v, pos), fock(w, v, pos)),
              'the level itself twice')], 'LocalProjector',
            'projector on %s: ' % what)
    if kind == 'basis':
        v, cs, pos, _ = ins['index']

        def named(st, o):
            if o[0] != 'return' or o[1][0] != 'tuple':
                return None
            return equal(st, o[1], ('tuple', (('label', 'h', I),
                                              ('label', 'h', Q))))
        c.judge('sigma:basis:labels', lambda: then(
            w.new('LocalSigma', [v, ('int', Q)]),
            lambda s, x: w.get(x, 'args', s)), [
            (cs + second[1], named, 'the labels of the levels')],
            at, 'made with two indices: ')
    for what, (v, cs, e) in refused.items():
        for swap in (False, True):
            x = [second[0], v] if swap else [v, second[0]]
            c.judge(key('sigma', what, 'right' if swap else 'left'),
                    lambda: w.new('LocalSigma', x),
                    [(cs + second[1],) + err(e)], at, '%s: ' % what)

    # the basis state with an index or label
    at = anchor(repo, spec, 'basis_state')
    for what, (v, cs, pos, _) in ins.items():
        c.judge(key('state', what), lambda: w.call(w.hs, 'basis_state', [v]),
                [(cs, ket_at(fock(w, v, pos)), 'the state at %s' %
                  lshow(pos))], at, '%s: ' % what)
    for x in outside(I):
        c.judge(key('state', 'index', 'small' if x == below(I) else 'large'),
                lambda: w.call(w.hs, 'basis_state', [('int', I)]),
                [(x,) + err('IndexError')], at, 'index outside: ')
    if kind != 'nobasis':
        c.judge(key('state', 'unknown label'), lambda: w.call(
            w.hs, 'basis_state', [strange]), [([],) + err('KeyError')], at,
            'an unknown label: ')
        # all of them, in the order of the labels (three levels)
        w3 = World(repo, kind, dim=lin(3))

        def ordered(st, o):
            if o[0] != 'return' or o[1][0] != 'tuple':
                return None
            xs = o[1][1]
            if len(xs) != 3:
                return False
            for i, x in enumerate(xs):
                if x[0] != 'obj' or x[1] != 'BasisKet' or \
                        st.heap[x[2]].get('space') != w3.hs:
                    return False
                if equal(st, st.heap[x[2]]['_index'], num(i)) is not True:
                    return False
            return True
        c.judge(key('state', 'all'), lambda: w3.get(
            w3.hs, 'basis_states', w3.st), [([], ordered,
                                             'all in order')],
            anchor(repo, spec, 'basis_states'), 'all states: ')


def trivial(c):
    repo = c.repo
    w = World(repo, 'basis')
    t = ('obj', 'TrivialSpace', 't')
    w.st.heap['t'] = {}
    it = w.it
    at = anchor(repo, HSA + 'TrivialSpace', 'basis_state')
    err = lambda name: (is_error(it, name), 'the error %s' % name)
    ket = (returns(('G', 'TrivialKet')), 'the trivial state')
    call = lambda v: lambda: w.call(t, 'basis_state', [v])
    c.judge('state:trivial:index', call(('int', I)), [
        ([I, lscale(I, -1)],) + ket, (below(I),) + err('IndexError'),
        (above(I, ONE),) + err('IndexError')], at, 'an index: ')
    c.judge('state:trivial:label', call(('text', '0')), [([],) + ket], at,
            'the label: ')
    c.judge('state:trivial:unknown label', call(('stranger', 'x')), [
        ([],) + err('KeyError')], at, 'an unknown label: ')
    c.judge('state:trivial:all', lambda: w.get(t, 'basis_states', w.st), [
        ([], returns(('tuple', (('G', 'TrivialKet'),))),
         'the trivial state alone')], at, 'all states: ')
    c.judge('state:trivial:labels', lambda: w.get(t, 'basis_labels', w.st), [
        ([], returns(('tuple', (('text', '0'),))),
         'the label 0 alone')], at, 'the labels: ')
    c.judge('state:trivial:dimension', lambda: w.get(t, 'dimension', w.st), [
        ([], returns(num(1)), '1')], at, 'the dimension: ')


def product(c):
    repo = c.repo
    at = anchor(repo, HSA + 'ProductSpace', 'basis_state')
    err = lambda name: (is_error(Interp(repo), name), 'the error %s' % name)

    def build(bare=None):
        w = World(repo, 'basis')
        it = w.it
        fs = []
        for f in 'ABC':
            o = ('obj', 'LocalSpace', f)
            fs.append(o)
            w.st.heap[f] = {
                '_basis': ('labels', f, lin(**{'d' + f: 1})),
                '_dimension': ('int', lin(**{'d' + f: 1})),
                '_order_key': ('tuple', (('opaque', f),)),
                'label': ('text', f), '_label': ('text', f)}
            if f == bare:
                w.st.heap[f].update(_basis=NONE, _dimension=NONE)
            w.st.cs += (ladd(lin(**{'d' + f: 1}), ONE, -1),)
        fs = tuple(fs)

        def init(it, o, args, kws, st):
            st = st.copy()
            st.heap[o[2]]['operands'] = ('tuple', tuple(args))
            return [(st, NONE)]

        def tensor(it, args, kws, st):
            st = st.copy()
            o = ('obj', 'TensorKet', next(it.n))
            st.heap[o[2]] = {'operands': ('tuple', tuple(args))}
            return [(st, o)]
        it.builders[('ProductSpace', '__init__')] = init
        it.builders['TensorKet'] = tensor
        it.builders['KeyTuple'] = lambda it, a, k, st: [(st, ('opaque',
                                                             'key'))]
        # a label taken from a basis is in that basis
        r = it.call(w.st, ('cls', 'ProductSpace'), list(fs), {})
        if len(r) != 1 or r[0][1][0] == 'EXC':
            raise Open('making a product')
        w.st, o = r[0]
        return w, o, fs

    def dims(st, o):
        return o[0] == 'return' and (
            o[1] == ('prod', (lin(dA=1), lin(dB=1), lin(dC=1))) or None
            if o[1][0] not in ('prod', 'none') else
            o[1] == ('prod', (lin(dA=1), lin(dB=1), lin(dC=1))))

    def on(name, args=None, bare=None):
        def make():
            w, o, fs = build(bare)
            if args is None:
                return w.get(o, name, w.st)
            return w.call(o, name, args)
        return make

    def parts(at, fs='ABC'):
        return [('label', f, lin(**{'c%dABC[%s]' % (i, at): 1}))
                for i, f in enumerate(fs)]

    def tensor_of(labels):
        def want(st, o):
            if o[0] != 'return' or o[1][0] != 'obj' or \
                    o[1][1] != 'TensorKet':
                return False
            ops = st.heap[o[1][2]]['operands'][1]
            if len(ops) != len(labels):
                return False
            for x, l, f in zip(ops, labels, 'ABC'):
                if x[0] != 'obj' or x[1] != 'BasisKet':
                    return False
                h = st.heap[x[2]]
                if h.get('space') != ('obj', 'LocalSpace', f):
                    return False
                if equal(st, h['label'], l) is not True:
                    return None if h['label'][0] == 'label' and lconst(
                        h['label'][2]) is not None else False
            return True
        return want

    def all_labels(st, o):
        if o[0] != 'return' or o[1][0] != 'mapped':
            return None
        if [b[1] for b in o[1][1][1]] != list('ABC'):
            return False
        return o[1][2] == ('joined', ',', tuple(parts('.')))

    def all_states(st, o):
        if o[0] != 'return' or o[1][0] != 'mapped':
            return None
        if [b[1] for b in o[1][1][1]] != list('ABC'):
            return False
        return tensor_of(parts('.'))(st, ('return', o[1][2]))

    d = lin(D=1)
    c.judge('product:dimension', on('dimension'), [
        ([], dims, 'the product of the dimensions')],
        anchor(repo, HSA + 'ProductSpace', '__init__'), 'the dimension: ')
    c.judge('product:labels', on('basis_labels'), [
        ([], all_labels, 'all combinations, the last space first')],
        anchor(repo, HSA + 'ProductSpace', '__init__'), 'the labels: ')
    c.judge('product:states', on('basis_states'), [
        ([], all_states, 'all combinations, the last space first')],
        anchor(repo, HSA + 'ProductSpace', 'basis_states'), 'the states: ')
    c.judge('product:index', on('basis_state', [('int', I)]), [
        (within(I, d), tensor_of(parts('i')), 'the state at that place'),
        (below(I),) + err('IndexError'),
        (above(I, d),) + err('IndexError')], at, 'an index: ')
    ps = [('label', f, lin(**{'x' + f: 1})) for f in 'ABC']
    cs = [y for f in 'ABC' for y in within(lin(**{'x' + f: 1}),
                                           lin(**{'d' + f: 1}))]
    c.judge('product:label', on('basis_state', [('joined', ',', tuple(ps))]),
            [(cs, tensor_of(ps), 'the state with those labels')], at,
            'a label: ')
    c.judge('product:short label', on('basis_state', [
        ('joined', ',', tuple(ps[:2]))]), [(cs,) + err('KeyError')], at,
        'a label with a part missing: ')
    c.judge('product:unknown label', on('basis_state', [
        ('joined', ',', (ps[0], ('stranger', 'x'), ps[2]))]),
        [(cs,) + err('KeyError')], at, 'a label with an unknown part: ')
    for f in 'AC':
        for name in ('dimension', 'basis_labels'):
            c.judge('product:%s:without:%s' % (name, f), on(name, None, f), [
                ([],) + err('BasisNotSetError')],
                anchor(repo, HSA + 'ProductSpace', '__init__'),
                'a factor without a basis, %s: ' % name)
        c.judge('product:has_basis:without:%s' % f, on('has_basis', None, f),
                [([], returns(('bool', False)), 'no')],
                anchor(repo, HSA + 'ProductSpace', 'has_basis'),
                'a factor without a basis: ')
    c.judge('product:has_basis', on('has_basis'), [
        ([], returns(('bool', True)), 'yes')],
        anchor(repo, HSA + 'ProductSpace', 'has_basis'), 'has a basis: ')


def rendered(e, half, sign):
    """the label of the level e (2*e in case of half-integers)"""
    ps = ('+',) if sign > 0 else ()
    return ps + ((e, '/2') if half else (e,))


def text_is(want):
    """a text of these pieces"""
    def norm(v):
        if v[0] == 'strof':
            v = ('str', (v[1],))
        if v[0] == 'text' and v[1] is not None:
            v = ('str', (v[1],))
        if v[0] != 'str':
            return None
        r = []
        for x in v[1]:
            if not isinstance(x, str) and lconst(x) is not None:
                x = str(lconst(x))
            if isinstance(x, str) and r and isinstance(r[-1], str):
                r[-1] += x
            else:
                r.append(x)
        return r

    def check(st, v):
        r = norm(v)
        w = norm(('str', want))
        if r is None:
            return None
        return len(r) == len(w) and all(
            x == y if isinstance(x, str) or isinstance(y, str) else
            lequal(st, x, y) for x, y in zip(r, w))
    return check


def spin(c):
    repo = c.repo
    err = lambda name: (is_error(Interp(repo), name), 'the error %s' % name)
    E2, S2, M = lin(e=1), lin(s=1), lin(m=1)
    signs = ((1, [ladd(E2, ONE, -1)]), (-1, [ladd(lscale(E2, -1), ONE, -1)]))

    def stop(store):
        def init(it, o, args, kws, st):
            st = st.copy()
            st.heap[o[2]].update({'$' + k: v for k, v in kws.items()})
            if args:
                st.heap[o[2]]['$label'] = args[0]
            st.heap['made'] = st.heap[o[2]]
            return [(st, ('EXC', '$made'))]
        return init

    for half in (False, True):
        kind = 'half' if half else 'whole'
        k = Fraction(1, 2) if half else 1
        value = lambda l: ('expr' if half else 'int', lscale(l, k))
        odd = []

        # the label of a level
        for sign, cs in signs + (() if half else ((0, [E2, lscale(
                E2, -1)]),)):
            w = World(repo, 'spin')
            is_it = text_is(rendered(E2, half, sign))
            c.judge('spin:label:%s:%s' % (kind, sign), lambda: w.call(
                ('cls', 'SpinIndex'), '_static_render', [value(E2)]), [
                (cs, lambda st, o: o[0] == 'return' and is_it(st, o[1]),
                 'the value with its sign')],
                anchor(repo, 'SpinIndex', '_static_render'),
                'the label of a level: ')

        c.judge('spin:label:third', lambda: World(repo, 'spin').call(
            ('cls', 'SpinIndex'), '_static_render', [
                ('expr', lscale(E2, Fraction(1, 3)))]), [
            ([],) + err('ValueError')],
            anchor(repo, 'SpinIndex', '_static_render'),
            'a third of an integer: ')

        # the default labels
        def made(basis=None, given=None):
            w = World(repo, 'spin')
            w.st.cs = ()
            w.it.builders[('SpinSpace', '__init__')] = stop(None)
            w.it.builders['SpinIndex._static_render'] = \
                lambda it, a, kw, st: [(st, ('level', a[0]))]
            kws = {'spin': given or value(S2)}
            if basis is not None:
                kws['basis'] = basis
            return [(s, ('raise', v[1]) if v[0] == 'EXC' else ('return', v))
                    for s, v in w.it.call(w.st, ('cls', 'SpinSpace'),
                                          [('text', 'h')], kws)]
        size = ladd(S2 if half else lscale(S2, 2), ONE)

        def levels(st, o):
            if o != ('raise', '$made'):
                return False
            m = st.heap['made']
            b, d = m.get('$basis', NONE), m.get('$dimension', NONE)
            if m.get('_spin', NONE)[0] not in ('int', 'expr') or not lequal(
                    st, m['_spin'][1], value(S2)[1]):
                return False
            if d[0] != 'int' or not lequal(st, d[1], size):
                return False
            if b[0] != 'mapped' or b[1][0] != 'range' or \
                    b[2][0] != 'level':
                return None
            return lequal(st, b[1][1], ()) and \
                lequal(st, b[1][2], size) and lequal(
                    st, b[2][1][1], ladd(lscale(value(S2)[1], -1), M))

        at = anchor(repo, 'SpinSpace', '__init__')
        c.judge('spin:levels:%s' % kind, made, [
            ([ladd(S2, ONE, -1)], levels, 'the levels -s to s'),
            ([lscale(S2, -1)],) + err('ValueError')], at,
            'the labels of a spin space: ')

        c.judge('spin:levels:%s:pair' % kind, lambda: made(
            None, ('tuple', (('int', S2), num(2 if half else 1)))), [
            ([ladd(S2, ONE, -1)], levels, 'the levels -s to s')],
            at, 'a spin given as a pair: ')
        c.judge('spin:levels:third', lambda: made(
            None, ('expr', lscale(S2, Fraction(1, 3)))), [
            ([ladd(S2, ONE, -1)],) + err('ValueError')], at,
            'a third of an integer: ')

        def given(st, o):
            if o != ('raise', '$made'):
                return False
            m = st.heap['made']
            d = m.get('$dimension', NONE)
            return d[0] == 'int' and lequal(st, d[1], size) and \
                m.get('$basis') == ('labels', 'x', lin(q=1))
        c.judge('spin:given:%s' % kind, lambda: made(
            ('labels', 'x', lin(q=1))), [
            ([ladd(S2, ONE, -1)], given, 'the given labels, 2s+1 of them')],
            at, 'a spin space with labels: ')

        # a state by its value
        def state(args):
            w = World(repo, 'spin')
            w.st.cs = (ladd(S2, ONE, -1),)
            w.st.heap['hs']['_spin'] = value(S2)
            w.it.builders['BasisKet'] = lambda it, a, kw, st: [
                (st, ('tuple', (a[0], kw.get('hs', NONE))))]
            return w, [(s, ('raise', v[1]) if v[0] == 'EXC' else
                        ('return', v)) for s, v in w.it.call(
                            w.st, ('fn', 'qnet.algebra.library.spin_algebra'
                                   '.SpinBasisKet'), args, {'hs': w.hs})]
        try:
            mod, node = repo.func(
                'qnet.algebra.library.spin_algebra.SpinBasisKet')
            at = where(repo, mod, node)
        except AnalysisError:
            at = 'SpinBasisKet'
        e = ('int', E2)
        args = [e, num(2)] if half else [e]
        inside = [ladd(S2, E2, -1), ladd(S2, E2)]
        regions = []
        for sign, cs in signs + (() if half else ((0, [E2, lscale(
                E2, -1)]),)):
            def want(st, o, is_it=text_is(rendered(E2, half, sign))):
                if o[0] != 'return' or o[1][0] != 'tuple':
                    return False
                return o[1][1][1] == ('obj', 'SpinSpace', 'hs') and is_it(
                    st, o[1][1][0])
            regions.append((inside + cs, want, 'the state of that label'))
        regions += [([ladd(ladd(E2, S2, -1), ONE, -1)],) + err('ValueError'),
                    ([ladd(ladd(lscale(E2, -1), S2, -1), ONE, -1)],) +
                    err('ValueError')]
        c.judge('spin:ket:%s' % kind, lambda: state(args)[1], regions, at,
                'the state of a spin: ')
        c.judge('spin:ket:%s:arguments' % kind, lambda: state(
            [e] if half else [e, num(2)])[1], [([],) + err('TypeError')], at,
            'the wrong number of values: ')
        if half:
            c.judge('spin:ket:half:denominator', lambda: state(
                [e, ('int', lin(k=1))])[1], [
                ([ladd(lin(k=1), lin(3), -1)],) + err('ValueError'),
                ([ladd(ONE, lin(k=1), -1)],) + err('ValueError')], at,
                'another denominator: ')

    # the values of the spin operators in a level
    s_ = lscale(ladd(D, ONE, -1), Fraction(1, 2))

    def root(m, k):
        a = polyop(ast.Mult(), poly(('expr', s_)), poly(('expr', ladd(
            s_, ONE))))
        b = polyop(ast.Mult(), poly(('expr', m)), poly(('expr', ladd(
            m, ONE, k))))
        return ('sqrt', polyop(ast.Sub(), a, b))
    lib = 'qnet.algebra.library.spin_algebra.'
    for fn, value in (('Jpjmcoeff', lambda m: root(m, 1)),
                      ('Jmjmcoeff', lambda m: root(m, -1)),
                      ('Jzjmcoeff', lambda m: ('expr', m))):
        try:
            mod, node = repo.func(lib + fn)
            at = where(repo, mod, node)
        except AnalysisError:
            at = fn

        def same(m):
            def want(st, o):
                if o[0] != 'return':
                    return False
                v, x = value(m), o[1]
                if x[0] in ('int', 'expr', 'poly', 'prod') and \
                        v[0] == 'expr':
                    return poly(x) == poly(v)
                if x[0] == 'sqrt':
                    return x == v
                return None
            return want
        for what, v, shift, cs, m in (
                ('label', ('label', 'h', P), True, within(P),
                 ladd(P, s_, -1)),
                ('label', ('label', 'h', P), False, within(P),
                 ladd(P, s_, -1)),
                ('index', ('int', I), True, within(I), ladd(I, s_, -1)),
                ('value', ('int', I), False, [], I),
                ('symbol', ('expr', lin(e=1)), True, [],
                 ladd(lin(e=1), s_, -1)),
                ('value of a symbol', ('expr', lin(e=1)), False, [],
                 lin(e=1))):
            def make():
                w = World(repo, 'spin')
                return w.fn(lib + fn, [w.hs, v, ('bool', shift)])
            c.judge('spin:%s:%s:%s' % (fn, what, shift), make, [
                (cs, same(m), 'the value for m = %s' % lshow(m))], at,
                '%s of %s: ' % (fn, what))

    # the label of a symbolic position
    def render(name):
        def make():
            w = World(repo, 'basis')
            it = w.it
            o = ('sym', 'FockLabel', lin(e=1), 'hs')
            old = it.fields['FockLabel']

            def fields(it, b, n, st):
                if n == 'expr' and b[0] == 'sym':
                    return ('idx', b[2])
                return old(it, b, n, st)
            it.fields['FockLabel'] = fields
            it.builders['SymbolicLabelBase._has_idx_syms'] = \
                lambda it, a, kw, st: [(st, ('bool', False))]
            it.builders['LocalSpace.substitute'] = \
                it.builders['Expression.substitute'] = \
                lambda it, a, kw, st: [(st, a[0])]
            if name == 'substitute':
                return w.call(o, name, [('opaque', 'dict')])
            return w.call(o, name, [('int', lin(e=1))])
        return make
    e = lin(e=1)
    for name in ('_render', 'substitute'):
        c.judge('spin:symbolic:%s' % name, render(name), [
            (within(e), returns(('label', 'h', e)),
             'the label at the position'),
            (below(e),) + err('IndexError'),
            (above(e),) + err('IndexError')],
            anchor(repo, 'FockLabel', name), 'the label of a position: ')

    # making a space
    def local(**kws):
        def make():
            w = World(repo, 'basis')
            w.st.cs = (lin(d=1), lin(q=1))
            it = w.it
            it.builders[('LocalSpace', '__init__')] = \
                lambda it, o, a, kw, st: [(st, NONE)]
            it.builders['KeyTuple'] = lambda it, a, k, st: [
                (st, ('opaque', 'key'))]
            r = []
            for s, v in it.call(w.st, ('cls', 'LocalSpace'), [('text', 'h')],
                                kws):
                if v[0] == 'EXC':
                    r.append((s, ('raise', v[1])))
                    continue
                for s2, a in w.get(v, 'has_basis', s):
                    for s3, b in w.get(v, 'dimension', s2):
                        for s4, x in w.get(v, 'basis_labels', s3):
                            r.append((s4, ('return', (
                                'tuple', (a, b, x)))))
            return r
        return make

    def has(n, labels):
        def want(st, o):
            if o[0] != 'return':
                return False
            a, b, x = o[1][1]
            if a != ('return', ('bool', True)) or b[0] != 'return' or \
                    b[1][0] != 'int' or not lequal(st, b[1][1], n):
                return False
            if x[0] != 'return':
                return False
            x = x[1]
            if labels is not None:
                return x == labels
            if x[0] != 'mapped' or x[1][0] != 'range':
                return None
            return lequal(st, x[1][1], ()) and lequal(st, x[1][2], n) and \
                x[2] == ('strof', lin(m=1))
        return want

    def hasnt(st, o):
        if o[0] != 'return':
            return False
        e = ('raise', 'BasisNotSetError')
        return o[1][1] == (('return', ('bool', False)), e, e)
    given = ('labels', 'x', lin(q=1))
    X, D_ = lin(q=1), lin(d=1)
    at = anchor(repo, HSA + 'LocalSpace', '__init__')
    c.judge('space:labels', local(basis=given), [
        ([ladd(X, ONE, -1)], has(X, given), 'the given labels')], at,
        'a space with labels: ')
    c.judge('space:dimension', local(dimension=('int', D_)), [
        ([ladd(D_, ONE, -1)], has(D_, None), 'the labels 0, 1, 2, ...')],
        at, 'a space with a dimension: ')
    c.judge('space:both', local(basis=given, dimension=('int', D_)), [
        ([ladd(X, ONE, -1), ladd(X, D_, -1), ladd(D_, X, -1)],
         has(X, given), 'the given labels'),
        ([ladd(X, ONE, -1), ladd(ladd(X, D_, -1), ONE, -1)],) +
        err('ValueError'),
        ([ladd(X, ONE, -1), ladd(ladd(D_, X, -1), ONE, -1)],) +
        err('ValueError')], at, 'a space with labels and a dimension: ')
    c.judge('space:neither', local(), [([], hasnt, 'no basis')], at,
            'a space without basis: ')
