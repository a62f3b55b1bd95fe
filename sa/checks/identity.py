"""C01 reconstruction, C02 identity (equality / hashing)"""
import ast

from ..model import *
from ..core import where
from ..flow import TRUE, FALSE, replace


# -- C01 -------------------------------------------------------------------

NUMERIC = ('int', 'float', 'complex')


def distorted(t):
    """Arithmetic applied to a stored constructor argument?"""
    if t[0] == 'un' and t[1] == '-':
        return True
    if t[0] == 'bin' and (
            (is_const(t[2]) and t[2][1] in NUMERIC) or
            (is_const(t[3]) and t[3][1] in NUMERIC)):
        return True
    if t[0] == 'rev':
        return True
    if t[0] == 'sorted':
        return True
    if t[0] in ('slice',):
        return True
    if t[0] == 'call' and len(t[2]) == 1 and not t[3]:
        return distorted(t[2][0])
    if t[0] == 'call' and t[1][0] == 'A' and not t[2] and t[1][2] in (
            'adjoint', 'dag', 'conjugate', 'series_inverse', 'expand',
            'lower', 'upper', 'strip'):
        return True
    return False


def check_value(t, name, conds):
    """Does term `t` carry parameter `name`?  -> (verdict, why)"""
    if mentions(t, name):
        if distorted(t):
            return False, "is %s, not the argument itself" % short(t)
        return True, ''
    if default_cond(conds, name):
        return True, 'fixed by path condition'
    if is_const(t) and any(mentions(c, name) for c, _ in conds):
        # a constant chosen by a test of the argument: sign conditions and
        # the like; the constant must agree with the test
        v = sign_agrees(t, name, conds)
        if v is None and t == NONE and not guarded(conds, name):
            v = False
        return v, 'is the constant %s' % short(t)
    if any(x[0] in ('unk', 'phi', 'lam') for x in walk(t)):
        return None, 'not resolved: %s' % short(t)
    return False, "is %s, which does not depend on the argument" % short(t)


def sign_agrees(t, name, conds):
    """constant t under a condition `name > 0` / `name == c`: consistent?"""
    from ..flow import const_val
    try:
        v = const_val(t)
    except Exception:
        return None
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        return None
    def holds(c, pol, v):
        """c with the argument set to v; None: not a test of the argument"""
        if c[0] != 'cmp' or not mentions(c, name):
            return None
        l, r = c[2], c[3]
        try:
            if l == ('P', name) and is_const(r):
                a, b = v, const_val(r)
            elif r == ('P', name) and is_const(l):
                a, b = const_val(l), v
            else:
                return None
            return {'<': a < b, '==': a == b, 'is': a == b}[c[1]] == pol
        except (TypeError, KeyError, ValueError):
            return None
    mine = [holds(c, pol, v) for c, pol in conds]
    other = [holds(c, pol, -v) for c, pol in conds]
    if False not in mine and False in other:
        return True           # the test singles out this constant
    if False in mine and False not in other:
        return False          # the test singles out the opposite constant
    if False in mine and False in other:
        return True           # neither value takes this path
    return None


def c01(repo, rep):
    rep.rule('R1', "for every concrete expression class and every constructor"
             " path, `args` yields one entry per positional constructor "
             "parameter, in order, each carrying that parameter (value flow "
             "parameter -> attribute -> property)")
    rep.rule('R2', "`kwargs` has exactly the keyword-only parameters as keys,"
             " each carrying its parameter")
    rep.rule('R3', "`minimal_kwargs` is a sub-dictionary of `kwargs` and "
             "drops a key only on paths that fix the parameter's value")
    for c in concrete_expressions(repo):
        if is_singleton_cls(repo, c):
            rep.count('singletons')
            singleton_args(repo, rep, c)
            continue
        ct = ctor(repo, c)
        rep.count('classes')
        w = where(repo, ct.owner.module, ct.fn)
        if ct.paths is None:
            rep.undec('R1:%s' % c.name, ct.error)
            continue
        for p in ct.paths:
            rep.count('constructor_paths')
            one_path(repo, rep, c, ct, p, w)


def singleton_args(repo, rep, c):
    for m in ('args', 'kwargs'):
        try:
            ps = prop_paths(repo, c, m)
        except Budget:
            ps = None
        if not ps:
            rep.undec('R1:%s.%s' % (c.name, m), 'no summary')
            continue
        for p in ps:
            if p.out[0] != 'return':
                continue
            t = p.value
            empty = (t[0] == 'seq' and not t[2]) or (
                t[0] == 'dict' and not t[1])
            rep.decide('R1:%s.%s' % (c.name, m), empty or None
                       if t[0] not in ('seq', 'dict') else empty,
                       c.qualname, 'singleton %s must be empty, is %s' % (
                           m, short(t)))


def one_path(repo, rep, c, ct, p, w):
    for m in ('args', 'kwargs', 'minimal_kwargs'):
        found = repo.lookup(c, m)
        if found is None:
            rep.violation('R1:%s.%s' % (c.name, m), w, 'no such property')
            continue
        wm = where(repo, found[0].module, found[2])
        try:
            ps = prop_paths(repo, c, m, heap=p.heap, conds=p.conds)
        except Budget:
            rep.undec('R1:%s.%s' % (c.name, m), 'path budget')
            continue
        if ps is None:
            rep.undec('R1:%s.%s' % (c.name, m), 'not a method')
            continue
        for q in ps:
            if q.out[0] == 'raise':
                if m != 'args' and not ct.kwonly:
                    continue       # guard in Expression.kwargs
                if any(x[0] == 'exc' for x, _ in q.conds):
                    continue
                if ct.kwonly and ct.kw and m != 'args':
                    pass
                rep.violation(
                    'R1:%s.%s' % (c.name, m), wm,
                    '%s raises %s although the constructor accepts keyword '
                    'arguments %s' % (m, short(q.out[1]), ct.kwonly))
                continue
            if q.out[0] != 'return':
                rep.violation('R1:%s.%s' % (c.name, m), wm,
                              '%s returns nothing on some path' % m)
                continue
            if m == 'args':
                args_ok(repo, rep, c, ct, q, wm)
            else:
                kwargs_ok(repo, rep, c, ct, q, wm, m)


def args_ok(repo, rep, c, ct, q, w):
    t = q.value
    key = 'R1:%s.args' % c.name
    items = seq_items(t) if t[0] in ('seq', 'bin') else (('*', t),)
    npos = len(ct.pos)
    if any(x[0] == '*' for x in items[:npos]) and npos:
        # *operands term standing for fixed parameters
        if len(items) == 1 and npos == 1 and not ct.var:
            v, why = check_value(items[0][1], ct.pos[0], q.conds)
            rep.decide(key, None if v else v, w, why)
            return
        rep.undec(key, short(t))
        return
    if len(items) < npos:
        rep.violation(key, w, "args %s has fewer entries than the "
                      "constructor's positional parameters %s"
                      % (short(t), ct.pos))
        return
    for n, x in zip(ct.pos, items):
        v, why = check_value(x, n, q.conds)
        rep.decide('%s[%s]' % (key, n), v, w,
                   "args entry for constructor parameter %r %s" % (n, why))
    rest = items[npos:]
    if ct.var:
        if not rest:
            if default_cond(q.conds, ct.var) or not _var_used(ct):
                rep.ok(key + '[*%s]' % ct.var)
            else:
                rep.violation(key + '[*%s]' % ct.var, w,
                              "args drops the variable positional "
                              "parameters *%s" % ct.var)
        for x in rest:
            y = x[1] if x[0] == '*' else x
            v, why = check_value(y, ct.var, q.conds)
            if v and x[0] != '*':
                v, why = None, 'single entry for *%s' % ct.var
            rep.decide(key + '[*%s]' % ct.var, v, w,
                       "args entry for *%s %s" % (ct.var, why))
            if v and x[0] == '*' and y[0] == 'map' and y[3]:
                rep.violation(key + '[*%s]' % ct.var, w,
                              "args filters *%s: %s" % (ct.var, short(y)))
            if v and x[0] == '*' and contains_rev(y):
                rep.violation(key + '[*%s]' % ct.var, w,
                              "args reorders *%s: %s" % (ct.var, short(y)))
    elif rest:
        if all(x[0] == '*' for x in rest):
            rep.undec(key, 'extra star entries %s' % short(t))
        else:
            rep.violation(key, w, "args %s has more entries than the "
                          "constructor's positional parameters %s"
                          % (short(t), ct.pos))


def contains_rev(t):
    return t[0] in ('rev', 'sorted') or (
        t[0] == 'map' and t[2][0] in ('rev', 'sorted'))


def _var_used(ct):
    return any(isinstance(n, ast.Name) and n.id == ct.var
               for n in ast.walk(ct.fn))


def kwargs_ok(repo, rep, c, ct, q, w, m):
    t = q.value
    key = 'R%d:%s.%s' % (2 if m == 'kwargs' else 3, c.name, m)
    if t[0] != 'dict':
        rep.undec(key, short(t))
        return
    open_ended = any(k == '**' for k, _ in t[1])
    got = {}
    for k, v in t[1]:
        if k == '**':
            continue
        if not (is_const(k) and k[1] == 'str'):
            open_ended = True
            continue
        got[k[2].strip("'\"")] = v
    for n in ct.kwonly:
        if n in got:
            v, why = check_value(got[n], n, q.conds)
            rep.decide('%s[%s]' % (key, n), v, w,
                       "%s[%r] %s" % (m, n, why))
        elif m == 'minimal_kwargs' and default_cond(q.conds, n):
            rep.ok('%s[%s]' % (key, n), 'default')
        elif m == 'minimal_kwargs' and implied(ct, n, got, q):
            rep.ok('%s[%s]' % (key, n), 'implied by another parameter')
        elif m == 'minimal_kwargs' and guarded(q.conds, n):
            rep.undec('%s[%s]' % (key, n), 'dropped under a test not '
                      'understood')
        elif open_ended:
            rep.undec('%s[%s]' % (key, n), short(t))
        else:
            rep.violation('%s[%s]' % (key, n), w,
                          "%s omits the constructor's keyword parameter %r: "
                          "%s" % (m, n, short(t)))
    if ct.kw:
        has = any(mentions(v, ct.kw) for k, v in t[1] if k == '**') or any(
            mentions(v, ct.kw) for v in got.values())
        if has:
            rep.ok('%s[**%s]' % (key, ct.kw))
        elif ct.owner.name in ('Operation', 'Expression', 'QuantumExpression',
                               'SingleQuantumOperation', 'QuantumOperation',
                               'QuantumPlus', 'QuantumTimes'):
            rep.ok('%s[**%s]' % (key, ct.kw), 'pass-through base')
        else:
            rep.undec('%s[**%s]' % (key, ct.kw), short(t))
    else:
        for n in got:
            if n not in ct.kwonly:
                rep.violation('%s[%s]' % (key, n), w,
                              "%s has key %r, which the constructor does not "
                              "accept" % (m, n))


def implied(ct, n, got, q):
    """dropped key whose stored value is computed from another kept key"""
    full = q.heap
    for (b, a), v in full.items():
        if b == SELF and a.lstrip('_') == n:
            others = [o for o in ct.kwonly if o != n and mentions(v, o)]
            if others and not mentions(v, n) and all(
                    o in got for o in others):
                return True
    return False


def guarded(conds, n):
    """the dropping path is conditioned on the parameter by a test other than
    a comparison with another runtime value"""
    for c, pol in conds:
        if not mentions(c, n):
            continue
        if c[0] == 'cmp' and c[1] == '<' and not (
                is_const(c[2]) or is_const(c[3])):
            continue
        if c[0] in ('isinst', 'nonempty'):
            continue
        if c[0] == 'cmp' and c[1] in ('is', '==') and not pol:
            continue
        if not mentions(replace(c, lambda x: NONE if x[0] == 'elem'
                                else None), n):
            continue          # a test of single elements
        return True
    return False


# -- C02 -------------------------------------------------------------------

def c02(repo, rep):
    rep.rule('K1', "every constructor parameter of every expression class "
             "flows into the identity key registered by the base constructor")
    rep.rule('K2', "the key function combines class, positional and keyword "
             "data; the conversion of containers to tuples drops and reorders "
             "nothing it should not")
    rep.rule('K3', "a class that redefines equality compares the same data "
             "on both sides, and its hash uses only data its equality uses; "
             "inequality is the negation of equality")
    rep.rule('K4', "symbolic labels compare on all attributes (no attribute "
             "is excluded from comparison or hashing)")
    rep.rule('K5', "constants are true singletons (metaclass and decorator "
             "together; equality/hash of the decorator agree)")
    for c in concrete_expressions(repo):
        if is_singleton_cls(repo, c):
            continue
        rep.count('classes')
        key_flow(repo, rep, c)
    key_function(repo, rep)
    eq_hash(repo, rep)
    labels(repo, rep)
    singletons(repo, rep)


def key_flow(repo, rep, c):
    ct = ctor(repo, c)
    w = where(repo, ct.owner.module, ct.fn)
    if ct.paths is None:
        rep.undec('K1:' + c.name, ct.error)
        return
    for p in ct.paths:
        rep.count('constructor_paths')
        k = p.heap.get((SELF, '_instance_key'))
        if k is None:
            if any(x[0] == 'unk' for ef in p.effects for x in walk(ef)) or \
                    any(ef[0] == 'do' and ef[1][0] == 'call' and
                        ef[1][1][0] == 'A' and ef[1][1][2] == '__init__'
                        for ef in p.effects):
                rep.undec('K1:' + c.name, 'base constructor not resolved')
            else:
                rep.violation('K1:%s' % c.name, w,
                              'a constructor path never registers an '
                              'identity key (base constructor not called)')
            continue
        if not (k[0] == 'call' and len(k[2]) == 2):
            rep.undec('K1:' + c.name, short(k))
            continue
        a, kw = k[2]
        for n in ct.names:
            if n == ct.kw and ct.owner.name in (
                    'Operation', 'Expression', 'QuantumExpression',
                    'SingleQuantumOperation', 'QuantumOperation',
                    'QuantumPlus', 'QuantumTimes'):
                pass
            if mentions(a, n) or mentions(kw, n):
                if lossy(('seq', 'tuple', (a, kw)), n):
                    rep.violation(
                        'K1:%s[%s]' % (c.name, n), w,
                        'only a lossy function of parameter %r reaches the '
                        'identity key: %s' % (n, short(k)))
                else:
                    rep.ok('K1:%s[%s]' % (c.name, n))
            elif default_cond(p.conds, n):
                rep.ok('K1:%s[%s]' % (c.name, n), 'fixed')
            elif n == ct.var and not _var_used(ct):
                rep.ok('K1:%s[%s]' % (c.name, n))
            elif n == ct.var and empty_var(p, n):
                rep.ok('K1:%s[%s]' % (c.name, n), 'empty')
            elif any(x[0] == 'unk' for x in walk(k)):
                rep.undec('K1:%s[%s]' % (c.name, n), short(k))
            else:
                rep.violation(
                    'K1:%s[%s]' % (c.name, n), w,
                    'constructor parameter %r does not reach the identity '
                    'key: objects that differ only in %r compare equal (%s)'
                    % (n, n, short(k)))


LOSSY = {'len', 'abs', 'bool', 'hash', 'type', 'id', 'set', 'any', 'all',
         'min', 'max', 'sum'}


def lossy(t, n):
    """Every occurrence of P(n) in t is under a lossy function"""
    subs = set(x[2] for x in walk(t) if x[0] == 'sub' and x[1] == ('P', n))

    def occ(x, under):
        """returns set of under-flags for occurrences"""
        if x == ('P', n):
            return {under}
        res = set()
        u = under
        if x[0] == 'call' and x[1][0] == 'G' and \
                x[1][1].startswith('builtins.') and \
                x[1][1].rpartition('.')[2] in LOSSY:
            u = True
        if x[0] in ('any', 'all', 'isinst', 'cmp', 'slice', 'idx'):
            u = True
        if x[0] == 'sub' and x[1] == ('P', n) and len(subs) < 2:
            u = True
        for y in x[1:]:
            res |= walkocc(y, u, occ)
        return res

    def walkocc(y, u, occ):
        if isinstance(y, frozenset):
            r = set()
            for z in y:
                r |= walkocc(z, u, occ)
            return r
        if isinstance(y, tuple):
            if y and isinstance(y[0], str) and y[0] in TAGS:
                return occ(y, u)
            r = set()
            for z in y:
                r |= walkocc(z, u, occ)
            return r
        return set()
    from ..flow import TAGS
    r = occ(t, False)
    return bool(r) and r == {True}


def empty_var(p, n):
    for c, pol in p.conds:
        if mentions(c, n) and pol and c[0] == 'cmp' and c[1] in ('==', '<'):
            return True
    return False


def key_function(repo, rep):
    E = repo.cls('Expression')
    f = flow(repo)
    for c in repo.subclasses(E):
        if '_get_instance_key' not in c.methods:
            continue
        fn = c.methods['_get_instance_key']
        w = where(repo, c.module, fn)
        rep.count('key_functions')
        pos = params_of(fn)[0]
        an, kn = (pos + ['args', 'kwargs'])[1:3]
        for p in f.summarise(c.module, fn, c, c):
            if p.out[0] != 'return':
                continue
            t = p.value
            has_cls = contains(t, SELF)
            need_kw = c is E or any(ctor(repo, d).kwonly
                                    for d in repo.subclasses(c))
            ok_a = mentions(t, an)
            ok_k = mentions(t, kn) or not need_kw
            rep.decide('K2:%s.cls' % c.name, has_cls, w,
                       'identity key does not include the class: %s'
                       % short(t))
            rep.decide('K2:%s.args' % c.name, ok_a, w,
                       'identity key ignores positional arguments: %s'
                       % short(t))
            rep.decide('K2:%s.kwargs' % c.name, ok_k, w,
                       'identity key ignores keyword arguments: %s'
                       % short(t))
            for x in walk(t):
                if x[0] in ('slice', 'rev', 'sorted') or (
                        x[0] == 'call' and x[1][0] == 'G' and
                        x[1][1].startswith('builtins.') and
                        x[1][1].rpartition('.')[2] in LOSSY - {'type'}):
                    rep.violation('K2:%s.lossy' % c.name, w,
                                  'identity key is lossy: %s' % short(t))
                if x[0] == 'seq' and x[1] == 'set':
                    rep.violation('K2:%s.lossy' % c.name, w,
                                  'identity key goes through a set: %s'
                                  % short(t))
            if c.name == 'Matrix':
                sh = any(x[0] == 'A' and x[2] == 'shape' for x in walk(t))
                rep.decide('K2:Matrix.shape', sh, w,
                           'matrix identity ignores the shape')
    # nested_tuple
    mod, fn = repo.func('qnet.utils.containers.nested_tuple')
    w = where(repo, mod, fn)
    pn = params_of(fn)[0][0]
    P = ('P', pn)
    nested = ('G', mod.name + '.nested_tuple')
    f = flow(repo, max_paths=200)
    try:
        ps = f.summarise(mod, fn)
    except Budget:
        rep.undec('K2:nested_tuple', 'budget')
        return
    for p in ps:
        if p.out[0] == 'raise':
            continue
        if p.out[0] == 'fall':
            rep.violation('K2:nested_tuple.none', w,
                          'container conversion returns nothing on a path')
            continue
        t = p.value
        kinds = {}
        for c, pol in p.conds:
            if c[0] == 'isinst' and c[1] == P:
                for k in c[2]:
                    kinds[k[1].rpartition('.')[2]] = pol
        label = '+'.join(sorted(k for k, v in kinds.items() if v)) or 'atom'
        is_map = kinds.get('Mapping') or kinds.get('OrderedDict')
        is_seq = kinds.get('Sequence')
        key = 'K2:nested_tuple[%s]' % label
        if t == P:
            bad = (is_map or (is_seq and not (
                kinds.get('str') or kinds.get('bytes'))))
            rep.decide(key, not bad, w, 'container returned unconverted')
            continue
        if not mentions(t, pn):
            rep.violation(key, w, 'conversion drops the container: %s'
                          % short(t))
            continue
        flt = [x for x in walk(t) if x[0] == 'map' and x[3]]
        rep.decide(key + '.complete', not flt, w,
                   'elements are filtered out of the identity key: %s'
                   % short(t))
        # the per-element body must recurse and, for mappings, use key+value
        rec = any(x == nested for x in walk(t))
        if is_map:
            # values must be present: either items() or d[k]
            has_val = any(x[0] == 'sub' and x[1] == P for x in walk(t)) or \
                any(x[0] == 'A' and x[1] == P and x[2] == 'items'
                    for x in walk(t))
            rep.decide(key, has_val, w,
                       'mapping values are dropped: %s' % short(t))
            gone = replace(t, lambda x: ('C', 'str', "'value'") if
                           x[0] == 'sub' and x[1] == P else None)
            rep.decide(key + '.keys', mentions(gone, pn) and not any(
                x[0] == 'A' and x[1] == P and x[2] == 'values'
                for x in walk(t)), w,
                'mapping keys are dropped: %s' % short(t))
        elif is_seq:
            srt = any(x[0] == 'sorted' or (
                x[0] == 'call' and x[1][0] == 'G' and 'sorted' in x[1][1])
                for x in walk(t))
            st = any(x[0] == 'seq' and x[1] == 'set' for x in walk(t))
            rep.decide(key, not srt and not st and not any(
                x[0] in ('slice', 'rev') for x in walk(t)), w,
                'order of a sequence is lost in the identity key: %s'
                % short(t))
        rep.decide(key + '.recursive', rec or None, w,
                   'not recursive: %s' % short(t))


def attrs_used(t, base):
    """attribute names of `base` read in t"""
    res = set()
    for x in walk(t):
        if x[0] == 'A' and x[1] == base:
            res.add(x[2])
    return res


def eq_hash(repo, rep):
    f = flow(repo)
    for c in sorted(repo.classes.values(), key=lambda c: c.qualname):
        has_eq = '__eq__' in c.methods
        has_hash = '__hash__' in c.methods
        if not has_eq and not has_hash:
            continue
        if is_singleton_cls(repo, c):
            continue
        rep.count('eq_hash_classes')
        is_expr = repo.is_sub(c, 'Expression')
        if has_eq and is_expr and not has_hash and \
                '__hash__' not in c.attrs:
            rep.violation('K3:%s.hash' % c.name,
                          where(repo, c.module, c.methods['__eq__']),
                          'redefines equality without hashing: instances '
                          'become unhashable')
        eq_attrs = set()
        if has_eq:
            fn = c.methods['__eq__']
            w = where(repo, c.module, fn)
            pos = params_of(fn)[0]
            O = ('P', pos[1]) if len(pos) > 1 else ('P', 'other')
            try:
                ps = f.summarise(c.module, fn, c, c)
            except Budget:
                ps = []
                rep.undec('K3:%s.eq' % c.name, 'budget')
            for p in ps:
                terms = [x for x, _ in p.conds]
                if p.out[0] == 'return':
                    terms.append(p.value)
                for t in terms:
                    eq_attrs |= attrs_used(t, SELF)
                    for x in walk(t):
                        if x[0] != 'cmp' or x[1] not in ('==', '!=', 'is'):
                            continue
                        l, r = x[2], x[3]
                        sl, sr = attrs_used(l, SELF), attrs_used(r, SELF)
                        ol, orr = attrs_used(l, O), attrs_used(r, O)
                        mine = sl | sr
                        theirs = ol | orr
                        if mine and theirs and not (
                                contains(l, SELF) and contains(l, O)):
                            rep.decide(
                                'K3:%s.eq[%s]' % (c.name, ','.join(
                                    sorted(mine))),
                                mine == theirs, w,
                                'equality compares %s of one side with %s of '
                                'the other' % (sorted(mine), sorted(theirs)))
                        if contains(l, SELF) and contains(r, SELF) and \
                                l == r and l != SELF:
                            rep.violation('K3:%s.eq.self' % c.name, w,
                                          'compares an attribute with itself')
                if p.out[0] == 'return' and p.value == TRUE:
                    # unconditional True must rest on some comparison
                    ok = any(pol and (x[0] == 'cmp') for x, pol in p.conds)
                    rep.decide('K3:%s.eq.true' % c.name, ok or None, w,
                               'returns True without comparing')
            if is_expr and ps:
                base = c.name == 'Expression'
                if base:
                    rep.decide('K3:Expression.eq.key',
                               '_instance_key' in eq_attrs, w,
                               'equality does not compare identity keys')
        if has_hash and is_expr:
            fn = c.methods['__hash__']
            w = where(repo, c.module, fn)
            try:
                ps = f.summarise(c.module, fn, c, c)
            except Budget:
                continue
            for p in ps:
                if p.out[0] != 'return':
                    rep.violation('K3:%s.hash.none' % c.name, w,
                                  'hash does not return on some path')
                    continue
                t = p.value
                ha = attrs_used(t, SELF) - {'_hash', '__class__'}
                if any(x[0] == 'call' and x[1] == ('A', ('call', (
                        'G', 'builtins.super'), (), ()), '__hash__')
                        for x in walk(t)):
                    # delegating hash is only right if equality delegates too
                    if has_eq:
                        deleg_all = eq_delegates(repo, f, c)
                        rep.decide('K3:%s.hash.delegates' % c.name,
                                   deleg_all, w,
                                   'equality accepts objects (%s) whose hash '
                                   'differs: hash is inherited but equality '
                                   'is widened' % ', '.join(sorted(
                                       eq_attrs)))
                    continue
                src = eq_attrs if has_eq else {'_instance_key'}
                extra = {a for a in ha if a not in src and not alias_in(
                    a, src)}
                if not ha and t == ('A', SELF, '_hash'):
                    rep.ok('K3:%s.hash' % c.name)
                    continue
                rep.decide('K3:%s.hash' % c.name, not extra, w,
                           'hash uses %s, which equality does not compare '
                           '(%s)' % (sorted(extra), sorted(src)))
                if any(x[0] == 'call' and x[1] == ('G', 'builtins.id')
                       for x in walk(t)):
                    rep.violation('K3:%s.hash.id' % c.name, w,
                                  'hash depends on object identity')
                # memo coherence
                for ef in p.effects:
                    if ef[0] == 'store' and ef[2] == '_hash':
                        rep.decide('K3:%s.hash.memo' % c.name,
                                   ef[3] == t, w,
                                   'stores %s as hash but returns %s'
                                   % (short(ef[3]), short(t)))
        if '__ne__' in c.methods and is_expr:
            pass
    E = repo.cls('Expression')
    for c in repo.subclasses(E):
        if '__ne__' in c.methods:
            fn = c.methods['__ne__']
            w = where(repo, c.module, fn)
            for p in f.summarise(c.module, fn, c, c):
                if p.out[0] != 'return':
                    continue
                t = p.value
                if t[0] == 'G' and t[1].endswith('NotImplemented'):
                    continue
                neg = t[0] == 'not' or (t[0] == 'cmp' and t[1] in (
                    '!=', 'is not'))
                if t[0] == 'C':
                    # True/False under a condition on the equality result
                    cc = [pol for x, pol in p.conds if any(
                        y[0] == 'A' and y[2] == '__eq__' for y in walk(x))
                        and x[0] == 'call']
                    neg = (t == FALSE) == cc[-1] if cc else None
                rep.decide('K3:%s.ne' % c.name, neg, w,
                           'inequality is not the negation of equality: %s'
                           % short(t))


def alias_in(a, src):
    return a.lstrip('_') in {s.lstrip('_') for s in src}


def eq_delegates(repo, f, c):
    """Every path of __eq__ that does not delegate to super() returns a
    constant False"""
    fn = c.methods['__eq__']
    hfn = c.methods['__hash__']
    # conditions under which eq is widened must be reflected in the hash
    for p in f.summarise(c.module, fn, c, c):
        if p.out[0] != 'return':
            continue
        t = p.value
        if any(x[0] == 'call' and x[1][0] == 'A' and x[1][2] == '__eq__'
               for x in walk(t)):
            continue
        if t == FALSE:
            continue
        # is there a hash path under the same leading condition that hashes
        # the compared attribute?
        sa = attrs_used(t, SELF)
        for q in f.summarise(c.module, hfn, c, c):
            if q.out[0] == 'return' and q.value[0] == 'call' and \
                    q.value[1] == ('G', 'builtins.hash') and \
                    attrs_used(q.value, SELF) & sa and \
                    any(x in p.conds for x in q.conds):
                break
        else:
            return False
    return True


def labels(repo, rep):
    base = repo.cls('SymbolicLabelBase')
    rng = repo.maybe_cls('IndexRangeBase')
    for c in repo.subclasses(base) + (repo.subclasses(rng) if rng else []):
        rep.count('label_classes')
        for n, v in c.attrs.items():
            if isinstance(v, ast.Call) and ast.unparse(v.func).endswith(
                    ('attr.ib', 'attrib', 'ib')):
                bad = [k.arg for k in v.keywords
                       if k.arg in ('cmp', 'eq', 'hash', 'order') and
                       isinstance(k.value, ast.Constant) and
                       k.value.value is False]
                rep.decide('K4:%s.%s' % (c.name, n), not bad,
                           where(repo, c.module, v),
                           'attribute %r is excluded from comparison/hash '
                           '(%s)' % (n, bad))
        for n in ('__eq__', '__hash__'):
            if n in c.methods:
                rep.undec('K4:%s.%s' % (c.name, n), 'custom')
        own_attribs = [n for n, v in c.attrs.items() if isinstance(
            v, ast.Call) and ast.unparse(v.func) in ('attr.ib', 'attrib')]
        if own_attribs:
            dec = decorator_names(c.node)
            rep.decide('K4:%s.decorated' % c.name,
                       'immutable_attribs' in dec or 's' in dec
                       or 'attrs' in dec,
                       where(repo, c.module, c.node),
                       'defines attributes %s but is not processed by the '
                       'attribute decorator: they are ignored by the '
                       'constructor and by equality' % own_attribs)
    mod, fn = repo.func('qnet.utils._attrs.immutable_attribs')
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and ast.unparse(n.func) in (
                'attr.s', 'attr.attrs'):
            bad = [k.arg for k in n.keywords
                   if k.arg in ('cmp', 'eq', 'hash') and isinstance(
                       k.value, ast.Constant) and k.value.value is False]
            fr = any(k.arg == 'frozen' and isinstance(
                k.value, ast.Constant) and k.value.value is True
                for k in n.keywords)
            rep.decide('K4:immutable_attribs', fr and not bad,
                       where(repo, mod, n),
                       'label classes are not frozen / hashable by value')


def singletons(repo, rep):
    f = flow(repo)
    for c in repo.classes.values():
        meta = (c.metaclass or '').endswith('.Singleton')
        dec = is_singleton_cls(repo, c)
        if not (meta or dec) or c.name == 'SingletonType':
            continue
        rep.count('singleton_classes')
        rep.decide('K5:%s' % c.name, meta and dec,
                   where(repo, c.module, c.node),
                   'a singleton needs both the metaclass (%s) and the '
                   'decorator (%s)' % (meta, dec))
        if '_hash_val' in c.attrs and '__hash__' in c.methods:
            rep.undec('K5:%s.hash' % c.name, 'overridden by decorator')
    mod, fn = repo.func('qnet.utils.singleton.singleton_object')
    w = where(repo, mod, fn)
    try:
        ps = f.summarise(mod, fn)
    except Budget:
        ps = []
    P = ('P', params_of(fn)[0][0])
    for p in ps:
        if p.out[0] != 'return':
            continue
        hv = any(c[0] == 'call' and c[1] == ('G', 'builtins.hasattr')
                 and pol for c, pol in p.conds)
        terms = {}
        for n in ('__hash__', '__eq__'):
            t = p.heap.get((P, n))
            if t is None or t[0] != 'lam':
                rep.undec('K5:singleton_object.%s' % n, 'not a function')
                continue
            clo = f.closures[t[1]]
            body = f.call(__import__('sa.flow', fromlist=['State']).State(),
                          t, [('P', 'inst')] + (
                              [('P', 'other')] if n == '__eq__' else []),
                          [], clo.ctx)
            if len(body) == 1:
                terms[n] = body[0][1]
        if len(terms) == 2:
            val = ('A', P, '_hash_val')
            in_h = contains(terms['__hash__'], val)
            in_e = contains(terms['__eq__'], val)
            rep.decide('K5:singleton_object[%s]' % ('value' if hv else
                                                    'identity'),
                       in_h == in_e == hv, w,
                       'hash (%s) and equality (%s) of constants disagree'
                       % (short(terms['__hash__']),
                          short(terms['__eq__'])))
