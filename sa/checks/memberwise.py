"""Operations on matrices and SLH triples apply to every entry, in place."""
from ..core import where
from ..flow import SELF, Budget, mk_seq, walk
from ..model import flow, short
from .adjoint import inline_all, conds_text, opaque

ENTRIES = [('P', 'entry%d' % i) for i in range(2)]


def entries_hook(t):
    f = t[1]
    if f[0] == 'A' and f[2] in ('ravel', 'flatten') and \
            f[1] == ('A', SELF, 'matrix'):
        return mk_seq('tuple', ENTRIES)
    return None


def attr_entries(t):
    if t == ('A', ('A', SELF, 'matrix'), 'flat'):
        return mk_seq('tuple', ENTRIES)
    return None


def reshaped(repo, t):
    """(entries, shape) of Matrix(array([...]).reshape(shape))"""
    if not (t[0] == 'call' and len(t[2]) == 1 and not t[3] and
            t[1][0] == 'G' and t[1][1] in repo.classes and
            repo.classes[t[1][1]].name == 'Matrix'):
        return None
    t = t[2][0]
    shape, arr = ('A', ('A', SELF, 'matrix'), 'size'), t
    if t[0] == 'call' and t[1][0] == 'A' and t[1][2] == 'reshape' and \
            len(t[2]) == 1 and not t[3]:
        shape, arr = t[2][0], t[1][1]
    if arr[0] == 'call' and arr[1][0] == 'G' and arr[1][1].endswith(
            '.array') and len(arr[2]) == 1:
        arr = arr[2][0]
    if arr[0] != 'seq' or any(x[0] == '*' for x in arr[2]):
        return None
    return arr[2], shape


def matrix_method(repo, rep, rule, name, args, entry_ok, stop=(), hook=None,
                  results=None, whole=None):
    """entry_ok(k, entry, value, conds): the value that takes the place of
    `entry` (in result number k)"""
    cls = repo.cls('Matrix')
    found = repo.lookup(cls, name)
    key = '%s:Matrix.%s' % (rule, name)
    if not found or found[1] != 'method' or found[0] is not cls:
        rep.undec(key, 'no method of its own')
        return
    w = where(repo, cls.module, found[2])
    f = flow(repo, inline=inline_all(*stop), exact_self=cls)
    f.call_hook = lambda t: entries_hook(t) or (hook(t) if hook else None)
    f.attr_hook = attr_entries
    f.merging = False
    try:
        ps = f.summarise_method(cls, name, args=args)
    except Budget:
        rep.undec(key, 'path budget')
        return
    n = 0
    for p in ps or ():
        if p.out[0] != 'return':
            continue
        n += 1
        if whole and whole(p.value, p.conds):
            rep.ok(key)
            continue
        vals = [p.value]
        if results:
            if p.value[0] != 'seq' or any(x[0] == '*' for x in p.value[2]):
                rep.undec(key, short(p.value))
                continue
            vals = p.value[2]
            if len(vals) != results:
                rep.violation(key, w, '%d results instead of %d%s' % (
                    len(vals), results, conds_text(p)))
                continue
        for k, v in enumerate(vals):
            r = reshaped(repo, v)
            if r is None:
                if v in (SELF, NONEVAL):
                    rep.violation(key, w, 'returns %s%s' % (
                        short(v), conds_text(p)))
                else:
                    rep.undec(key, 'not an entrywise matrix: ' + short(v))
                continue
            es, shape = r
            if shape != ('A', ('A', SELF, 'matrix'), 'shape') and \
                    shape != ('A', SELF, 'shape'):
                if any(x == ('A', SELF, 'matrix') for x in walk(shape)):
                    rep.violation(key, w, 'the result has the shape ' +
                                  short(shape))
                else:
                    rep.undec(key, 'shape ' + short(shape))
                continue
            if len(es) != len(ENTRIES):
                rep.violation(key, w, 'entries are dropped: ' + short(v))
                continue
            for e, x in zip(ENTRIES, es):
                ok = entry_ok(k, e, x, p.conds)
                if not ok and opaque(x):
                    rep.undec(key, short(x))
                else:
                    rep.decide(key, ok, w, 'entry %s becomes %s%s' % (
                        short(e), short(x), conds_text(p)))
    if not n:
        rep.undec(key, 'no returning path')


NONEVAL = ('C', 'NoneType', 'None')


def not_expression(repo, e, conds):
    """the path knows that e is no quantum expression"""
    for c, b in conds:
        if c[0] == 'isinst' and c[1] == e and not b:
            for x in c[2]:
                k = x[0] == 'G' and repo.classes.get(x[1])
                if k and k.name in ('QuantumExpression', 'Expression'):
                    return True
        if c[0] == 'call' and c[1] == ('G', 'builtins.hasattr') and \
                c[2][0] == e and not b:
            return True
        if c[0] == 'raises' and not b:
            return True
    return False


def slh_method(repo, rep, rule, name, stop, member_ok):
    cls = repo.cls('SLH')
    found = repo.lookup(cls, name)
    key = '%s:SLH.%s' % (rule, name)
    if not found or found[1] != 'method' or found[0] is not cls:
        rep.undec(key, 'no method of its own')
        return
    w = where(repo, cls.module, found[2])
    f = flow(repo, inline=inline_all(*stop), exact_self=cls)
    n = 0
    for p in f.summarise_method(cls, name) or ():
        if p.out[0] != 'return':
            continue
        n += 1
        v = p.value
        if not (v[0] == 'call' and len(v[2]) == 3 and not v[3] and
                v[1][0] == 'G' and v[1][1] in repo.classes and
                repo.classes[v[1][1]].name == 'SLH'):
            if v == SELF or v == NONEVAL:
                rep.violation(key, w, 'returns ' + short(v) + conds_text(p))
            else:
                rep.undec(key, short(v))
            continue
        for m, x in zip('SLH', v[2]):
            ok = member_ok(('A', SELF, m), x)
            if not ok and opaque(x):
                rep.undec(key, short(x))
            else:
                rep.decide(key, ok, w, '%s becomes %s%s' % (
                    m, short(x), conds_text(p)))
    if not n:
        rep.undec(key, 'no returning path')
