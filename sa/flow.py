"""Path-sensitive, interprocedural value-flow analysis.

For a function (or property) of the analysed tree :meth:`Flow.summarise`
computes a finite list of :class:`Path` objects.  Every path is one
control-flow path through the function and through the helpers that were
inlined; it carries

* ``conds``   the branch atoms that hold on the path, ``(atom, polarity)``;
* ``effects`` ordered calls / stores performed on the path;
* ``out``     ``('return', term)``, ``('raise', term)`` or ``('fall',)``.

A *term* is a normalised provenance tree: it says which parameters,
attributes, constants and calls a value was computed from.  Local variable
names, helper extraction, comprehension-versus-loop, statement order between
independent statements, ``x[::-1]`` versus ``reversed(x)`` ... do not survive
normalisation.  Nothing is executed and no path condition is solved; a branch
is only pruned if its atom is syntactically decided by an earlier atom.

Terms (tuples; first item is the tag)
    ('P', name)                parameter (``('P','self')`` for self/cls)
    ('C', typename, repr)      constant
    ('G', dotted)              global/module-level/builtin object
    ('A', base, attr)          attribute
    ('call', f, args, kws)     args may hold ('*', t); kws ('**', t) pairs
    ('seq', kind, items)       tuple/list/set display; items may hold ('*', t)
    ('dict', items)            ((k, v), ...) with ('**', t) entries
    ('elem', it)               generic element of an iterable
    ('idx', it)                position of that element
    ('map', body, it, conds)   one ``body`` per element of ``it`` (in order)
    ('fold', op, init, body, it, conds)
    ('rev', it)                reversed iteration
    ('sorted', it, key)        sorted copy
    ('bin', op, l, r) ('un', op, x) ('cmp', op, l, r) ('and'|'or', terms)
    ('not', x) ('sub', base, index) ('slice', base, lo, hi, step)
    ('isinst', x, classes) ('any'|'all', body, it, conds)
    ('str', parts)             f-string / % / .format
    ('lam', id)                closure (kept in Flow.closures)
    ('phi', frozenset)         one of several
    ('unk', why)               not modelled
"""
import ast
import itertools

from .src import ClassInfo, Repo, params_of, kind_of, decorator_names

NONE = ('C', 'NoneType', 'None')
TRUE = ('C', 'bool', 'True')
FALSE = ('C', 'bool', 'False')
SELF = ('P', 'self')


def const(v):
    return ('C', type(v).__name__, repr(v))


def is_const(t):
    return t[0] == 'C'


def const_val(t):
    return ast.literal_eval(t[2]) if t[1] not in ('ellipsis',) else ...


class Budget(Exception):
    pass


class Path:
    __slots__ = ('conds', 'effects', 'out', 'env', 'heap', 'node')

    def __init__(self, st, out, node=None):
        self.conds = tuple(st.conds)
        self.effects = tuple(st.effects)
        self.env = st.env
        self.heap = st.heap
        self.out = out
        self.node = node

    @property
    def value(self):
        return self.out[1] if self.out[0] == 'return' else None

    def __repr__(self):
        return "Path(%s | %s)" % (
            ' & '.join(('' if p else '!') + show(c) for c, p in self.conds),
            show_out(self.out))


class State:
    __slots__ = ('env', 'heap', 'conds', 'effects', 'cells')

    def __init__(self, env=None, heap=None, conds=(), effects=()):
        self.env = env if env is not None else {}
        self.heap = heap if heap is not None else {}
        self.conds = conds
        self.effects = effects

    def copy(self):
        return State(dict(self.env), dict(self.heap), self.conds,
                     self.effects)


# -- pretty printing -------------------------------------------------------

def show(t, depth=0):
    if depth > 12:
        return '…'
    d = depth + 1
    if not isinstance(t, tuple) or not t:
        return repr(t)
    g = t[0]
    if g == 'P':
        return t[1]
    if g == 'C':
        return t[2]
    if g == 'G':
        return t[1].rpartition('.')[2]
    if g == 'A':
        return show(t[1], d) + '.' + t[2]
    if g == 'call':
        a = [show(x, d) for x in t[2]]
        a += [('**' + show(v, d)) if k == '**' else '%s=%s' % (k, show(v, d))
              for k, v in t[3]]
        return '%s(%s)' % (show(t[1], d), ', '.join(a))
    if g == '*':
        return '*' + show(t[1], d)
    if g == 'seq':
        return '[' + ', '.join(show(x, d) for x in t[2]) + ']'
    if g == 'dict':
        return '{' + ', '.join(
            ('**' + show(v, d)) if k == '**' else
            show(k, d) + ': ' + show(v, d) for k, v in t[1]) + '}'
    if g == 'elem':
        return '⟨∈ %s⟩' % show(t[1], d)
    if g == 'idx':
        return '⟨# %s⟩' % show(t[1], d)
    if g == 'map':
        c = ''.join(' if ' + ('' if p else 'not ') + show(x, d)
                    for x, p in t[3])
        return '(%s for %s%s)' % (show(t[1], d), show(t[2], d), c)
    if g in ('any', 'all'):
        return '%s(%s for %s)' % (g, show(t[1], d), show(t[2], d))
    if g == 'fold':
        return 'fold[%s](%s, %s for %s)' % (
            t[1], show(t[2], d), show(t[3], d), show(t[4], d))
    if g == 'rev':
        return 'reversed(%s)' % show(t[1], d)
    if g == 'sorted':
        return 'sorted(%s)' % show(t[1], d)
    if g == 'bin':
        return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
    if g == 'un':
        return '(%s%s)' % (t[1], show(t[2], d))
    if g == 'cmp':
        return '(%s %s %s)' % (show(t[2], d), t[1], show(t[3], d))
    if g in ('and', 'or'):
        return '(' + (' %s ' % g).join(show(x, d) for x in t[1]) + ')'
    if g == 'not':
        return 'not ' + show(t[1], d)
    if g == 'sub':
        return '%s[%s]' % (show(t[1], d), show(t[2], d))
    if g == 'slice':
        return '%s[%s:%s:%s]' % tuple(show(x, d) for x in t[1:])
    if g == 'isinst':
        return 'isinstance(%s, %s)' % (
            show(t[1], d), '|'.join(show(x, d) for x in t[2]))
    if g == 'phi':
        return 'phi{%s}' % ' ; '.join(sorted(show(x, d) for x in t[1]))
    if g == 'unk':
        return '?%s' % (t[1],)
    return repr(t)


def show_out(o):
    return o[0] + (' ' + show(o[1]) if len(o) > 1 else '')


# -- term utilities --------------------------------------------------------

def walk(t):
    """All sub-terms (pre-order)"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, frozenset)):
            if isinstance(x, tuple) and x and isinstance(x[0], str) \
                    and x[0] in TAGS:
                yield x
                stack.extend(y for y in x[1:]
                             if isinstance(y, (tuple, frozenset)))
            else:
                stack.extend(y for y in x if isinstance(y, (tuple, frozenset)))


TAGS = {'P', 'C', 'G', 'A', 'call', 'seq', 'dict', 'elem', 'idx', 'map',
        'fold', 'rev', 'sorted', 'bin', 'un', 'cmp', 'and', 'or', 'not', 'sub',
        'slice', 'isinst', 'any', 'all', 'str', 'lam', 'phi', 'unk', '*',
        'new', 'yield', 'exc', 'nonempty'}


def contains(t, sub):
    return any(x == sub for x in walk(t))


def replace(t, fn):
    """rewrite every sub-term for which fn gives a replacement"""
    if isinstance(t, frozenset):
        return frozenset(replace(x, fn) for x in t)
    if isinstance(t, tuple):
        if t and isinstance(t[0], str):
            r = fn(t)
            if r is not None:
                return r
        return tuple(replace(x, fn) for x in t)
    return t


def subst(t, mapping):
    if isinstance(t, tuple):
        if t in mapping:
            return mapping[t]
        return tuple(subst(x, mapping) if isinstance(x, (tuple, frozenset))
                     else x for x in t)
    if isinstance(t, frozenset):
        return frozenset(subst(x, mapping) for x in t)
    return t


def strip_iter(it):
    """Iterable without order / container wrappers (elements are the same)"""
    while True:
        if it[0] in ('rev', 'sorted'):
            it = it[1]
        elif it[0] == 'seq' and len(it[2]) == 1 and it[2][0][0] == '*':
            it = it[2][0][1]
        else:
            return it


def elem(it):
    """Generic element of iterable term"""
    s = strip_iter(it)
    if s[0] == 'map':
        return s[1]
    if s[0] == 'seq' and s[2] and all(x[0] != '*' for x in s[2]):
        if len(set(s[2])) == 1:
            return s[2][0]
    if s[0] == 'call' and s[1][0] == 'A' and s[1][2] == 'values' \
            and not s[2]:
        d = s[1][1]
        return ('sub', d, ('elem', d))
    if s[0] == 'call' and s[1][0] == 'A' and s[1][2] == 'keys' and not s[2]:
        return ('elem', s[1][1])
    if s[0] == 'call' and s[1][0] == 'A' and s[1][2] == 'items' and not s[2]:
        d = s[1][1]
        return ('seq', 'tuple', (('elem', d), ('sub', d, ('elem', d))))
    if s[0] == 'call' and s[1] == ('G', 'builtins.enumerate') and s[2]:
        return ('seq', 'tuple', (('idx', strip_iter(s[2][0])),
                                 elem(s[2][0])))
    if s[0] == 'call' and s[1] == ('G', 'builtins.zip') and s[2] and all(
            x[0] != '*' for x in s[2]):
        return ('seq', 'tuple', tuple(elem(x) for x in s[2]))
    return ('elem', s)


def iter_source(it):
    """Normalised iteration source (for 'map')"""
    if it[0] == 'seq' and len(it[2]) == 1 and it[2][0][0] == '*':
        return iter_source(it[2][0][1])
    if it[0] == 'rev':
        return mk_rev(iter_source(it[1]))
    if it[0] == 'call' and it[1] == ('G', 'builtins.enumerate') and it[2] \
            and it[2][0][0] != '*':
        return iter_source(it[2][0])
    if it[0] == 'call' and it[1][0] == 'A' and not it[2] and not it[3] \
            and it[1][2] in ('items', 'values', 'keys'):
        return it[1][1]
    return it


def mk_rev(t):
    if t[0] == 'rev':
        return t[1]
    if t[0] == 'map':
        return ('map', t[1], mk_rev(t[2]), t[3])
    if t[0] == 'seq':
        items = tuple(('*', mk_rev(x[1])) if x[0] == '*' else x
                      for x in reversed(t[2]))
        return ('seq', t[1], items)
    return ('rev', t)


def mk_map(body, it, conds=()):
    """Sequence of `body` over `it`; compose with inner maps"""
    it = iter_source(it)
    if it[0] == 'seq' and not it[2]:
        return ('seq', 'list', ())
    if it[0] == 'map' :
        # elements already substituted by elem(); keep the innermost source
        return ('map', body, it[2], tuple(it[3]) + tuple(conds))
    if not conds and body == elem(it):
        return it
    return ('map', body, it, tuple(conds))


def seq_items(t):
    """Items of a sequence-valued term as display items"""
    if t[0] == 'seq':
        out = []
        for x in t[2]:
            if x[0] == '*':
                out.extend(seq_items(x[1]))
            else:
                out.append(x)
        return tuple(out)
    if t[0] == 'bin' and t[1] == '+':
        return seq_items(t[2]) + seq_items(t[3])
    return (('*', t),)


def mk_seq(kind, items):
    out = []
    for x in items:
        if x[0] == '*':
            out.extend(seq_items(x[1]))
        else:
            out.append(x)
    return ('seq', kind, tuple(out))


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
          ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
          ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^',
          ast.LShift: '<<', ast.RShift: '>>', ast.MatMult: '@'}
UNOPS = {ast.USub: '-', ast.UAdd: '+', ast.Invert: '~'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Is: 'is', ast.IsNot: 'is not',
          ast.In: 'in', ast.NotIn: 'not in', ast.Lt: '<', ast.LtE: '<=',
          ast.Gt: '>', ast.GtE: '>='}

import builtins as _b
BUILTINS = set(dir(_b))

MUTATORS = {'append', 'extend', 'insert', 'pop', 'popleft', 'appendleft',
            'remove', 'reverse', 'sort', 'clear', 'update', 'add', 'discard',
            'setdefault', 'popitem', 'extendleft', 'difference_update',
            'intersection_update', 'symmetric_difference_update'}


_NEVER_NONE = tuple('builtins.' + n for n in (
    'int', 'len', 'tuple', 'list', 'str', 'float', 'dict', 'set', 'sorted',
    'frozenset', 'range', 'repr', 'bool', 'abs', 'type'))


def partial(t):
    """spaces and sets are not totally ordered"""
    return t == SELF or t[0] == 'A' and t[2].endswith('space') or \
        t[0] == 'call' and t[1] in (('G', 'builtins.set'),
                                    ('G', 'builtins.frozenset')) or \
        t[0] == 'G' and t[1].endswith('Space') or \
        t[0] == 'bin' and t[1] in '&|*/' and (
            partial(t[2]) or partial(t[3])) or \
        t[0] == 'call' and t[1][0] == 'A' and t[1][2] == 'create' and \
        t[1][1][0] == 'G' and t[1][1][1].endswith('Space')


def norm_cmp(op, l, r):
    """-> (atom, polarity)"""
    pol = True
    if op == '!=':
        op, pol = '==', False
    elif op == 'is not':
        op, pol = 'is', False
    elif op == 'not in':
        op, pol = 'in', False
    elif op == '>':
        op, l, r = '<', r, l
    elif op in ('>=', '<=') and (partial(l) or partial(r)):
        if op == '>=':
            op, l, r = '<=', r, l
    elif op == '>=':
        op, l, r, pol = '<', l, r, False
    elif op == '<=':
        op, l, r, pol = '<', r, l, False
    if op in ('==', 'is') and is_const(l) and not is_const(r):
        l, r = r, l
    elif op in ('==', 'is') and not is_const(r) and repr(r) < repr(l):
        l, r = r, l
    # integer normalisation of len():  1 < len(x)  <->  not len(x) < 2
    if op == '<' and is_const(l) and l[1] == 'int' and not is_const(r):
        if r[0] == 'call' and r[1] == ('G', 'builtins.len'):
            return ('cmp', '<', r, const(const_val(l) + 1)), not pol
    if op == '==' and r == const(0) and l[0] == 'call' \
            and l[1] == ('G', 'builtins.len'):
        return ('cmp', '<', l, const(1)), pol
    return ('cmp', op, l, r), pol


class Closure:
    def __init__(self, node, env, ctx):
        self.node = node
        self.env = env
        self.ctx = ctx


class Ctx:
    """Static context of the code being evaluated"""
    __slots__ = ('mod', 'cls', 'owner', 'fn', 'depth', 'local_imports',
                 'stack', 'cls_self')

    def __init__(self, mod, cls, owner, fn, depth, stack, cls_self=False):
        self.mod = mod
        self.cls = cls          # dynamic class of self (ClassInfo) or None
        self.owner = owner      # class in which fn is defined
        self.fn = fn
        self.depth = depth
        self.stack = stack
        self.local_imports = {}
        self.cls_self = cls_self


class Flow:
    def __init__(self, repo, inline=None, max_paths=400, max_depth=12,
                 implicit_exc='try', known=None, resolve_slots=True,
                 loop_unroll=False, exact_self=None):
        self.repo = repo
        self.exact_self = exact_self      # SELF is an instance of this class
        self._inline = inline
        self.max_paths = max_paths
        self.max_depth = max_depth
        self.implicit_exc = implicit_exc
        self.closures = []
        self.known = known
        self.resolve_slots = resolve_slots
        self._fresh = itertools.count()
        self.unroll = 8
        self._sum_cache = {}
        self.unknowns = 0
        self.inlined = set()
        self.steps = 0
        self.mark_kind = {}
        self.max_steps = 60000
        self.merging = True           # join equal states (drops conditions)
        self._last = None
        self.attr_hook = None         # (attribute term) -> term or None
        self.call_hook = None         # (term of a call) -> term or None

    # -- policy ------------------------------------------------------------

    def want_inline(self, qual, ctx):
        """qual: 'module.func' or 'Class.method' (owner class simple name)"""
        if ctx.depth >= self.max_depth or qual in ctx.stack:
            return False
        if self.known is not None and qual not in self.known:
            # a helper introduced after the baseline; an override of a known
            # method is treated like that method
            if self._last is None:
                self._last = {q.rpartition('.')[2] for q in self.known}
            if self._inline is None or \
                    qual.rpartition('.')[2] not in self._last:
                return True
        if self._inline is None:
            return False
        return bool(self._inline(qual))

    # -- entry points ------------------------------------------------------

    def summarise(self, mod, fn, cls=None, owner=None, args=None, heap=None,
                  conds=()):
        """Paths of `fn`; `args` maps parameter names to terms"""
        self.steps = 0
        ctx = Ctx(mod, cls, owner, fn, 0,
                  ((self.qual(mod, owner, fn)),))
        st = State(heap=dict(heap or {}), conds=tuple(conds))
        self._bind_params(fn, st, args or {}, ctx)
        return self._run_body(fn, st, ctx)

    def summarise_method(self, cls, name, args=None, after=None, heap=None,
                         conds=()):
        found = self.repo.lookup(cls, name, after=after)
        if found is None or found[1] != 'method':
            return None
        owner, _, fn = found
        return self.summarise(owner.module, fn, cls, owner, args, heap,
                              conds)

    @staticmethod
    def qual(mod, owner, fn):
        name = getattr(fn, 'name', '<lambda>')
        if owner is not None:
            return owner.name + '.' + name
        return mod.name + '.' + name

    def _bind_params(self, fn, st, args, ctx):
        pos, var, kwonly, kw, defaults = params_of(fn)
        names = pos + ([var] if var else []) + kwonly + ([kw] if kw else [])
        k = kind_of(fn) if isinstance(fn, ast.FunctionDef) else 'static'
        first_self = (ctx.owner is not None and k in (
            'method', 'property', 'class') and pos)
        for i, n in enumerate(names):
            if n in args:
                st.env[n] = args[n]
            elif i == 0 and first_self:
                st.env[n] = SELF
                if k == 'class':
                    ctx.cls_self = True
            else:
                st.env[n] = ('P', n)

    def _run_body(self, fn, st, ctx):
        paths = []
        if isinstance(fn, ast.Lambda):
            for s, v in self.ev(fn.body, st, ctx):
                paths.append(Path(s, ('return', v), fn))
            return paths
        for s, out in self.block(fn.body, [st], ctx):
            if out is None:
                out = ('fall',)
            elif out[0] in ('break', 'continue'):
                out = ('fall',)
            paths.append(Path(s, out, fn))
        return paths

    # -- statements --------------------------------------------------------

    def _check(self, n):
        if n > self.max_paths:
            raise Budget()

    def block(self, stmts, states, ctx):
        """-> list of (state, outcome|None)"""
        live = [(s, None) for s in states]
        done = []
        for stmt in stmts:
            nxt = []
            for s, _ in live:
                nxt.extend(self.stmt(stmt, s, ctx))
            live = []
            for s, o in nxt:
                if o is None:
                    live.append((s, o))
                else:
                    done.append((s, o))
            live = self._merge(live)
            self._check(len(live) + len(done))
            if not live:
                break
        return done + live

    def _merge(self, live):
        if len(live) < 2 or not self.merging:
            return live
        groups = {}
        order = []
        for s, o in live:
            key = (tuple(sorted(s.env.items(), key=lambda kv: kv[0])),
                   tuple(sorted(s.heap.items(), key=repr)), s.effects)
            try:
                hash(key)
            except TypeError:
                return live
            if key in groups:
                prev = groups[key]
                c = []
                pset = set(prev.conds)
                sset = set(s.conds)
                # keep common conds only
                c = tuple(x for x in prev.conds if x in sset)
                prev.conds = c
            else:
                groups[key] = s
                order.append(key)
        return [(groups[k], None) for k in order]

    def stmt(self, node, st, ctx):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, 's_' + node.__class__.__name__, None)
        if m is None:
            return [(st, None)]
        return m(node, st, ctx)

    def s_Pass(self, node, st, ctx):
        return [(st, None)]

    def s_Global(self, node, st, ctx):
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Import(self, node, st, ctx):
        s = st.copy()
        for al in node.names:
            if al.asname:
                s.env[al.asname] = ('G', al.name)
            else:
                top = al.name.split('.')[0]
                s.env[top] = ('G', top)
        return [(s, None)]

    def s_ImportFrom(self, node, st, ctx):
        s = st.copy()
        base = self.repo.abs_import(ctx.mod, node)
        for al in node.names:
            s.env[al.asname or al.name] = (
                'G', self.repo.resolve(base + '.' + al.name))
        return [(s, None)]

    def s_FunctionDef(self, node, st, ctx):
        s = st.copy()
        t = self._closure(node, s.env, ctx)
        s.env[node.name] = t
        # allow recursion / self reference
        self.closures[t[1]].env[node.name] = t
        return [(s, None)]

    def s_ClassDef(self, node, st, ctx):
        s = st.copy()
        s.env[node.name] = ('unk', 'localclass:' + node.name)
        return [(s, None)]

    def s_Return(self, node, st, ctx):
        if node.value is None:
            return [(st, ('return', NONE))]
        return [(s, ('raise', v[1]) if v[0] == 'RAISE' else ('return', v))
                for s, v in self.ev(node.value, st, ctx)]

    def s_Expr(self, node, st, ctx):
        v = node.value
        if isinstance(v, ast.Constant):
            return [(st, None)]
        if isinstance(v, (ast.Yield, ast.YieldFrom)):
            return self._yield(v, st, ctx)
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) \
                and v.func.attr in MUTATORS:
            r = self._mutcall(v, st, ctx)
            if r is not None:
                return r
        res = []
        for s, t in self.ev(v, st, ctx):
            if t[0] == 'RAISE':
                res.append((s, ('raise', t[1])))
                continue
            if t[0] in ('call', 'unk'):
                s = s.copy()
                s.effects = s.effects + (('do', t),)
            res.append((s, None))
        return res

    def _yield(self, v, st, ctx):
        res = []
        if v.value is None:
            vals = [(st, NONE)]
        else:
            vals = self.ev(v.value, st, ctx)
        for s, t in vals:
            s = s.copy()
            s.effects = s.effects + (('yield', t),)
            res.append((s, None))
            if self.implicit_exc == 'all':
                s2 = s.copy()
                res.append((s2, ('raise', ('exc', 'yield'))))
        return res

    def _mutcall(self, call, st, ctx):
        """Mutating method call statement on a local container or attribute"""
        target = call.func.value
        meth = call.func.attr
        if call.keywords and meth != 'update' and meth != 'sort':
            return None
        res = []
        for s, base in self.ev(target, st, ctx):
            if base[0] == 'RAISE':
                res.append((s, ('raise', base[1])))
                continue
            for s2, args, kws in self.ev_args(call, s, ctx):
                s3 = s2.copy()
                new = self._mutated(base, meth, args, kws)
                lv = self._lvalue(target, s3, ctx)
                local = base[0] in ('seq', 'dict', 'map', 'sorted', 'rev') \
                    or (base[0] == 'call' and base[1][0] == 'G' and
                        base[1][1].rpartition('.')[2] in (
                            'list', 'dict', 'set', 'deque', 'OrderedDict',
                            'defaultdict')) or base[0] == 'phi' or (
                            base[0] == 'bin') or base[0] == 'fold'
                if not local:
                    s3.effects = s3.effects + (
                        ('mut', base, meth, tuple(args)),)
                if lv is not None and lv[0] == 'name':
                    s3.env[lv[1]] = new
                    # aliases of the same mutable local share the object
                elif lv is not None and lv[0] == 'heap':
                    s3.heap[lv[1]] = new
                    if local:
                        s3.effects = s3.effects + (
                            ('mut', ('A',) + lv[1], meth, tuple(args)),)
                res.append((s3, None))
        return res

    def _lvalue(self, node, st, ctx):
        if isinstance(node, ast.Name):
            return ('name', node.id)
        if isinstance(node, ast.Attribute):
            r = self.ev(node.value, st, ctx)
            if len(r) == 1:
                return ('heap', (r[0][1], node.attr))
        return None

    def _mutated(self, base, meth, args, kws):
        if base[0] in ('seq', 'map', 'sorted', 'rev', 'bin') or base[0] in (
                'call', 'P', 'A', 'phi', 'elem', 'sub', 'slice', 'unk',
                'fold'):
            kind = base[1] if base[0] == 'seq' else self.mark_kind.get(
                base, 'list')
            items = seq_items(base)
            if meth == 'append' and len(args) == 1:
                return mk_seq(kind, items + (args[0],))
            if meth == 'add' and len(args) == 1:
                return mk_seq('set', items + (args[0],))
            if meth == 'extend' and len(args) == 1:
                return mk_seq(kind, items + seq_items(args[0]))
            if meth == 'update' and len(args) >= 1 and kind == 'set':
                its = items
                for a in args:
                    its = its + seq_items(a)
                return mk_seq('set', its)
            if meth in ('insert', 'appendleft'):
                if meth == 'appendleft' and len(args) == 1:
                    return mk_seq(kind, (args[0],) + items)
                if len(args) == 2 and args[0] == const(0):
                    return mk_seq(kind, (args[1],) + items)
            if meth == 'reverse':
                return mk_rev(base)
            if meth == 'sort':
                key = dict(kws).get('key', NONE)
                return ('sorted', base, key)
            if meth == 'clear':
                return ('seq', kind, ())
        if (base[0] == 'dict' or self.mark_kind.get(base) == 'dict') and \
                meth == 'update' and len(args) <= 1:
            its = base[1] if base[0] == 'dict' else (('**', base),)
            if args:
                if args[0][0] == 'dict':
                    its = its + args[0][1]
                else:
                    its = its + (('**', args[0]),)
            its = its + tuple(
                (k if k == '**' else const(k), v) for k, v in kws)
            return ('dict', _dedupe_dict(its))
        return ('call', ('A', base, '.' + meth), tuple(args), tuple(kws))

    def s_Assign(self, node, st, ctx):
        res = []
        if isinstance(node.value, (ast.Yield, ast.YieldFrom)):
            out = []
            for s, o in self._yield(node.value, st, ctx):
                if o is None:
                    for t in node.targets:
                        self._assign(t, ('unk', 'sent'), s, ctx)
                out.append((s, o))
            return out
        for s, v in self.ev(node.value, st, ctx):
            if v[0] == 'RAISE':
                res.append((s, ('raise', v[1])))
                continue
            s = s.copy()
            for t in node.targets:
                self._assign(t, v, s, ctx)
            res.append((s, None))
        return res

    def s_AnnAssign(self, node, st, ctx):
        if node.value is None:
            return [(st, None)]
        res = []
        for s, v in self.ev(node.value, st, ctx):
            if v[0] == 'RAISE':
                res.append((s, ('raise', v[1])))
                continue
            s = s.copy()
            self._assign(node.target, v, s, ctx)
            res.append((s, None))
        return res

    def _assign(self, target, v, s, ctx):
        if isinstance(target, ast.Name):
            s.env[target.id] = v
            fn = ctx.fn
            if self._is_global(target.id, fn):
                s.effects = s.effects + (
                    ('store', ('G', ctx.mod.name), target.id, v),)
        elif isinstance(target, (ast.Tuple, ast.List)):
            items = seq_items(v) if v[0] == 'seq' else None
            n = len(target.elts)
            star = [i for i, e in enumerate(target.elts)
                    if isinstance(e, ast.Starred)]
            if items is not None and not star and len(items) == n and all(
                    x[0] != '*' for x in items):
                for t, x in zip(target.elts, items):
                    self._assign(t, x, s, ctx)
            elif star:
                i0 = star[0]
                for i, t in enumerate(target.elts):
                    if i < i0:
                        self._assign(t, self._sub(v, const(i)), s, ctx)
                    elif i == i0:
                        hi = NONE if i0 == n - 1 else const(i0 - n + 1)
                        self._assign(
                            t.value, self._slice(v, const(i0), hi, NONE),
                            s, ctx)
                    else:
                        self._assign(t, self._sub(v, const(i - n)), s, ctx)
            else:
                for i, t in enumerate(target.elts):
                    self._assign(t, self._sub(v, const(i)), s, ctx)
        elif isinstance(target, ast.Attribute):
            r = self.ev(target.value, s, ctx)
            base = r[0][1]
            s.heap[(base, target.attr)] = v
            s.effects = s.effects + (('store', base, target.attr, v),)
        elif isinstance(target, ast.Subscript):
            r = self.ev(target.value, s, ctx)
            base = r[0][1]
            k = self.ev(target.slice, s, ctx)[0][1]
            lv = self._lvalue(target.value, s, ctx)
            if base[0] == 'A' and base[2] == '__dict__' and is_const(k) and \
                    k[1] == 'str':
                s.heap[(base[1], const_val(k))] = v
                s.effects = s.effects + (
                    ('store', base[1], const_val(k), v),)
                return
            if base[0] == 'dict':
                new = ('dict', _dedupe_dict(base[1] + ((k, v),)))
            elif self.mark_kind.get(base) == 'dict':
                new = ('dict', (('**', base), (k, v)))
            elif base[0] == 'call' and base[1][0] == 'G' and not base[2] \
                    and base[1][1].rpartition('.')[2] in (
                        'dict', 'OrderedDict'):
                new = ('dict', ((k, v),))
            else:
                new = ('call', ('A', base, '.setitem'), (k, v), ())
                if base[0] not in ('seq', 'map'):
                    s.effects = s.effects + (('setitem', base, k, v),)
            if lv is not None and lv[0] == 'name':
                s.env[lv[1]] = new
            elif lv is not None and lv[0] == 'heap':
                s.heap[lv[1]] = new
        elif isinstance(target, ast.Starred):
            self._assign(target.value, v, s, ctx)

    @staticmethod
    def _is_global(name, fn):
        for n in ast.walk(fn):
            if isinstance(n, ast.Global) and name in n.names:
                return True
        return False

    def s_AugAssign(self, node, st, ctx):
        op = BINOPS[type(node.op)]
        res = []
        load = _as_load(node.target)
        for s, l in self.ev(load, st, ctx):
            if l[0] == 'RAISE':
                res.append((s, ('raise', l[1])))
                continue
            for s2, r in self.ev(node.value, s, ctx):
                if r[0] == 'RAISE':
                    res.append((s2, ('raise', r[1])))
                    continue
                s3 = s2.copy()
                if isinstance(node.target, ast.Name) and l[0] in (
                        'P', 'A', 'elem', 'sub') and op in ('+', '|', '&',
                                                            '-', '*'):
                    s3.effects = s3.effects + (('aug', l, op, r),)
                self._assign(node.target, self.mk_bin(op, l, r), s3, ctx)
                res.append((s3, None))
        return res

    def s_Delete(self, node, st, ctx):
        s = st.copy()
        for t in node.targets:
            if isinstance(t, ast.Name):
                s.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, s, ctx)[0][1]
                k = self.ev(t.slice, s, ctx)[0][1]
                lv = self._lvalue(t.value, s, ctx)
                if b[0] == 'dict' and lv is not None and k in [
                        x for x, _ in b[1]]:
                    new = ('dict', tuple(x for x in b[1] if x[0] != k))
                    if lv[0] == 'name':
                        s.env[lv[1]] = new
                    else:
                        s.heap[lv[1]] = new
                else:
                    s.effects = s.effects + (('delitem', b, k),)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, s, ctx)[0][1]
                s.effects = s.effects + (('delattr', b, t.attr),)
        return [(s, None)]

    def s_Raise(self, node, st, ctx):
        if node.exc is None:
            return [(st, ('raise', ('exc', 'reraise')))]
        return [(s, ('raise', v[1] if v[0] == 'RAISE' else v))
                for s, v in self.ev(node.exc, st, ctx)]

    def s_Assert(self, node, st, ctx):
        res = []
        for s, b in self.cond(node.test, st, ctx):
            if b == 'RAISE':
                res.append((s, ('raise', ('exc', 'inlined'))))
            elif b:
                res.append((s, None))
            else:
                res.append((s, ('raise', ('G', 'builtins.AssertionError'))))
        return res

    def s_If(self, node, st, ctx):
        res = []
        for s, b in self.cond(node.test, st, ctx):
            if b == 'RAISE':
                res.append((s, ('raise', ('exc', 'inlined'))))
                continue
            res.extend(self.block(node.body if b else node.orelse, [s], ctx))
        return self._merge_mixed(res)

    def _merge_mixed(self, res):
        live = [(s, o) for s, o in res if o is None]
        done = [(s, o) for s, o in res if o is not None]
        return done + self._merge(live)

    def s_While(self, node, st, ctx):
        # one generic iteration; variables assigned in the body are joined
        res = []
        modified = _assigned_names(node)
        pre = st.copy()
        for n in modified:
            if n in pre.env:
                pre.env[n] = ('phi', frozenset(
                    [pre.env[n], ('unk', 'loop:' + n)]))
        exits = []
        for s, b in self.cond(node.test, pre, ctx):
            if b == 'RAISE':
                res.append((s, ('raise', ('exc', 'inlined'))))
                continue
            if not b:
                exits.append(s)
                continue
            for s2, o in self.block(node.body, [s], ctx):
                if o is None or o[0] == 'continue':
                    for n in modified:
                        if n in s2.env and s2.env.get(n) != st.env.get(n):
                            s2.env[n] = ('phi', frozenset(
                                [s2.env[n]] + ([st.env[n]] if n in st.env
                                               else [])))
                    exits.append(s2)
                elif o[0] == 'break':
                    exits.append(s2)
                else:
                    res.append((s2, o))
        for s in exits:
            res.append((s, None))
        if node.orelse:
            res2 = []
            for s, o in res:
                if o is None:
                    res2.extend(self.block(node.orelse, [s], ctx))
                else:
                    res2.append((s, o))
            res = res2
        return self._merge_mixed(res)

    def s_For(self, node, st, ctx):
        res = []
        for s, it in self.ev(node.iter, st, ctx):
            if it[0] == 'RAISE':
                res.append((s, ('raise', it[1])))
                continue
            res.extend(self._for(node, s, it, ctx))
        return self._merge_mixed(res)

    s_AsyncFor = s_For

    def _concrete(self, it):
        """items of an iterable whose elements are all known, else None"""
        if it[0] == 'seq':
            items = seq_items(it)
            return items if all(x[0] != '*' for x in items) else None
        if it[0] == 'dict' and all(k != '**' for k, _ in it[1]):
            return tuple(k for k, _ in it[1])
        if it[0] == 'call' and it[1][0] == 'A' and not it[2] and not it[3] \
                and it[1][1][0] == 'dict' and all(
                    k != '**' for k, _ in it[1][1][1]):
            if it[1][2] == 'items':
                return tuple(('seq', 'tuple', kv) for kv in it[1][1][1])
            if it[1][2] == 'keys':
                return tuple(k for k, _ in it[1][1][1])
            if it[1][2] == 'values':
                return tuple(v for _, v in it[1][1][1])
        if it[0] == 'call' and it[1][0] == 'G' and not it[3]:
            n = it[1][1]
            if n == 'builtins.enumerate' and len(it[2]) == 1:
                items = self._concrete(it[2][0])
                if items is not None:
                    return tuple(('seq', 'tuple', (const(i), x))
                                 for i, x in enumerate(items))
            if n == 'builtins.zip' and it[2]:
                cols = [self._concrete(a) for a in it[2]]
                if all(c is not None for c in cols):
                    return tuple(('seq', 'tuple', tuple(r))
                                 for r in zip(*cols))
            if n == 'builtins.range' and 1 <= len(it[2]) <= 3 and all(
                    is_const(a) and isinstance(const_val(a), int)
                    for a in it[2]):
                try:
                    r = range(*[const_val(a) for a in it[2]])
                except ValueError:
                    return None
                return tuple(const(i) for i in r) if len(r) <= self.unroll else None
            if n in ('builtins.reversed', 'builtins.list', 'builtins.tuple',
                     'builtins.iter') and len(it[2]) == 1:
                items = self._concrete(it[2][0])
                if items is not None:
                    return items[::-1] if n.endswith('reversed') else items
            if n == 'itertools.product' and it[2]:
                cols = [self._concrete(a) for a in it[2]]
                if all(c is not None for c in cols):
                    return tuple(('seq', 'tuple', tuple(r))
                                 for r in itertools.product(*cols))
        if it[0] == 'rev':
            items = self._concrete(it[1])
            return None if items is None else items[::-1]
        return None

    def _for(self, node, st, it, ctx):
        src = strip_iter(it)
        items = self._concrete(it)
        if items is not None and len(items) <= self.unroll and all(
                x[0] != '*' for x in items):
            # literal display: unroll
            live = [st]
            res = []
            for x in items:
                nxt = []
                for s in live:
                    s = s.copy()
                    self._assign(node.target, x, s, ctx)
                    for s2, o in self.block(node.body, [s], ctx):
                        if o is None or o[0] == 'continue':
                            nxt.append(s2)
                        elif o[0] == 'break':
                            res.append((s2, None))
                        else:
                            res.append((s2, o))
                live = nxt
            for s in live:
                res.extend(self.block(node.orelse, [s], ctx)
                           if node.orelse else [(s, None)])
            return res
        e = elem(it)
        # nested iteration over the same source: keep generic elements apart
        if any(c == (('nonempty', src), True) for c in st.conds):
            e = subst(e, {('elem', src): ('elem', ('*', src))})
        modified = _assigned_names(node)
        s0 = st.copy()
        s0.conds = st.conds
        marks = {}
        for n in sorted(modified):
            if n in s0.env:
                mk = ('unk', 'acc:%s:%d' % (n, node.lineno))
                marks[n] = (mk, s0.env[n])
                self.mark_kind[mk] = _kind_of_term(s0.env[n])
        heap_marks = {}
        for hk in _mutated_attrs(node):
            for k in list(s0.heap):
                if k[1] == hk:
                    mk = ('unk', 'hacc:%s:%d' % (hk, node.lineno))
                    heap_marks[k] = (mk, s0.heap[k])
                    self.mark_kind[mk] = _kind_of_term(s0.heap[k])
        s_in = s0.copy()
        for n, (mk, _) in marks.items():
            s_in.env[n] = mk
        for k, (mk, _) in heap_marks.items():
            s_in.heap[k] = mk
        ncond = len(s_in.conds)
        s_in.conds = s_in.conds + ((('nonempty', src), True),)
        self._assign(node.target, e, s_in, ctx)
        outs = self.block(node.body, [s_in], ctx)
        res = []
        cont = []
        for s, o in outs:
            if o is None or o[0] == 'continue':
                cont.append(s)
            elif o[0] == 'break':
                s = s.copy()
                self._unmark(s, marks, heap_marks, it)
                s.env.update({})
                res.append((s, None))
            else:
                s = s.copy()
                o2 = o
                if len(o) > 1 and isinstance(o[1], tuple):
                    mp = {mk: init for mk, init in
                          list(marks.values()) + list(heap_marks.values())}
                    o2 = (o[0], subst(o[1], mp)) + tuple(o[2:])
                res.append((s, o2))
        after = s0.copy()
        # conditions that hold for every element on normal completion
        if len(cont) == 1:
            extra = tuple(c for c in cont[0].conds[ncond + 1:])
            mp = {mk: init for mk, init in
                  list(marks.values()) + list(heap_marks.values())}
            after.conds = after.conds + tuple(
                (subst(c, mp), p) for c, p in extra)
        effs = []
        for s in cont:
            for ef in s.effects[len(st.effects):]:
                if ef not in effs:
                    effs.append(ef)
        after.effects = st.effects + tuple(effs)
        for n in sorted(modified):
            if n in marks:
                mk, init = marks[n]
                after.env[n] = self._join_acc(
                    mk, init, [(s.env.get(n, mk), s.conds[ncond + 1:])
                               for s in cont], it)
            else:
                vals = set(s.env[n] for s in cont if n in s.env)
                if len(vals) == 1:
                    after.env[n] = vals.pop()
                elif vals:
                    after.env[n] = ('phi', frozenset(vals))
        for k, (mk, init) in heap_marks.items():
            after.heap[k] = self._join_acc(
                mk, init, [(s.heap.get(k, mk), s.conds[ncond + 1:])
                           for s in cont], it)
        for s in cont:
            for k, v in s.heap.items():
                if k not in heap_marks and k not in s0.heap:
                    after.heap.setdefault(k, v)
                elif k not in heap_marks and v != s0.heap.get(k):
                    after.heap[k] = ('phi', frozenset([v, s0.heap[k]]))
        if not cont and not any(o[0] == 'break' for _, o in outs if o):
            # every generic iteration exits: zero-iteration path only
            after.conds = after.conds + ((('nonempty', src), False),)
        if node.orelse:
            res.extend(self.block(node.orelse, [after], ctx))
        else:
            res.append((after, None))
        return res

    def _unmark(self, s, marks, heap_marks, it):
        mp = {}
        for mk, init in list(marks.values()) + list(heap_marks.values()):
            mp[mk] = ('phi', frozenset([init, ('unk', 'loop')]))
        for n in list(s.env):
            s.env[n] = subst(s.env[n], mp)
        for k in list(s.heap):
            s.heap[k] = subst(s.heap[k], mp)

    def _join_acc(self, mk, init, alts, it):
        """Value of an accumulator after the loop"""
        if not alts:
            return init
        vals = [v for v, _ in alts]
        if all(v == mk for v in vals):
            return init
        changed = [(v, c) for v, c in alts if v != mk]
        unchanged = len(changed) != len(alts)
        # append / extend accumulation
        parts = []
        ok = True
        for v, c in changed:
            conds = c if (unchanged or len(changed) > 1) else ()
            if v[0] == 'seq' and v[2] and v[2][0] == ('*', mk) and not \
                    any(contains(x, mk) for x in v[2][1:]):
                for x in v[2][1:]:
                    if x[0] == '*':
                        parts.append(('post', x, conds, v[1]))
                    else:
                        parts.append(('post', x, conds, v[1]))
            elif v[0] == 'seq' and v[2] and v[2][-1] == ('*', mk) and not \
                    any(contains(x, mk) for x in v[2][:-1]):
                for x in v[2][:-1]:
                    parts.append(('pre', x, conds, v[1]))
            else:
                ok = False
        if ok and parts:
            kind = parts[0][3]
            if all(p[0] == 'post' for p in parts):
                new = []
                for _, x, conds, _ in parts:
                    body = x
                    new.append(('*', mk_map(body, it, conds)))
                if init[0] == 'seq':
                    return mk_seq(init[1], init[2] + tuple(new))
                return mk_seq(kind, seq_items(init) + tuple(new))
            if all(p[0] == 'pre' for p in parts):
                new = [('*', mk_map(x, mk_rev(iter_source(it)), conds))
                       for _, x, conds, _ in parts]
                return mk_seq(kind, tuple(new) + seq_items(init))
        # dict accumulation
        if all(v[0] == 'dict' and v[1] and v[1][0] == ('**', mk)
               for v, _ in changed):
            its = init[1] if init[0] == 'dict' else (('**', init),)
            for v, c in changed:
                for k, x in v[1][1:]:
                    its = its + (('**', ('map', ('seq', 'tuple', (
                        (k if k != '**' else NONE), x)), iter_source(it),
                        tuple(c))),)
            return ('dict', its)
        if all(v[0] == 'call' and v[1] == ('A', mk, '.setitem')
               for v, _ in changed):
            its = init[1] if init[0] == 'dict' else (('**', init),)
            for v, c in changed:
                its = its + (('**', ('map', (
                    'seq', 'tuple', (v[2][0], v[2][1])), iter_source(it),
                    tuple(c) if unchanged else ())),)
            return ('dict', its)
        # fold
        if len(changed) == 1:
            v, c = changed[0]
            conds = tuple(c) if unchanged else ()
            if v[0] == 'bin' and v[2] == mk and not contains(v[3], mk):
                if v[1] == '+' and init == const(0):
                    return ('call', ('G', 'builtins.sum'),
                            (mk_map(v[3], it, conds),), ())
                if v[1] == '+' and init[0] == 'seq':
                    if v[3][0] == 'seq':
                        return mk_seq(init[1], init[2] + tuple(
                            ('*', mk_map(x, it, conds)) for x in v[3][2]))
                return ('fold', v[1], init, v[3], iter_source(it), conds)
            if v[0] == 'bin' and v[3] == mk and not contains(v[2], mk):
                return ('fold', 'r' + v[1], init, v[2], iter_source(it),
                        conds)
            if contains(v, mk):
                return ('fold', 'fn', init, v, iter_source(it), conds)
            return ('phi', frozenset([init, v]))
        return ('phi', frozenset([init] + [v for v, _ in changed]))

    def s_With(self, node, st, ctx):
        states = [st]
        res = []
        for item in node.items:
            nxt = []
            for s in states:
                for s2, v in self.ev(item.context_expr, s, ctx):
                    if v[0] == 'RAISE':
                        res.append((s2, ('raise', v[1])))
                        continue
                    s2 = s2.copy()
                    s2.effects = s2.effects + (('enter', v),)
                    if item.optional_vars is not None:
                        self._assign(item.optional_vars,
                                     ('call', ('A', v, '__enter__'), (), ()),
                                     s2, ctx)
                    nxt.append(s2)
            states = nxt
        for s in states:
            for s2, o in self.block(node.body, [s], ctx):
                s2 = s2.copy()
                s2.effects = s2.effects + (('exit', len(node.items)),)
                res.append((s2, o))
        return res

    def s_Break(self, node, st, ctx):
        return [(st, ('break',))]

    def s_Continue(self, node, st, ctx):
        return [(st, ('continue',))]

    def s_Try(self, node, st, ctx):
        outs = []
        # normal / explicit-raise evaluation, statement by statement, also
        # collecting the states before each statement that may raise
        live = [st.copy()]
        implicit = []
        for stmt in node.body:
            nxt = []
            for s in live:
                if node.handlers and _may_raise(stmt):
                    implicit.append((s, stmt))
                elif not node.handlers and self.implicit_exc == 'all' \
                        and _may_raise(stmt):
                    implicit.append((s, stmt))
                for s2, o in self.stmt(stmt, s, ctx):
                    if o is None:
                        nxt.append(s2)
                    else:
                        outs.append((s2, o))
            live = [s for s, _ in self._merge([(s, None) for s in nxt])]
            if not live:
                break
        res = []
        for s, o in outs:
            if o[0] == 'raise' and node.handlers:
                h = self._match_handler(o[1], node.handlers, ctx)
                if h is not None:
                    res.extend(self._handler(h, s, o[1], ctx))
                    continue
            res.append((s, o))
        for s in live:
            res.extend(self.block(node.orelse, [s], ctx)
                       if node.orelse else [(s, None)])
        seen = set()
        for s, stmt in implicit:
            if not node.handlers:
                res.append((s.copy(), ('raise', ('exc', 'implicit'))))
                continue
            for h in node.handlers:
                names = self._handler_names(h, ctx)
                s2 = s.copy()
                s2.conds = s2.conds + (
                    (('exc', _raise_sig(stmt), names), True),)
                res.extend(self._handler(h, s2, ('exc', names), ctx))
        if node.finalbody:
            res2 = []
            for s, o in res:
                for s2, o2 in self.block(node.finalbody, [s], ctx):
                    res2.append((s2, o2 if o2 is not None else o))
            res = res2
        self._check(len(res))
        return self._merge_mixed(res)

    s_TryStar = s_Try

    def _handler_names(self, h, ctx):
        if h.type is None:
            return ('BaseException',)
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        out = []
        for t in ts:
            if isinstance(t, ast.Attribute):
                out.append(t.attr)
            elif isinstance(t, ast.Name):
                out.append(t.id)
        return tuple(out)

    def _match_handler(self, exc, handlers, ctx):
        name = None
        if exc[0] == 'call':
            name = exc[1]
        else:
            name = exc
        nm = name[1].rpartition('.')[2] if name[0] == 'G' else None
        for h in handlers:
            hn = self._handler_names(h, ctx)
            if nm is None:
                return h
            for n in hn:
                if n in ('Exception', 'BaseException') or n == nm:
                    return h
                if self._exc_sub(name[1], n):
                    return h
        return None

    def _exc_sub(self, dotted, handler):
        ci = self.repo.classes.get(dotted)
        if ci is not None:
            for b in ci.mro:
                bn = b.name if isinstance(b, ClassInfo) else \
                    b.rpartition('.')[2]
                if bn == handler:
                    return True
                if not isinstance(b, ClassInfo):
                    e = getattr(_b, bn, None)
                    hcls = getattr(_b, handler, None)
                    if isinstance(e, type) and isinstance(hcls, type) and \
                            issubclass(e, hcls):
                        return True
            return False
        e = getattr(_b, dotted.rpartition('.')[2], None)
        hcls = getattr(_b, handler, None)
        return isinstance(e, type) and isinstance(hcls, type) and \
            issubclass(e, hcls)

    def _handler(self, h, s, exc, ctx):
        s = s.copy()
        if h.name:
            s.env[h.name] = exc
        res = []
        for s2, o in self.block(h.body, [s], ctx):
            if o is not None and o[0] == 'raise' and o[1] == (
                    'exc', 'reraise'):
                o = ('raise', exc)
            res.append((s2, o))
        return res

    # -- conditions --------------------------------------------------------

    def cond(self, node, st, ctx):
        """-> [(state, True|False|'RAISE')]"""
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            live = [st]
            res = []
            for i, v in enumerate(node.values):
                nxt = []
                for s in live:
                    for s2, b in self.cond(v, s, ctx):
                        if b == 'RAISE':
                            res.append((s2, b))
                        elif b == is_and:
                            nxt.append(s2)
                        else:
                            res.append((s2, b))
                live = nxt
            res.extend((s, is_and) for s in live)
            return res
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return [(s, b if b == 'RAISE' else not b)
                    for s, b in self.cond(node.operand, st, ctx)]
        if isinstance(node, ast.IfExp):
            res = []
            for s, b in self.cond(node.test, st, ctx):
                if b == 'RAISE':
                    res.append((s, b))
                    continue
                res.extend(self.cond(node.body if b else node.orelse, s, ctx))
            return res
        res = []
        for s, t in self.ev(node, st, ctx):
            if t[0] == 'RAISE':
                res.append((s, 'RAISE'))
            else:
                res.extend(self.branch(s, t))
        return res

    def branch(self, s, t):
        """Split a state on the truth of a term"""
        tag = t[0]
        if tag == 'not':
            return [(x, not b) for x, b in self.branch(s, t[1])]
        if tag in ('and', 'or'):
            is_and = tag == 'and'
            live, res = [s], []
            for x in t[1]:
                nxt = []
                for st in live:
                    for s2, b in self.branch(st, x):
                        (nxt if b == is_and else res).append(
                            s2 if b == is_and else (s2, b))
                live = nxt
            return res + [(x, is_and) for x in live]
        if tag == 'C':
            return [(s, bool(const_val(t)))]
        if tag == 'seq' and all(x[0] != '*' for x in t[2]):
            return [(s, bool(t[2]))]
        if tag == 'cmp' and t[1] in ('==', '!=') and t[2][0] == t[3][0] == \
                'seq' and all(x[0] != '*' for y in t[2:] for x in y[2]):
            # displays are equal item by item
            l, r = t[2:]
            if l[1] != r[1] or len(l[2]) != len(r[2]):
                return [(s, t[1] == '!=')]
            return [(x, b == (t[1] == '==')) for x, b in self.branch(
                s, ('and', tuple(self._same_item(x, y)
                                 for x, y in zip(l[2], r[2]))))]
        if tag == 'cmp':
            atom, pol = norm_cmp(t[1], t[2], t[3])
            v = self._decide(atom)
            if v is not None:
                return [(s, v == pol)]
            return self._atom(s, atom, pol)
        if tag == 'any':
            # some element satisfies / no element satisfies
            return self._exists(self.branch(self._with(s, t[3]), t[1]), t[1],
                                True)
        if tag == 'all':
            return self._exists(self.branch(self._with(s, t[3]), t[1]), t[1],
                                False)
        if tag == 'call' and t[1] == ('G', 'builtins.bool') and \
                len(t[2]) == 1:
            return self.branch(s, t[2][0])
        if tag == 'call' and t[1] == ('G', 'builtins.len'):
            atom = ('cmp', '<', t, const(1))
            return self._atom(s, atom, False)
        if tag == 'isinst' and not t[2]:
            return [(s, False)]
        if tag == 'isinst' and self.exact_self is not None and t[1] == (
                'call', ('G', 'builtins.type'), (SELF,), ()):
            r = [self._metaclass_of(self.exact_self, c) for c in t[2]]
            if True in r or None not in r:
                return [(s, True in r)]
        return self._atom(s, t, True)

    @classmethod
    def _same_item(cls, x, y):
        """truth of x == y for items of displays; flags are compared with True
        and False"""
        for a, b in ((x, y), (y, x)):
            if a[0] == 'C' and isinstance(const_val(a), bool) and b[0] != 'C':
                return b if const_val(a) else cls.mk_not(b)
        return ('cmp', '==', x, y)

    def _metaclass_of(self, cls, c):
        """is the class `cls` an instance of the metaclass c?"""
        m = c[0] == 'G' and self.repo.classes.get(c[1])
        if not m:
            return None
        for k in cls.mro:
            if any(d == 'singleton_object' for d in decorator_names(k.node)) \
                    and m.name == 'Singleton':
                return True
            if k.metaclass and k.metaclass.rpartition('.')[2] == m.name:
                return True
        return False

    def _exists(self, branches, body, pol):
        """mark the outcome that speaks about some element only"""
        return [(self._with(s, ((('exists', body), True),)) if b == pol
                 else s, b) for s, b in branches]

    def _with(self, s, conds):
        if not conds:
            return s
        s = s.copy()
        s.conds = s.conds + tuple(conds)
        return s

    def _decide(self, atom):
        if atom[0] == 'cmp':
            op, l, r = atom[1:]
            if is_const(l) and is_const(r):
                try:
                    a, b = const_val(l), const_val(r)
                    return {'==': a == b, 'is': a is b or a == b,
                            '<': a < b if op == '<' else None,
                            'in': (a in b) if op == 'in' else None}[op]
                except Exception:
                    return None
            if op in ('==', 'is') and l == r:
                return True
            if op == 'is' and r == NONE and (l[0] in (
                    'seq', 'dict', 'map', 'lam', 'str', 'bin', 'un')
                    or (l[0] == 'C' and l != NONE) or (
                        l[0] == 'call' and l[1][0] == 'G' and l[1][1] in
                        _NEVER_NONE)):
                return False
            if op == 'is' and {l[0], r[0]} == {'G', 'C'} and any(
                    x[0] == 'G' and x[1] in self.repo.classes
                    for x in (l, r)):
                return False
            if op in ('==', 'is') and l[0] == 'G' and r[0] == 'G' and \
                    l[1] in self.repo.classes and r[1] in self.repo.classes:
                return l == r
            if op == 'in' and is_const(l) and r[0] == 'seq' and all(
                    is_const(x) for x in r[2]):
                return l in r[2]
            if op == 'in' and is_const(l) and r[0] == 'dict' and all(
                    is_const(x[0]) for x in r[1] if x[0] != '**') and not any(
                        x[0] == '**' for x in r[1]):
                return any(x[0] == l for x in r[1])
            if op == '<' and l[0] == 'call' and l[1] == (
                    'G', 'builtins.len') and is_const(r) and l[2]:
                x = l[2][0]
                if x[0] == 'seq' and all(y[0] != '*' for y in x[2]):
                    return len(x[2]) < const_val(r)
                if x[0] == 'dict' and const_val(r) == 1 and any(
                        y[0] != '**' for y in x[1]):
                    return False
        return None

    def _atom(self, s, atom, pol):
        for c, p in s.conds:
            if c == atom:
                return [(s, p == pol)]
        if atom[0] == 'isinst':
            v = self._inst_decide(s, atom)
            if v is not None:
                return [(s, v)]
        res = []
        for val in (True, False):
            s2 = s.copy()
            s2.conds = s2.conds + ((atom, val),)
            res.append((s2, val == pol))
        return res

    def _inst_decide(self, s, atom):
        x, classes = atom[1], atom[2]
        mine = set(classes)
        if x == SELF and self.exact_self is not None:
            cs = [self.repo.classes.get(k[1]) if k[0] == 'G' else None
                  for k in classes]
            if any(c is not None and self.repo.is_sub(
                    self.exact_self, c.name) for c in cs):
                return True
            if None not in cs:
                return False
        known_pos = []
        for c, p in s.conds:
            if c[0] == 'isinst' and c[1] == x:
                if p:
                    known_pos.append(c[2])
                elif mine <= set(c[2]):
                    return False
        for kp in known_pos:
            # isinstance(x, A|B) known; is every alternative sub of mine?
            ok = True
            for k in kp:
                ci = self.repo.classes.get(k[1]) if k[0] == 'G' else None
                if k in mine:
                    continue
                if ci is None or not any(
                        isinstance(b, ClassInfo) and
                        ('G', b.qualname) in mine for b in ci.mro):
                    ok = False
                    break
            if ok:
                return True
        return None

    # -- expressions -------------------------------------------------------

    def ev(self, node, st, ctx):
        """-> [(state, term)]; a raising inlined call yields ('RAISE', exc)"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        m = getattr(self, 'e_' + node.__class__.__name__, None)
        if m is None:
            self.unknowns += 1
            return [(st, ('unk', node.__class__.__name__))]
        return m(node, st, ctx)

    def ev_many(self, nodes, st, ctx):
        """-> [(state, [terms] | None, raise)]"""
        acc = [(st, [])]
        out = []
        for n in nodes:
            nxt = []
            for s, ts in acc:
                star = isinstance(n, ast.Starred)
                for s2, t in self.ev(n.value if star else n, s, ctx):
                    if t[0] == 'RAISE':
                        out.append((s2, t))
                        continue
                    nxt.append((s2, ts + [('*', t) if star else t]))
            acc = nxt
            self._check(len(acc))
        return [(s, ts) for s, ts in acc] + out

    def e_Constant(self, node, st, ctx):
        return [(st, const(node.value))]

    def e_Name(self, node, st, ctx):
        n = node.id
        if n in st.env:
            return [(st, st.env[n])]
        return [(st, self.global_name(n, ctx.mod))]

    def global_name(self, n, mod):
        d = self.repo.name_in(n, mod)
        if d is not None:
            # fold module-level literal constants never reassigned
            m, _, nm = d.rpartition('.')
            mm = self.repo.modules.get(m)
            if mm is not None and nm in mm.assigns and len(
                    mm.assigns[nm]) == 1 and nm not in mm.globals_written:
                v = mm.assigns[nm][0]
                if isinstance(v, ast.Constant):
                    return const(v.value)
                if isinstance(v, (ast.Name, ast.Attribute)) and \
                        self.repo.dotted(v, mm):
                    return ('G', self.repo.dotted(v, mm))
            return ('G', d)
        if n in BUILTINS:
            return ('G', 'builtins.' + n)
        return ('G', mod.name + '.' + n)

    def _display(self, kind, node, st, ctx):
        return [(s, t if isinstance(t, tuple) else mk_seq(kind, tuple(t)))
                for s, t in self.ev_many(node.elts, st, ctx)]

    def e_Tuple(self, node, st, ctx):
        return self._display('tuple', node, st, ctx)

    def e_List(self, node, st, ctx):
        return self._display('list', node, st, ctx)

    def e_Set(self, node, st, ctx):
        return self._display('set', node, st, ctx)

    def e_Dict(self, node, st, ctx):
        acc = [(st, ())]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for s, items in acc:
                ks = [(s, '**')] if k is None else self.ev(k, s, ctx)
                for s2, kt in ks:
                    for s3, vt in self.ev(v, s2, ctx):
                        if kt == '**' and vt[0] == 'dict':
                            nxt.append((s3, items + vt[1]))
                        else:
                            nxt.append((s3, items + ((kt, vt),)))
            acc = nxt
        return [(s, ('dict', _dedupe_dict(i))) for s, i in acc]

    def e_Attribute(self, node, st, ctx):
        res = []
        for s, b in self.ev(node.value, st, ctx):
            if b[0] == 'RAISE':
                res.append((s, b))
                continue
            res.extend(self.attr(s, b, node.attr, ctx))
        return res

    def _is_self(self, t):
        return t == SELF

    def _arg_props(self, cls):
        """names for which a class decorator generates the property
        `x` -> `_x` (see utils/properties_for_args.py)"""
        if not any(isinstance(c, ClassInfo) and any(
                d.rpartition('.')[2] == 'properties_for_args'
                for d in decorator_names(c.node)) for c in cls.mro):
            return ()
        found = self.repo.lookup(cls, '_arg_names')
        if found is None or found[1] != 'attr' or not isinstance(
                found[2], (ast.Tuple, ast.List)):
            return ()
        return [e.value for e in found[2].elts
                if isinstance(e, ast.Constant)]

    def attr(self, s, b, name, ctx):
        if (b, name) in s.heap:
            return [(s, s.heap[(b, name)])]
        # type(x).name  ==  x.name
        if b[0] == 'call' and b[1] == ('G', 'builtins.type') and \
                len(b[2]) == 1:
            b = b[2][0]
            if (b, name) in s.heap:
                return [(s, s.heap[(b, name)])]
        if name == '__class__':
            return [(s, ('call', ('G', 'builtins.type'), (b,), ()))]
        if b == SELF and ctx.cls is not None:
            found = self.repo.lookup(ctx.cls, name)
            if found is not None:
                owner, kind, node = found
                if kind == 'method':
                    k = kind_of(node)
                    if k == 'property' and not ctx.cls_self:
                        if self.want_inline(owner.name + '.' + name, ctx):
                            return self._inline_fn(
                                owner.module, node, owner, ctx.cls,
                                {params_of(node)[0][0]: SELF}, s, ctx)
                elif self.resolve_slots:
                    mod = owner.attr_mod.get(name, owner.module)
                    dn = self.repo.dotted(node, mod)
                    if dn is not None:
                        return [(s, ('G', dn))]
                    if isinstance(node, ast.Constant) and not isinstance(
                            node.value, (str, bytes)):
                        if node.value is not None:
                            return [(s, const(node.value))]
                    if isinstance(node, ast.Tuple) and all(
                            isinstance(e, ast.Constant) for e in node.elts):
                        return [(s, ('seq', 'tuple', tuple(
                            const(e.value) for e in node.elts)))]
            elif name in self._arg_props(ctx.cls):
                return self.attr(s, b, '_' + name, ctx)
        if b[0] == 'G':
            d = b[1] + '.' + name
            if b[1] in self.repo.modules or b[1].split('.')[0] != 'qnet' \
                    and b[1].split('.')[0] != 'builtins':
                r = self.repo.resolve(d)
                m, _, nm = r.rpartition('.')
                return [(s, ('G', r))]
        t = ('A', b, name)
        if self.attr_hook is not None:
            t = self.attr_hook(t) or t
        return [(s, t)]

    def e_Subscript(self, node, st, ctx):
        res = []
        for s, b in self.ev(node.value, st, ctx):
            if b[0] == 'RAISE':
                res.append((s, b))
                continue
            if isinstance(node.slice, ast.Slice):
                parts = [node.slice.lower, node.slice.upper, node.slice.step]
                acc = [(s, [])]
                for p in parts:
                    nxt = []
                    for s2, ts in acc:
                        if p is None:
                            nxt.append((s2, ts + [NONE]))
                        else:
                            for s3, t in self.ev(p, s2, ctx):
                                nxt.append((s3, ts + [t]))
                    acc = nxt
                for s2, (lo, hi, stp) in acc:
                    res.append((s2, self._slice(b, lo, hi, stp)))
            else:
                for s2, k in self.ev(node.slice, s, ctx):
                    if k[0] == 'RAISE':
                        res.append((s2, k))
                        continue
                    res.append((s2, self._sub(b, k)))
        return res

    def _slice(self, b, lo, hi, step):
        if lo == NONE and hi == NONE and step == const(-1):
            return mk_rev(b)
        if lo == const(0):
            lo = NONE
        if step == const(1):
            step = NONE
        if lo == NONE and hi == NONE and step == NONE:
            return b
        if b[0] == 'seq' and all(x[0] != '*' for x in b[2]) and all(
                is_const(x) for x in (lo, hi, step)):
            return ('seq', b[1],
                    b[2][slice(const_val(lo), const_val(hi),
                               const_val(step))])
        return ('slice', b, lo, hi, step)

    def _sub(self, b, k):
        if is_const(k):
            kv = const_val(k)
            if b[0] == 'seq' and isinstance(kv, int):
                items = b[2]
                if all(x[0] != '*' for x in items):
                    if -len(items) <= kv < len(items):
                        return items[kv]
                else:
                    if kv >= 0 and all(x[0] != '*' for x in items[:kv + 1]) \
                            and kv < len(items):
                        return items[kv]
                    if kv < 0 and len(items) >= -kv and all(
                            x[0] != '*' for x in items[kv:]):
                        return items[kv]
            if b[0] == 'dict':
                for kk, v in reversed(b[1]):
                    if kk == k:
                        return v
                    if kk == '**':
                        break
            if b[0] == 'slice' and isinstance(kv, int) and kv >= 0 and \
                    b[4] == NONE and b[3] == NONE and is_const(b[2]) and \
                    isinstance(const_val(b[2]), int) and \
                    const_val(b[2]) >= 0:
                return self._sub(b[1], const(const_val(b[2]) + kv))
        return ('sub', b, k)

    def mk_bin(self, op, l, r):
        if op == '+':
            if l[0] == 'seq' and r[0] == 'seq':
                return mk_seq(l[1], l[2] + r[2])
            if l[0] == 'seq' and not l[2] and l[1] != 'set':
                return r
            if l[0] == 'seq' or r[0] == 'seq':
                kind = l[1] if l[0] == 'seq' else r[1]
                return mk_seq(kind, seq_items(l) + seq_items(r))
            if l[0] in ('map',) or r[0] in ('map',):
                return mk_seq('list', seq_items(l) + seq_items(r))
        if op == '*':
            for a, b in ((l, r), (r, l)):
                if a[0] == 'seq' and a[1] in ('list', 'tuple') and \
                        b[0] == 'C' and b[1] == 'int' and \
                        -1 < const_val(b) * len(a[2]) < 40:
                    return mk_seq(a[1], a[2] * const_val(b))
        if op == '|' and l[0] == 'seq' and l[1] == 'set':
            return mk_seq('set', seq_items(l) + seq_items(r))
        if is_const(l) and is_const(r) and op in '+-*':
            try:
                a, b = const_val(l), const_val(r)
                if isinstance(a, (int, str)) and isinstance(b, (int, str)):
                    return const({'+': lambda: a + b, '-': lambda: a - b,
                                  '*': lambda: a * b}[op]())
            except Exception:
                pass
        if op == '%' and l[0] == 'C' and l[1] == 'str' and r[0] == 'C' and \
                r[1] == 'str' and const_val(l).count('%') == 1:
            try:
                return const(const_val(l) % const_val(r))
            except Exception:
                pass
        if op == '%' and l[0] == 'C' and l[1] == 'str':
            return ('str', (l,) + seq_items(r))
        if op == '*' and l == const(-1):
            return ('un', '-', r)
        if op == '-' :
            pass
        return ('bin', op, l, r)

    def e_BinOp(self, node, st, ctx):
        res = []
        op = BINOPS[type(node.op)]
        for s, ts in self.ev_many([node.left, node.right], st, ctx):
            if isinstance(ts, tuple):
                res.append((s, ts))
            else:
                res.append((s, self.mk_bin(op, ts[0], ts[1])))
        return res

    def e_UnaryOp(self, node, st, ctx):
        if isinstance(node.op, ast.Not):
            return [(s, t if t[0] == 'RAISE' else self.mk_not(t))
                    for s, t in self.ev(node.operand, st, ctx)]
        res = []
        for s, t in self.ev(node.operand, st, ctx):
            if t[0] == 'RAISE':
                res.append((s, t))
                continue
            op = UNOPS[type(node.op)]
            if is_const(t) and t[1] in ('int', 'float', 'complex') \
                    and op in '+-':
                v = const_val(t)
                res.append((s, const(-v if op == '-' else v)))
            else:
                res.append((s, ('un', op, t)))
        return res

    @staticmethod
    def mk_not(t):
        if t[0] == 'not':
            return t[1]
        if t[0] == 'cmp' and t[1] in ('<', '<=', '>', '>=') and (
                partial(t[2]) or partial(t[3])):
            return ('not', t)
        if t[0] == 'cmp':
            neg = {'==': '!=', '!=': '==', 'is': 'is not', 'is not': 'is',
                   'in': 'not in', 'not in': 'in', '<': '>=', '>=': '<',
                   '>': '<=', '<=': '>'}
            return ('cmp', neg[t[1]], t[2], t[3])
        if t[0] == 'any':
            return ('all', Flow.mk_not(t[1]), t[2], t[3])
        if t[0] == 'all':
            return ('any', Flow.mk_not(t[1]), t[2], t[3])
        if t[0] == 'C':
            return const(not const_val(t))
        return ('not', t)

    def e_BoolOp(self, node, st, ctx):
        tag = 'and' if isinstance(node.op, ast.And) else 'or'
        res = []
        for s, ts in self.ev_many(node.values, st, ctx):
            if isinstance(ts, tuple):
                res.append((s, ts))
                continue
            flat = []
            for t in ts:
                flat.extend(t[1] if t[0] == tag else (t,))
            res.append((s, (tag, tuple(flat))))
        return res

    def e_Compare(self, node, st, ctx):
        res = []
        for s, ts in self.ev_many([node.left] + node.comparators, st, ctx):
            if isinstance(ts, tuple):
                res.append((s, ts))
                continue
            parts = []
            for i, op in enumerate(node.ops):
                parts.append(('cmp', CMPOPS[type(op)], ts[i], ts[i + 1]))
            res.append((s, parts[0] if len(parts) == 1
                        else ('and', tuple(parts))))
        return res

    def e_IfExp(self, node, st, ctx):
        res = []
        for s, b in self.cond(node.test, st, ctx):
            if b == 'RAISE':
                res.append((s, ('RAISE', ('exc', 'inlined'))))
                continue
            res.extend(self.ev(node.body if b else node.orelse, s, ctx))
        return res

    def e_JoinedStr(self, node, st, ctx):
        parts = []
        s = st
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                r = self.ev(v.value, s, ctx)
                s, t = r[0]
                parts.append(t)
        return [(s, ('str', tuple(parts)))]

    def e_FormattedValue(self, node, st, ctx):
        return self.ev(node.value, st, ctx)

    def e_Starred(self, node, st, ctx):
        return [(s, ('*', t)) for s, t in self.ev(node.value, st, ctx)]

    def e_NamedExpr(self, node, st, ctx):
        res = []
        for s, v in self.ev(node.value, st, ctx):
            if v[0] == 'RAISE':
                res.append((s, v))
                continue
            s = s.copy()
            self._assign(node.target, v, s, ctx)
            res.append((s, v))
        return res

    def e_Await(self, node, st, ctx):
        return self.ev(node.value, st, ctx)

    def e_Yield(self, node, st, ctx):
        return [(st, ('unk', 'yield'))]

    e_YieldFrom = e_Yield

    def e_Lambda(self, node, st, ctx):
        return [(st, self._closure(node, st.env, ctx))]

    def _closure(self, node, env, ctx):
        self.closures.append(Closure(node, dict(env), ctx))
        return ('lam', len(self.closures) - 1)

    def _comp(self, node, st, ctx, elt_fn):
        """Comprehension; returns [(state, nested map term of body)]"""
        def rec(gens, s):
            g = gens[0]
            out = []
            for s2, it in self.ev(g.iter, s, ctx):
                if it[0] == 'RAISE':
                    out.append((s2, it))
                    continue
                disp = self._concrete(it)
                if disp is not None and len(disp) <= self.unroll and (
                        len(gens) == 1 or all(
                            self._closed_iter(h.iter) for h in gens[1:])) \
                        and all(x[0] != '*' for x in disp):
                    acc = [(s2, ())]
                    for x in disp:
                        nxt = []
                        for y, ts in acc:
                            z = y.copy()
                            self._assign(g.target, x, z, ctx)
                            live = [z]
                            for c in g.ifs:
                                more = []
                                for z1 in live:
                                    for z2, b in self.cond(c, z1, ctx):
                                        if b is True:
                                            more.append(z2)
                                        elif b is False:
                                            nxt.append((z2, ts))
                                live = more
                            for z1 in live:
                                if len(gens) > 1:
                                    for z2, t in rec(gens[1:], z1):
                                        if t[0] != 'RAISE':
                                            nxt.append((z2, ts + tuple(
                                                seq_items(t))))
                                    continue
                                for z2, t in elt_fn(z1):
                                    if t[0] != 'RAISE':
                                        nxt.append((z2, ts + (t,)))
                        acc = nxt
                    out.extend((y, ('seq', 'list', ts)) for y, ts in acc)
                    continue
                s3 = s2.copy()
                e = elem(it)
                self._assign(g.target, e, s3, ctx)
                base = len(s3.conds)
                live = [s3]
                for c in g.ifs:
                    nxt = []
                    for x in live:
                        nxt.extend(y for y, b in self.cond(c, x, ctx)
                                   if b is True)
                    live = nxt
                alts = []
                for x in live:
                    cs = x.conds[base:]
                    if len(gens) > 1:
                        sub = rec(gens[1:], x)
                        for y, t in sub:
                            alts.append((('*', t), y.conds[base:]))
                    else:
                        for y, t in elt_fn(x):
                            alts.append((t, y.conds[base:]))
                ret = s2.copy()
                if not alts:
                    out.append((ret, ('seq', 'list', ())))
                elif len(alts) == 1:
                    out.append((ret, mk_map(alts[0][0], it, alts[0][1])))
                else:
                    bodies = set(a for a, _ in alts)
                    if len(bodies) == 1:
                        common = [c for c in alts[0][1] if all(
                            c in a[1] for a in alts)]
                        out.append((ret, mk_map(alts[0][0], it,
                                                tuple(common))))
                    else:
                        common = [c for c in alts[0][1] if all(
                            c in a[1] for a in alts)]
                        out.append((ret, mk_map(
                            ('phi', frozenset(bodies)), it, tuple(common))))
            return out
        res = rec(node.generators, st)
        # comprehension variables do not leak: restore env
        final = []
        for s, t in res:
            s2 = s.copy()
            s2.env = dict(st.env)
            final.append((s2, t))
        return final

    @staticmethod
    def _closed_iter(node):
        return True

    def e_ListComp(self, node, st, ctx):
        return [(s, t if t[0] == 'RAISE' else mk_seq('list', (('*', t),)))
                for s, t in self._comp(
                    node, st, ctx, lambda x: self.ev(node.elt, x, ctx))]

    def e_GeneratorExp(self, node, st, ctx):
        return self._comp(node, st, ctx,
                          lambda x: self.ev(node.elt, x, ctx))

    def e_SetComp(self, node, st, ctx):
        return [(s, t if t[0] == 'RAISE' else mk_seq('set', (('*', t),)))
                for s, t in self._comp(
                    node, st, ctx, lambda x: self.ev(node.elt, x, ctx))]

    def e_DictComp(self, node, st, ctx):
        def kv(x):
            out = []
            for s, ts in self.ev_many([node.key, node.value], x, ctx):
                if not isinstance(ts, tuple):
                    out.append((s, ('seq', 'tuple', tuple(ts))))
            return out
        def fin(t):
            if t[0] == 'RAISE':
                return t
            if t[0] == 'seq' and all(
                    x[0] == 'seq' and len(x[2]) == 2 for x in t[2]):
                return ('dict', _dedupe_dict([x[2] for x in t[2]]))
            return ('dict', (('**', t),))
        return [(s, fin(t)) for s, t in self._comp(node, st, ctx, kv)]

    # -- calls -------------------------------------------------------------

    def ev_args(self, call, st, ctx):
        """-> [(state, [args], [(kw, term)])] (raising evaluations dropped)"""
        res = []
        for s, ts in self.ev_many(call.args, st, ctx):
            if isinstance(ts, tuple):
                continue
            args = []
            for t in ts:
                if t[0] == '*':
                    args.extend(seq_items(t[1]))
                else:
                    args.append(t)
            acc = [(s, [])]
            for kw in call.keywords:
                nxt = []
                for s2, kws in acc:
                    for s3, v in self.ev(kw.value, s2, ctx):
                        if v[0] == 'RAISE':
                            continue
                        if kw.arg is None:
                            if v[0] == 'dict' and all(
                                    k != '**' and is_const(k)
                                    for k, _ in v[1]):
                                nxt.append((s3, kws + [
                                    (const_val(k), x) for k, x in v[1]]))
                            else:
                                nxt.append((s3, kws + [('**', v)]))
                        else:
                            nxt.append((s3, kws + [(kw.arg, v)]))
                acc = nxt
            for s2, kws in acc:
                res.append((s2, args, kws))
        return res

    def e_Call(self, node, st, ctx):
        # super()
        f = node.func
        res = []
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) \
                and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == 'super':
            return self._super_call(node, f.attr, st, ctx)
        for s, ft in self.ev(f, st, ctx):
            if ft[0] == 'RAISE':
                res.append((s, ft))
                continue
            for s2, args, kws in self.ev_args(node, s, ctx):
                res.extend(self.call(s2, ft, args, kws, ctx, node))
        self._check(len(res))
        return res

    def _super_call(self, node, name, st, ctx):
        res = []
        for s, args, kws in self.ev_args(node, st, ctx):
            if ctx.cls is not None and ctx.owner is not None:
                found = self.repo.lookup(ctx.cls, name, after=ctx.owner)
                if found is not None and found[1] == 'method':
                    owner, _, fn = found
                    q = owner.name + '.' + name
                    if self.want_inline(q, ctx):
                        res.extend(self._call_fn(
                            owner.module, fn, owner, ctx.cls,
                            [SELF] + list(args), kws, s, ctx))
                        continue
            res.append((s, ('call', ('A', ('call', ('G', 'builtins.super'),
                                           (), ()), name),
                            tuple(args), tuple(kws))))
        return res

    def call(self, s, f, args, kws, ctx, node=None):
        tag = f[0]
        if tag == 'lam':
            clo = self.closures[f[1]]
            if ctx.depth < self.max_depth + 2 and ctx.stack.count(
                    ('lam', f[1])) < 1:
                return self._call_closure(clo, f, args, kws, s, ctx)
        if tag == 'G':
            g = f[1]
            b = self._builtin(g, args, kws, s, ctx)
            if b is not None:
                return b
            m, _, nm = g.rpartition('.')
            mod = self.repo.modules.get(m)
            if mod is not None and nm in mod.functions:
                if self.want_inline(g, ctx):
                    return self._call_fn(mod, mod.functions[nm], None, None,
                                         args, kws, s, ctx)
        if tag == 'A':
            b, name = f[1], f[2]
            if b == SELF and ctx.cls is not None:
                found = self.repo.lookup(ctx.cls, name)
                if found is not None and found[1] == 'method':
                    owner, _, fn = found
                    q = owner.name + '.' + name
                    k = kind_of(fn)
                    if k != 'property' and self.want_inline(q, ctx):
                        a = list(args)
                        if k in ('method', 'class'):
                            a = [SELF] + a
                        return self._call_fn(owner.module, fn, owner,
                                             ctx.cls, a, kws, s, ctx)
            # Class.method(...)
            if b[0] == 'G' and b[1] in self.repo.classes:
                ci = self.repo.classes[b[1]]
                found = self.repo.lookup(ci, name)
                if found is not None and found[1] == 'method':
                    owner, _, fn = found
                    q = owner.name + '.' + name
                    k = kind_of(fn)
                    if k in ('static', 'method') and self.want_inline(q, ctx):
                        return self._call_fn(
                            owner.module, fn, owner, ci if k == 'method'
                            else None, args, kws, s, ctx)
            r = self._method_builtin(b, name, args, kws, s)
            if r is not None:
                return r
        t = ('call', f, tuple(args), tuple(kws))
        if self.call_hook is not None:
            t = self.call_hook(t) or t
        return [(s, t)]

    def _call_closure(self, clo, f, args, kws, s, ctx):
        bound = self._bind_call(clo.node, args, kws, clo.ctx, s)
        if bound is None:
            return [(s, ('call', f, tuple(args), tuple(kws)))]
        nctx = Ctx(clo.ctx.mod, clo.ctx.cls, clo.ctx.owner, clo.node,
                   ctx.depth + 1, ctx.stack + (('lam', f[1]),),
                   clo.ctx.cls_self)
        env = dict(clo.env)
        env.update(bound)
        st = State(env, dict(s.heap), s.conds, s.effects)
        return self._finish_inline(clo.node, st, s, nctx)

    def _bind_call(self, fn, args, kws, ctx, s):
        pos, var, kwonly, kw, defaults = params_of(fn)
        env = {}
        args = list(args)
        rest = []
        i = 0
        for n in pos:
            if i < len(args):
                if args[i][0] == '*':
                    if var and not rest:
                        return None
                    # unknown-length star into positional params
                    k = 0
                    src = args[i][1]
                    if i == len(args) - 1:
                        for j, n2 in enumerate(pos[pos.index(n):]):
                            env[n2] = self._sub(src, const(j))
                        i = len(args)
                        break
                    return None
                env[n] = args[i]
                i += 1
            else:
                break
        if i < len(args):
            if not var:
                return None
            rest = args[i:]
        if var:
            if len(rest) == 1 and rest[0][0] == '*':
                env[var] = rest[0][1]
            else:
                env[var] = mk_seq('tuple', tuple(rest))
        extra = []
        for k, v in kws:
            if k == '**':
                extra.append((k, v))
            elif k in pos or k in kwonly:
                env[k] = v
            elif kw:
                extra.append((k, v))
            else:
                return None
        if kw:
            if len(extra) == 1 and extra[0][0] == '**':
                env[kw] = extra[0][1]
            else:
                env[kw] = ('dict', tuple(
                    (k if k == '**' else const(k), v) for k, v in extra))
        elif extra:
            # **mapping into named params
            for k, v in extra:
                for n in pos + kwonly:
                    if n not in env:
                        env[n] = self._sub(v, const(n))
        for n in pos + kwonly:
            if n not in env:
                if n in defaults:
                    d = defaults[n]
                    r = self.ev(d, State(), ctx)
                    env[n] = r[0][1]
                else:
                    return None
        return env

    def _call_fn(self, mod, fn, owner, cls, args, kws, s, ctx):
        nctx = Ctx(mod, cls, owner, fn, ctx.depth + 1,
                   ctx.stack + (self.qual(mod, owner, fn),))
        if owner is not None and kind_of(fn) == 'class':
            nctx.cls_self = True
        bound = self._bind_call(fn, args, kws, nctx, s)
        if bound is None:
            f = ('G', mod.name + '.' + fn.name) if owner is None else \
                ('A', args[0] if args else SELF, fn.name)
            return [(s, ('call', f, tuple(args), tuple(kws)))]
        return self._inline_fn(mod, fn, owner, cls, bound, s, ctx, nctx)

    def _inline_fn(self, mod, fn, owner, cls, env, s, ctx, nctx=None):
        if any(isinstance(n, (ast.Yield, ast.YieldFrom))
               for n in ast.walk(fn)):
            return [(s, ('call', ('G', self.qual(mod, owner, fn)),
                         tuple(env.values()), ()))]
        if nctx is None:
            nctx = Ctx(mod, cls, owner, fn, ctx.depth + 1,
                       ctx.stack + (self.qual(mod, owner, fn),))
        self.inlined.add(self.qual(mod, owner, fn))
        st = State(dict(env), dict(s.heap), s.conds, s.effects)
        return self._finish_inline(fn, st, s, nctx)

    def _finish_inline(self, fn, st, s, nctx):
        out = []
        for p in self._run_body(fn, st, nctx):
            s2 = State(dict(s.env), p.heap, p.conds, p.effects)
            if p.out[0] == 'return':
                out.append((s2, p.out[1]))
            elif p.out[0] == 'raise':
                out.append((s2, ('RAISE', p.out[1])))
            else:
                out.append((s2, NONE))
        self._check(len(out))
        return out

    def _builtin(self, g, args, kws, s, ctx):
        n = g.rpartition('.')[2]
        one = len(args) == 1 and args[0][0] != '*' and not kws
        if g.startswith('builtins.'):
            if n == 'isinstance' and len(args) == 2:
                cl = self._classes(args[1])
                return [(s, ('isinst', args[0], cl))]
            if n in ('list', 'tuple') and one:
                return [(s, mk_seq(n, (('*', args[0]),)))]
            if n in ('list', 'tuple') and not args:
                return [(s, ('seq', n, ()))]
            if n in ('set', 'frozenset') and one:
                return [(s, mk_seq('set', (('*', args[0]),)))]
            if n in ('set', 'frozenset') and not args and not kws:
                return [(s, ('seq', 'set', ()))]
            if n == 'iter' and one:
                return [(s, args[0])]
            if n == 'dict':
                return self._mkdict(args, kws, s)
            if n == 'reversed' and one:
                return [(s, mk_rev(args[0]))]
            if n == 'sorted' and len(args) == 1:
                key = dict(kws).get('key', NONE)
                return [(s, ('sorted', args[0], key))]
            if n == 'map' and len(args) == 2:
                res = []
                for s2, t in self.call(s, args[0], [elem(args[1])], [], ctx):
                    if t[0] == 'RAISE':
                        continue
                    res.append((s2, mk_map(t, args[1])))
                if len(res) > 1:
                    return [(s, mk_map(('phi', frozenset(
                        t[1] for _, t in res if t[0] == 'map')), args[1]))]
                return res
            if n == 'filter' and len(args) == 2:
                cond = self.call(s, args[0], [elem(args[1])], [], ctx)
                if len(cond) == 1:
                    return [(s, mk_map(elem(args[1]), args[1],
                                       ((cond[0][1], True),)))]
            if n in ('any', 'all') and one:
                a = args[0]
                while a[0] == 'seq' and len(a[2]) == 1 and a[2][0][0] == '*':
                    a = a[2][0][1]
                if a[0] == 'seq' and all(x[0] != '*' for x in a[2]):
                    return [(s, ('or' if n == 'any' else 'and', a[2]))]
                if a[0] == 'map':
                    return [(s, (n, a[1], a[2], a[3]))]
                return [(s, (n, elem(a), iter_source(a), ()))]
            if n == 'getattr' and len(args) in (2, 3) and \
                    args[1][0] == 'C' and args[1][1] == 'str':
                if len(args) == 2:
                    return self.attr(s, args[0], const_val(args[1]), ctx)
            if n == 'setattr' and len(args) == 3 and args[1][0] == 'C':
                s2 = s.copy()
                nm = const_val(args[1])
                s2.heap[(args[0], nm)] = args[2]
                s2.effects = s2.effects + (('store', args[0], nm, args[2]),)
                return [(s2, NONE)]
            if n == 'setattr' and len(args) == 3:
                s2 = s.copy()
                s2.effects = s2.effects + (
                    ('store', args[0], args[1], args[2]),)
                return [(s2, NONE)]
            if n in ('min', 'max', 'abs', 'int', 'float', 'divmod', 'pow') \
                    and args and not kws and all(
                        is_const(a) and type(const_val(a)) in (int, float)
                        for a in args) and (
                            n not in ('min', 'max') or len(args) > 1):
                try:
                    v = {'min': min, 'max': max, 'abs': abs, 'int': int,
                         'float': float, 'pow': pow}[n](
                             *[const_val(a) for a in args])
                    return [(s, const(v))]
                except (KeyError, TypeError, ValueError, ArithmeticError):
                    pass
            if n == 'sum' and args:
                init = args[1] if len(args) > 1 else dict(kws).get(
                    'start', const(0))
                a = args[0]
                items = self._concrete(_unwrap(a))
                if items and len(items) <= self.unroll:
                    t = init
                    for x in items:
                        t = x if t == const(0) else ('bin', '+', t, x)
                    return [(s, t)]
                if init == const(0):
                    return [(s, ('call', ('G', 'builtins.sum'),
                                 (_unwrap(a),), ()))]
                a = _unwrap(a)
                if a[0] == 'map':
                    return [(s, ('fold', '+', init, a[1], a[2], a[3]))]
                return [(s, ('fold', '+', init, elem(a), iter_source(a),
                             ()))]
            if n == 'len' and one and args[0][0] == 'seq' and all(
                    x[0] != '*' for x in args[0][2]) \
                    and args[0][1] != 'set':
                return [(s, const(len(args[0][2])))]
            if n == 'len' and one:
                d = args[0]
                if d[0] == 'call' and d[1][0] == 'A' and d[1][2] in (
                        'keys', 'values', 'items') and not d[2]:
                    d = d[1][1]
                if d[0] == 'dict' and all(is_const(x[0]) for x in d[1]):
                    return [(s, const(len({x[0] for x in d[1]})))]
            if n == 'len' and one:
                a = _unwrap(args[0])
                if a[0] == 'map' and not a[3]:
                    a = a[2]
                return [(s, ('call', ('G', g), (strip_iter(a)
                                                if a[0] in ('rev', 'sorted')
                                                else a,), ()))]
            if n == 'type' and one:
                return [(s, ('call', ('G', g), (args[0],), ()))]
        if n == 'OrderedDict' and g.startswith('collections'):
            return self._mkdict(args, kws, s)
        if g in ('functools.reduce', 'builtins.reduce') and len(args) >= 2:
            fnm = args[0]
            a = _unwrap(args[1])
            src = iter_source(a)
            body = a[1] if a[0] == 'map' else elem(a)
            conds = a[3] if a[0] == 'map' else ()
            if a[0] == 'map':
                src = a[2]
            init = args[2] if len(args) > 2 else ('unk', 'first')
            op = None
            if fnm[0] == 'G':
                op = {'mul': '*', 'add': '+', 'or_': '|', 'and_': '&',
                      'matmul': '@', 'sub': '-'}.get(
                          fnm[1].rpartition('.')[2])
            if op is None and fnm[0] == 'lam':
                mk = ('unk', 'acc')
                r = self.call(s, fnm, [mk, body], [], ctx)
                if len(r) == 1 and r[0][1][0] == 'bin' and \
                        r[0][1][2] == mk:
                    return [(s, ('fold', r[0][1][1], init, r[0][1][3], src,
                                 conds))]
            if op:
                return [(s, ('fold', op, init, body, src, conds))]
        if g == 'operator.attrgetter' and one and args[0][0] == 'C':
            pass
        if g == 'functools.partial' and args and args[0][0] == 'lam':
            pass
        return None

    def _mkdict(self, args, kws, s):
        items = ()
        if args:
            a = args[0]
            if a[0] == 'dict':
                items = a[1]
            elif a[0] == 'seq' and all(
                    x[0] == 'seq' and len(x[2]) == 2 and
                    all(y[0] != '*' for y in x[2]) for x in a[2]):
                items = tuple((x[2][0], x[2][1]) for x in a[2])
            elif a[0] == 'seq' and not a[2]:
                items = ()
            else:
                items = (('**', a if a[0] != 'seq' else _unwrap(a)),)
        for k, v in kws:
            items = items + ((k if k == '**' else const(k), v),)
        if len(items) == 1 and items[0][0] == '**' and not kws and \
                items[0][1][0] not in ('map',):
            return [(s, ('dict', items))]
        return [(s, ('dict', _dedupe_dict(items)))]

    def _classes(self, t):
        if t[0] == 'seq':
            return tuple(sorted(set(t[2]), key=repr))
        return (t,)

    def _method_builtin(self, b, name, args, kws, s):
        if name == 'format' and b[0] == 'C' and b[1] == 'str':
            return [(s, ('str', (b,) + tuple(args) + tuple(
                v for _, v in kws)))]
        if name == 'copy' and not args and b[0] in ('dict', 'seq', 'map'):
            return [(s, b)]
        if name == 'union' and not kws and b[0] == 'seq' and b[1] == 'set':
            items = b[2]
            for a in args:
                if a[0] == '*':
                    items = items + (('*', ('map', ('*', elem(a[1])),
                                            iter_source(a[1]), ())),)
                else:
                    items = items + seq_items(a)
            return [(s, mk_seq('set', items))]
        if name == 'get' and b[0] == 'dict' and args and is_const(args[0]):
            keys = [k for k, _ in b[1]]
            if args[0] in keys and '**' not in keys[keys.index(args[0]):]:
                return [(s, dict(b[1])[args[0]])]
            if '**' not in keys and all(is_const(k) for k in keys):
                return [(s, args[1] if len(args) > 1 else NONE)]
        return None


def _kind_of_term(t):
    if t[0] == 'seq':
        return t[1]
    if t[0] == 'dict':
        return 'dict'
    if t[0] == 'call' and t[1][0] == 'G':
        n = t[1][1].rpartition('.')[2]
        if n in ('set', 'frozenset'):
            return 'set'
        if 'dict' in n.lower():
            return 'dict'
    return 'list'


def _unwrap(a):
    while a[0] == 'seq' and len(a[2]) == 1 and a[2][0][0] == '*':
        a = a[2][0][1]
    return a


def _dedupe_dict(items):
    out = []
    for k, v in items:
        if k != '**':
            for i, (k2, _) in enumerate(out):
                if k2 == k and not any(kk == '**' for kk, _ in out[i + 1:]):
                    out[i] = (k, v)
                    break
            else:
                out.append((k, v))
        else:
            out.append((k, v))
    return tuple(out)


def _as_load(target):
    t = ast.parse(ast.unparse(target), mode='eval').body
    return ast.copy_location(t, target)


def _assigned_names(node):
    res = set()
    body = node.body
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.Name) and isinstance(
                    n.ctx, (ast.Store, ast.Del)):
                res.add(n.id)
            elif isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in MUTATORS \
                    and isinstance(n.func.value, ast.Name):
                res.add(n.func.value.id)
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, (ast.Store, ast.Del)) and isinstance(
                        n.value, ast.Name):
                res.add(n.value.id)
    # comprehension targets are local to the comprehension
    for st in body:
        for n in ast.walk(st):
            if isinstance(n, ast.comprehension):
                pass
    return res


def _mutated_attrs(node):
    res = set()
    for st in node.body:
        for n in ast.walk(st):
            if isinstance(n, ast.Call) and isinstance(
                    n.func, ast.Attribute) and n.func.attr in MUTATORS \
                    and isinstance(n.func.value, ast.Attribute):
                res.add(n.func.value.attr)
            elif isinstance(n, ast.Subscript) and isinstance(
                    n.ctx, ast.Store) and isinstance(n.value, ast.Attribute):
                res.add(n.value.attr)
            elif isinstance(n, ast.Attribute) and isinstance(
                    n.ctx, ast.Store):
                res.add(n.attr)
    return res


def _may_raise(stmt):
    for n in ast.walk(stmt):
        if isinstance(n, (ast.Call, ast.Subscript, ast.Attribute, ast.BinOp,
                          ast.Raise, ast.Compare, ast.Yield, ast.Assert)):
            return True
        if isinstance(n, ast.Assign) and isinstance(
                n.targets[0], ast.Tuple):
            return True
    return False


def _raise_sig(stmt):
    return ast.unparse(stmt)[:80]
