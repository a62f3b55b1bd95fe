"""Rendering: every part of an expression occurs in its rendering, flags are
understood by whoever they are passed to, the adjoint rendering conjugates all
parts and reverses products."""
import ast
import re

from ..calculus import instances
from ..core import where
from ..flow import (SELF, NONE, Budget, const, is_const, const_val, mk_seq,
                    walk, replace, elem)
from ..model import flow, concrete_expressions, short, is_abstract_cls
from ..src import AnalysisError
from .adjoint import inline_all, conds_text
from .srepr import Unknown, text
from .traverse import leaves_of

EXPR = ('P', 'expr')
PRINTERS = ('QnetAsciiPrinter', 'QnetUnicodePrinter', 'QnetLatexPrinter')
STOP = ('doprint', 'parenthesize', '_render_str', '_render_hs_label',
        '_render_state_label', 'precedence', '_isinstance',
        'render_unicode_sub_super', '_print_SCALAR_TYPES', '_render_op',
        '_braket_fmt', '_print')
# what a rendering need not show: the basis of a space, the number of channels
# of a symbol, the (implied) sign
SILENT = {'cdim', 'basis', 'dimension', 'order_index', 'local_identifiers',
          'spin', 'kwargs'}


def renderer(repo, printer, cls):
    """the _print_X method that renders instances of cls"""
    for c in cls.mro:
        if not hasattr(c, 'node'):
            continue
        found = repo.lookup(printer, '_print_' + c.name)
        if found and found[1] == 'method':
            return '_print_' + c.name, found
    return None


def own_printmethod(repo, printer, cls):
    v = repo.lookup(printer, 'printmethod')
    if v and isinstance(v[2], ast.AST):
        for n in ast.walk(v[2]):
            if isinstance(n, ast.Constant) and isinstance(n.value, str):
                return bool(repo.lookup(cls, n.value))
    return False


def params(fn):
    a = fn.args
    return {x.arg for x in a.args[2:] + a.kwonlyargs}, a.kwarg is not None


def summaries(repo, printer, name, fn, flags, inline=STOP, hook=None):
    """paths of the method called with the given keyword flags"""
    f = flow(repo, inline=inline_all(*inline), exact_self=printer,
             max_paths=3000)
    f.merging = False
    f.attr_hook = hook
    names, kw = params(fn)
    args = {fn.args.args[1].arg: EXPR}
    rest = []
    defaults = dict(zip([a.arg for a in fn.args.args][::-1],
                        fn.args.defaults[::-1]))
    defaults.update({a.arg: d for a, d in zip(
        fn.args.kwonlyargs, fn.args.kw_defaults) if d is not None})
    for n in names:
        d = defaults.get(n)
        if isinstance(d, ast.Constant):
            args[n] = const(d.value)
    for k, v in flags.items():
        if k in names:
            args[k] = const(v)
        elif kw:
            rest.append((const(k), const(v)))
        else:
            raise KeyError(k)
    if kw:
        args[fn.args.kwarg.arg] = ('dict', tuple(rest))
    return [p for p in f.summarise_method(printer, name, args=args) or ()
            if p.out[0] == 'return']


def attr_chain(t):
    """names of the attributes that lead from the expression to t"""
    res = []
    while True:
        if t == EXPR:
            return tuple(reversed(res))
        if t[0] == 'A':
            res.append(t[2])
            t = t[1]
        elif t[0] == 'elem':
            t = t[1]
        elif t[0] == 'sub':
            t = t[1]
        elif t[0] == 'rev':
            t = t[1]
        elif t[0] == 'call' and t[1][0] == 'A' and t[1][2] in (
                'items', 'keys', 'values', 'copy') and not t[2]:
            t = t[1][1]
        else:
            return None


def uses(t):
    """maximal attribute chains in t"""
    res = set()

    def rec(x):
        if isinstance(x, frozenset):
            for y in x:
                rec(y)
        if not isinstance(x, tuple):
            return
        c = attr_chain(x) if x and isinstance(x[0], str) else None
        if c:
            res.add(c)
            if x[0] == 'sub':
                rec(x[2])
            return
        if x == EXPR:
            res.add(())
            return
        if x and x[0] == 'call' and x[1] in (
                ('G', 'qnet.printing._precedence.precedence'),):
            return      # decides about parentheses only
        for y in x:
            rec(y)
    rec(t)
    return res


class Parts:
    """which constructor arguments an attribute of the class depends on"""

    def __init__(self, repo, cls):
        self.repo, self.cls = repo, cls
        self.insts = instances(
            repo, cls, lengths=(1 if cls.name == 'SeriesInverse' else 2,))
        self.cache = {}

    def leaves(self, inst):
        return {x for x in leaves_of(inst) if x[1] not in SILENT}

    def of(self, inst, name):
        k = id(inst), name
        if k not in self.cache:
            res = set()
            h = inst.heap.get((SELF, name))
            if h is not None:
                ts = [h]
            else:
                f = flow(self.repo, inline=inline_all(), exact_self=self.cls)
                try:
                    ts = [p.value for p in f.summarise_method(
                        self.cls, name, heap=inst.heap, conds=inst.conds)
                        or () if p.out[0] == 'return']
                except (Budget, AnalysisError):
                    ts = []
                if not ts and (SELF, '_' + name) in inst.heap:
                    ts = [inst.heap[SELF, '_' + name]]
            for t in ts:
                res |= {x for x in walk(t) if isinstance(x, tuple) and
                        x[0] == 'P' and x != SELF}
            self.cache[k] = res
        return self.cache[k]


def decided(conds):
    """attribute chains whose value is fixed by a condition of the path: equal
    to a constant, empty, missing"""
    res = set()
    for c, b in conds:
        if c[0] == 'cmp' and len(c) == 4:
            op, l, r = c[1:]
            for x, y in ((l, r), (r, l)):
                ch = attr_chain(x)
                if ch and is_const(y) and b == (op in ('==', 'is')) and \
                        op in ('==', '!=', 'is', 'is not'):
                    res.add(ch)
                if b and op in ('==', 'in') and x is l and not ch and (
                        is_const(y) or y[0] == 'seq'):
                    # the text is that of a constant
                    res |= uses(x)
                if x[0] == 'call' and x[1] == ('G', 'builtins.len') and \
                        is_const(y) and (op, const_val(y), b) in (
                            ('<', 1, True), ('==', 0, True),
                            ('<=', 0, True)) and x is l:
                    res |= uses(x[2][0])
        else:
            ch = attr_chain(c)
            if ch and not b:
                res.add(ch)
        if c[0] == 'call' and c[1] == ('G', 'builtins.hasattr') and not b \
                and is_const(c[2][1]):
            ch = attr_chain(c[2][0])
            if ch:
                res.add(ch + (const_val(c[2][1]),))
    return res


def without_space(conds):
    return any(any(is_const(x) and const_val(x) == 'show_hs_label'
                   for x in walk(c)) and not b for c, b in conds)


def same_for_all(cls, name):
    """BraKet and KetBra take states of the same space"""
    return cls.name in ('BraKet', 'KetBra') and name == 'space'


NAME_PARTS = ('label', 'sym_args', 'space')


def shown(repo, parts, inst, cls, conds, *terms):
    """arguments that do not occur in the rendering"""
    chains = set()
    for t in terms:
        chains |= uses(t)
    fixed = decided(conds)
    need = parts.leaves(inst)
    have = set()
    partial = {}
    for c, b in conds:
        if b and c[0] == 'cmp' and c[1] in ('==', 'is'):
            l, r = attr_chain(c[2]), attr_chain(c[3])
            if l in chains or r in chains:
                fixed |= {x for x in (l, r) if x}
    for c in chains | fixed:
        if not c:       # the expression as a whole
            have |= need
        elif len(c) == 1:
            have |= parts.of(inst, c[0]) & need
        else:
            for x in parts.of(inst, c[0]):
                partial.setdefault(x, set()).add(c[-1])
    spaces = any(c and c[-1] in ('space', '_hs', 'hs') for c in chains)
    for x, names in partial.items():
        # parts of an operand: complete only if all of its name is there
        if 'label' in names and spaces:
            have.add(x)
    res = set()
    for x in need - have:
        if x[1] in ('hs', 'over_space') and without_space(conds):
            continue
        res.add(x)
    return res, partial


def symbol_parts(cls, conds, value):
    """operands rendered by their name must show the symbol arguments, too"""
    bad = []
    fixed = decided(conds)
    chains = uses(value)
    for c in chains:
        if len(c) < 2 or c[-1] != 'label':
            continue
        root = c[0]
        if root == 'operands':
            ok = any(x[0] == 'call' and x[1][0] == 'A' and
                     x[1][2] == '_isinstance' and is_const(x[2][1]) and
                     const_val(x[2][1]) == 'BasisKet' and b
                     for x, b in conds)
        else:
            ok = any(y and y[0] == root and y[-1] == 'sym_args'
                     for y in chains | fixed)
        if not ok:
            bad.append(root)
    return bad


PLAIN = {'identifier', '_identifier_projector', 'start_from', 'to', 'step',
         'out_in_pair', 'permutation', 'cdim', 'n', 'derivs', 'tag'}


def raw_parts(t):
    """parts inserted into a text without having been rendered"""
    res = set()
    for x in walk(t):
        inner = ()
        if x[0] == 'str':
            inner = [y[1] if y[0] == '*' else y for y in x[1]]
        elif x[0] == 'call' and x[1] in (('G', 'builtins.str'),
                                         ('G', 'builtins.repr')):
            inner = x[2]
        for y in inner:
            ch = attr_chain(y) if isinstance(y, tuple) else None
            if ch and ch[-1] not in PLAIN and ch[0] not in PLAIN:
                res.add('.'.join(ch))
    return res


def coverage(repo, rep, printer, cls):
    key = 'parts:%s:%s' % (printer.name, cls.name)
    if own_printmethod(repo, printer, cls):
        rep.undec(key, 'renders itself')
        return
    r = renderer(repo, printer, cls)
    if r is None:
        rep.count('rendered in full by the fallback')
        return
    name, found = r
    w = where(repo, found[0].module, found[2])
    try:
        parts = Parts(repo, cls)
        ps = summaries(repo, printer, name, found[2], {})
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return
    if not ps:
        rep.undec(key, 'no returning path')
    for p in ps:
        for inst in parts.insts:
            miss, _ = shown(repo, parts, inst, cls, p.conds, p.value)
            rep.decide(key, not miss, w, '%s does not show %s in %s%s' % (
                name, ', '.join(sorted(short(x) for x in miss)),
                short(p.value), conds_text(p)))
        raw = raw_parts(p.value)
        rep.decide(key, not raw, w, '%s is not rendered by the printer in '
                   '%s' % (', '.join(sorted(raw)), short(p.value)))
        check_balance(repo, rep, printer, key, w, p)
        bad = symbol_parts(cls, p.conds, p.value)
        rep.decide(key, not bad, w, '%s shows the label of %s, but not its '
                   'symbol arguments%s' % (name, ', '.join(bad),
                                           conds_text(p)))


def class_text(repo, printer, name):
    """the constant text of a class attribute of the printer"""
    v = repo.lookup(printer, name)
    if v and isinstance(v[2], ast.AST):
        n = v[2].value if isinstance(v[2], ast.Assign) else v[2]
        if isinstance(n, ast.Constant) and isinstance(n.value, str):
            return n.value
    return None


def brackets(repo, printer, t, depth=0):
    """[(, ), ...] of the literal parts of a rendering, in order"""
    if is_const(t):
        v = const_val(t)
        return [c for c in v if c in '()[]{}'] if isinstance(v, str) else []
    if t[0] == 'A' and t[1] == SELF:
        v = class_text(repo, printer, t[2])
        return brackets(repo, printer, const(v)) if v is not None else []
    if t[0] == 'str' and t[1] and is_const(t[1][0]):
        fmt = const_val(t[1][0])
        args = list(t[1][1:])
        if not re.search(r'%[sdr]', fmt) and re.search(r'\{\w*\}', fmt):
            bits = ['']
            for b in re.split(r'(\{\{|\}\}|\{[^{}]*\})', fmt):
                if b in ('{{', '}}'):
                    bits[-1] += b[0]
                elif b.startswith('{') and b.endswith('}'):
                    bits.append('')
                else:
                    bits[-1] += b
        else:
            bits = re.split(r'%[sdr]', fmt)
        res = []
        for i, b in enumerate(bits):
            res += brackets(repo, printer, const(b))
            if i < len(args):
                res += brackets(repo, printer, args[i])
        return res
    if t[0] == 'bin' and t[1] == '+':
        return brackets(repo, printer, t[2]) + brackets(repo, printer, t[3])
    if t[0] in ('seq',):
        return [b for x in t[2] for b in brackets(repo, printer, x)]
    if t[0] == '*':
        return brackets(repo, printer, t[1])
    if t[0] == 'map':
        return brackets(repo, printer, t[1])
    if t[0] == 'call' and t[1][0] == 'A' and t[1][2] == 'join' and \
            len(t[2]) == 1:
        return brackets(repo, printer, t[2][0])
    return []


PAIRS = {')': '(', ']': '[', '}': '{'}


def balanced(found):
    st = []
    for b in found:
        if b in PAIRS:
            if not st or st.pop() != PAIRS[b]:
                return False
        else:
            st.append(b)
    return not st


def check_balance(repo, rep, printer, key, w, p):
    b = brackets(repo, printer, p.value)
    if b:
        rep.decide(key, balanced(b), w, 'unbalanced brackets %s in %s' % (
            ''.join(b), short(p.value)))


def operands_in_order(repo, rep, printer, cls, n=3):
    """the renderer of a class with any number of operands, for n of them"""
    key = 'operands:%s:%s' % (printer.name, cls.name)
    r = renderer(repo, printer, cls)
    if r is None or own_printmethod(repo, printer, cls):
        return
    name, found = r
    ops = [('P', 'o%d' % i) for i in range(n)]
    names = ('operands', 'args') if ctor_variadic(repo, cls) else (
        'operands',)
    wholes = [('A', EXPR, x) for x in names]

    def hook(t):
        return mk_seq('tuple', ops) if t in wholes else None
    try:
        plain = summaries(repo, printer, name, found[2], {})
        if not any(x[0] in ('map', 'elem') and any(
                y in wholes for y in walk(x)) or
                   x[0] == 'call' and any(y in wholes for y in x[2])
                   for p in plain for x in walk((p.value, p.conds))):
            return      # a fixed number of operands, see `parts`
        ps = summaries(repo, printer, name, found[2], {}, hook=hook)
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return
    w = where(repo, found[0].module, found[2])
    for p in ps:
        present = {x for x in walk((p.value, p.conds)) if x in ops}
        if not present:
            continue
        # operands that the path knows to be identities
        ident = {c[2][0] for c, b in p.conds if b and c[0] == 'call' and
                 c[1] == ('A', SELF, '_isinstance') and len(c[2]) == 2 and
                 c[2][1] == const('CIdentity')}
        want = []
        for o in ops:
            if o in ident:
                if want and isinstance(want[-1], int):
                    want[-1] += 1
                else:
                    want.append(1)
            else:
                want.append(o)
        try:
            got = shown_operands(text(p.value), ops)
        except Unknown:
            got = None
        if got is None or len(got) != len(want) and not ident:
            # only that all of them are there
            rep.decide(key, all(occurs(p.value, o) or o in ident
                                for o in ops), w,
                       '%s does not show all operands in %s%s' % (
                           name, short(p.value), conds_text(p)))
            continue
        ok = got == want
        if not ok and repo.is_sub(cls, 'QuantumPlus'):
            ok = set(map(repr, got)) == set(map(repr, want))
        rep.decide(key, ok, w, '%s shows the operands as %s instead of %s in '
                   '%s' % (name, got, want, short(p.value)))


def ctor_variadic(repo, cls):
    found = repo.lookup(cls, '__init__')
    return found is not None and found[2].args.vararg is not None and \
        not [a for a in found[2].args.args if a.arg != 'self']


def equated(conds, x):
    """what the path knows to equal x"""
    res = {x}
    grown = True
    while grown:
        grown = False
        for c, b in conds:
            if c[0] == 'cmp' and len(c) == 4 and (c[1], b) in (
                    ('==', True), ('!=', False)):
                if (c[2] in res) != (c[3] in res):
                    res |= {c[2], c[3]}
                    grown = True
    return res


def every_item(repo, rep, printer, cls):
    """the renderer of a class with several variables, values or ranges shows
    each of them"""
    key = 'items:%s:%s' % (printer.name, cls.name)
    r = renderer(repo, printer, cls)
    if r is None or own_printmethod(repo, printer, cls):
        return
    name, found = r
    w = where(repo, found[0].module, found[2])
    n = 2
    for attr in ('derivs', 'vals', 'ranges'):
        if attr not in walk_names(found[2]):
            continue
        whole = ('A', EXPR, attr)
        if attr == 'ranges':
            its = [('P', 'r%d' % i) for i in range(n)]
            seq = mk_seq('tuple', its)
        else:
            its = [(('P', 's%d' % i), ('P', 'v%d' % i)) for i in range(n)]
            seq = ('dict', tuple(its))

        def hook(t):
            return seq if t == whole else None
        try:
            ps = summaries(repo, printer, name, found[2], {}, hook=hook)
        except (Budget, AnalysisError) as e:
            rep.undec(key, str(e))
            continue
        for p in ps:
            if any(c in (seq, whole) and not b for c, b in p.conds) or any(
                    b and c[0] == 'cmp' and c[1] == 'is' and c[3] == NONE and
                    c[2][0] == 'call' and c[2][1][0] == 'A' and
                    c[2][1][2] in ('doprint', 'parenthesize')
                    for c, b in p.conds):       # a text is never None
                continue
            need = []
            if attr == 'ranges':
                for r in its:
                    # rendered in parts if a part of any range is
                    one = next((x for x in walk((p.value, p.conds))
                                if x[0] == 'call' and x[2] and x[2][0] in its
                                and 'which' in dict(x[3])), None)
                    if one is None:
                        need.append(r)
                        continue
                    need += [('call', one[1], (r,) + one[2][1:], tuple(
                        (k, const(which) if k == 'which' else v)
                        for k, v in one[3])) for which in (
                            'bottom_index', 'bottom_rhs', 'top')]
            else:
                need = [x for it in its for x in it]
            if attr == 'derivs':
                # an order that is known is shown unless it is one
                bad = [k for it in its for y in equated(p.conds, it[1])
                       for k in [y] if is_const(y) and const_val(y) != 1
                       and not occurs(p.value, it[1]) and not any(
                           z[0] == 'C' and z[1] == 'str' and
                           str(const_val(y)) in const_val(z)
                           for z in walk(p.value))]
                rep.decide(key, not bad, w, '%s does not show the order %s%s'
                           % (name, ', '.join(short(x) for x in bad),
                              conds_text(p)))
            miss = [x for x in need if not any(
                occurs(p.value, y) or empty_or_fixed(p.conds, y)
                for y in equated(p.conds, x))]
            rep.decide(key, not miss, w, '%s with two %s does not show %s in '
                       '%s%s' % (name, attr, ', '.join(
                           short(x) for x in miss), short(p.value),
                           conds_text(p)))


def walk_names(fn):
    return {x.attr for x in ast.walk(fn) if isinstance(x, ast.Attribute)}


def shown_operands(pieces, ops):
    res = []
    for x in pieces:
        if isinstance(x, str) or x[0] == 'ws':
            continue
        here = [o for o in ops if occurs(x, o)]
        cid = [y for y in walk(x) if y[0] == 'bin' and y[1] == '%' and
               y[2] == ('A', SELF, '_cid') or y[0] == 'str' and y[1] and
               y[1][0] == ('A', SELF, '_cid')]
        if cid:
            k = cid[0][3] if cid[0][0] == 'bin' else cid[0][1][-1]
            if k[0] == '*':
                k = k[1]
            if not is_const(k) or here:
                return None
            res.append(const_val(k))
        elif len(here) == 1:
            res.append(here[0])
        elif here:
            return None
    return res


# -- helpers ------------------------------------------------------------------

def occurs(t, x):
    return any(y == x for y in walk(t))


def empty_or_fixed(conds, x):
    """the path knows that x (or a text made of it) is empty, None or equal to
    a constant"""
    for c, b in conds:
        if c == x and not b:
            return True
        if c[0] == 'cmp' and len(c) == 4:
            op, l, r = c[1:]
            if op in ('is', '==', 'in') and b and occurs(l, x) and (
                    is_const(r) or r[0] == 'seq'):
                return True
            if l[0] == 'call' and l[1] == ('G', 'builtins.len') and \
                    occurs(l, x) and is_const(r) and (
                        op, const_val(r), b) in (
                            ('<', 1, True), ('==', 0, True)):
                return True
    return False


def arguments_shown(repo, rep, printer, name, stop, need, flags=None,
                    excused=None):
    """on every path the result of a helper depends on the parameters `need`"""
    key = 'helper:%s.%s' % (printer.name, name)
    found = repo.lookup(printer, name)
    if not found or found[1] != 'method':
        rep.undec(key, 'no such method')
        return []
    fn = found[2]
    w = where(repo, found[0].module, fn)
    names = [a.arg for a in fn.args.args]
    f = flow(repo, inline=inline_all(*[x for x in stop if x != name]),
             exact_self=printer, max_paths=3000)
    f.merging = False
    try:
        ps = [p for p in f.summarise_method(
            printer, name, args={k: const(v) for k, v in
                                 (flags or {}).items()}) or ()
              if p.out[0] == 'return']
    except Budget:
        rep.undec(key, 'path budget')
        return []
    for p in ps:
        for n in need:
            if n not in names:
                rep.undec(key, 'no parameter ' + n)
                continue
            ok = occurs(p.value, ('P', n)) or empty_or_fixed(
                p.conds, ('P', n)) or bool(excused and excused(n, p))
            rep.decide(key, ok, w, '%s does not show %s in %s%s' % (
                name, n, short(p.value), conds_text(p)))
        check_balance(repo, rep, printer, key, w, p)
    if not ps:
        rep.undec(key, 'no returning path')
    return [(key, w, p) for p in ps]


HSTOP = ('doprint', 'precedence', '_isinstance', 'render_unicode_sub_super',
         'render_latex_sub_super', '_print', '_split_op', '_render_str',
         '_render_hs_label', '_split_identifier', '_print_SCALAR_TYPES')


def helper_obligations(repo, rep, printer):
    def no_space(n, p):
        return n == 'hs' and without_space(p.conds)
    for key, w, p in arguments_shown(
            repo, rep, printer, '_render_op', HSTOP,
            ('identifier', 'hs', 'dagger', 'args'), excused=no_space):
        calls = {x for x in walk(p.value) if x[0] == 'call' and
                 x[1] == ('A', SELF, '_split_op')}
        if len(calls) != 1:
            rep.undec(key, short(p.value))
            continue
        c = calls.pop()
        for k in range(4):
            part = ('sub', c, const(k))
            rep.decide(key, occurs(p.value, part) or empty_or_fixed(
                p.conds, part), w, 'part %d of the name is dropped in %s%s' % (
                    k, short(p.value), conds_text(p)))
    for dagger in (True, False):
        for key, w, p in arguments_shown(
                repo, rep, printer, '_split_op', HSTOP,
                ('identifier', 'hs_label', 'args'), {'dagger': dagger}):
            has = any(x[0] == 'A' and x[1] == SELF and x[2] == '_dagger_sym'
                      for x in walk(p.value))
            rep.decide(key, has == dagger, w, 'dagger=%s gives %s' % (
                dagger, short(p.value)))
            if p.value[0] != 'seq' or len(p.value[2]) != 4:
                rep.undec(key, short(p.value))
                continue
            for x in {x for x in walk((p.value, p.conds)) if x[0] == 'call' and
                      x[1] == ('A', SELF, '_split_identifier')}:
                for k, what in enumerate(('name', 'subscript')):
                    part = ('sub', x, const(k))
                    rep.decide(key, occurs(p.value[2][k], part) or
                               empty_or_fixed(p.conds, part), w,
                               'the %s of the identifier is dropped in %s%s' %
                               (what, short(p.value), conds_text(p)))
    for key, w, p in arguments_shown(repo, rep, printer, '_split_identifier',
                                     HSTOP, ('identifier',)):
        v = p.value
        if v[0] == 'seq' and len(v[2]) == 2 and not any(
                c[0] == 'exc' for c, b in p.conds):
            rep.decide(key, occurs(v[2][1], ('P', 'identifier')), w,
                       'the subscript is dropped: ' + short(v))
    for key, w, p in arguments_shown(repo, rep, printer, '_render_hs_label',
                                     [x for x in HSTOP if x != '_render_str'],
                                     ('hs',)):
        if any(c[0] == 'isinst' and b and 'Singleton' in repr(c)
               for c, b in p.conds):
            continue
        if empty_or_fixed(p.conds, ('P', 'hs')):
            continue
        lf = ('A', ('P', 'hs'), 'local_factors')
        rep.decide(key, any(x[0] == 'map' and x[2] == lf and not x[3]
                            for x in walk(p.value)), w,
                   'not the labels of all local factors: ' + short(p.value))
    arguments_shown(repo, rep, printer, '_render_state_label',
                    HSTOP, ('label',))
    arguments_shown(repo, rep, printer, '_render_str', HSTOP, ('string',))
    # parentheses
    for key, w, p in arguments_shown(repo, rep, printer, 'parenthesize',
                                     HSTOP, ('expr', 'args', 'kwargs')
                                     if False else ('expr',)):
        calls = [x for x in walk(p.value) if x[0] == 'call' and
                 x[1] == ('A', SELF, 'doprint')]
        if len(calls) != 1:
            rep.undec(key, short(p.value))
            continue
        c = calls[0]
        rep.decide(key, c[2][0] == ('P', 'expr') and ('*', ('P', 'args')) in
                   c[2] and any(v == ('P', 'kwargs') for _, v in c[3]), w,
                   'flags are not passed on: ' + short(c))
        parens = {x[2] for x in walk(p.value) if x[0] == 'A' and
                  x[1] == SELF and 'parenth' in x[2]}
        prec = ('call', ('G', 'qnet.printing._precedence.precedence'),
                (('P', 'expr'),), ())
        lower = equal = strict = None
        for c, b in p.conds:
            if c == ('cmp', '<', prec, ('P', 'level')):
                lower = b
            elif c[0] == 'cmp' and c[1] == '==' and set(c[2:]) == {
                    prec, ('P', 'level')}:
                equal = b
            elif c == ('P', 'strict'):
                strict = b
        if lower is None:
            rep.undec(key, 'condition' + conds_text(p))
            continue
        want = lower or bool(strict and equal)
        rep.decide(key, bool(parens) == want and len(parens) != 1, w,
                   '%s parentheses%s' % ('no' if want else 'useless',
                                         conds_text(p)))
    for key, w, p in arguments_shown(repo, rep, printer,
                                     '_print_SCALAR_TYPES', HSTOP, ('expr',)):
        adj = [b for c, b in p.conds if c[0] == 'call' and
               c[1] == ('A', ('P', 'kwargs'), 'get') and is_const(c[2][0]) and
               const_val(c[2][0]) == 'adjoint']
        if len(adj) != 1:
            rep.undec(key, 'condition' + conds_text(p))
            continue
        conj = any(x[0] == 'call' and x[1][0] == 'A' and x[1][2] in (
            'conjugate', 'adjoint') for x in walk(p.value))
        plain = occurs(replace(p.value, lambda x: NONE if x[0] == 'call' and
                               x[1][0] == 'A' and x[1][2] in (
                                   'conjugate', 'adjoint') else None),
                       ('P', 'expr'))
        rep.decide(key, conj == adj[0] and plain != conj, w,
                   'adjoint %s gives %s' % (adj[0], short(p.value)))
    # adjoint of a rendered expression
    for key, w, p in arguments_shown(repo, rep, printer, '_render_adjoint',
                                     HSTOP, ('rendered',)):
        rep.decide(key, any(x == ('A', SELF, '_dagger_sym')
                            for x in walk(p.value)), w,
                   'no dagger: ' + short(p.value))
    bra_ket_formats(repo, rep, printer)


def bra_ket_formats(repo, rep, printer):
    """the templates for states show all labels and (unless switched off) the
    space"""
    key = 'formats:%s' % printer.name
    found = repo.lookup(printer, '_braket_fmt')
    if not found or found[1] != 'method':
        rep.undec(key, 'no _braket_fmt')
        return
    w = where(repo, found[0].module, found[2])
    kinds = {'bra': ('label',), 'ket': ('label',),
             'ketbra': ('label_i', 'label_j'), 'braket': (
                 'label_i', 'label_j')}
    n = 0
    for d in ast.walk(found[2]):
        if not isinstance(d, ast.Dict):
            continue
        for k, v in zip(d.keys, d.values):
            if not (isinstance(k, ast.Constant) and k.value in kinds and
                    isinstance(v, ast.Dict)):
                continue
            seen = set()
            for k2, v2 in zip(v.keys, v.values):
                if not isinstance(k2, ast.Constant):
                    continue
                seen.add(k2.value)
                text = ''.join(x.value for x in ast.walk(v2) if isinstance(
                    x, ast.Constant) and isinstance(x.value, str))
                order = [text.find('{%s}' % x) for x in kinds[k.value]]
                n += 1
                rep.decide(key, min(order) >= 0 and order == sorted(order), w,
                           '%s: %r lacks a label' % (k.value, text))
                rep.decide(key, ('{space}' in text) == bool(k2.value), w,
                           '%s: space in %r' % (k.value, text))
            rep.decide(key, seen == {True, False, 'subscript'}, w,
                       '%s: formats for %s' % (k.value, sorted(map(str,
                                                                   seen))))
    if not n:
        rep.undec(key, 'no table of formats')


def sub_super(repo, rep):
    for q in ('qnet.printing.latexprinter.render_latex_sub_super',
              'qnet.printing._unicode_mappings.render_unicode_sub_super'):
        try:
            mod, fn = repo.func(q)
        except AnalysisError as e:
            rep.undec('helper:' + q, str(e))
            continue
        key = 'helper:' + q.rpartition('.')[2]
        w = where(repo, mod, fn)
        f = flow(repo, inline=inline_all(), max_paths=20000)
        f.merging = True
        try:
            ps = f.summarise(mod, fn, args={
                'sep': ('P', 'sep')})
        except Budget:
            rep.undec(key, 'path budget')
            continue
        for p in ps:
            if p.out[0] != 'return':
                continue
            for n in ('name', 'subs', 'supers'):
                rep.decide(key, occurs(p.value, ('P', n)) or empty_or_fixed(
                    p.conds, ('P', n)), w, '%s is dropped%s' % (
                        n, conds_text(p)))


# -- index ranges -------------------------------------------------------------

def known_value(conds, x):
    """does the path know the value of x (up to its sign)"""
    size = ('call', ('G', 'builtins.abs'), (x,), ())
    for c, b in conds:
        if (c == x or not any(y[0] in ('cmp', 'call') for y in walk(c)) and
                occurs(c, x)) and not b:
            return True
        if c[0] != 'cmp':
            continue
        op, l, r = c[1:]
        if b and op in ('==', 'is', 'in') and (
                l in (x, size) and (is_const(r) or r[0] == 'seq') or
                r in (x, size) and is_const(l)):
            return True
        if (op, l, r, b) in (('<', const(1), size, False),
                             ('<', size, const(2), True),
                             ('<=', size, const(1), True)):
            return True
        if op == '<' and r == const(1) and b and l[0] == 'call' and \
                l[1] == ('G', 'builtins.len') and occurs(l, x):
            return True
    return False


def range_obligations(repo, rep, printer):
    from .traverse import fields_of
    for c in repo.subclasses(repo.cls('IndexRangeBase')):
        if is_abstract_cls(repo, c) or c.name == 'IndexRangeBase':
            continue
        key = 'range:%s:%s' % (printer.name, c.name)
        r = renderer(repo, printer, c)
        if r is None:
            rep.undec(key, 'no renderer')
            continue
        name, found = r
        w = where(repo, found[0].module, found[2])
        names, _ = fields_of(repo, c)
        for group in (('bottom', 'top'), ('bottom_index', 'bottom_rhs',
                                          'top')):
            ok = True
            shown_ = {}
            for which in group:
                ps = summaries(repo, printer, name, found[2],
                               {'which': which})
                rep.decide(key, any(p.out[0] == 'return' for p in ps), w,
                           '%s fails for %s' % (name, which))
                for p in ps:
                    u = {x[0] for x in uses(p.value) if x}
                    for n in names:
                        if n not in u and not known_value(
                                p.conds, ('A', EXPR, n)):
                            shown_.setdefault(n, []).append(which)
            for n in names:
                miss = shown_.get(n, [])
                rep.decide(key, len(set(miss)) < len(group), w,
                           '%s is not shown by any of %s' % (
                               n, ', '.join(group)))


# -- flags --------------------------------------------------------------------

KIND = {'ket': 'State', 'bra': 'Bra', 'operator': 'Operator',
        'op': 'Operator', 'sop': 'SuperOperator', 'coeff': 'Scalar',
        'ranges': 'IndexRangeBase', 'A': 'Operator', 'B': 'Operator'}
ALGEBRAS = ('Scalar', 'Operator', 'State', 'SuperOperator', 'Circuit')


def kind_of(repo, cls, chain):
    """base class of what an attribute of cls holds"""
    name = chain[0]
    if len(chain) > 1:
        return None
    if cls.name == 'Bra':
        return 'State'
    if cls.name in ('BraKet', 'KetBra'):
        return {'ket': 'State', 'bra': 'Bra'}.get(name)
    if name in KIND:
        return KIND[name]
    if cls.name in ('SPre', 'SPost', 'OperatorTrace'):
        return 'Operator'
    if name in ('operand', 'operands', 'term', 'args'):
        for a in ALGEBRAS:
            if repo.is_sub(cls, a):
                return a
    return None


def flag_obligations(repo, rep, printer):
    passed = {}     # class -> flag -> who passes it
    todo = []
    classes = {c.name: c for c in concrete_expressions(repo)}
    for b in ('IndexRangeBase',):
        for c in repo.subclasses(repo.cls(b)):
            if not is_abstract_cls(repo, c):
                classes[c.name] = c
    for c in classes.values():
        passed[c.name] = {}
        todo.append((c.name, ()))
    done = set()
    while todo:
        cn, flags = todo.pop()
        if (cn, flags) in done:
            continue
        done.add((cn, flags))
        cls = classes[cn]
        r = renderer(repo, printer, cls)
        if r is None:
            continue
        name, found = r
        fn = found[2]
        names, kw = params(fn)
        key = 'flags:%s:%s' % (printer.name, cn)
        w = where(repo, found[0].module, fn)
        bad = [k for k, _ in flags if k not in names and not kw]
        if bad:
            rep.violation(key, w, '%s does not accept %s, passed by %s' % (
                name, ', '.join(bad), passed[cn].get(bad[0])))
            continue
        rep.ok(key)
        try:
            ps = summaries(repo, printer, name, fn, dict(flags))
        except (Budget, AnalysisError) as e:
            rep.undec(key, str(e))
            continue
        for p in ps:
            terms = [p.value] + [c for c, b in p.conds]
            for t in terms:
                for x in walk(t):
                    if x[0] != 'call' or x[1] not in (
                            ('A', SELF, 'doprint'),
                            ('A', SELF, 'parenthesize')) or not x[2]:
                        continue
                    ch = attr_chain(x[2][0])
                    kws = [(k, v) for k, v in x[3] if k not in (
                        'strict', '**')]
                    if not ch or not kws:
                        continue
                    base = kind_of(repo, cls, ch)
                    if base is None:
                        rep.count('flags passed to parts of unknown kind')
                        continue
                    only = [const_val(c[2][1]) for c, b in p.conds if b and
                            c[0] == 'call' and c[1] == (
                                'A', SELF, '_isinstance') and
                            c[2][0] == x[2][0] and is_const(c[2][1])]
                    fl = tuple(sorted(
                        (k, const_val(v) if is_const(v) else True)
                        for k, v in kws))
                    for d in classes.values():
                        if not repo.is_sub(d, base):
                            continue
                        if only and not any(repo.is_sub(d, o) for o in only):
                            continue
                        for k, _ in fl:
                            passed[d.name].setdefault(k, name)
                        todo.append((d.name, fl))


def c18(repo, rep):
    rep.rule('parts', 'on every path, the rendering of a class depends on '
             'each of its constructor arguments, or the path fixes its value')
    rep.rule('operands', 'the renderers of classes with any number of '
             'operands show three of them in order, identities of circuits '
             'counted; literal brackets are balanced')
    rep.rule('items', 'the renderers of derivatives and indexed sums with '
             'two variables, values or ranges show each of them')
    rep.rule('helpers', 'the text helpers show each of their arguments')
    rep.rule('flags', 'the keyword arguments passed to the renderer of a part '
             'are accepted by the renderers of all classes the part can have')
    for pn in PRINTERS:
        printer = repo.cls(pn)
        for c in concrete_expressions(repo):
            rep.count('printer/class pairs')
            coverage(repo, rep, printer, c)
            operands_in_order(repo, rep, printer, c)
            every_item(repo, rep, printer, c)
        helper_obligations(repo, rep, printer)
        range_obligations(repo, rep, printer)
        flag_obligations(repo, rep, printer)
    sub_super(repo, rep)


# -- adjoint ------------------------------------------------------------------

PRODUCT = ('QuantumTimes', 'OperatorTimesKet', 'KetBra', 'BraKet',
           'SuperOperatorTimes', 'LocalSigma', 'Commutator')
INVERTS = ('Adjoint', 'SuperAdjoint', 'QuantumAdjoint', 'Bra')
SELF_ADJOINT = ('IdentityOperator', 'ZeroOperator', 'ZeroKet', 'TrivialKet',
                'IdentitySuperOperator', 'ZeroSuperOperator', 'Zero', 'One',
                'NullSpaceProjector', 'Jz')
OPERANDS = ('operand', 'operands', 'term', 'coeff', 'ket', 'bra', 'op', 'sop',
            'operator', 'A', 'B', 'args', 'val', 'j', 'k')


def sequence(t):
    """the operands in the order in which they are rendered:
    [(attribute, reversed, adjoint flag or None)]"""
    res = []

    def add(x):
        if not res or res[-1] != x:
            res.append(x)

    def backwards(x):
        return any(y[0] == 'rev' for y in walk(x))

    def rec(x):
        if isinstance(x, frozenset):
            for y in sorted(x, key=repr):
                rec(y)
            return
        if not isinstance(x, tuple) or not x:
            return
        ch = attr_chain(x) if isinstance(x[0], str) else None
        if ch:
            if ch[0] in OPERANDS and ch[-1] not in ('space', '_hs', 'hs',
                                                    'sym_args'):
                add((ch[0], backwards(x), None))
            return
        if x[0] == 'map':
            e = elem(x[2])
            ch = attr_chain(x[2])
            if ch and ch[0] in OPERANDS:
                n = len(res)
                rec(x[1])
                got, res[n:] = res[n:], []
                for c, _, f in got:
                    add((c, backwards(x[2]), f))
                return
            rec(x[1])
            return
        if x[0] == 'call':
            if x[1] == ('G', 'qnet.printing._precedence.precedence'):
                return
            if x[1] in (('A', SELF, 'doprint'), ('A', SELF, 'parenthesize')) \
                    and x[2]:
                ch = attr_chain(x[2][0])
                if ch:
                    if ch[0] in OPERANDS and ch[-1] != 'sym_args':
                        kw = dict(x[3])
                        v = kw.get('adjoint', const(False))
                        add((ch[0], backwards(x[2][0]),
                             const_val(v) if is_const(v) else v))
                    return
            rec(x[1])
            for y in x[2]:
                rec(y)
            for k, v in sorted(x[3], key=lambda y: str(y[0])):
                rec(v)
            return
        if x[0] == 'rev':
            n = len(res)
            rec(x[1])
            res[n:] = [(c, not r, f) for c, r, f in res[n:]][::-1]
            return
        for y in x[1:] if isinstance(x[0], str) else x:
            rec(y)
    rec(t)
    return res


def adjoint_rendering(repo, rep, printer, cls):
    key = 'adjoint:%s:%s' % (printer.name, cls.name)
    r = renderer(repo, printer, cls)
    if r is None:
        return
    name, found = r
    fn = found[2]
    names, kw = params(fn)
    if 'adjoint' not in names and not kw:
        return
    w = where(repo, found[0].module, fn)
    try:
        p0, p1 = (summaries(repo, printer, name, fn, {'adjoint': b})
                  for b in (False, True))
    except (Budget, AnalysisError) as e:
        rep.undec(key, str(e))
        return
    inverts = any(repo.is_sub(cls, x) for x in INVERTS)
    product = any(repo.is_sub(cls, x) for x in PRODUCT) and \
        not repo.is_sub(cls, 'Scalar') and cls.name != 'TensorKet' or \
        cls.name in ('BraKet',)

    def dagger(v):
        return any(x == ('A', SELF, '_dagger_sym') or
                   x[0] == 'call' and x[1] in (
                       ('A', SELF, '_render_op'),) and
                   dict(x[3]).get('dagger') == const(True) or
                   x[0] == 'call' and x[1] == ('A', SELF, '_render_adjoint')
                   for x in walk(v))

    def outer_dagger(v):
        """the dagger that belongs to the whole text"""
        return any(x == ('A', SELF, '_dagger_sym') for x in walk(v))

    def formats(v):
        return {const_val(x[2][0]) for x in walk(v) if x[0] == 'call' and
                x[1] == ('A', SELF, '_braket_fmt') and x[2] and
                is_const(x[2][0])}
    for q in p1:
        s1 = sequence(q.value)
        mates = [p for p in p0 if set(p.conds) == set(q.conds)] or [
            p for p in p0 if {x[0] for x in sequence(p.value)} ==
            {x[0] for x in s1}] or p0
        msg = '%s renders the adjoint as %s%s' % (name, short(q.value),
                                                  conds_text(q))
        flagged = [x for x in s1 if x[2] is not None]
        if any(x[2] not in (True, False) for x in flagged):
            rep.undec(key, msg)
            continue
        if cls.name in SELF_ADJOINT:
            rep.decide(key, not any(x[2] for x in flagged) or
                       outer_dagger(q.value), w, msg)
            continue
        if inverts:
            # the adjoint of the adjoint is the operand itself; operands that
            # take the flag over are asked for the adjoint of the adjoint
            rep.decide(key, s1 and not any(x[2] for x in flagged) and
                       not outer_dagger(q.value), w, msg)
            for p in p0:
                ok = outer_dagger(p.value) != any(
                    x[2] for x in sequence(p.value))
                rep.decide(key, ok, w, '%s renders %s' % (name,
                                                          short(p.value)))
            continue
        if outer_dagger(q.value):
            s0 = [sequence(p.value) for p in mates]
            rep.decide(key, not any(x[2] for x in flagged) and s1 in s0, w,
                       msg)
            continue
        if not s1 or not flagged:
            # a name: daggered, or a bra instead of a ket, or exchanged labels
            v0 = [p.value for p in mates]
            by_flag = [x for x in walk(q.value) if x[0] == 'call' and
                       x[1] == ('A', SELF, '_render_op') and
                       'dagger' in dict(x[3])]
            f1 = formats(q.value)
            if product:
                s0 = [sequence(p.value) for p in mates]
                same = any(b and c[0] == 'cmp' and c[1] == '==' and
                           attr_chain(c[2]) and attr_chain(c[3])
                           for c, b in q.conds)
                rep.decide(key, s1[::-1] in s0 or same and s1 in s0, w, msg)
            elif f1:
                rep.decide(key, f1 == {'bra'} and all(
                    formats(v) == {'ket'} for v in v0), w, msg)
            elif by_flag:
                own = [b for c, b in q.conds
                       if c == ('A', EXPR, '_dagger')]
                want = not own[0] if own else True
                rep.decide(key, all(dict(x[3])['dagger'] == const(want) or
                                    dict(x[3])['dagger'] == (
                                        'not', ('A', EXPR, '_dagger'))
                                    for x in by_flag), w, msg)
            elif not any(x == ('A', SELF, 'doprint') for x in
                         walk(q.value)) and not s1:
                # constant text: covered by the parts
                rep.decide(key, q.value not in v0 or any(
                    uses(c) for c, b in q.conds), w, msg)
            else:
                rep.decide(key, q.value not in v0, w, msg)
            continue
        quantum = [x for x in s1 if x[0] not in ('args',) or
                   repo.is_sub(cls, 'QuantumPlus')]
        ok = all(x[2] is True for x in quantum)
        if ok and product:
            s0 = [[(a, b) for a, b, _ in sequence(p.value)] for p in mates]
            me = [(a, not b if len(s1) == 1 else b) for a, b, _ in s1][::-1]
            ok = me in s0
        elif ok:
            s0 = [{a for a, b, _ in sequence(p.value)} for p in mates]
            ok = {a for a, b, _ in s1} in s0
        rep.decide(key, ok, w, msg)
        rep.decide(key, not any(x[2] for p in mates for x in sequence(
            p.value)), w, '%s renders the adjoint of a part: %s' % (
                name, short(mates[0].value)))


def c19(repo, rep):
    rep.rule('adjoint', 'with the adjoint flag, every operand is rendered '
             'with the flag (and products in reverse), or the whole text gets '
             'a dagger; symbols get a dagger or become a bra')
    for pn in PRINTERS:
        printer = repo.cls(pn)
        for c in concrete_expressions(repo, 'QuantumExpression'):
            rep.count('printer/class pairs')
            adjoint_rendering(repo, rep, printer, c)
