M = 'algebra/pattern_matching/__init__.py'
A = 'algebra/core/algebraic_properties.py'
SEEDS = [
dict(id='C21-finditer-keywords', prop='C21', file=M,
 old="""            for arg in expr.kwargs.values():
                for m in self.finditer(arg):
                    yield m
        except AttributeError:""",
 new="""            for arg in expr.kwargs.values():
                m = self.match(arg)
                if m:
                    yield m
        except AttributeError:""",
 needs='a matching part deep inside a keyword argument',
 breaks='iterating over the matches misses parts inside keyword arguments',
 demo="""
from qnet.algebra.pattern_matching import *
from qnet.algebra.pattern_matching import ProtoExpr, match_pattern
E = lambda *a, **k: ProtoExpr(list(a), k)
p = wc('a', head=int)
e = E(1, k=E(2, E(3)))
assert [m['a'] for m in p.finditer(e)] == [1, 2, 3] == p.findall(e)
"""),
dict(id='C21-product-left', prop='C21', file=A,
 old="        _match_replace_binary_combine(cls, a[:-1], r),\n        b[1:])",
 new="        a[:-1] + r,\n        b[1:])",
 needs='a rule whose result can be combined with the factor on its left',
 breaks='the result of a rule is not combined with the factor on its left',
 demo="""
from collections import OrderedDict
from qnet.algebra.core.algebraic_properties import match_replace_binary, assoc
from qnet.algebra.core.exceptions import CannotSimplify
from qnet.algebra.pattern_matching import *
from qnet.algebra.pattern_matching import ProtoExpr, match_pattern
def rule(A, B):
    if (A, B) == (2, 3):
        return 5
    if (A, B) == (1, 5):
        return 6
    raise CannotSimplify
class X:
    simplifications = [assoc, match_replace_binary]
    _neutral_element = 0
    _binary_rules = OrderedDict([('r', (pattern_head(wc('A'), wc('B')), rule))])
assert match_replace_binary(X, [1, 2, 3, 8], {}) == ([6, 8], {})
"""),
dict(id='C21-names-keyword', prop='C21', file=M,
 old="""            for val in self.kwargs.values():
                if isinstance(val, Pattern):
                    res.update(val.wc_names)
""",
 new="""            res.update(val.wc_name for val in self.kwargs.values()
                       if isinstance(val, Pattern) and val.wc_name)
""",
 needs='names inside of a pattern for a keyword argument',
 breaks='the names of a pattern miss those nested in keyword arguments',
 demo="""
from qnet.algebra.pattern_matching import *
from qnet.algebra.pattern_matching import ProtoExpr, match_pattern
p = pattern(None, wc('a'), k=pattern(None, wc('b'), wc_name='c'))
assert p.wc_names == {'a', 'b', 'c'}
"""),
dict(id='C21-ambiguous', prop='C21', file=M,
 old="                        elif i < len(args) - 1:\n",
 new="                        elif i < len(args) - 1 and \\\n                                arg.mode == self.one_or_more:\n",
 needs='a group of any number of arguments between other arguments',
 breaks='a pattern that cannot be matched without ambiguity is accepted',
 demo="""
from qnet.algebra.pattern_matching import *
for name in ('m__', 'm___'):
    try:
        pattern(None, wc('a'), wc(name), wc('b'))
    except ValueError:
        continue
    raise AssertionError(name)
"""),
dict(id='C21-keyword-first', prop='C21', file=M,
 old="""                    res.update(match_pattern(arg_pattern, expr.kwargs[key]))
                    if not res.success:
                        return res
""",
 new="""                    m = match_pattern(arg_pattern, expr.kwargs[key])
                    if not m:
                        res.update(m)
                        return res
                    for name, val in m.items():
                        res.setdefault(name, val)
""",
 needs='a name that occurs both in an argument and in a keyword argument',
 breaks='a name is bound to the argument although the keyword argument differs',
 demo="""
from qnet.algebra.pattern_matching import *
from qnet.algebra.pattern_matching import ProtoExpr
p = pattern_head(wc('a'), k=wc('a'))
assert p.match(ProtoExpr([1], {'k': 1}))
assert not p.match(ProtoExpr([1], {'k': 2}))
"""),
dict(id='C21-optional-group', prop='C21', file=M,
 old="                if last_arg_pattern.wc_name is not None:\n",
 new="                if last_arg_pattern.wc_name is not None and \\\n                        not self._non_single_arg_on_left:\n",
 needs='an optional group on the left without any argument',
 breaks='the name of an empty group on the left is missing in the match',
 demo="""
from qnet.algebra.pattern_matching import *
from qnet.algebra.pattern_matching import ProtoExpr
assert dict(pattern_head(wc('m___'), wc('a')).match(ProtoExpr([1], {}))) == {'m': [], 'a': 1}
"""),
]
