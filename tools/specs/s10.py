T='algebra/toolbox/core.py'
P='printing/__init__.py'
SEEDS = [
dict(id='C05-flag-true', prop='C05', file=T,
 old="""        Expression.instance_caching = orig_flag
""",
 new="""        Expression.instance_caching = not Expression.instance_caching
""",
 needs='a manager nested in another, or caching that was off before',
 breaks='caching is switched on although it was off before',
 demo="""
from qnet import *
from qnet.algebra.core.abstract_algebra import Expression
with no_instance_caching():
    assert Expression.instance_caching is False
assert Expression.instance_caching is True
with no_instance_caching():
    with no_instance_caching():
        pass
    assert Expression.instance_caching is False
"""),
dict(id='C05-rules-empty', prop='C05', file=T,
 old="""            if orig_rules[i] is not None:
                cls._rules = orig_rules[i]
""",
 new="""            if orig_rules[i]:
                cls._rules = orig_rules[i]
""",
 needs='a class without any rules so far, to which the body adds one',
 breaks='the rules that are added inside stay after leaving',
 demo="""
from qnet import *
from collections import OrderedDict
from qnet.algebra.pattern_matching import pattern_head, wc
from qnet.algebra.core.algebraic_properties import match_replace
class MyOp(OperatorSymbol):
    simplifications = [match_replace]
    _rules = OrderedDict()
rules = MyOp._rules
with temporary_rules(MyOp):
    MyOp.add_rule('R1', pattern_head(wc('a', head=int)), lambda a: a)
assert list(MyOp.rules()) == [], list(MyOp.rules())
assert MyOp._rules is rules
"""),
dict(id='C05-instances-update', prop='C05', file=T,
 old="""        for i, cls in enumerate(classes):
            cls._instances = orig_instances[i]


@contextmanager
def temporary_rules""",
 new="""        for i, cls in enumerate(classes):
            for key, instance in orig_instances[i].items():
                cls._instances[key] = instance
            cls._instances, orig_instances[i] = (
                orig_instances[i] or cls._instances, None)


@contextmanager
def temporary_rules""",
 needs='a class whose cache is empty when the manager is entered',
 breaks='instances that were cached inside are kept',
 demo="""
from qnet import *
from qnet.algebra.core.abstract_algebra import Expression
class MySym(OperatorSymbol):
    _instances = {}
with temporary_instance_cache(MySym):
    x = MySym.create('A', hs=0)
assert MySym._instances == {}, MySym._instances
n = len(Expression._instances)
with temporary_instance_cache(OperatorSymbol):
    OperatorSymbol.create('Xyz', hs=0)
assert len(OperatorSymbol._instances) == n
"""),
dict(id='C05-simplifications', prop='C05', file=T,
 old="""            cls._instances = orig_instances[i]
            cls.simplifications = orig_simplifications[i]
            if orig_rules""",
 new="""            cls._instances = orig_instances[i]
            if len(cls.simplifications) != len(orig_simplifications[i]):
                cls.simplifications = orig_simplifications[i]
            if orig_rules""",
 needs='a body that replaces a simplification by another',
 breaks='the replaced simplification stays in place',
 demo="""
from qnet import *
f = lambda cls, ops, kwargs: (ops, kwargs)
orig = list(OperatorPlus.simplifications)
with temporary_rules(OperatorPlus):
    OperatorPlus.simplifications.append(f)
assert OperatorPlus.simplifications == orig
with temporary_rules(OperatorPlus):
    OperatorPlus.simplifications[0] = f
assert OperatorPlus.simplifications == orig
"""),
dict(id='C05-freeze-truthy', prop='C05', file=P,
 old="""            for attr, val in attr_map.items():
                setattr(obj, attr, val)
""",
 new="""            for attr, val in attr_map.items():
                if val is not False:
                    setattr(obj, attr, val)
""",
 needs='printing that was initialised without caching or settings',
 breaks='settings that were empty or false before are not restored',
 demo="""
from qnet import *
from qnet.printing.base import QnetBasePrinter
from sympy.printing.printer import Printer
A = OperatorSymbol('A', hs=1)
init_printing(caching=False)
with configure_printing(show_hs_label=False, caching=True):
    assert ascii(A) == 'A'
assert QnetBasePrinter._allow_caching is False
assert ascii(A) == 'A^(1)', ascii(A)
"""),
dict(id='C05-body-error', prop='C05', file=P,
 old="""    finally:
        _PRINT_FUNC.update(orig_print_func)
        for obj""",
 new="""    except (ValueError, TypeError):
        raise
    else:
        _PRINT_FUNC.update(orig_print_func)
        for obj""",
 needs='-', breaks='-', skip=True, demo=''),
]
SEEDS = [s for s in SEEDS if not s.get('skip')]
