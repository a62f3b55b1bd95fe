A='algebra/core/abstract_algebra.py'
SEEDS = [
dict(id='C04-simplify-in-try', prop='C04', file=A,
 old="""            simplified = simplification(cls, args, kwargs)
            try:
                args, kwargs = simplified
""",
 new="""            simplified = args, kwargs
            try:
                simplified = simplification(cls, args, kwargs)
                args, kwargs = simplified
""",
 needs='a simplification that raises TypeError or ValueError for its operands',
 breaks='the error is swallowed, and a tuple is returned and cached as the '
 'expression',
 demo="""
from qnet import *
from qnet.algebra.pattern_matching import pattern_head, wc
from qnet.algebra.core.operator_algebra import Operator
A = OperatorSymbol('A', hs=0)
B = OperatorSymbol('B', hs=0)
def repl(x, y):
    if y.label == 'B':
        raise ValueError('no B')
    return x
with temporary_rules(OperatorTimes):
    OperatorTimes.add_rule('new', pattern_head(
        wc('x', head=OperatorSymbol), wc('y', head=OperatorSymbol)), repl)
    for i in range(2):
        try:
            r = OperatorTimes.create(A, B)
        except ValueError:
            pass
        else:
            assert False, r
"""),
dict(id='C04-store-uncached', prop='C04', file=A,
 old="""                if cls.instance_caching:
                    cls._instances[key] = simplified
                if cls._create""",
 new="""                cls._instances.setdefault(key, simplified)
                if cls._create""",
 needs='caching that is off while an expression is created that is '
 'simplified to another object',
 breaks='what is created with caching off ends up in the cache and is '
 'returned later on',
 demo="""
from qnet import *
from qnet.algebra.core.operator_algebra import Operator
A = OperatorSymbol('A_nocache', hs=0)
n = len(OperatorTimes._instances)
with no_instance_caching():
    r = OperatorTimes.create(IdentityOperator, A)
assert r == A
assert len(OperatorTimes._instances) == n
assert OperatorTimes._get_instance_key((IdentityOperator, A), {}) not in \\
    OperatorTimes._instances
"""),
dict(id='C04-ordered-key', prop='C04', file='utils/containers.py',
 old="""    if isinstance(container, OrderedDict):
        return tuple(map(nested_tuple, container.items()))
    if isinstance""",
 new="""    if isinstance""",
 needs='an argument that is an ordered dict, given in another order',
 breaks='expressions with differently ordered arguments share an instance',
 demo="""
from collections import OrderedDict
from qnet.algebra.core.abstract_algebra import Expression
class MyExpr(Expression):
    def __init__(self, pairs):
        self._pairs = pairs
        super().__init__(pairs)
    @property
    def args(self):
        return (self._pairs, )
a = MyExpr.create(OrderedDict([('x', 1), ('y', 2)]))
b = MyExpr.create(OrderedDict([('y', 2), ('x', 1)]))
assert list(a.args[0]) == ['x', 'y']
assert list(b.args[0]) == ['y', 'x']
"""),
dict(id='C04-matrix-key', prop='C04', file='algebra/core/matrix_algebra.py',
 old="""        return (cls, tuple(matrix.ravel()), tuple(matrix.shape))
""",
 new="""        return (cls, matrix.shape[0]) + tuple(matrix.ravel())
""".replace('shape[0]', 'ndim'),
 needs='matrices with the same entries and another shape',
 breaks='a matrix of another shape is returned from the cache',
 demo="""
import numpy
from qnet import *
from qnet.algebra.core.matrix_algebra import Matrix
a = Matrix.create(numpy.array([[1, 2, 3, 4]]))
b = Matrix.create(numpy.array([[1, 2], [3, 4]]))
assert a.shape == (1, 4)
assert b.shape == (2, 2)
"""),
dict(id='C04-key-late', prop='C04', file=A,
 old="""        key = cls._get_instance_key(args, kwargs)
        try:
            if cls.instance_caching:
                instance = cls._instances[key]
                if LOG:
                    LEVEL -= 1
                    logger.debug("%s(cached)-> %s", ("  " * LEVEL), instance)
                return instance
        except KeyError:
            pass
        for i, simplification in enumerate(cls.simplifications):
""",
 new="""        key = cls._get_instance_key(args, kwargs)
        try:
            if cls.instance_caching:
                instance = cls._instances[key]
                if LOG:
                    LEVEL -= 1
                    logger.debug("%s(cached)-> %s", ("  " * LEVEL), instance)
                return instance
        except KeyError:
            pass
        for i, simplification in enumerate(cls.simplifications):
            if i > 0 and cls.instance_caching:
                # there may be an instance for the simplified arguments
                key = cls._get_instance_key(args, kwargs)
                if key in cls._instances:
                    return cls._instances[key]
""",
 needs='simplifications after which the earlier ones would apply again',
 breaks='the result after the later simplifications is stored for arguments '
 'to which all of them would have been applied',
 demo="""
from qnet.algebra.core.abstract_algebra import Expression
def count(cls, args, kwargs):
    return (args[0] + 1, ), kwargs
def cut(cls, args, kwargs):
    return (min(args[0], 5), ), kwargs
class MyExpr(Expression):
    simplifications = [count, cut]
    def __init__(self, n):
        self._n = n
        super().__init__(n)
    @property
    def args(self):
        return (self._n, )
assert MyExpr.create(1).args == (2, )
assert MyExpr.create(2).args == (3, )
assert MyExpr.create(1).args == (2, )
"""),
]
