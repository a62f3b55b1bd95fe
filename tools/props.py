INPUTS = ['inputs', 'programs']
FLOW = ('path-sensitive interprocedural value-flow analysis of the source '
        '(stdlib ast) with constructor/property summaries; ')
NOTE = ('Static: decided from the source on every run, nothing executed. '
        'Obligations whose terms cannot be resolved are reported as undecided '
        'and not claimed. ')

PROPS = [
dict(id='C01', title='Every expression can be rebuilt from the arguments it reports',
 statement='Every symbolic object reports positional and keyword arguments '
 'which, passed back to its class, build an equal object: each constructor '
 'parameter is reported once, in order, unaltered and unfiltered. The '
 'minimal keyword arguments differ from the full ones only by omitting '
 'parameters that have their default value.',
 over=INPUTS, quant='all concrete expression classes, all constructor '
 'arguments, all paths through constructor and argument properties',
 why='The tests rebuild a sample of expressions; classes, optional arguments '
 'and their combinations are open-ended.',
 files=['src/qnet/algebra/core/', 'src/qnet/algebra/library/'],
 mech=[('args/kwargs/minimal_kwargs against the constructor',
        'Expression.args, Expression.kwargs and all overrides')],
 technique=FLOW + 'per class and constructor path, the reported arguments '
 'are matched against the constructor parameters',
 note=NOTE + 'Decides the flow of every parameter into the reported '
 'arguments, not equality of the rebuilt object.'),
dict(id='C02', title='Objects are equal exactly when class and all arguments are',
 statement='Two symbolic objects are equal if and only if they have the same '
 'class and the same arguments: every constructor parameter takes part in '
 'identity, no two different argument sets are identified, and nothing else '
 'does. Equal objects have equal hashes, inequality is the negation of '
 'equality, and the algebraic constants are unique objects.',
 over=INPUTS, quant='all expression classes, labels and index ranges and '
 'all arguments',
 why='Tests compare a handful of pairs; a parameter left out of the identity '
 'shows only for two objects that differ in nothing else.',
 files=['src/qnet/algebra/core/', 'src/qnet/utils/containers.py',
        'src/qnet/utils/indices.py', 'src/qnet/utils/singleton.py'],
 mech=[('identity key', 'Expression._get_instance_key, Expression.__init__'),
       ('container conversion', 'nested_tuple'),
       ('widened equality', 'ScalarTimesOperator.__eq__/__hash__')],
 technique=FLOW + 'taint of every constructor parameter into the identity '
 'key, losslessness of the key function, agreement of equality and hash',
 note=NOTE + 'Decides that every parameter reaches the key through '
 'lossless conversions; equality of arguments themselves is delegated to '
 'their own classes.'),
dict(id='C06', title='The adjoint is an anti-linear involution that reverses products',
 statement='For every operator, state, super-operator, matrix and scalar '
 'expression the adjoint has the algebraic meaning of the conjugate '
 'transpose: it reverses products, conjugates scalar factors, distributes '
 'over sums and indexed sums, is undone by applying it twice, and maps every '
 'local operator to its conjugate (creation to annihilation, displacement to '
 'the opposite displacement, a projector to itself). Conjugation of scalars '
 'and matrices, real and imaginary parts, transposition, and the inverse of '
 'series products of circuits obey the same laws.',
 over=INPUTS, quant='all expression classes that define an adjoint, conjugate, '
 'transpose or series inverse, all paths, all operands',
 why='Products of any length and nesting, and every combination of classes '
 'and optional parameters; tests cover a handful of two- and three-factor '
 'examples.',
 files=['src/qnet/algebra/core/', 'src/qnet/algebra/library/'],
 mech=[('adjoint of every class', 'QuantumExpression._adjoint overrides'),
       ('scalar conjugation', 'Scalar.conjugate/real/imag and overrides'),
       ('matrix conjugation and transposition', 'Matrix.adjoint/conjugate/T'),
       ('series inverse', 'Circuit._series_inverse overrides')],
 technique=FLOW + 'the value returned on every path is normalised in the '
 'free *-algebra over the operands and compared with the normal form the '
 'law requires',
 note=NOTE + 'The equations of local operators are taken from their '
 'documented definitions; numeric matrix elements are not considered.'),
dict(id='C07', title='Differentiation obeys linearity and the product rule for all expressions',
 statement='Differentiating any operator, state or super-operator expression '
 'with respect to a symbol is linear, obeys the product rule for every '
 'product (with factors in order), commutes with the adjoint and with '
 'indexed sums, and gives zero only for what does not depend on the symbol. '
 'What has no closed form stays as a symbolic derivative that records '
 'exactly the requested symbols, orders and evaluation points; '
 'differentiating again raises the order of that symbol.',
 over=INPUTS, quant='all concrete expression classes, all operands (variadic '
 'operations at lengths two to four), all orders and evaluation points',
 why='The tests differentiate a few products; the rule has to hold for every '
 'class and every nesting of them.',
 files=['src/qnet/algebra/core/', 'src/qnet/algebra/library/'],
 mech=[('differentiation rules', 'QuantumExpression._diff overrides'),
       ('symbolic derivatives', 'QuantumDerivative'),
       ('evaluation', 'algebraic_properties.derivative_via_diff')],
 technique=FLOW + 'the value returned on every path is normalised in the free '
 'algebra with an abstract derivation and compared with the derivation '
 'applied to the denotation of the object',
 note=NOTE + 'Variadic operations are decided at lengths two to four.'),
dict(id='C08', title='Power series coefficients follow from those of the operands',
 statement='Expanding any operator, state, super-operator or scalar '
 'expression as a power series in a symbol to a given order yields exactly '
 'one coefficient per order: linear in sums and linear operations, the Cauchy '
 'product for products, the Taylor coefficients for everything without a '
 'rule of its own, and zero beyond order zero for what is constant. Zero and '
 'unit coefficients are those of the algebra of the expression, and a matrix '
 'is expanded entry by entry.',
 over=INPUTS, quant='all concrete expression classes, all operands (variadic '
 'operations at lengths two to four), orders zero to two (the Taylor rule to '
 'order five)',
 why='Tests expand a few products to low order; every class and every '
 'combination of vanishing coefficients has to obey the rule.',
 files=['src/qnet/algebra/core/'],
 mech=[('series rules', 'QuantumExpression._series_expand overrides'),
       ('Cauchy product', '_series_expand_combine_prod'),
       ('type stability', 'QuantumExpression.series_expand')],
 technique=FLOW + 'every element of the tuple returned on every path is '
 'normalised in the free algebra and compared with the abstract coefficient '
 'functional applied to the denotation of the object',
 note=NOTE + 'Orders above two are decided only for the Taylor rule; scalar '
 'coefficients computed by SymPy are trusted.'),
dict(id='C09', title='Expanding keeps the value and distributes products over all sums',
 statement='Expanding any operator, state, super-operator or scalar '
 'expression gives an equal expression in which every operand is itself '
 'expanded and every product, scalar multiple, commutator, trace, adjoint, '
 'inner and outer product and indexed sum is distributed over all summands '
 'of the expanded operands, in order and without losing any. Expanding a '
 'matrix or an SLH triple expands every entry in its place. Expanding commutators of '
 'products by the Leibniz rule keeps the value, too.',
 over=INPUTS, quant='all concrete expression classes, every combination of '
 'operands that expand to sums (of three summands) or not, variadic '
 'operations at lengths two to four',
 why='Tests expand a handful of products; a dropped or misplaced summand '
 'shows only for particular shapes of operands.',
 files=['src/qnet/algebra/core/',
        'src/qnet/algebra/toolbox/commutator_manipulation.py'],
 mech=[('expansion rules', 'QuantumExpression._expand overrides'),
       ('products', '_expand_product'), ('entrywise', 'Matrix.expand, SLH.expand'),
       ('commutators', 'expand_commutators_leibniz')],
 technique=FLOW + 'the value returned on every path is normalised in the free '
 'algebra and compared with the denotation with expanded operands, fully '
 'distributed',
 note=NOTE + 'Sums are modelled with three summands; the same code treats '
 'any number.'),
dict(id='C11', title='Substitution reaches every part of an expression and nothing else',
 statement='Substituting symbols or sub-expressions gives the replacement if '
 'the expression itself is to be replaced, and otherwise the same expression '
 'with every argument substituted in its place: operands, coefficients, '
 'symbol arguments, labels, Hilbert spaces, index ranges and matrix entries. '
 'Substituting the variable of a symbolic derivative evaluates the derivative '
 'at that value instead of changing the operand.',
 over=INPUTS, quant='all concrete expression, label and index range classes, '
 'all argument shapes (variadic ones at lengths two to four), all paths',
 why='Tests substitute into a few expressions; a part that is skipped or '
 'misplaced shows only for particular classes and arguments.',
 files=['src/qnet/algebra/core/', 'src/qnet/utils/indices.py'],
 mech=[('rebuild with substituted arguments', 'Expression._substitute and overrides'),
       ('entry points', 'Expression.substitute, substitute()'),
       ('labels and ranges', 'substitute of SymbolicLabelBase and IndexRangeBase')],
 technique=FLOW + 'on every path every argument must have passed through the '
 'substitution, and the result without the substitutions must denote the '
 'object itself',
 note=NOTE + 'Substitution inside a scalar formula is done by SymPy and '
 'trusted; capture of bound index symbols is not decided.'),
dict(id='C13', title='Scalar simplification reaches every coefficient and keeps all else',
 statement='Simplifying the scalars of an expression applies the given '
 'function to every scalar coefficient, symbol argument and amplitude at any '
 'depth, and puts the parts together exactly as before, with all operands, '
 'index ranges and Hilbert spaces kept. For matrices and SLH triples this '
 'happens for every entry, in its place.',
 over=INPUTS, quant='all concrete quantum expression classes, all argument '
 'shapes (variadic ones at lengths two to four), all paths',
 why='Tests simplify a few sums; a part that is skipped, lost or misplaced '
 'shows only for particular classes.',
 files=['src/qnet/algebra/core/'],
 mech=[('recursion', 'QuantumExpression._simplify_scalar overrides'),
       ('entrywise', 'Matrix.simplify_scalar, SLH.simplify_scalar')],
 technique=FLOW + 'on every path every scalar and operand must have passed '
 'through the simplification, and the result without it must denote the '
 'object itself',
 note=NOTE + 'The given function is assumed to keep the value of a scalar.'),
dict(id='C14', title='Arithmetic operators build the expression they say',
 statement='For operators, states, super-operators, scalars and matrices, the '
 'operators + - * / ** and their reflected forms return, on every path, the '
 'sum, difference, product, quotient or power of the two operands in the given '
 'order, whether the other operand is an expression, a number or a symbol, '
 'with shortcuts only where they are identities. Conversions and comparisons '
 'of scalar expressions are those of the value.',
 over=INPUTS, quant='all arithmetic dunder methods of all concrete quantum '
 'expression and matrix classes, all paths, all operand types',
 why='Each operand type takes its own branch of a dunder, and only a few of '
 'the combinations occur in tests.',
 files=['src/qnet/algebra/core/abstract_quantum_algebra.py',
        'src/qnet/algebra/core/scalar_algebra.py',
        'src/qnet/algebra/core/matrix_algebra.py',
        'src/qnet/algebra/core/state_algebra.py'],
 mech=[('dunders', '__add__/__sub__/__mul__/__truediv__/__pow__/__neg__, '
        'reflected forms'), ('scalar conversions', '__complex__/__int__/'
        '__float__ and comparisons')],
 technique=FLOW + 'the value term of every path is normalised in a '
 'non-commutative ring with the branch conditions and must equal the '
 'operation on the operands',
 note=NOTE + 'That create() applies only valid rewriting rules is not decided '
 'here. complex(One) is a known finding.'),
dict(id='C15', title='Products with indexed sums never capture an index',
 statement='A product in which a factor is an indexed sum is a sum over the '
 'same ranges, with the indices of each sum renamed so that they occur neither '
 'free in another factor nor bound in another sum. Renaming picks symbols that '
 'occur neither in what is to be avoided nor anywhere in the sum. A factor is '
 'taken out of a sum only if it does not depend on the indices.',
 over=INPUTS, quant='all products of all quantum expression classes and all '
 'functions and rewrite rules that build indexed sums; all paths',
 why='Capture needs a particular clash of index names between factors, which '
 'depends on how the expressions were made.',
 files=['src/qnet/algebra/core/indexed_operations.py',
        'src/qnet/algebra/core/abstract_quantum_algebra.py',
        'src/qnet/algebra/core/state_algebra.py',
        'src/qnet/algebra/core/scalar_algebra.py',
        'src/qnet/algebra/core/algebraic_properties.py',
        'src/qnet/algebra/_rules.py'],
 mech=[('renaming', 'IndexedSum.make_disjunct_indices'),
       ('products', '__mul__/__rmul__ of indexed sums, kets, bras'),
       ('rules', 'assoc_indexed, R021')],
 technique=FLOW + 'every sum created on a path is taken apart; the '
 'make_disjunct_indices calls on its summands must cover the index symbols '
 'of the other factors',
 note=NOTE + 'The powers and products of ScalarIndexedSum with a value '
 'that ignore the renaming are known findings.'),
dict(id='C18', title='Printed text shows every part of an expression, nothing dropped',
 statement='The ASCII, Unicode and LaTeX renderings of an expression show all '
 'its arguments: every operand, coefficient, label, symbol parameter, index '
 'range, differentiation variable and its order, and Hilbert-space label '
 'appears in the text, each rendered by the same printer, whatever the other '
 'arguments are. Identifiers with sub- and superscripts are split and rendered '
 'without losing characters.',
 over=INPUTS, quant='three printers, all concrete expression classes, all '
 'paths through the renderers, all argument shapes',
 why='Two different expressions printing alike, or a part lost in the output, '
 'shows only for a particular class, argument and printer; tests compare a '
 'sample of strings.',
 files=['src/qnet/printing/', 'src/qnet/algebra/core/', 'src/qnet/utils/indices.py'],
 mech=[('renderers', 'QnetAsciiPrinter._print_*, QnetUnicodePrinter, QnetLatexPrinter'),
       ('sub/superscripts', 'render_latex_sub_super, render_unicode_sub_super, _split_identifier'),
       ('printer flags', 'adjoint / precedence keywords accepted by all parts')],
 technique=FLOW + 'taint of every constructor argument into the rendered '
 'text on every path of every printer method, and losslessness of the '
 'helpers',
 note=NOTE + 'Decides that parts are shown, not that the text is '
 'unambiguous; the text of SymPy expressions is produced by SymPy and '
 'trusted. Hilbert-space labels may be hidden by the documented setting.'),
dict(id='C19', title='The printed adjoint is the adjoint of what is printed',
 statement='Rendering an adjoint, in ASCII, Unicode or LaTeX, shows the '
 'adjoint of the operand: in products every factor is daggered and the order '
 'reversed, in sums every term is daggered, symbols get a dagger, kets become '
 'bras with the same labels, an already daggered symbol loses its dagger, and '
 'anything else is put in parentheses with one dagger. Without the adjoint '
 'nothing is daggered or reversed.',
 over=INPUTS, quant='three printers, all quantum expression classes, all '
 'paths through the renderers',
 why='Adjoints of nested products, sums and states combine freely; tests '
 'print a few of them.',
 files=['src/qnet/printing/'],
 mech=[('adjoint keyword', 'QnetAsciiPrinter._print_* (adjoint=...) and overrides')],
 technique=FLOW + 'the parts a renderer shows with the adjoint flag must be '
 'the flagged parts without it, in the order that the class demands',
 note=NOTE),
dict(id='C20', title='Tree representation round-trips class, arguments and keywords',
 statement='The tree representation of an expression (flat or indented) is a '
 'constructor call that names its class and shows all its positional and '
 'keyword arguments, each represented by the same printer, in order, so that '
 'evaluating it gives back an equal expression. The indented form differs '
 'from the flat one by white space only, and printing leaves the printer in '
 'the state it was in.',
 over=INPUTS, quant='all representation methods, all argument shapes '
 '(variadic ones at lengths zero to three), all paths',
 why='Round trips fail only for particular classes, argument shapes or nesting '
 'depths; tests evaluate a few representations.',
 files=['src/qnet/printing/sreprprinter.py', 'src/qnet/printing/base.py'],
 mech=[('flat', 'QnetSReprPrinter'), ('indented', 'IndentedSReprPrinter'),
       ('indentation level', '_print_level')],
 technique=FLOW + 'the string term of every method is compared with the '
 'constructor call built from the class, its arguments and keywords; the '
 'level counter must balance on every path',
 note=NOTE + 'The representation of SymPy and NumPy leaves is trusted.'),
dict(id='C12', title='Free and bound symbols of an expression are complete',
 statement='The free symbols of an expression are the free symbols of all of '
 'its arguments, the bound ones are the bound symbols of all of its arguments, '
 'and all symbols are both of these. An index that a sum runs over is bound '
 'and never free in the sum; in a derivative that is evaluated at a point, '
 'the evaluated symbols are bound and no longer free, while the symbols in '
 'the values are. Asking for the symbols never changes the set of another '
 'expression, and asking again gives the same set.',
 over=INPUTS, quant='all expression classes, all constructor shapes (variadic '
 'arguments at length two), all paths through the symbol properties',
 why='A class that forgets one argument is only noticed by the particular '
 'expression that has its symbols there; renaming of indices, derivatives and '
 'substitution all rely on the sets.',
 files=['src/qnet/algebra/core/'],
 mech=[('symbol sets', 'free_symbols/bound_symbols/all_symbols of every class'),
       ('caches', 'Expression._free_symbols/_bound_symbols/_all_symbols')],
 technique=FLOW + 'the returned set is decomposed into the sets of the '
 'constructor arguments; every argument that can carry symbols must be '
 'included unconditionally, nothing of the other kind may be',
 note=NOTE),
dict(id='C10', title='The Hilbert space of an expression covers its operands',
 statement='The Hilbert space of an expression is the product of the Hilbert '
 'spaces of all its operands: no operand is forgotten and no unrelated space '
 'is added, except where an operation removes a factor (the space a partial '
 'trace is taken over) or yields a scalar (the overlap of two states). '
 'Combining states in a sum, a tensor product or an overlap is only possible '
 'when their spaces allow it, that is equal, disjoint, or equal spaces.',
 over=INPUTS, quant='all expression classes, all constructor shapes (variadic '
 'arguments at length two), all paths through the space properties; the guards '
 'in all cases of equal, nested and disjoint spaces',
 why='A dropped operand only shows for the particular combination of spaces, '
 'and every commutation rule, tensor product and conversion to numbers relies '
 'on the space.',
 files=['src/qnet/algebra/core/'],
 mech=[('spaces', 'the space property of every class'),
       ('guards', 'KetPlus/TensorKet/BraKet/KetBra/OperatorTimesKet create and __init__')],
 technique=FLOW + 'the returned space is decomposed into the spaces of the '
 'constructor arguments; each must be included unconditionally and nothing '
 'else may be; guard conditions are decided in an exhaustive finite model of '
 'the relations between the spaces',
 note=NOTE),
dict(id='C23', title='Hilbert spaces behave as sets of local factors',
 statement='Product, intersection, removal, containment, ordering and '
 'disjointness of Hilbert spaces agree with the same operation on their sets '
 'of local factors, for every combination of local, product, trivial and full '
 'spaces. The dimension of a space and its basis are given in the same cases '
 'and agree, and asking a space without a basis for basis states raises the '
 'documented error.',
 over=INPUTS, quant='all pairs of kinds of spaces and all relations between '
 'their factors (equal, contained, overlapping, disjoint), all paths',
 why='The relations between a nested or overlapping pair are only met by rare '
 'expressions, and a wrong one silently moves an operator to another space.',
 files=['src/qnet/algebra/core/hilbert_space_algebra.py'],
 mech=[('set operations', 'tensor/remove/intersect/is_tensor_factor_of/isdisjoint/comparison of every space class'),
       ('basis', 'dimension, has_basis, basis_labels, basis_states')],
 technique=FLOW + 'every path is evaluated in an exhaustive finite model of '
 'factor sets (each kind of space, each relation), and its result compared '
 'with the set operation',
 note=NOTE),
dict(id='C05', title='Context managers restore all configuration they change',
 statement='A context manager that changes the configuration for a while (the '
 'printing system, the automatic rules, the cache of expressions) leaves '
 'everything exactly as it found it: however it is left, normally, through '
 'an exception, or because its own arguments turn out to be invalid. What it '
 'was asked for is in effect inside, and rules or cached expressions that the '
 'body adds or removes are gone afterwards, also for a class given together '
 'with its subclass, for one given twice, and when managers are nested.',
 over='every path through a context manager, from every configuration',
 quant='all managers, all exits, all combinations of related and unrelated '
 'classes with and without rules, all settings that are given or left out',
 why='A configuration that leaks changes the results of unrelated code later '
 'on, and only for the combination of classes, settings or exits that leaks.',
 files=['src/qnet/algebra/toolbox/core.py', 'src/qnet/printing/__init__.py'],
 mech=[('rules and caches', 'no_instance_caching/temporary_instance_cache/temporary_rules'),
       ('printing', 'configure_printing/init_printing')],
 technique='abstract interpretation of the managers over a symbolic heap '
 '(cells of shared objects, containers with identity; all branches, both ways '
 'of leaving the body): every cell must hold what it held before',
 note='Side effects inside SymPy other than the settings of its printers are '
 'not modelled; opaque conditions are followed both ways.'),
 dict(id='C04', title='Creating gives the same with and without the cache',
 statement='Creating an expression gives an equal result whether or not '
 'instances are cached and whatever was created before: different classes, '
 'arguments, keywords or contents of containers are never confused, errors '
 'are raised and leave nothing behind, and while caching is off nothing is '
 'taken from the cache or added to it. The automatic simplifications are '
 'applied in order, each to what the one before it gave. Rules that are added '
 'or deleted take effect for every later creation, and singletons remain the '
 'only instance of their class.',
 over='every path through the creation of an expression, from every state of '
 'the cache',
 quant='all states of the cache, all outcomes of the simplifications '
 '(arguments, an expression, another object, an error), all argument '
 'structures',
 why='A wrong cache entry changes results depending on what was created '
 'earlier in the session; tests start from a fresh or arbitrary cache.',
 files=['src/qnet/algebra/core/abstract_algebra.py',
        'src/qnet/utils/containers.py', 'src/qnet/utils/singleton.py'],
 mech=[('creation', 'Expression.create/_get_instance_key'),
       ('keys', 'nested_tuple'), ('singletons', 'Singleton.__call__')],
 technique='abstract interpretation of the creation over a symbolic heap with '
 'every outcome of the simplifications and state of the cache; keys of a '
 'systematic family of argument structures are compared pairwise',
 note='Arguments that Python regards as equal (1, 1.0, True) are equal here; '
 'what the simplifications themselves do is not part of this property.'),
 dict(id='C03', title='Expressions never change after they are created',
 statement='No operation modifies an existing expression, Hilbert space, label '
 'or equation, a part of one, or a list, mapping or set that the caller has '
 'passed in; what is remembered for later depends only on the object itself. '
 'What an object hands out (symbols, keyword arguments, matrix entries, block '
 'permutations) can be modified by the caller without changing the object, or '
 'cannot be modified at all, and an object does not keep a modifiable '
 'container of the caller.',
 over='every function of the package and every place that stores to, deletes '
 'from or calls a modifying method of something',
 quant='all call chains, all arguments, all containers',
 why='Instances are shared through a cache and used as keys; one '
 'modification changes every expression that contains the object, long '
 'after the operation that did it. Tests use fresh objects once.',
 files=['src/qnet/algebra/core/abstract_algebra.py',
        'src/qnet/algebra/core/circuit_algebra.py',
        'src/qnet/algebra/core/matrix_algebra.py',
        'src/qnet/algebra/toolbox/equation.py'],
 mech=[('lazy attributes', 'Expression.free_symbols'),
       ('kwargs', 'Component.kwargs/LocalSpace.kwargs'),
       ('arrays', 'Matrix.__init__'), ('history', 'Eq._update')],
 technique='ownership analysis: every expression of every function gets the '
 'owners of the object and of its contents, with summaries of all functions '
 'to a fixpoint; every modification, returned container, kept argument and '
 'public attribute is judged by its owners',
 note='Calls that cannot be resolved within the package are assumed not to '
 'modify their arguments unless the method name is a modifying one; '
 'configuration stored on classes and match objects are not values.'),
 dict(id='C16', title='Automatic rules for operators and states are identities',
 statement='Every rule that automatically rewrites scalars, operators, '
 'states, super-operators, commutators, traces, dyads and scalar products '
 'replaces an expression by one that is equal in the theory: the canonical '
 'relations of ladder, displacement, phase, spin and transition operators, '
 'of inner products, partial traces and of left and right multiplication. '
 'This holds for every arrangement of the Hilbert spaces the rule applies '
 'to, for symbolic and complex scalars, and for sums over indices only if '
 'what is pulled out does not depend on the index, and no rule ever gives a '
 'product that does not exist.',
 over='all entries of all rule tables, every path through the replacement',
 quant='all operands a rule matches, all assignments of Hilbert spaces to '
 'them that its conditions allow, all scalars',
 why='A rule that is not an identity changes the meaning of every expression '
 'it matches; tests try some rules on some operands.',
 files=['src/qnet/algebra/_rules.py',
        'src/qnet/algebra/library/fock_operators.py',
        'src/qnet/algebra/library/spin_algebra.py',
        'src/qnet/algebra/core/operator_algebra.py',
        'src/qnet/algebra/core/scalar_algebra.py'],
 mech=[('tables', '_algebraic_rules_operator/_state/_superop/_scalar'),
       ('locality', 'act_locally_times_tensor/tensor_decompose_kets'),
       ('traces', 'factor_for_trace/decompose_space'),
       ('coefficients', 'Jpjmcoeff/Jzjmcoeff/Jmjmcoeff')],
 technique='the rule tables are read from the source, replacements are '
 'inlined path by path, and both sides are compared as normal forms of the '
 'free algebra with the canonical relations, for every arrangement of spaces',
 note='Termination and confluence of the rules are not claimed; circuits '
 'are a separate property.'),
 dict(id='C24', title='Basis states of a space are addressed consistently',
 statement='A label, an index and a symbolic label that denote the same basis '
 'state of a Hilbert space are interchangeable: states and transition '
 'operators made from any of them report that position, moving by any number '
 'of levels reaches the state that many positions away and zero outside of '
 'the space, and what does not denote a basis state is refused with an error '
 '(a string in a space without a basis included). A space has exactly the '
 'labels it is given or as many as its dimension says, and the levels of a '
 'spin s run from -s to s in order, where labels, values and positions '
 'agree. In a product space the labels, the states and the state with a '
 'given index or label follow one order, and the dimension is the product.',
 over='every path through the functions that take or give a label, an index '
 'or a number of levels',
 quant='all indices, labels, increments and dimensions, spaces with and '
 'without a basis, spins, products',
 why='Mistakes sit at the borders of ranges and in combinations of label '
 'kinds (counting from the end, symbolic next to integer, half-integer '
 'spins) that tests sample thinly.',
 files=['src/qnet/algebra/core/hilbert_space_algebra.py',
        'src/qnet/algebra/core/state_algebra.py',
        'src/qnet/algebra/core/operator_algebra.py',
        'src/qnet/algebra/library/spin_algebra.py',
        'src/qnet/utils/indices.py'],
 mech=[('addressing', 'LocalSpace._unpack_basis_label_or_index/'
        'next_basis_label_or_index'),
       ('states', 'BasisKet.next/prev/index/args, basis_ket_zero_outside_hs'),
       ('transitions', 'LocalSigma.raise_jk/index_j/index_k'),
       ('spins', 'SpinSpace.__init__/SpinBasisKet/SpinIndex'),
       ('products', 'ProductSpace.basis_state/basis_states/basis_labels')],
 technique='abstract interpretation over linear integers: every path ends in '
 'a linear position or an error, and is compared with the specification of '
 'each region of indices that the path conditions leave possible '
 '(Fourier-Motzkin elimination)',
 note='Products are analysed with three factors of arbitrary dimensions. '
 'Sympy expressions are linear expressions in an unknown; rendering of '
 'expressions that are not (half-)integers is outside.'),
 dict(id='C17', title='Rewriting and connecting circuits keeps the network',
 statement='Every simplification of a circuit expression, every way of building '
 'one (cascading, side-by-side composition, feedback, inversion, padding, moving '
 'channels, connecting named or numbered ports) and every reduction step gives a '
 'circuit in which each external input and output is joined to the same ports of '
 'the same components in the same order as in the circuit that was asked for. '
 'The number of channels is unchanged, and a request that does not fit (ports '
 'outside of the circuit, numbers of channels that differ, mappings that are not '
 'one to one) is refused with an error.',
 over='all rewriting rules and all constructors and operators of the circuit algebra',
 quant='all numbers of channels of the parts, all permutations, all ports that a '
 'condition of the code tells apart; two to three parts per composition',
 why='A wrong offset shows only for parts of unequal widths, ports in certain '
 'regions or permutations that are not their own inverse; tests use a few small '
 'ones and compare with expressions written down by the same author.',
 files=['src/qnet/algebra/core/circuit_algebra.py',
        'src/qnet/algebra/core/algebraic_properties.py',
        'src/qnet/algebra/library/circuit_components.py',
        'src/qnet/algebra/toolbox/circuit_manipulation.py',
        'src/qnet/utils/permutations.py'],
 mech=[('rules', 'SeriesProduct._binary_rules, Feedback._rules, SeriesInverse._rules'),
       ('feedback', 'Concatenation._feedback, Feedback.create, _pull_out_perm_lhs/_rhs'),
       ('permutations', 'CPermutation._factor_lhs/_factor_rhs/_factorize_for_rhs'),
       ('ports', 'map_channels, extract_channel, pad_with_identity'),
       ('connect', 'connect')],
 technique='abstract interpretation over linear integers (widths, ports, '
 'permutations are symbolic): both sides become wiring diagrams, and the wire '
 'behind every port is followed through both (Fourier-Motzkin elimination '
 'decides the cases)',
 note='Compositions are analysed with two or three parts of arbitrary widths, '
 'connections with one or two. Splitting a permutation into blocks is assumed to '
 'return some block permutation with permutations within the blocks. The '
 'formulas for the matrices of a reduced model are not part of this property.'),
 dict(id='C25', title='Models compose and move by their defining formulas',
 statement='The scattering matrix, the coupling vector and the Hamiltonian of a '
 'cascade, a concatenation, an inverse and a feedback of models are those of the '
 'SLH formalism, and the matrices of operators they are made of multiply, '
 'transpose, conjugate and split like matrices over a non-commutative ring. '
 'Commutators, Lindblad terms, Liouvillians, master equations and Heisenberg '
 'equations (with and without noises) are those of the model, and so are what is '
 'derived from them: moved drives, adiabatic limits and linearised equations. '
 'Predefined components and two-level operators have the models that they '
 'document.',
 over='all functions that compute a model, a matrix or an equation of motion',
 quant='all operators and scalars as entries; up to three channels per model '
 '(five for a feedback), two modes',
 why='A wrong order of factors, a lost adjoint or a wrong entry shows only for '
 'operators that do not commute, complex coefficients and several channels; '
 'tests use one channel, real numbers or compare with what the code once gave.',
 files=['src/qnet/algebra/core/circuit_algebra.py',
        'src/qnet/algebra/core/matrix_algebra.py',
        'src/qnet/algebra/core/super_operator_algebra.py',
        'src/qnet/algebra/library/circuit_components.py',
        'src/qnet/algebra/library/pauli_matrices.py'],
 mech=[('composition', 'SLH.series_with_slh/concatenate_slh/_series_inverse/'
        '_feedback'),
       ('equations', 'SLH.symbolic_master_equation/symbolic_heisenberg_eom, '
        'commutator, lindblad, liouvillian'),
       ('matrices', 'Matrix, block_matrix, permutation_matrix'),
       ('derived', 'move_drive_to_H, prepare/eval_adiabatic_limit, '
        'try_adiabatic_elimination, getABCD'),
       ('components', 'Beamsplitter/PhaseCC/CoherentDriveCC/CPermutation._toSLH, '
        'PauliX/Y/Z')],
 technique='abstract interpretation over a free algebra: the source is evaluated '
 'with matrices of polynomials in non-commuting symbols with an adjoint (acting '
 'from both sides for super-operators), whose normal forms are compared with '
 'those of the defining formulas',
 note='Entries are arbitrary symbols, sizes are small and fixed. Array functions '
 'are modelled by their documentation; expansion and simplification of '
 'expressions (C11, C12, C16) are taken to keep the value. The search for a '
 'minimal set of collapse operators is not analysed.'),
 dict(id='C21', title='Matching finds exactly the bindings that rebuild the expression',
 statement='A pattern matches an expression exactly if the expression has one of '
 'the classes of the pattern, meets its conditions, and its positional and keyword '
 'arguments can be distributed over the sub-patterns, where a wildcard for several '
 'arguments takes a run of the length it allows and the same name always stands '
 'for the same value; the match reports the bindings under their names, and a '
 'failure is a false value with a reason. Searching an expression yields every '
 'sub-expression that matches, each time, innermost first, instantiating a pattern with '
 'the bindings of a match gives the expression that was matched, and rewriting '
 'with rules replaces what matches by the result of the first rule that applies.',
 over='all forms of patterns: classes, conditions, fixed values, wildcards for one, '
 'one or more, or any number of arguments, nested patterns, named patterns, keyword '
 'arguments; matching, searching, instantiating, and rewriting by rules',
 quant='all argument values (arbitrary, equal or different), all truth values of '
 'conditions; patterns with up to four positions with a group of arguments at either end, '
 'expressions with up to five arguments',
 why='Every algebraic rule of the system is applied by this matcher; a wrong '
 'length of a group, a lost comparison of two bindings or a keyword that is not '
 'looked at makes rules fire where they are false or not at all, for particular '
 'shapes of patterns that the built-in rules and tests do not use.',
 files=['src/qnet/algebra/pattern_matching/__init__.py',
        'src/qnet/algebra/core/algebraic_properties.py',
        'src/qnet/algebra/core/abstract_algebra.py'],
 mech=[('matching', 'Pattern.match, match_pattern, MatchDict.update'),
       ('searching', 'Pattern.findall, Pattern.finditer, Pattern.wc_names'),
       ('constructing', 'wc, pattern, pattern_head, ProtoExpr.instantiate'),
       ('rewriting', '_match_replace, _match_replace_binary')],
 technique='path-precise abstract interpretation: each function is evaluated from '
 'its source for every form of pattern with arbitrary (opaque) values, with '
 'branches on their equality and on conditions; the answer of each path is compared '
 'with a reference definition of matching under the assumptions of that path',
 note='Equality of values is an equivalence; conditions are arbitrary. A name of a '
 'group of several arguments is taken to be used once among the positions of a pattern '
 'and its nested patterns (elsewhere groups of one name are merged).'),
 dict(id='C22', title='Conversions to matrices preserve the algebra',
 statement='Converting an expression to a numeric (QuTiP) or symbolic (SymPy) '
 'matrix maps sums, products, scalar multiples, adjoints, inner and outer '
 'products, tensor products and super-operators to the same operations on the '
 'matrices of the constituents, with every local factor at its place in the '
 'given space and identities elsewhere, and with replacements of the given '
 'mapping used throughout. Elementary operators, kets and constants get the '
 'matrices of their definitions in the order of the basis of their space. Models '
 'are converted to a Hamiltonian and Lindblad operators that generate the same '
 'dynamics, with time-dependent coefficients given as functions or strings, and '
 'what cannot be converted is refused with the documented errors.',
 over='all branches of the conversions, for every class of operators, kets and '
 'super-operators that they know',
 quant='all constituents, dimensions and coefficients; spaces of up to three '
 'factors with the constituents at every position; explicit matrices up to '
 'dimension four',
 why='A wrong order of factors or position in the tensor product, a lost '
 'conjugate or mapping and attributes that a class does not have show up only '
 'for particular classes in particular spaces; the tests convert a few operators '
 'and no super-operator, superposition or coherent state at all.',
 files=['src/qnet/convert/to_qutip.py',
        'src/qnet/convert/to_sympy_matrix.py'],
 mech=[('dispatch', 'convert_to_qutip, convert_to_sympy_matrix'),
       ('operators', '_convert_local_operator_to_qutip, '
        '_convert_operator_operation_to_qutip'),
       ('kets', '_convert_ket_to_qutip, _convert_state_operation_to_qutip'),
       ('super-operators', '_convert_superoperator_to_qutip'),
       ('models', 'SLH_to_qutip, _time_dependent_to_qutip')],
 technique='abstract interpretation over a free algebra: each branch is evaluated '
 'for an expression of its class with arbitrary constituents (whose conversions '
 'are symbols, by induction on the expression) and the result compared in normal '
 'form with the operation that the class denotes; attributes must exist on the '
 'class',
 note='Functions of QuTiP, SymPy, NumPy and SciPy are modelled by their '
 'documentation; numerical accuracy is not considered. The SymPy matrix of the '
 'zero operator is the number 0 (a test demands it). Traces over a part, '
 'commutators and adjoints of super-operators are refused, which is accepted.'),
 dict(id='C26', title='Manipulating an equation treats both sides alike and keeps its history',
 statement='Applying a function or method to an equation, substituting into it, or '
 'adding, subtracting, multiplying or dividing by a value or (for sums) another '
 'equation gives a new equation whose sides are the results of exactly that operation '
 'on the two sides, or on the one side that is named, with the arguments given. A '
 'continued manipulation keeps all previous lines with their tags, and what is printed '
 'as text or LaTeX are these lines in order, a left-hand side being left out only '
 'where it equals the one before it. The equation that is manipulated, its copies and '
 'earlier stages never change, two equations are equal exactly if both '
 'sides are, and symbols, mapping and verification refer to the current two sides.',
 over='all manipulations of equations, in sequences of up to three, with and without '
 'history and tags',
 quant='all sides (arbitrary expressions), all functions, methods and arguments, all '
 'answers to whether a side has changed',
 why='A left-hand side that is left out must be looked up in the history at the right '
 'depth, and histories are lists that may be shared between equations: errors show '
 'only after several continued steps in which a side happens not to change; the tests '
 'take one or two steps.',
 files=['src/qnet/algebra/toolbox/equation.py',
        'src/qnet/printing/latexprinter.py'],
 mech=[('manipulation', 'Eq.apply*, Eq.substitute, Eq._update'),
       ('arithmetic', 'Eq.__add__, __sub__, __mul__, __rmul__, __truediv__'),
       ('history', 'Eq.lhs, Eq.copy, Eq.set_tag'),
       ('printing', 'Eq._render_str, QnetLatexPrinter._print_Eq')],
 technique='path-precise abstract interpretation over free terms: every method is '
 'evaluated from its source for symbolic sides with both answers to each comparison, '
 'with lists as objects on a heap, and the resulting sides and printed lines are '
 'compared with a list of lines kept by the analyser',
 note='The functions and methods that are applied are arbitrary, but do not modify the '
 'sides. Widths of printed columns are not considered.'),
 dict(id='C27', title='Writing out an indexed sum adds one term per combination of index values',
 statement='Every kind of index range has exactly the values its bounds, list or Hilbert space '
 'say: its iteration, length, membership test and piecewise weight (one inside the range, zero '
 'outside) agree for empty, decreasing, stepped and endless ranges, and replacing symbols in it '
 'changes nothing else. '
 'The terms and the length of an indexed sum are those of all combinations of index values, and '
 'writing it out completely gives the sum of the summand with each combination put in once, zero '
 'if there is none, truncated after the requested number of terms, or an error if it is endless. '
 'Writing out only some indices gives the sum over the remaining ranges of the summand with each '
 'combination of the selected values put in once, also where that sum simplifies to something '
 'that is no indexed sum any more.',
 over='all three kinds of ranges and all ways of writing out sums with up to three indices',
 quant='all summands, all index values, all selections and orders of indices, whether or not '
 'what is left simplifies',
 why='Empty and decreasing ranges, sums that simplify away halfway and the boundary of a '
 'space in the piecewise weight are combinations no test contains; the tests write out a few '
 'non-empty sums.',
 files=['src/qnet/algebra/core/indexed_operations.py',
        'src/qnet/utils/indices.py'],
 mech=[('ranges', 'IndexOverList, IndexOverRange, IndexOverFockSpace'),
       ('combinations', 'yield_from_ranges, product'),
       ('writing out', 'IndexedSum._doit_full, IndexedSum._doit_over_indices')],
 technique='path-precise abstract interpretation: the methods are evaluated from their source '
 'for an arbitrary summand (a free term) and ranges of distinct opaque values, with both '
 'answers to whether a remaining sum simplifies, and the multiset of substitutions is compared '
 'with the product of the ranges; ranges are evaluated for a table of bounds, including '
 'generators that never end',
 note='Ranges are taken from a table of bounds (both directions, steps of one and two, empty, '
 'unknown dimension); how a sum that is left over simplifies is the subject of other '
 'properties. The limit on the number of terms and unknown indices are not decided.'),
]

NOT_APPLICABLE = []
