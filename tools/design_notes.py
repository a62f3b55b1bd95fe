"""Further text for the sections of DESIGN.md"""
NOTES = {
 'C01': ["The constructors of all classes (own and inherited) are summarised "
  "path by path; the reported arguments are terms over the constructor's "
  "parameters, and each parameter has to be recoverable from them. "
  "Conversions that do not lose anything (tuple, sorting of commutative "
  "operands, `ensure_local_space`) are recognised by what they compute."],
 'C02': ["The identity key is followed from `_instance_key` through the key "
  "function; every constructor parameter must reach it, through lossless "
  "steps only. Classes with their own equality or hash are compared member "
  "by member."],
 'C06': ["`sa/algebra.py` interprets the returned terms in a free algebra "
  "with an involution: sums, ordered products, scalars; anything else is an "
  "atom. The law is checked as an equation of normal forms."],
 'C07': ["`sa/calculus.py` adds an abstract derivation D with D(xy) = "
  "(Dx)y + x(Dy), D of a function of scalars by the chain rule. Variadic "
  "operations are instantiated with two to four operands."],
 'C08': ["The n-th coefficient of an operand is an uninterpreted functional; "
  "products must give Cauchy sums. The Taylor rule of the default "
  "implementation is decided from its loop."],
 'C10': ["Guards of constructors and of `space` are decided in a finite "
  "model: every space is a set of local factors, each pair of spaces is "
  "equal, contained, overlapping or disjoint, trivial or full."],
 'C14': ["Operators are followed through the dispatch of Python "
  "(`__op__`, then `__rop__` of the other operand); what `create` returns is "
  "taken to denote the operation (C16 is about the rules themselves)."],
 'C15': ["Renaming by `make_disjunct_indices` is traced: the index symbols "
  "it avoids must cover those that occur free in every other factor."],
 'C23': ["The classes of spaces form a finite model: a space is trivial, a "
  "local factor, a product of some factors, or the full space; all pairs of "
  "configurations over three factors are evaluated along every path."],
 'C04': ["`sa/heap.py` runs `create` on a symbolic heap: the simplifications "
  "are opaque functions that return arguments, an expression, another object "
  "or raise; the cache contains the key or not. The key function is applied "
  "to a systematic family of argument structures, and two different "
  "structures must give different keys."],
 'C05': ["Each manager is run on a symbolic heap: enter, arbitrary changes "
  "by the body (including nested managers and new keys), leave normally or "
  "by an exception; the cells it may have changed must hold the original "
  "objects with their original content."],
 'C03': ["`sa/alias.py`: an object is described by the owners of four levels "
  "of contents. A lazily computed attribute may be stored if the function "
  "tests it, computes it from the object only and the constructor leaves it "
  "empty. Private helpers may modify what they are given; their callers are "
  "judged instead."],
 'C24': ["`sa/linear.py` interprets the source path by path over a small "
  "domain: integers are linear expressions in unknowns (the index, the "
  "increment, the dimension), a basis is a sequence of unknown length whose "
  "entries are known by position, a string is the label at a position or a "
  "stranger, errors are followed into their handlers. The specification is "
  "a list of regions (linear constraints and the wanted outcome); a path "
  "that can be in a region must have the outcome of the region. What the "
  "domain does not cover (non-linear arithmetic, unknown calls) makes an "
  "obligation undecided.",
  "Found and fixed: the next symbolic label failed, silently gave nothing "
  "for invalid types, the positions of levels of the spin operators failed, "
  "negative indices were accepted in product spaces and symbolic labels, a "
  "spin space had no basis state for an index."],
 'C16': ["`sa/rules.py` reads every `X._rules`/`_binary_rules` table from "
  "the source (pattern, replacement); `sa/flow.py` expands the replacement "
  "into paths with conditions. `sa/rulealg.py` is a rewriting system for the "
  "free algebra over letters with a set of elementary spaces: letters on "
  "disjoint spaces commute, ladder/displacement/phase/spin/transition letters "
  "obey their textbook relations, scalars are polynomials with conjugation, "
  "deltas, roots and exponentials, partial traces move letters cyclically. "
  "`sa/ruleeval.py` maps terms of the source to it. A rule holds if both "
  "sides have one normal form for every arrangement of at most three "
  "elementary spaces that satisfies the conditions on the path; conditions "
  "that are not understood make a difference undecided, not a violation.",
  "Found and fixed: the phase operator multiplied by a label, nested powers "
  "with non-integer exponents, the index of symbolic transitions, spin "
  "coefficients of symbolic indices, partial traces that reordered "
  "operators."],
 'C17': ["`sa/diagram.py` turns both sides into wiring diagrams: boxes of "
  "symbolic width, permutations known by their mapping, cascades, sums, "
  "feedback, inverses. `same` follows the wire from every external port, and "
  "every port of every box, backwards through both; offsets are linear "
  "expressions, and a comparison of two of them that the path condition "
  "leaves open splits the case.",
  "The rules run on operands that fit their patterns; loops over the parts of "
  "a composition are unrolled for two and three parts; loops over the channels "
  "of a permutation are executed for one generic channel. What a component "
  "becomes in a reduced model is opaque (a mark on the box); the network around "
  "it has to stay.",
  "Assumed: `block_perm_and_perms_within_blocks` returns some permutation of "
  "the blocks and permutations within them (the analysis forks over all of "
  "the former); `permutation_to_block_permutations` is not analysed."],
 'C25': ["`sa/formal.py` interprets the source with polynomials over commuting "
  "scalars (sines, exponentials and inverses included) and words of operators "
  "to the left and to the right; modes obey [a, a'] = 1, transition operators "
  "multiply as matrix units, noises commute with the system. Arrays have fixed "
  "sizes and such entries. Expected values are written down in "
  "`sa/checks/models.py` from the formulas of the SLH formalism, not from the "
  "code.",
  "Coefficients read from an expression that was not expanded are a symbol of "
  "their own: code that reads them does not get what it needs. An array that "
  "is added to an operator adds it to all entries, as numpy does (this showed "
  "the wrong Heisenberg equation).",
  "`expand`, `simplify_scalar` and `create` keep the value (C11, C12, C16)."],
 'C21': ["`sa/checks/patterns.py` evaluates the matcher with mutable lists, generators "
  "and exceptions as Python has them. Values are opaque; a comparison of two of them "
  "and a condition are open questions, answered both ways and consistently on a "
  "path. Nested patterns are matched by the code itself.",
  "The reference matcher is twenty lines of Python in the analyser that see the "
  "pattern and the expression as data: a class test, conditions, a distribution of "
  "the positions by length, and consistent bindings. It is asked the same questions, "
  "and each path must agree with it in its outcome and bindings.",
  "This showed that a pattern with arguments could not be matched against an "
  "expression without any (UnboundLocalError).",
  "What is not decided: whether the same name for two groups of arguments in nested "
  "patterns is compared (the code merges them)."],
 'C22': ["`sa/checks/converters.py` evaluates the conversion of an expression of each "
  "class whose constituents are opaque: their conversions are symbols that "
  "belong to a tensor factor (induction over the expression), so that symbols of "
  "different factors commute and those of one factor do not. Matrices carry the "
  "order of their tensor factors. A constituent converted without the mapping is "
  "another symbol.",
  "An attribute counts only if the class (or a base class, or its declared "
  "arguments) defines it; this showed that five classes could not be converted. "
  "`isinstance` with a constant instead of a class is a TypeError, as in Python; "
  "this showed that no super-operator could be converted.",
  "Explicit SymPy matrices are evaluated for dimensions one to four, with square "
  "roots as symbols; displacements and squeezings as formal exponentials. QuTiP "
  "orders spins from the top, QNET from the bottom: `jmat` is modelled so.",
  "The regular expression for the imaginary unit is applied to sample strings "
  "with the letter in names."],
 'C26': ["`sa/checks/equations.py` evaluates the methods of equations with the interpreter "
  "of C21 (lists are objects on a heap, so that sharing a history between equations shows). "
  "Sides are terms of a free algebra; a comparison of two of them is answered both ways and "
  "recorded, and terms that are equal on a path are rewritten to one form.",
  "The oracle is a list of lines (left, right, tag). Printed text is taken apart into "
  "lines; a left-hand side may be left out only where the path says that it equals the "
  "one before (whether it must be left out is not decided)."],
 'C27': ["`sa/checks/sums.py` evaluates ranges and sums with the interpreter of C21/C26. The "
  "summand is a free term T; putting in index values gives T[i=a,...], and the oracle is the "
  "product of the ranges. A sum that is created for the remaining ranges is answered both ways: "
  "it stays a sum, or it has become an arbitrary expression without the methods of sums.",
  "Generators are followed for 16 items; an endless one must give 0, 1, 2, ... that far. The "
  "piecewise weight is a condition built from sympy sets, evaluated by the analyser at the "
  "values -4...7.",
  "Genuine defects found while writing it and repaired: empty sums and max_terms=0 gave an "
  "AttributeError instead of zero, writing out one index failed where the rest simplified to "
  "something that is no indexed sum, and the weight of a Hilbert space of dimension d was one at "
  "d, outside of the range."],
}
