"""Property id -> (title, check function)"""
from .checks import basis, circuits, converters, models, patterns, equations, sums, frozen, ruleset, caching, contexts, identity, adjoint, derivative, series, expand, traverse, printing, srepr, arith, indices, symbols, spaces

REGISTRY = {
    'C01': ("reconstruction from args/kwargs", identity.c01),
    'C02': ("equality and hashing", identity.c02),
    'C06': ("adjoint", adjoint.c06),
    'C07': ("derivatives", derivative.c07),
    'C08': ("series expansion", series.c08),
    'C11': ("substitution", traverse.c11),
    'C13': ("scalar simplification", traverse.c13),
    'C12': ("free and bound symbols", symbols.c12),
    'C10': ("Hilbert space of expressions", spaces.c10),
    'C23': ("Hilbert spaces as sets", spaces.c23),
    'C14': ("arithmetic", arith.c14),
    'C15': ("index symbols", indices.c15),
    'C18': ("textual renderings", printing.c18),
    'C19': ("rendering of adjoints", printing.c19),
    'C20': ("full-structure representation", srepr.c20),
    'C09': ("expansion", expand.c09),
    'C05': ("context managers", contexts.check),
    'C04': ("creating with and without the cache", caching.check),
    'C03': ("nothing is modified", frozen.check),
    'C24': ("basis states", basis.check),
    'C17': ("circuit reductions", circuits.check),
    'C25': ("model formulas", models.check),
    'C21': ("pattern matching", patterns.check),
    'C26': ("equations", equations.check),
    'C27': ("sums", sums.check),
    'C22': ("conversions to matrices", converters.check),
    'C16': ("automatic rules", ruleset.check),
}
