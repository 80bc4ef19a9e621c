"""Property id -> obligations."""
from . import spec_alias, spec_rec, spec_basis, spec_calls, spec_ctx, spec_eff, spec_eq, spec_exp, spec_flow, spec_imp, spec_io, spec_lattice, spec_more, spec_mv, spec_partial, spec_res, spec_restore, spec_seq


def reg(rule, obligations, **kw):
    d = dict(rule=rule, obligations=obligations)
    d.update(kw)
    return d


FORMULA = ('Each operation is abstractly interpreted on symbolic inputs of unknown size; the summary '
           '(a formula for every output field, with its path condition) is compared with the '
           'specified formula. A difference is reported only when the two formulas have different '
           'values in a finite interpretation in which the path condition is decided.')

EFFECT = ('Each operation is abstractly interpreted with every helper it calls inlined; the heap of each '
          'outcome (normal and exceptional) is compared, object by object and field by field, with the '
          'heap the caller passed in (aliases and views included).')

ALIAS = ('Each operation is abstractly interpreted with every helper it calls inlined; in the heap of each '
         'normal outcome, the mutable objects reachable from the result (views count as their base) are '
         'compared with those the caller passed in, and those reachable from an edited object with the '
         'arguments of the edit.')

BASIS = ('Each basis computation is abstractly interpreted with every loop at an arbitrary state; at every '
         'construction of an implication the contents of its sides, as formulas, are compared with the '
         'closure of the premise in the context, under the path condition of the construction.')

RECUR = ('The body of the loop is abstractly interpreted from a state in which every location it changes is a '
         'symbol; the transition so obtained (conditions of going on and of leaving, next values), the state before '
         'the loop and the result after it are formulas over the input. The recurrence they define is compared with '
         'the definition of the answer in finite interpretations.')

REGISTRY = {
    'C13': reg('From every function of the reading and writing modules, all functions reachable over the call '
               'graph are enumerated (calls by name, constructors, methods of the own class, methods of unknown '
               'receivers by name); none may refer to a construct that executes text or serialised code, except '
               'on constants.', lambda root: spec_flow.readers(root)),
    'C14': reg('Typestate of file objects over all paths of every function, with an exceptional edge out of '
               'every statement that can raise; helpers by summary. No path leaves a function with a file it '
               'opened still open, unless it hands the file to its caller.', lambda root: spec_res.files(root)),
    'C17': reg('Every write of every function is classified by what it can reach: variables of modules and '
               'classes, functions, classes themselves, default values (with their way through calls of the '
               'package), and values kept by caching decorators must not be changed, stored or handed out.',
               lambda root: spec_flow.modules(root)),
    'C20': reg('Every name, every attribute of the own object or of an object of a known class, every attribute of '
               'any other object, every call of a function, method, constructor or built-in, and every raise of '
               'every function is resolved against the definitions of the package (subclasses that inherit the '
               'calling method included); the target must exist, take the arguments given, and be an exception '
               'where it is raised.', lambda root: spec_calls.modules(root)),
    'C21': reg(FORMULA, lambda root: spec_lattice.lattice()),
    'C22': reg(FORMULA, lambda root: spec_more.more()),
    'C23': reg(FORMULA, lambda root: spec_partial.partials()),
    'C18': reg(RECUR, lambda root: spec_rec.recurrences()),
    'C27': reg(BASIS, lambda root: spec_basis.valid()),
    'C15': reg(FORMULA, lambda root: spec_io.formats() + spec_io.encodings()),
    'C19': reg(FORMULA, lambda root: spec_mv.many_valued() + spec_mv.by_values() + spec_mv.scales()),
    'C02': reg(ALIAS, lambda root: spec_alias.derived()),
    'C26': reg(FORMULA, lambda root: spec_eq.order()),
    'C11': reg(FORMULA, lambda root: spec_eq.equality()),
    'C01': reg(EFFECT, lambda root: spec_eff.queries()),
    'C04': reg(EFFECT, lambda root: spec_eff.rejected()),
    'C09': reg(FORMULA, lambda root: spec_exp.recomputed() + spec_exp.ordered()),
    'C10': reg(EFFECT, lambda root: spec_eff.refused()),
    'C12': reg(FORMULA + ' The operation of a C12 obligation is a history: ask, edit, ask again.',
               lambda root: spec_seq.context_histories() + spec_seq.memo_histories() + spec_seq.system_histories() + spec_seq.kept() +
               spec_restore.restored(root)),
    'C03': reg(FORMULA, lambda root: spec_ctx.mutators()),
    'C05': reg(FORMULA, lambda root: spec_ctx.derived()),
    'C06': reg(FORMULA, lambda root: spec_ctx.derivations()),
    'C07': reg(FORMULA, lambda root: spec_imp.satisfaction()),
    'C08': reg(FORMULA, lambda root: spec_exp.consistent()),
}
