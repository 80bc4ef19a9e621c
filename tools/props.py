"""The properties: single source of properties.jsonl and MANIFEST.json."""
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, level='other',
         na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, level=level, na=na))


AI = 'abstract interpretation to closed-form summaries, compared with specification formulas'
EFF = ('interprocedural effect analysis by abstract interpretation: the heap of every outcome is compared '
       'with the caller-visible heap at entry')
TB = ('Trusts the abstract interpreter in /verif/sa (its models of Python built-ins, numpy, csv) and the '
      'specification formulas. Summaries are for inputs of any size; a difference is confirmed on the '
      'formulas in finite interpretations before it is reported, so constructs the interpreter cannot '
      'summarise are undecided (counted in the evidence), never reported.')

prop('C03', 'Context edits change exactly what they name',
     'After any successful edit of a context (adding, deleting, renaming an object or attribute, or '
     'replacing an intent or extent), the objects, attributes and incidence are exactly the previous ones '
     'with that one change applied, in the same order. Every view of the context (the boolean table, the '
     'list-of-lists table, look-ups by name) shows this same state.',
     ['inputs', 'histories'], 'every context (any size, including none) and every edit with valid arguments',
     'tests apply a few edits to one 4x4 context and look at one view; the guarantee is about every '
     'context, position and every redundant view after the edit',
     ['fca/context.py'],
     [('Context.__init__ rebuilds all views from one table', 'fca/context.py Context.__init__'),
      ('edit methods', 'fca/context.py add_object .. rename_attribute')],
     AI, TB)
prop('C05', 'Derived contexts carry exactly the incidence of their source',
     'A context derived from another (transposition, subcontexts by attributes, complement, compound, '
     'boolean product, removal of empty objects) and the list of object-attribute pairs contain exactly '
     'the objects, attributes and crosses that the source determines, for every source context.',
     ['inputs'], 'every context and every selection of attributes',
     'tests compare one or two hand-written results; index, order and mode mistakes show only on other '
     'shapes (non-square, empty, several selected attributes)',
     ['fca/context.py'],
     [('transpose, extract_subcontext*, complementary, compound, __mul__', 'fca/context.py')],
     AI, TB)
prop('C06', 'Derivation operators are exact for every set, including the empty one',
     'For every context and every set of objects or attributes, derivation returns exactly the elements '
     'common to all members of the set (everything for the empty set), and closure is derivation applied '
     'twice; the index-based, name-based and stand-alone versions agree, as do the object intents and '
     'attribute extents.',
     ['inputs'], 'every context, every subset, given as set or list',
     'tests evaluate the operators on a handful of subsets of small contexts; an off-by-one in the fold '
     'over the members shows only for particular subset sizes',
     ['fca/context.py', 'fca/algorithms/closure_operators.py'],
     [('oprime/aprime/oclosure/aclosure and *_inds', 'fca/context.py'),
      ('stand-alone operators', 'fca/algorithms/closure_operators.py')],
     AI, TB)
prop('C01', 'Queries never modify their inputs',
     'An operation that answers a question or builds something new (derivation, closure, lattice, bases, '
     'implications, subcontexts, scaling, writing a file, printing, and the like) leaves the context it is '
     'asked of, and every other argument its caller passed in (contexts, sets, lists, implications, '
     'concepts, tables), exactly as they were, whether it returns or raises.',
     ['inputs', 'histories'], 'every query operation of the package, every input, every outcome',
     'tests compare the answer, not the arguments; an in-place intersection or sort on a shared set or row '
     'shows only in what a later, unrelated call answers',
     ['fca/context.py', 'fca/implication.py', 'fca/mvcontext.py', 'fca/concept_lattice.py',
      'fca/algorithms', 'fca/readwrite'],
     [('derivations take copies', 'fca/context.py oprime/aprime/*_inds'),
      ('bases work on copies of the context', 'fca/algorithms/implication_covers.py, fca/implication.py')],
     EFF, TB)
prop('C04', 'A rejected context edit leaves the context unchanged',
     'When an edit of a context (adding, deleting, renaming, replacing an intent or extent) raises an '
     'exception, for instance because a name is unknown or a row has the wrong length, the context, in '
     'all its views, is exactly what it was before the call.',
     ['inputs', 'fault_sequences'], 'every edit operation, every argument that makes it raise',
     'tests of errors check that the exception is raised; partial updates of one of the redundant views '
     'before the exception appear only in later answers',
     ['fca/context.py', 'fca/mvcontext.py', 'fca/partial_context.py'],
     [('edit methods validate before they modify', 'fca/context.py add_object .. rename_attribute')],
     EFF, TB)
prop('C07', 'An implication is respected exactly when it says so',
     'A set of attributes respects an implication exactly when it lacks part of the premise or contains '
     'the whole conclusion (for a negative implication: lacks part of the premise or contains nothing of '
     'the conclusion). For a partial example, given as what it certainly has and what it possibly has, '
     'the premise is compared with the certain attributes and the conclusion with the possible ones. A '
     'set respects background knowledge exactly when it respects every implication in it.',
     ['inputs'], 'every implication (overlapping or empty sides too), every set and partial example',
     'tests try a few sets; the cases that differ are empty sides, overlapping sides and partial examples',
     ['fca/implication.py', 'fca/algorithms/exploration2/exploration.py', 'fca/algorithms/exploration.py'],
     [('is_respected of the three classes', 'fca/implication.py'),
      ('respect_background_knowledge, check_*_for_conflicts', 'exploration modules')],
     AI, TB)
prop('C08', 'Exploration accepts exactly the consistent examples',
     'In an exploration (basic exploration, exploration database, session) an example, attribute or edit is '
     'accepted exactly when every intent (and, in object exploration, every extent) it produces respects '
     'all implications confirmed so far, and, if it is offered as a counter-example, when it really '
     'violates the implication in question. What is accepted is stored as given; anything else is refused '
     'with an exception.',
     ['inputs', 'histories'], 'every exploration state, every example, edit and confirmed implication',
     'tests follow a scripted exploration; the consistency check must hold for every confirmed '
     'implication and every example, of both kinds',
     ['fca/algorithms/exploration.py', 'fca/algorithms/exploration_/exploration.py',
      'fca/algorithms/exploration2/exploration.py'],
     [('counter-example and conflict checks', 'BasicExploration.counter_example_*, add_*, edit_*'),
      ('background knowledge checks', 'ExplorationDB._check_intents, Basis.respect_background_knowledge')],
     AI, TB)
prop('C09', 'Open implications always belong to the current exploration state',
     'After every accepted change of an exploration (a new, edited or deleted example or attribute, a '
     'confirmed or withdrawn implication, completing a partial context) the open implications it offers '
     'are those computed from the context and the confirmed implications as they are now, without the '
     'confirmed ones; confirming an implication moves exactly that one from open to confirmed.',
     ['histories'], 'every exploration state and every accepted operation',
     'tests replay one scripted exploration; a missing or too early recomputation shows only in sequences '
     'of operations that they do not contain',
     ['fca/algorithms/exploration.py', 'fca/algorithms/exploration_/exploration.py',
      'fca/algorithms/exploration2/exploration.py'],
     [('recompute_basis', 'BasicExploration.recompute_basis'),
      ('context_modifier, base_modifier', 'fca/algorithms/exploration_/exploration.py')],
     AI + '; typestate (write, then recompute) on the event order of every path', TB)
prop('C10', 'A refused exploration step changes nothing',
     'When an operation of an exploration raises an exception (the example conflicts, is no '
     'counter-example, the name is taken or unknown), the context, the confirmed implications and the '
     'open implications are exactly what they were.',
     ['inputs', 'histories'], 'every exploration state, every operation and argument that makes it raise',
     'tests check that the exception is raised, not what an expert finds in the context afterwards',
     ['fca/algorithms/exploration.py', 'fca/algorithms/exploration_/exploration.py',
      'fca/algorithms/exploration2/exploration.py'],
     [('checks precede modifications', 'BasicExploration, ExplorationDB, ExplorationSession')],
     EFF, TB)
prop('C12', 'Answers after an edit are those of the edited context',
     'Whatever was asked of a context, partial context or concept system before, once an edit has returned '
     'every query answers for the edited state: derivations, closures, object intents, attribute extents, '
     'derived contexts, pairs, parents and children are never those remembered from before the edit, '
     'also when implications were computed in between.',
     ['histories'], 'every history "ask, edit, ask again" over every context, query and edit',
     'tests ask freshly built contexts; a remembered result shows only when the same question is repeated '
     'after an edit',
     ['fca/context.py', 'fca/concept_system.py', 'fca/partial_context.py', 'fca/mvcontext.py'],
     [('memo, basis_computation, clear_cxt_vars', 'fca/context.py'),
      ('_parents reset by append and remove', 'fca/concept_system.py ConceptSystem')],
     AI + '; typestate of fields that hold kept results', TB)
prop('C11', 'Equality and hashing follow content',
     'Two concepts are equal exactly when they have the same extent and intent; two implications of a kind '
     'exactly when they have the same premise and the same conclusion (without the premise); two contexts '
     'exactly when they have the same objects, attributes and crosses, in whatever order. Equal concepts '
     'and equal implications have equal hashes, however their sets were built, so that they are found '
     'again in sets and dictionaries. A deep copy of a context or implication is of the same class and equals '
     'its original.',
     ['inputs'], 'every pair of concepts, implications and contexts, every iteration order of their sets',
     'tests compare a few obviously equal or different objects; a hash that depends on the order of a set '
     'fails only for some insertion histories and hash seeds',
     ['fca/concept.py', 'fca/implication.py', 'fca/context.py'],
     [('__eq__ and __hash__', 'Concept, Implication (through its printed form), Context'),
      ('__deepcopy__', 'Context, Implication')],
     AI + '; the iteration order of every set is arbitrary', TB)
prop('C26', 'Concept systems and lattices are ordered by intent inclusion',
     'In a concept system or concept lattice the filter of a concept is exactly the concepts with a '
     'properly smaller intent and its ideal exactly those with a properly larger one, in the order of the '
     'collection; the top concept is the one with an empty filter and the bottom concept the one with an '
     'empty ideal. It makes no difference whether one asks with a concept of the collection or with '
     'another one that equals it; membership, index and length are those of the collection, with concepts '
     'compared by content.',
     ['inputs'], 'every collection of concepts with distinct intents, every concept in it or outside',
     'tests look at one lattice of nine concepts, where comparing sizes, or taking the first or last '
     'concept, gives the same answers',
     ['fca/concept_system.py', 'fca/concept_lattice.py'],
     [('filter, ideal, get_top_concept, get_bottom_concept, index, __contains__, __len__', 'ConceptSystem, ConceptLattice')],
     AI, TB)
prop('C02', 'What an operation returns or stores is its own',
     'The result of a query (a derived context, intent, extent, closure, basis, list of implications, many-'
     'valued subcontext and the like) shares no mutable object with what its caller passed in, nor with '
     'what the object asked keeps for itself; and an edit, or building a concept, implication or context, '
     'stores copies of the lists, sets and tables it is given. So changing a result, or an argument '
     'afterwards, never changes the context, concept or implication it came from or went into. (Accessors '
     'such as objects, attributes, premise and conclusion, which show the live object, are excepted.)',
     ['inputs', 'histories'], 'every query, every edit and constructor of the package, every input',
     'tests compare results and throw them away; a shared row or set shows only when somebody modifies '
     'one of the two and looks at the other',
     ['fca/context.py', 'fca/mvcontext.py', 'fca/partial_context.py', 'fca/implication.py',
      'fca/concept.py', 'fca/algorithms'],
     [('derivations return fresh sets', 'fca/context.py oprime, aprime, *_inds'),
      ('constructors copy', 'Context.__init__, Concept.__init__, Implication.__init__')],
     'interprocedural escape and alias analysis by abstract interpretation',
     'Trusts the abstract interpreter in /verif/sa (its models of Python built-ins, numpy, csv). Objects are '
     'identified by allocation site and context; constructs it cannot summarise are undecided (counted in '
     'the evidence), never reported.')
prop('C19', 'Many-valued contexts keep their values',
     'A many-valued context holds exactly the values it was given, of any type: every edit (adding, deleting, '
     'renaming an object or attribute), copy and subcontext (by attributes, or of the objects with given '
     'attribute values) has exactly the values, objects and attributes that the one it came from '
     'determines, in the same order, in every view. An ordinal scale from min to max has one object per '
     'value, and crosses a value with a bound exactly when the value is at most (at least) the bound.',
     ['inputs'], 'every many-valued context, every edit and selection, every range and mode of an ordinal scale',
     'tests read values of one table; a conversion of the values or a shifted column shows only for other '
     'types and positions',
     ['fca/mvcontext.py', 'fca/context.py', 'fca/scale.py'],
     [('ManyValuedContext', 'fca/mvcontext.py'), ('shared edit methods', 'fca/context.py add_object ..'),
      ('OrdinalScale', 'fca/scale.py')],
     AI, TB)
prop('C15', 'Files hold the context, and readers give it back',
     'Writing a context to .cxt, a many-valued context to tab-separated text or a context to .fimi leaves, '
     'when the function returns, a complete and closed file in the stated format: every object, attribute, '
     'cross and value, in order. Reading a well-formed .cxt, tab-separated (with or without object names, '
     'many-valued) or comma-separated file gives exactly the objects, attributes and crosses or values that '
     'the file states (.cxt names that are numbers become numbers). Writer and reader of a format use the '
     'same encoding, so what is written is read back. (For names without line breaks, separators, quotes '
     'and surrounding blanks; tables with at least one object for the two-valued text formats.)',
     ['inputs'], 'every context and many-valued context of any size, every well-formed file',
     'tests read a few fixture files; off-by-one header counts, shifted columns, empty contexts, unusual '
     'names and unclosed files show only on other data',
     ['fca/readwrite/cxt.py', 'fca/readwrite/tab_separated.py', 'fca/readwrite/comma_separated.py',
      'fca/readwrite/fimi.py'],
     [('read_cxt, write_cxt, uread_cxt, uwrite_cxt', 'fca/readwrite/cxt.py'),
      ('read_txt, read_txt_with_names, read_mv_txt, write_mv_txt, u*', 'fca/readwrite/tab_separated.py'),
      ('read_mv_csv, read_csv', 'fca/readwrite/comma_separated.py'), ('write_fimi', 'fca/readwrite/fimi.py')],
     'abstract interpretation: the text written (read), as a formula over the context (the lines of the file), '
     'compared with the formula of the format', TB)
prop('C13', 'Reading a file never executes what it contains',
     'Whatever a file (or a text typed by a user of a reader) contains, reading or writing it through fca.readwrite '
     'only ever treats its text as data: nothing that was read is evaluated, compiled, imported or unpickled, '
     'neither by the reader itself nor by anything it calls.',
     ['inputs'], 'every content of every file in every supported format',
     'no test contains a hostile name; a reader that evaluates names behaves the same on ordinary files',
     ['fca/readwrite/cxt.py', 'fca/readwrite/tab_separated.py', 'fca/readwrite/comma_separated.py',
      'fca/readwrite/xml_.py', 'fca/readwrite/dot.py', 'fca/readwrite/fimi.py'],
     [('names are parsed as literals only', 'fca/readwrite/cxt.py read_cxt'),
      ('handlers collect text', 'fca/readwrite/xml_.py')],
     'reachability over the call graph to constructs that execute text',
     'Trusts name resolution: a dangerous function reached through getattr with a computed name, or inside a '
     'library, is not seen.')
prop('C14', 'Files are closed on every path',
     'Every file that fca opens is closed again when the operation ends, whichever way it ends: normal return, '
     'early return, an exception because the content is malformed, or an exception from what the context, system '
     'or iterator being written does. No file object is dropped or replaced while open.',
     ['inputs', 'fault_sequences'], 'every path of every function that opens a file, with an exception possible at every '
     'statement that can raise',
     'an unclosed file has no visible effect on a small test run; on failure paths it loses written data or '
     'exhausts descriptors',
     ['fca/readwrite/cxt.py', 'fca/readwrite/tab_separated.py', 'fca/readwrite/comma_separated.py',
      'fca/readwrite/xml_.py', 'fca/readwrite/dot.py', 'fca/readwrite/fimi.py'],
     [('with blocks around all reading and writing', 'fca/readwrite/*.py')],
     'typestate analysis of file objects over all paths, exceptional ones included',
     'Trusts that closing releases a file and that the file is not reachable through other names; a second name '
     'or storage in an attribute is reported as undecided.')
prop('C17', 'Separate calls and objects share no hidden state',
     'What an operation of fca answers depends on its arguments (and the state of the object it is called on) '
     'only: no operation changes a module variable, a class, a function, a default value, or anything else that '
     'outlives the call and is not an argument; and no mutable default value or module or class variable is '
     'stored in an object or handed to a caller, so that two objects, or two calls, never affect each other '
     'unless they share an argument.',
     ['histories', 'inputs'], 'every sequence of calls on any objects of the package',
     'a leak through a default value or a module variable shows only on the second call of a sequence',
     ['fca/context.py', 'fca/mvcontext.py', 'fca/concept_system.py', 'fca/implication.py',
      'fca/algorithms/dg_basis.py', 'fca/algorithms/closure_operators.py'],
     [('defaults are copied', 'fca/mvcontext.py ManyValuedContext.__init__'),
      ('defaults are copied', 'fca/implication.py Implication.__init__'),
      ('no module state', 'all of fca')],
     'interprocedural escape and effect analysis of module state, class state and default values',
     'Trusts name resolution; state reached through getattr with computed names, or kept inside libraries, is '
     'not seen.')
prop('C20', 'Every inner call of fca fits what it calls',
     'No operation of fca fails for want of a name: on every path of every function, each name is defined, each '
     'attribute or method used on an object of the package exists for every class the object can have (subclasses '
     'included), each call passes arguments that the function, constructor, method or built-in it reaches '
     'accepts, and what is raised is an exception.',
     ['inputs', 'histories'], 'every function, every path, every subclass that inherits a method',
     'tests run some paths of some functions on the base classes; a rare branch, an error message, a mode or a '
     'subclass that no test exercises fails only when a user gets there',
     ['fca/context.py', 'fca/scale.py', 'fca/concept_system.py', 'fca/concept_lattice.py', 'fca/algorithms/exploration.py',
      'fca/algorithms/filtering/filter.py', 'fca/algorithms/implication_covers.py', 'fca/algorithms/patterns.py'],
     [('edits rebuild through a method that scales override', 'fca/context.py Context._rebuild'),
      ('all calls inside the package', 'fca/**/*.py')],
     'name and call resolution over the syntax trees of the whole package (class hierarchy analysis, '
     'signature matching)',
     'Attributes of objects of unknown class are compared with the attributes that exist anywhere; computed '
     'names (getattr, setattr, star arguments) and blocks guarded by handlers of AttributeError, NameError or '
     'TypeError are not judged.')
prop('C22', 'Measures, labels and selections of concepts follow their definitions',
     'For every lattice, the extent size, intent size and separation index of each concept are the numbers their '
     'definitions give; a concept is labelled with exactly the objects (attributes) of its extent (intent) that '
     'no concept with a properly smaller extent (intent) has; selecting concepts by a threshold keeps exactly '
     'those whose index reaches it, and selecting a number of them keeps that many with no better one left out; '
     'noting a measure about the concepts of a lattice records the current value of that measure for each '
     'concept under its name and leaves other notes; '
     'one table counts as contained in another exactly when each of its crosses is one of the other.',
     ['inputs'], 'every lattice or concept system, every concept in it, every threshold or number; every pair of '
     'tables of the same dimensions',
     'tests look at one small lattice or none; ties, empty extents, non-square tables and comparisons by size '
     'instead of inclusion do not show there',
     ['fca/algorithms/filtering/filter.py', 'fca/algorithms/filtering/separation.py',
      'fca/algorithms/filtering/extentsize.py', 'fca/algorithms/filtering/intentsize.py',
      'fca/readwrite/dot.py', 'fca/compare_context.py'],
     [('compute_extent_size, compute_intent_size, compute_separation_index', 'fca/algorithms/filtering/'),
      ('filter_concepts', 'fca/algorithms/filtering/filter.py'),
      ('find_own_objects, find_own_attributes', 'fca/readwrite/dot.py'),
      ('subseteq_table', 'fca/compare_context.py')],
     AI, TB)
prop('C23', 'Partial contexts keep what is certain and what is possible apart',
     'A partial context accepts two tables exactly when every certain cross is possible, and an object exactly when '
     'its certain attributes are all possible. Building, copying, transposing one and adding an object give '
     'partial contexts whose certain and possible crosses are each exactly those of their source; its intents '
     'pair the certain with the possible attributes of each object, and its closure of a set holds exactly the '
     'attributes possible for every object that certainly has the set.',
     ['inputs'], 'every partial context of any size, every pair of tables, every set of attributes',
     'tests build one partial context and look at its implications; mixing up the two tables shows only where '
     'something is possible but not certain',
     ['fca/partial_context.py', 'fca/compare_context.py'],
     [('PartialContext', 'fca/partial_context.py')],
     AI, TB)
prop('C21', 'The lattice is complete and its covering relation exact',
     'For every context, the concepts built for it (norris, its iterative form, ConceptLattice) are exactly '
     'the formal concepts of the context, each once, with their full extent and intent. In a lattice, and in '
     'any system of concepts with distinct intents, the parents of a concept are exactly the concepts of the '
     'system directly above it (smaller intent, none strictly between) and the children exactly those '
     'directly below it.',
     ['inputs'], 'every context of any size; every concept system with distinct intents; every concept of it',
     'tests compare the lattice of one or two contexts; an off-by-one in the scan of the earlier objects or '
     'of the concepts in between drops or duplicates concepts and edges only for other tables and orders',
     ['fca/algorithms/norris.py', 'fca/concept_lattice.py', 'fca/concept_system.py'],
     [('iterative_norris, norris, compute_covering_relation', 'fca/algorithms/norris.py'),
      ('ConceptLattice: concepts, parents, children', 'fca/concept_lattice.py'),
      ('ConceptSystem: compute_covering_relation, parents, children', 'fca/concept_system.py')],
     'abstract interpretation to closed-form summaries; for the incremental algorithm one iteration from an '
     'arbitrary loop state (the concepts of the objects so far), compared with the specified next state: an '
     'inductive invariant checked on the formulas', TB)
prop('C18', 'Computed bases are the canonical ones and closures are least',
     'The implication basis computed for a context (all variants, with and without background implications '
     'that hold in it, and the attribute and object implications of a context) is exactly the '
     'Duquenne-Guigues basis: one implication per pseudo-closed set, from the set to its closure, none '
     'missing, none redundant, none repeated. Closing a set under a list of implications gives the least set '
     'that contains it and respects every implication.',
     ['inputs'], 'every context, every list of implications, every set',
     'tests compare the bases of a few contexts; a slip in the order of the enumeration loses or repeats an '
     'implication only on contexts with certain combinations of closed sets',
     ['fca/algorithms/dg_basis.py', 'fca/algorithms/closure_operators.py', 'fca/context.py'],
     [('generalized_compute_dg_basis, generalized_dg_basis_iter', 'fca/algorithms/dg_basis.py'),
      ('simple_closure, lin_closure', 'fca/algorithms/closure_operators.py'),
      ('get_attribute_implications, get_object_implications', 'fca/context.py')],
     'abstract interpretation of the loop body to its transition formula; the recurrence of state before, '
     'transition and result is compared with the definition of pseudo-closed sets and closures', TB)
prop('C27', 'Implications of a basis hold and are closed',
     'Every implication the basis computations deliver (the stem base of a context in its variants, of a '
     'partial context, and the attribute and object implications of a context) holds in the context it was '
     'computed from: together with its premise its conclusion is exactly the closure of the premise there '
     '(for a partial context, what certainly-containing rows possibly have in common), and no implication is '
     'delivered whose conclusion follows from the premise alone.',
     ['inputs'], 'every context and partial context, every implication delivered, at every state of the loops',
     'tests compare the bases of a few contexts; a premise and a conclusion taken from different moments of '
     'the enumeration, or a missing guard, shows only on contexts where they differ',
     ['fca/algorithms/dg_basis.py', 'fca/context.py', 'fca/partial_context.py', 'fca/implication.py'],
     [('compute_dg_basis, compute_dg_basis_simple, dg_basis_iter_simple, compute_partial_dg_basis',
       'fca/algorithms/dg_basis.py'),
      ('get_attribute_implications, get_object_implications', 'fca/context.py'),
      ('get_attribute_implications', 'fca/partial_context.py')],
     'abstract interpretation with every loop at an arbitrary state: the sides of every implication at its '
     'construction, as formulas, compared with the closure of the premise', TB)

# ---- properties this family does not decide here
prop('C28', 'Reducing a context keeps its lattice and leaves nothing reducible',
     'Clarifying and reducing a context (by objects or by attributes) gives a context whose closed sets '
     'correspond one to one to those of the original, and in which no object (attribute) whose row (column) '
     'is not full is an intersection of others.',
     ['inputs'], 'every context',
     'tests reduce two contexts; reducibility depends on the whole set of rows and on their order',
     ['fca/context.py'], [('clarify_objects, reduce_objects, reduce_attributes', 'fca/context.py')],
     na='reduce_objects codes rows as binary numbers and compares positions, codes and their bitwise meets in '
        'nested loops with a set that grows meanwhile; the invariant (a code stands for a set of columns, the '
        'rows removed so far are intersections of those left) is number-theoretic and outside the formulas '
        'over names and axes the analysis derives.')
prop('C29', 'Factorisations reproduce the context',
     'The factors computed for a context are formal concepts of it, and the product of the object-factor and '
     'factor-attribute contexts made from an exact factorisation is the context itself.',
     ['inputs'], 'every context, every algorithm of the module, every order of ties',
     'tests factorise a few contexts; greedy choices differ on others',
     ['fca/algorithms/factors.py'], [('algorithm2, algorithm2_weighted, make_factor_cxts', 'fca/algorithms/factors.py')],
     na='The greedy cover ends when no uncovered pair is left, a well-founded argument over pairs covered by '
        'choices made by a maximum over a changing score; the choice is not expressible as a formula and the '
        'order of equal scores is that of a hash set. The inner calls and the effects are covered by C20, C01 '
        'and C02.')
prop('C30', 'Linear-time closure and implication covers',
     'lin_closure gives the same closure as simple_closure for every list of implications, and the covers '
     'computed from a context or by removing subsumed implications have the same models.',
     ['inputs'], 'every list of implications and every set',
     'tests close a few sets; the counters go wrong only with repeated or empty premises',
     ['fca/algorithms/closure_operators.py', 'fca/algorithms/implication_covers.py'],
     [('lin_closure', 'fca/algorithms/closure_operators.py'),
      ('compute_implication_cover, remove_subsumed', 'fca/algorithms/implication_covers.py')],
     na='The algorithm counts down premises in a dictionary keyed by implications and drives a work list; '
        'its invariant relates the counters to the processed part of the closure. Dictionaries of counters '
        'over an unknown number of keys, changed in nested loops, are beyond the summaries (C18 reports '
        'lin_closure as undecided). That closures do not change their inputs is decided in C01 and C02.')
prop('C31', 'Stability and probability indices have their numerical values',
     'Intensional and extensional stability are the shares of subsets of the extent (intent) with the same '
     'closure, and the probability index is that of the independence model, up to rounding.',
     ['inputs'], 'every lattice',
     'tests compare one lattice to printed values',
     ['fca/algorithms/filtering'], [('compute_istability, compute_estability', 'fca/algorithms/filtering/stability.py'),
      ('compute_probability', 'fca/algorithms/filtering/probability.py')],
     na='Sums over power sets computed by recursion down the lattice, and floating-point products of '
        'logarithms: equality up to rounding is a numerical question that no static argument in reach '
        'settles. Signatures, effects and shared state of these functions are covered by C20, C01 and C17.')
prop('C32', 'XML and dot files describe the concept system written',
     'Reading an xml file of a concept system gives back concepts, their notes and their order, and the dot '
     'text has one node per concept and one edge per covering pair.',
     ['inputs'], 'every concept system', 'tests write none or one',
     ['fca/readwrite/xml_.py', 'fca/readwrite/dot.py'],
     [('read_xml, write_xml', 'fca/readwrite/xml_.py'), ('write_dot', 'fca/readwrite/dot.py')],
     na='The writers iterate over sets in hash order and the reader is a SAX handler whose calls are made by '
        'the expat library, in an order and with chunks of text the source does not determine; a model of '
        'the parser would be the object of the proof. That the files are closed, and that calls share no '
        'state, is decided in C14 and C17.')
prop('C33', 'Concept and basis computations end',
     'Every computation of concepts, bases, closures and covers ends after finitely many steps on every '
     'context.',
     ['inputs'], 'every context and list of implications', 'a test that does not end only shows a few inputs',
     ['fca/algorithms'], [('while loops', 'fca/algorithms/dg_basis.py, closure_operators.py, factors.py')],
     na='Termination needs a ranking argument per loop (lectic order of closed sets, growth of the closure, '
        'shrinking cover), which the transition formulas do not provide; C18 compares the recurrences of the '
        'enumeration and closure loops only where they end.')
