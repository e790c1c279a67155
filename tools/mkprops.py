"""Writes /verif/properties.jsonl (and checks it against the schema when jsonschema is there)."""
import json, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

CX = 'fca/context.py'
p('C01', 'A context always equals the replay of its edit history',
  "After any sequence of adding, setting, deleting and renaming objects and attributes (including removing empty objects, which gives the context back), every view of the context - object and attribute lists, table, name-to-position indices, row intents, column extents, single values, pair list, iteration and length - agrees with applying the same edits, in order, to an abstract table, and all object names and all attribute names stay pairwise distinct. "
  "An edit that is refused (unknown name, row or column of the wrong length) leaves the context exactly as it was.",
  ['histories', 'inputs'],
  'Every sequence of public edits on every initial context (scales, which are contexts, too), including ones with no objects or no attributes, names of any hashable kind, colliding names (which are made distinct by a suffix), and every view after every step.',
  'tests/test_context.py applies one fixed short sequence to one random context and looks at a single membership; indices, the three parallel table representations and zero-row tables are never compared along a history.',
  [CX],
  [('edit methods rebuild every derived field through __init__', 'fca/context.py Context.add_*, set_*, delete_*, rename_*, remove_empty_objects'), ('duplicate names are suffixed', 'fca/context.py Context.__init__')],
  [('np_table / cross_table', 'the incidence relation, twice', 'fca/context.py Context.__init__'), ('object_indices / attribute_indices', 'name -> position', 'fca/context.py Context.__init__')],
  ['Context.objects', 'Context.attributes', 'Context.table', 'Context.cross_table', 'Context.get_object_intent', 'Context.get_attribute_extent', 'Context.get_value', 'Context.object_attribute_pairs'])

p('C02', 'Derivation and closure operators compute the Galois connection',
  "For every set of objects the derived attribute set is exactly the attributes all of them have, for every set of attributes the derived object set is exactly the objects having all of them (the empty set derives to everything), and the closures are the compositions of the two. "
  "This holds alike for the name-based and index-based methods of a context and for the stand-alone operators, for any kind of collection given, and for contexts of any size including those with no rows or no columns.",
  ['inputs', 'histories'],
  'Every context (any size, density, names, way of having been built or edited) and every subset of its objects or attributes, in every accepted container type (any iterable for name-based methods; any collection of positions).',
  'The existing tests only compare one closure of single attributes with another operator of the same class on random 60x12 tables; empty sets, empty tables, large widths and the stand-alone operators are not exercised against a definition.',
  [CX, 'fca/algorithms/closure_operators.py'],
  [('oprime/aprime/oclosure/aclosure and *_inds', CX), ('oprime/aprime/oclosure/aclosure functions', 'fca/algorithms/closure_operators.py')], (),
  ['return values of the operators'])

p('C03', 'Counting closures report exact support counts',
  "The counting closure of an attribute set gives the number of objects having all of them, and for every attribute the number of those objects that have it (zero or missing when none do), so the attributes whose count equals that number, when it is positive, are exactly the ordinary closure. "
  "The counting derivation of an attribute set gives for every object how many of the given attributes it has, and by positions likewise, in both directions.",
  ['inputs', 'histories'],
  'Every context and every set of its attributes (including the empty one and ones no object has).',
  'The existing test checks the counts only for attributes already in the closure of single attributes on one random table.',
  [CX],
  [('associative_aclosure, associative_aprime and their index forms', CX)], (), ['return values'])

p('C04', 'Concept enumeration is sound, complete and duplicate-free',
  "For every context, the concepts listed (as a list, by the exhausted incremental iterator, and as the members of the concept lattice) are exactly the pairs of an object set and an attribute set that derive each other, each one listed once. "
  "This includes contexts with no objects, no attributes, repeated, empty or full rows and columns, and holds however the consumption of several iterators is interleaved.",
  ['inputs', 'histories'],
  'Every finite context; every interleaving of lazily consumed enumerations over it.',
  'The existing test checks that two concepts belong to the lattice of one stored context.',
  ['fca/algorithms/norris.py', 'fca/concept_lattice.py', CX, 'fca/concept.py'],
  [('incremental insertion with the canonicity test on earlier objects', 'fca/algorithms/norris.py iterative_norris')],
  [('cs', 'concepts found so far, extents still growing', 'fca/algorithms/norris.py iterative_norris')],
  ['Context.concepts', 'Context.iterate_concepts', 'norris', 'ConceptLattice'])

p('C05', 'Lattice order queries agree with inclusion of intents',
  "In a concept lattice and in any concept system, the parents and children of a concept are exactly its upper and lower neighbours under inclusion of intents among the members, its filter and ideal are exactly the members strictly above and below it, and the top and bottom concept are the greatest and least member when there is one. "
  "This keeps holding after members are added or removed and after descriptive values are attached to concepts, and in a deep or pickled copy, whose concepts are its own; equal concepts always have equal hashes.",
  ['inputs', 'histories'],
  'Every context lattice, every subset of its concepts and every collection of concepts that come from no one context as a concept system, every history of append, remove, annotate and query.',
  'No existing test calls parents, children, filter, ideal, top or bottom, or edits a concept system.',
  ['fca/concept_lattice.py', 'fca/concept_system.py', 'fca/algorithms/norris.py', 'fca/concept.py'],
  [('compute_covering_relation', 'fca/algorithms/norris.py, fca/concept_system.py'), ('cache of parents reset on append/remove', 'fca/concept_system.py'), ('Concept.__eq__/__hash__', 'fca/concept.py')],
  [('_parents', 'cached covering relation keyed by concept', 'fca/concept_lattice.py, fca/concept_system.py')],
  ['parents', 'children', 'filter', 'ideal', 'top_concept', 'bottom_concept', 'compute_covering_relation'])

p('C06', 'Every basis algorithm returns the canonical implication basis',
  "For every context, each algorithm for the implication basis (optimised next-closure with either closure procedure, its lazy iterator, and the attribute-incremental one, called directly or through the context) returns exactly the canonical (Duquenne-Guigues) basis: one implication per pseudo-intent, with the pseudo-intent as premise and its closure as premise plus conclusion, nothing twice and nothing missing. "
  "Every computation ends, also for contexts with no objects or no attributes.",
  ['inputs', 'histories'],
  'Every finite context with names of any kind (they need not be comparable), every attribute order, every algorithm, lazily or eagerly consumed.',
  'The existing tests compare the sizes of two bases and closures of pairs on random 60x12 tables, and one fixed table; wrong premises, missing implications on small dense tables and degenerate tables escape.',
  ['fca/algorithms/dg_basis.py', 'fca/algorithms/aibasis.py', CX],
  [('generalized_compute_dg_basis, generalized_dg_basis_iter', 'fca/algorithms/dg_basis.py'), ('update_preclosed', 'fca/algorithms/aibasis.py'), ('memoising wrapper', 'fca/context.py basis_computation')],
  [('preclosed', 'closed and pseudo-closed sets of the prefix context, kept in an order extending inclusion', 'fca/algorithms/aibasis.py')],
  ['return values of all basis functions'])

p('C07', 'A basis relative to confirmed implications is sound, complete, lean',
  "Given confirmed implications that hold in the context, the relative basis contains only implications that hold in the context, together with the confirmed ones entails every implication of the context, and contains none that follows from the rest and the confirmed ones. "
  "With a condition on premises, every reported implication has a premise meeting it and still holds in the context; the list of confirmed implications is never modified.",
  ['inputs', 'histories'],
  'Every context, every list of implications valid in it (repeated, overlapping, with empty premises, partial or redundant ones), every premise condition.',
  'Two fixed 4x4 tables with one confirmed implication each.',
  ['fca/algorithms/dg_basis.py', 'fca/algorithms/closure_operators.py', CX],
  [('closing candidate premises under found plus confirmed implications', 'fca/algorithms/dg_basis.py generalized_compute_dg_basis')], (),
  ['compute_dg_basis', 'compute_dg_basis_simple', 'dg_basis_iter_simple', 'Context.get_attribute_implications'])

p('C08', 'Closing a set under implications yields the least closed superset',
  "For every attribute set and every list of implications, both closure procedures return exactly the smallest superset that respects all the implications, whatever the order, repetition or overlap of the list and whatever premises or conclusions are empty. "
  "The prefix-bounded variant returns that same closure when it agrees with the given set on the first k elements of the base order, and reports failure otherwise.",
  ['inputs'],
  'Every finite set over any attribute names, every list of implications (any length, order, repetitions, empty premises, cycles), every prefix length.',
  'Only doctests on two hand-written implication lists (which do not run) and closures of pairs under one basis.',
  ['fca/algorithms/closure_operators.py'],
  [('simple_closure, lin_closure, closure', 'fca/algorithms/closure_operators.py')],
  [('count', 'number of unmet premise elements per implication', 'fca/algorithms/closure_operators.py lin_closure')],
  ['return values'])

p('C09', 'No query answer is stale: it reflects the current table',
  "Whatever edits, queries, abandoned iterators and failed computations happened before, every query of a context (intents, extents, closures, concepts, lattice, attribute and object implications, pairs, transposition, copies) answers exactly as a freshly built context with the same names and table would. "
  "In particular the object implications are the canonical basis of the current transposed context.",
  ['histories', 'fault_sequences', 'inputs'],
  'Every history mixing edits, complete and abandoned queries, and queries whose callback raises, on one context object.',
  'No test edits a context between two basis computations, queries object implications at all, or lets a callback fail.',
  [CX],
  [('memo installed on the instance during a basis computation and removed after', 'fca/context.py basis_computation'), ('get_object_implications', CX)],
  [('memo caches', 'row/column sets remembered during a computation', 'fca/context.py memo')],
  ['all query methods of Context'])

p('C10', 'The object-incremental implication cover is equivalent to the context',
  "The implication cover built object by object entails exactly the implications that hold in the context: closing any attribute set under the cover gives its closure in the context; no implication of it is subsumed by another. "
  "Updating a cover built this way with one more object intent gives such a cover for the context with that object added, and minimising a cover keeps it equivalent and leaves no implication that follows from the others; the redundancy test says of any implication whether it follows from a cover.",
  ['inputs', 'histories'],
  'Every context, every order of inserting its objects, every attribute set.',
  'The module has no test.',
  ['fca/algorithms/implication_covers.py'],
  [('updated_basis, remove_subsumed*, add_smartly, minimize', 'fca/algorithms/implication_covers.py')], (),
  ['compute_implication_cover', 'updated_basis', 'minimize', 'is_redundant'])

p('C11', 'Clarifying and reducing keep the concept structure, and go all the way',
  "Clarifying objects keeps exactly one object per distinct row with its row unchanged; reducing objects keeps a subset of the objects with their rows unchanged such that the family of intents of the context is the same, and no kept row other than a full one equals the intersection of other kept rows. "
  "Reducing attributes is the same with the roles of objects and attributes exchanged; the original context is unchanged, also by later edits of what was returned, for tables of any width.",
  ['inputs'],
  'Every context of any shape and width (also beyond machine-word width), with repeated, empty and full rows.',
  'Only used inside one factorisation test on a random 1500x20 table, where nothing about the reduced context itself is asserted.',
  [CX],
  [('clarify_objects, reduce_objects, reduce_attributes, list2int', CX)], (),
  ['returned contexts'])

p('C12', 'Derived contexts have exactly the prescribed names and incidence',
  "Transposition swaps objects and attributes and is its own inverse; the complement inverts every cell and prefixes the text of attribute names with 'not '; the compound is original and complement side by side; the subcontext on a list of attributes and the row filters by attributes (all of them, or at least one) keep exactly the specified columns and rows in order. "
  "The product of two contexts relates an object to an attribute exactly when some middle element links them, and is refused when the middle names differ, even only in their order; unknown attribute names are refused; the sources never change, also not by later edits of what was derived. A random context has the size asked for, distinct names, and exactly no or all crosses at density 0 or 1.",
  ['inputs'],
  'Every context (any shape, also without rows or columns) and every choice of names, filters and compatible factors.',
  'One fixed 5x4 by 4x6 product; complement, compound, subcontexts and transposition have no test.',
  [CX],
  [('transpose, complementary, compound, extract_subcontext*, __mul__, make_random_context', CX)], (), ['returned contexts'])

p('C13', 'Equality means same names and incidence; copies are independent',
  "Two contexts compare equal exactly when they have the same set of objects, the same set of attributes and the same incidence between them, regardless of row and column order, scales of contexts included, and comparison with something that is not a context is refused. "
  "A deep or pickled copy equals its source, and neither it nor any context built or derived from the same lists, tables or contexts is affected by later edits of the other.",
  ['inputs', 'histories'],
  'Every pair of contexts, every permutation of rows and columns, every single-cell or single-name difference, every later edit on either side of a copy.',
  'One pair of 3x3 contexts compared equal; inequality and independence of copies are never tested.',
  [CX, 'fca/scale.py'],
  [('__eq__, __deepcopy__, __init__ copying its arguments', CX)], (), ['==', 'copy.deepcopy', 'state of the other context after edits'])

p('C14', 'Factorisation covers the context exactly, to the requested fidelity',
  "Every factor produced by the greedy decomposition and by its weighted variant is a formal concept of the context covering at least one cross not covered before, and production stops exactly when the covered share of crosses reaches the requested fidelity; the plain variant reports for each factor the share of crosses it newly covers, the weighted one the share of the table formed by the rows and columns concerned. Each factor is a greedy choice: by that measure no attribute's own concept would newly cover more, nor, in the plain variant, the factor with one attribute added. "
  "At full fidelity the product of the object-factor and factor-attribute contexts made from the factors equals the original context without its empty rows and columns; contexts without crosses yield no factors. The two contexts made from any collection of concepts (also repeated ones and ones without objects or attributes) have one name per factor, in order, with its extent as column and its intent as row.",
  ['inputs'],
  'Every context (names of any hashable kind) and every fidelity between 0 and 1, with any tie-breaking.',
  'Random 1500x20 tables of density 0.3 and three tiny ones; fidelity reporting, factor validity, the weighted variant, and tables without crosses are not tested.',
  ['fca/algorithms/factors.py', CX],
  [('algorithm2, algorithm2_weighted, make_factor_cxts', 'fca/algorithms/factors.py')],
  [('U', 'crosses not yet covered', 'fca/algorithms/factors.py')],
  ['yielded factors and shares', 'make_factor_cxts', 'Context.__mul__'])

p('C15', 'Constrained factorisation only yields factors meeting its constraints',
  "Every factor produced under constraints is a formal concept with at least the required number of objects and of attributes, and with at least as many objects as attributes when that is asked for; the reported covered share stays between 0 and 1, never decreases, and all factors but the last are reported while it is below the requested fidelity; the share reported as newly covered by a factor is positive and no more than its crosses (without repetitions, its rows and columns) add. "
  "When repetitions are excluded, every factor has an attribute that no earlier factor has; with repetitions allowed, full fidelity covers every cross when every concept with a cross meets the constraints; the production always ends without error.",
  ['inputs'],
  'Every context, fidelity, minimum size, and combination of the two flags.',
  'Three contexts are run and only the number of factors is looked at.',
  ['fca/algorithms/factors.py'],
  [('algorithm2_w_condition', 'fca/algorithms/factors.py')],
  [('U, removed_atts', 'remaining crosses and excluded attributes', 'fca/algorithms/factors.py')],
  ['yielded triples'])

EX = 'fca/algorithms/exploration_/exploration.py'
p('C16', 'Attribute exploration stays consistent along every dialogue',
  "Along any sequence of confirming, withdrawing and rejecting implications and of adding, deleting and editing examples and attributes, every example respects every confirmed implication, and the open implications are exactly the basis of the current context relative to the confirmed ones (with a condition on premises: those with an admitted premise, as a fresh computation gives them). "
  "An operation that is refused (not a counterexample, conflict with confirmed knowledge, deleting an attribute it is about, name already taken) changes neither examples, attributes, confirmed nor open implications; a dialogue with a truthful expert ends, with confirmed implications equivalent to the expert's knowledge.",
  ['histories', 'inputs'],
  "Every history of dialogue operations, valid and invalid, over every initial context; every truthful expert. What is confirmed holds in the current examples (that is the expert's part).",
  'Six scripted steps on two fixed contexts; deleting, editing and refused operations beyond one are not exercised.',
  [EX],
  [('context_modifier, base_modifier recompute the relative basis', EX), ('_check_intents before modification', EX)],
  [('_implications', 'confirmed knowledge', EX), ('_cxt_implications', 'open implications', EX)],
  ['ExplorationDB.base', 'ExplorationDB.open_implications', 'ExplorationDB.objects', 'AttributeExploration'])

p('C17', 'Two-sided exploration keeps context, candidates and confirmations in step',
  "After every accepted operation the confirmed attribute implications and the confirmed object implications all hold in the explored context, and the candidate implications of each kind are exactly the members of the canonical basis of the current context (for objects: of its transpose) that are not confirmed. "
  "A counterexample is accepted exactly when it contains the premise, misses part of the conclusion, conflicts with no confirmed implication and has a new name; any refused operation leaves context, candidates and confirmations unchanged, and the initial context given by the caller is never modified. Its printed form shows the context and each of the four lists under its heading.",
  ['histories', 'inputs'],
  'Every history of confirmations, counterexamples of both kinds, additions and edits, valid and invalid, over every initial context.',
  'The class has no test.',
  ['fca/algorithms/exploration.py'],
  [('check_*_for_conflicts, recompute_basis', 'fca/algorithms/exploration.py')],
  [('confirmed_attribute_implications / confirmed_object_implications', 'accepted knowledge', 'fca/algorithms/exploration.py')],
  ['BasicExploration attributes after each call'])

p('C18', 'Exploration sessions accept only genuine, consistent counterexamples',
  "In an exploration session a rejection is accepted, adding exactly the given object (its name made distinct by a suffix if taken) with exactly the given intent, if and only if the intent violates the rejected implication and respects all accepted implications; otherwise it raises and nothing changes. "
  "Several sessions of one exploration, and explorations over one context, each keep accepted implications of their own. The candidates are always the basis of the session's current context (also when the table under it was edited directly) relative to the accepted implications, and lists and sets handed out by the session can be modified by the caller without affecting it.",
  ['histories', 'inputs'],
  'Every history of accepting and rejecting, with valid and invalid counterexamples, in one session per exploration, also with other explorations of the same context.',
  'The existing tests only create a session and count objects.',
  ['fca/algorithms/exploration2/exploration.py'],
  [('reject_implication, add_object, respect_background_knowledge', 'fca/algorithms/exploration2/exploration.py')],
  [('_background_implications', 'accepted implications', 'fca/algorithms/exploration2/exploration.py')],
  ['ExplorationSession and ExplorationContext accessors'])

p('C19', 'A pattern is confirmed only if positives have it and no negative does',
  "A pattern is confirmed exactly when at least one positive example and no negative example contains it, and otherwise it is refused with the matching error and nothing changes; a negative example given for a pattern is refused unless it contains the pattern. "
  "Every pattern generated by default is contained in no negative example and is given with the number of positive examples containing it; the generated patterns are those of the current examples, and each closed group of positive examples is described by one of them unless some negative example contains attributes enough to describe that group. "
  "An example counts as explained exactly when it contains a confirmed pattern, the unconfirmed patterns offered are exactly the generated ones not explained by confirmed ones, each with the number of unexplained positive examples it covers, most covering first, and the contexts given by the caller are never modified.",
  ['histories', 'inputs'],
  'Every pair of contexts over the same attributes (in any order, with full, empty and repeated rows) and every history of confirmations and additions.',
  'The module has no test.',
  ['fca/algorithms/patterns.py'],
  [('confirm_pattern, add_*_example, is_explained, iterate_positive_concepts', 'fca/algorithms/patterns.py')],
  [('confirmed_patterns', 'accepted patterns', 'fca/algorithms/patterns.py')],
  ['BasicPatternExploration methods'])

p('C20', 'Partial contexts keep certain inside possible and never lose a completion',
  "A partial context is accepted exactly when every certain cross is also possible, and this keeps holding after adding examples, transposing, copying and completing; an inconsistent example is refused without effect. Names given twice are made distinct, the same everywhere. "
  "Completing under implications changes no example's set of implication-respecting total versions between its certain and possible attributes, makes certain exactly the forced attributes and impossible exactly those of no such version, and fails exactly when some example's forced attributes exceed its possible ones, then changing nothing (whether or not names can be printed); every open implication is compatible with every example (no example certainly has the premise and impossibly the conclusion), and with no uncertainty they are the canonical basis.",
  ['inputs', 'histories'],
  'Every pair of tables over the same names, every implication list, every history of additions and completions.',
  'The module has no test (it could not even be constructed before the repair of the table comparison).',
  ['fca/partial_context.py', 'fca/compare_context.py', 'fca/algorithms/dg_basis.py', EX],
  [('subseteq_table', 'fca/compare_context.py'), ('complete, xq_aclosure, add_object_with_intent', 'fca/partial_context.py')],
  [('x_context / q_context', 'certain and possible incidence', 'fca/partial_context.py')],
  ['PartialContext.intents', 'PartialContext.get_attribute_implications', 'PartialContext.complete'])

p('C21', 'Conceptual scaling derives exactly the crosses the scales prescribe',
  "A many-valued context keeps every value it was given, and its subcontexts (by attributes, by row condition, by attribute values) keep exactly the selected values. "
  "Scaling it relates an object to a derived attribute exactly when the object's value satisfies the condition of some row of that attribute's scale that has the cross, with derived attributes in order and named 'attribute:scale attribute'; a nominal scale makes exactly the objects with equal values share an attribute, which names the value, and an ordinal scale gives exactly the thresholds at or above (below) the value.",
  ['inputs'],
  'Every many-valued table of values (numbers of any size, infinite or not a number, texts, truth values, missing values, sequences), and every list of scales (nominal, ordinal, user-made with conditions on the value).',
  'Only doctests that need missing files; no test of scaling or many-valued contexts runs.',
  ['fca/mvcontext.py', 'fca/scale.py', 'fca/algorithms/scaling.py'],
  [('scale_mvcontext', 'fca/algorithms/scaling.py'), ('NominalScale, OrdinalScale', 'fca/scale.py')], (),
  ['ManyValuedContext.table', 'scale_mvcontext'])

p('C22', 'Context files in Burmeister format round-trip',
  "Writing a context to a .cxt file and reading it back, with the plain or the unicode pair of functions, gives a context with the same table, order and names (the plain reader turns a name whose text is a Python literal, such as a number, into that value; the unicode one keeps all names as text, whatever the encoding of the system). "
  "Reading never evaluates names as code, and a file without the format marker is refused.",
  ['inputs'],
  'Every context whose names are single-line texts without surrounding blanks (any characters) or other values of such a text, which is then what is written, including contexts without objects or attributes.',
  'One stored file is read in the suite; nothing is written back and no unusual name appears.',
  ['fca/readwrite/cxt.py'],
  [('read_cxt, write_cxt, uread_cxt, uwrite_cxt', 'fca/readwrite/cxt.py')], (),
  ['files written', 'contexts read'])

p('C23', 'Delimited text readers and writers preserve names and values',
  "A many-valued context written as tab-separated text and read back (plain functions, or unicode ones, whatever the encoding of the system) has the same object names, attribute names and the same values as text, and comma-separated files are read to exactly the names and values they contain, quoted fields included; names given repeatedly are made distinct. "
  "Binary tables in tab- or comma-separated text, with or without object names, are read to exactly the crosses their ones and zeros denote.",
  ['inputs'],
  'Every table of texts without tabs, line breaks or surrounding blanks in names (any characters, any quoting in comma-separated files, where quoted values may contain line breaks), including names that look like values; blank lines at the end of a file change nothing.',
  'The readers have only doctests, which need missing files and do not run.',
  ['fca/readwrite/tab_separated.py', 'fca/readwrite/comma_separated.py'],
  [('read_txt, read_txt_with_names, read_mv_txt, uread_mv_txt, write_mv_txt, uwrite_mv_txt', 'fca/readwrite/tab_separated.py'), ('read_mv_csv, read_csv', 'fca/readwrite/comma_separated.py')], (),
  ['files written', 'contexts read'])

p('C24', 'Concept systems round-trip through XML',
  "Writing a list of concepts, a concept system or a lattice to XML and reading it back (plain or unicode reader) gives the same concepts in the same order, with the same extents and intents and the same numeric descriptive values, whatever characters the names contain, including markup characters and inner blanks, and whatever the encoding of the system. "
  "Reading several files one after another gives independent results.",
  ['inputs', 'histories'],
  'Every concept system over names that are texts of characters XML can carry, without line breaks or surrounding blanks, or other values of such a text, which is then what is read; descriptive value names made of letters and single inner blanks.',
  'Only doctests that need missing files; no test runs this code.',
  ['fca/readwrite/xml_.py'],
  [('write_xml, read_xml, uread_xml', 'fca/readwrite/xml_.py')],
  [('module globals', 'parser state shared by all reads', 'fca/readwrite/xml_.py')],
  ['files written', 'concept systems read'])

p('C25', 'Diagram and transaction exports represent the lattice and the table',
  "The diagram file written for a lattice or concept system has one node per concept, one edge per covering pair from the upper to the lower concept, and labels each concept with exactly its own objects and own attributes (those not already introduced by a smaller or larger concept), abbreviated to their number when there are five or more (in the unicode version: to their number, or to the first six followed by dots in full mode when there are more than six). "
  "The transaction export has one line per object listing exactly its attributes.",
  ['inputs'],
  'Every lattice of a context with names of any kind (quotes and backslashes in them are escaped, so that the file stays readable), and every subset of its concepts.',
  'Only a doctest of the empty file name; no test looks at an export.',
  ['fca/readwrite/dot.py', 'fca/readwrite/fimi.py'],
  [('write_dot, uwrite_dot, find_own_objects, find_own_attributes', 'fca/readwrite/dot.py'), ('write_fimi', 'fca/readwrite/fimi.py')], (),
  ['files written'])

p('C26', 'Concept indices equal their mathematical definitions',
  "For every concept of a lattice: intensional stability is the share of subsets of the extent whose common attributes are the intent, extensional stability the dual share for subsets of the intent, the separation index is the area of the concept over the crosses in its rows and columns (1 for an empty area), extent and intent size are shares of all objects and attributes, and the probability index is the probability that the intent is closed in a random table of the same size with the same attribute frequencies. "
  "Attaching an index to the concepts stores each concept's own value under the given name, keeping values stored before, and leaves the lattice usable.",
  ['inputs', 'histories'],
  'Every lattice of a non-empty context; indices attached in any order and combination.',
  'No test calls any index.',
  ['fca/algorithms/filtering/stability.py', 'fca/algorithms/filtering/separation.py', 'fca/algorithms/filtering/probability.py', 'fca/algorithms/filtering/extentsize.py', 'fca/algorithms/filtering/intentsize.py', 'fca/algorithms/filtering/filter.py'],
  [('compute_istability, compute_estability', 'fca/algorithms/filtering/stability.py'), ('compute_probability', 'fca/algorithms/filtering/probability.py'), ('compute_index', 'fca/algorithms/filtering/filter.py')], (),
  ['returned dictionaries', 'Concept.meta'])

p('C27', 'Filtering concepts keeps exactly the best-ranked ones',
  "Filtering by value keeps exactly the concepts whose index is at least the threshold, and filtering by absolute number keeps that many (the whole part of a number that is not whole; all, if there are fewer) such that no dropped concept has a higher index than a kept one. "
  "Filtering by part keeps at least the rounded-down share of the concepts, keeps more only where their indices lie closer to the best one beyond the share than those of the last two within it lie to each other, keeps no concept whose index is lower than that of a dropped one, and keeps each concept at most once; the result is a concept system of concepts of the lattice, which is itself unchanged.",
  ['inputs'],
  'Every lattice of a non-empty context, every index function (also user-made ones with ties), every mode and parameter.',
  'No test filters concepts (two of the three modes could not run before the repair).',
  ['fca/algorithms/filtering/filter.py'],
  [('filter_concepts', 'fca/algorithms/filtering/filter.py')], (), ['returned ConceptSystem'])

p('C28', 'Implications respect, compare and print according to their two sets',
  "A set respects an implication exactly when it does not contain the premise or contains the conclusion (for a partial example: when the conclusion is possible or the premise is not certain), and a negative implication exactly when it does not contain the premise or contains nothing of the conclusion (for a partial example: when nothing of the conclusion is possible or the premise is not certain). "
  "Implications are equal exactly when premises and conclusions outside the premise agree, equal ones have equal hashes, a unit implication equals the ordinary one with the same single conclusion, an implication and its copies are independent of each other and of the sets they were made from, the printed form names exactly the premise and the conclusion outside it, each in alphabetical order when the names are texts (ordinary and unit implications), over plain names it reads back as an equal implication, while a text without exactly one arrow is refused.",
  ['inputs'],
  'Every pair of finite sets of attribute names, every set (mutable or frozen) or partial example tested against them; a unit implication also with its conclusion in the premise, where it says nothing.',
  'One unit implication is compared; doctests do not run.',
  ['fca/implication.py'],
  [('is_respected, __eq__, __hash__, __repr__, str2imp, __deepcopy__', 'fca/implication.py')], (), ['return values'])

p('C29', 'Analyses never modify what they analyse, and repeat identically',
  "Computing closures, concepts, lattices, bases, covers, reductions, factors, indices, filters, scalings, exports, comparisons, products and other derived contexts leaves every context, set, implication list and concept given to it as it was, and repeating the same call gives the same answer. "
  "Sets, lists and contexts returned by a query can be modified by the caller without changing later answers.",
  ['inputs', 'histories'],
  'Every read-only entry point, every input, every sequence of such calls sharing inputs, with the returned values modified in between. Exempt: the live name lists, tables, concept lists, upper-neighbour sets and concept and implication objects that contexts, lattices and bases hand out.',
  'No test compares an input before and after a call, except the length of one list.',
  [CX, 'fca/algorithms/closure_operators.py', 'fca/algorithms/dg_basis.py', 'fca/algorithms/aibasis.py', 'fca/algorithms/norris.py', 'fca/algorithms/factors.py', 'fca/algorithms/filtering/stability.py'],
  [('copying before working', 'throughout')], (), ['snapshots of all arguments before and after each call'])

p('C30', 'Work done side by side, or within callbacks and iterators, does not mix',
  "Threads that only analyse contexts, lattices, concept systems and implications they share, or that read, write, edit and explore contexts and files of their own, get under every interleaving the answers they get alone. "
  "The same holds within one thread for iterators over concepts, implications, factors, patterns and rows that are advanced in turn, and for calls made from within a condition, basis or index function that an analysis calls back. "
  "What is shared stays as it was, and nothing of a computation stays behind: after a later edit of a shared context every view, basis and concept list is that of the edited table.",
  ['schedules', 'inputs', 'histories'],
  'Every interleaving (at any bytecode instruction) of any number of threads making any sequence of read-only calls on shared inputs or any calls on objects and files of their own; every order of advancing iterators; every call from within a callback. Exempt: threads of which one edits what another uses.',
  'The tests run one call after the other in one thread; no test interleaves two readers, two basis computations or two iterators, or calls the library from a callback.',
  [CX, 'fca/readwrite/xml_.py', 'fca/algorithms/dg_basis.py', 'fca/algorithms/norris.py', 'fca/algorithms/factors.py', 'fca/algorithms/exploration_/exploration.py', 'fca/algorithms/patterns.py'],
  [('rows and columns memoized on the context during a basis computation', 'fca/context.py basis_computation, memo'), ('state of the XML parser callbacks', 'fca/readwrite/xml_.py read_xml, uread_xml')],
  [('memo', 'rows and columns of a context while a basis is computed', 'instance attributes set by fca/context.py basis_computation')],
  ['answers of every thread, iterator and call from a callback', 'the shared inputs afterwards', 'answers after a later edit'])

p('C31', 'Exploration with partial examples never denies a possible truth',
  "Along any dialogue over a partial context, after every operation some total version of each example between its certain and possible attributes respects all confirmed implications, confirming and rejecting complete the examples exactly under the confirmed implications, and no open implication is refuted by an example, follows from the others, or has a premise not closed under the confirmed ones; when none is open, every implication that no example refutes follows from the confirmed ones. "
  "An operation that is refused (not a counterexample, a name taken, an example or implication that would leave an example without such a version) changes neither examples nor confirmed nor open implications. "
  "With a truthful expert, who tells of each example only a part that refutes the implication, the dialogue never contradicts what the expert knows and ends with confirmed implications equivalent to that knowledge.",
  ['histories', 'inputs'],
  "Every history of confirming, withdrawing, rejecting, adding and completing over every consistent partial context, and every truthful expert however little it tells.",
  'No test explores a partial context.',
  [EX, 'fca/partial_context.py', 'fca/algorithms/dg_basis.py'],
  [('_check_intents, confirm_implications, complete', EX), ('complete, xq_aclosure', 'fca/partial_context.py'), ('partial examples in is_respected', 'fca/implication.py')],
  [('x_context, q_context', 'certain and possible attributes of the examples', 'fca/partial_context.py'), ('_implications', 'confirmed implications', EX)],
  ['PartialContext.intents', 'ExplorationDB.base', 'ExplorationDB.open_implications', 'raised errors'])

p('C32', 'A many-valued context equals the replay of its edits, values intact',
  "After any sequence of adding, deleting and renaming objects and attributes, deep and pickled copies and subcontexts included, a many-valued context has exactly the names and, by table, row, cell or name, exactly the values (with their types) that the same edits give on a plain list of rows, and its nominal scales follow the edited values; it compares equal exactly to those with the same names and values, in any order. "
  "A refused edit changes nothing, and a context is never reached by edits of its copies or subcontexts, nor by writing to their rows or, in copies, to their values.",
  ['histories', 'inputs'],
  'Every history of edits of a many-valued context with distinct names, over values of any type, sequences included.',
  'No test edits or copies a many-valued context.',
  ['fca/mvcontext.py', 'fca/context.py'],
  [('ManyValuedContext', 'fca/mvcontext.py'), ('add_attribute, add_object, delete_*, rename_*', 'fca/context.py')],
  [('np_table, cross_table, object_indices, attribute_indices', 'values twice, and positions by name', 'fca/context.py')],
  ['ManyValuedContext.table', 'rows and cells', 'get_value', 'names'])

NB, BU = 'fca/algorithms/exploration2/examples/numbers.py', 'fca/algorithms/exploration_/examples/bi_unars.py'
p('C33', 'The worked explorations ask, record and conclude what is true',
  "In the exploration of number properties, with an expert at the prompt who answers truthfully about any finite set of positive numbers, every question is open (neither answered by accepted implications nor refuted by a number given before), each number enters the context with exactly the properties it has, and at the end the accepted implications close every attribute set exactly as those numbers do. "
  "The exploration of pairs of self-maps likewise knows of every pair only true equations, certain and possible ones, asks only open questions and ends with confirmed implications that close every set of equations as all pairs do; its helpers (composition, equations of a pair, exchange of the two maps, orbit order, background implications, counterexample search) match their definitions.",
  ['histories', 'inputs'],
  'Every finite set of positive numbers and every choice of refuting numbers; every choice of whole or partial counterexamples among the pairs of maps on up to four elements; every pair, equation set and implication for the helpers.',
  'The examples are interactive; no test runs them.',
  [NB, BU, 'fca/algorithms/exploration2/exploration.py', EX],
  [('CommandLineExploration', NB), ('CommandLineExpert, get_symmetric_*, is_orbit_maximal, generate_*', BU)],
  [('_session', 'the running exploration', NB), ('db', 'examples and confirmed implications', BU)],
  ['questions at the prompt', 'ExplorationSession.context', 'ExplorationSession.get_accepted_implications', 'ExplorationDB.base', 'PartialContext.intents'])

p('C34', 'Concepts, lattices and tables compare, list and print what they hold',
  "A concept has its own extent and intent, equals exactly the concepts with the same extent and the same intent (whatever values are attached) and nothing else, and its pairs are the product of the two. "
  "It prints its extent and intent in order (G for the extent when it has no attributes, M for the intent when it has no objects) and the values attached to it. "
  "A lattice, by whichever builder, and a concept system list the same concepts in the same order by position, slice, iteration and printed lines, hold exactly the concepts equal to a member, give the position of the first such one and refuse the position of any other. "
  "A printed context has a line of attributes and, per object, a cross exactly where it has the attribute; a printed many-valued context each object with its values, in order; a printed partial context shows what is certain, possible and impossible.",
  ['inputs', 'histories'],
  'Every concept, lattice, concept system, context, many-valued context and partial context over names of any hashable kind, along every history of edits.',
  'No test prints anything, and two concepts are compared once.',
  ['fca/concept.py', 'fca/concept_lattice.py', 'fca/concept_system.py', CX, 'fca/partial_context.py'],
  [('Concept.__eq__, __hash__, __str__, pairs', 'fca/concept.py'), ('container methods, index, __str__', 'fca/concept_lattice.py, fca/concept_system.py'), ('__repr__', 'fca/context.py, fca/mvcontext.py, fca/partial_context.py')], (),
  ['return values', 'printed texts'])

p('C35', 'A refusal says what it refuses, and is of the kind that is promised',
  "Whatever must be refused (a table that does not fit its names, a product of contexts that do not fit, unknown attribute names, a counterexample that misses the premise or has the whole conclusion or conflicts with confirmed implications, a taken name, a pattern that is none or matches a negative example, a negative example without its pattern, partial tables of different sizes or with more certain than possible) raises an error of the documented kind and family, the errors carry the set, implication, pattern or sizes they are about, and their text can be made and names these. "
  "A counterexample is blamed on a side that is at fault.",
  ['inputs', 'histories'],
  'Every refused call over contexts, sets, implications and patterns with names of any hashable kind.',
  'Tests provoke three of the about twenty refusals and look into none.',
  [CX, 'fca/algorithms/exploration.py', EX, 'fca/algorithms/exploration2/exploration.py', 'fca/algorithms/patterns.py', 'fca/compare_context.py', 'fca/partial_context.py'],
  [('exceptions of contexts', CX), ('exceptions of explorations', 'fca/algorithms/exploration.py, exploration_, exploration2'), ('exceptions of patterns', 'fca/algorithms/patterns.py')], (),
  ['raised errors', 'what they carry', 'their texts'])

p('C36', 'The basis of any closure operator is canonical, whatever it comes from',
  "Given any closure operator on a list of attributes (implied by implications, by a family of sets, by an order, by algebra or found by computing other bases) and any correct way of closing under implications, their answers in any collection, remembered or fresh, the two general algorithms return exactly its canonical basis, relative to the confirmed implications: every premise before those that contain it, the same list from both, however often it is asked. "
  "A lazy run may be interrupted, abandoned or interleaved with others and continues with what comes next. A failure of the operator arrives unchanged and spoils no later run. "
  "With a condition on premises that smaller sets meet too, exactly the implications of the basis whose premise meets it are returned; with any condition, only closures of premises that meet it. Attributes, confirmed implications and the sets of operator and procedure are not modified.",
  ['inputs', 'histories'],
  'Every closure operator on up to seven attributes with names of any hashable kind in any order, every list of confirmed implications valid for it, every premise condition, every consumption of the lazy form.',
  'The general algorithms are reached by tests only through contexts, and never with a condition.',
  ['fca/algorithms/dg_basis.py', 'fca/algorithms/closure_operators.py', 'fca/implication.py'],
  [('generalized_compute_dg_basis, generalized_dg_basis_iter', 'fca/algorithms/dg_basis.py'), ('simple_closure, lin_closure', 'fca/algorithms/closure_operators.py')], (),
  ['returned lists', 'implications yielded one by one', 'what the operator is asked'])

if __name__ == '__main__':
    out = ''.join(json.dumps(x, ensure_ascii=False) + '\n' for x in P)
    open('/verif/properties.jsonl', 'w').write(out)
    try:
        import jsonschema
        s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
        for x in P: jsonschema.validate(x, s)
        print(len(P), 'valid')
    except ImportError:
        print(len(P), 'written')
