"""Writes /verif/MANIFEST.json and known_findings.json (fixed entries read their commits off /repo's log)."""
import json, subprocess, sys
V = '/verif/'
props = [json.loads(l) for l in open(V + 'properties.jsonl')]
TECH = {
 'C01': 'runtime monitor: edit histories replayed on a reference model, all views compared after every step',
 'C02': 'runtime monitor: results compared with derivation by definition over all subsets',
 'C03': 'runtime monitor: counts compared with counting by definition',
 'C04': 'runtime monitor: concept sets compared with closure of rows under intersection',
 'C05': 'runtime monitor: order, covers, top and bottom judged on every concept of built and edited systems',
 'C06': 'runtime monitor: every basis algorithm against the canonical basis by definition',
 'C07': 'runtime monitor: relative and conditional bases against an own relative next-closure',
 'C08': 'runtime monitor: closures against a naive fixpoint',
 'C09': 'runtime monitor: query/edit interleavings with injected failures, answers against a fresh context',
 'C10': 'runtime monitor: covers judged on every attribute set, after every increment',
 'C11': 'runtime monitor: reductions judged against irreducibility by definition',
 'C12': 'runtime monitor: derived contexts compared cell by cell with their definition',
 'C13': 'runtime monitor: equality judged over pairs with known relation',
 'C14': 'runtime monitor: online checker of the factor stream',
 'C15': 'runtime monitor: online checker of the factor stream with a logical step bound',
 'C16': 'runtime monitor: session histories against a model of the knowledge base',
 'C17': 'runtime monitor: dialogue histories, both bases judged after every step',
 'C18': 'runtime monitor: session histories until the end, judged against a hidden universe',
 'C19': 'runtime monitor: session histories against a model of confirmation',
 'C20': 'runtime monitor: histories with the sets of total versions enumerated before and after',
 'C21': 'runtime monitor: scaled tables against own decisions of the conditions',
 'C22': 'runtime monitor: files written, compared with the format, read back; traps for evaluated names',
 'C23': 'runtime monitor: files written and hand-made, read and compared',
 'C24': 'runtime monitor: files written and read in any order, results compared and held',
 'C25': 'runtime monitor: exported files parsed as graphs and lists, compared with the definition',
 'C26': 'runtime monitor: indices against exact rational arithmetic',
 'C27': 'runtime monitor: results judged against the definition of keeping the best',
 'C28': 'runtime monitor: predicates, equality, hashes, copies and printed forms against set algebra',
 'C29': 'runtime monitor: deep snapshots of all inputs around every call, repeated calls, modified answers',
 'C31': 'runtime monitor: dialogues with partial examples, judged after every step against the possible versions of each example',
 'C32': 'runtime monitor: every state of an edited many-valued context compared with a replay of the edits on lists',
 'C33': 'runtime monitor: dialogues at a simulated prompt, every question and the end judged against the finite universe the expert knows',
 'C36': 'runtime monitor: bases of closure operators of many origins against an own relative next-closure over all closed sets',
 'C35': 'runtime monitor: every call that must be refused, its error kind, payload and text against the call',
 'C34': 'runtime monitor: equality, membership, positions and printed texts of built and edited objects against what was put in',
 'C30': 'runtime monitor: threads under a seeded scheduler at line and instruction level, iterators and callbacks interleaved; every answer compared with the one alone',
}
NOTE = ('Every observed execution is judged against an independent reference; assurance covers the generated executions '
        '(counts, distinct states and lines reached are in the evidence), not those never driven. Trusts the reference '
        'model and Python itself; no hooks in /repo; a logical step counter (sys.monitoring) decides non-termination.')
m = {'version': 1,
     'setup_cmd': 'python3 rv/setup_check.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 rv/run.py ' + p['id'],
                 'thorough_cmd': 'python3 rv/run.py %s --tier thorough' % p['id'],
                 'technique': TECH[p['id']], 'level': 'exploration', 'level_note': NOTE} for p in props],
     'not_applicable': []}
json.dump(m, open(V + 'MANIFEST.json', 'w'), indent=1)

FIX = [
 ('keep the table two-dimensional', 'C01', 'adding an object to a context without objects, or deleting its last object, lost the columns; basis computations of such contexts raised IndexError (also C06)'),
 ('keep suffixing repeated names', 'C01', "names made distinct by a suffix could collide again (['a', 'a', 'a_0']), leaving repeated names"),
 ('put original and complement', 'C12', 'the compound context had its rows interleaved wrongly: original and complement were not side by side'),
 ('reduce objects of wide tables', 'C11', 'reduce_objects overflowed beyond 63 attributes and compared positions with keys, dropping irreducible objects'),
 ('compute object implications from', 'C09', 'object implications were cached and stale after an edit'),
 ('drop memoized rows and columns', 'C09', 'a basis computation that raised left memoized rows behind, so later queries ignored edits'),
 ('compare contexts by names', 'C13', "contexts with equal printed form (names 1 and '1', names with line breaks) compared equal"),
 ('keep the values of a many-valued', 'C21', 'ManyValuedContext turned every value into True or False'),
 ('hash concepts by extent', 'C05', 'the hash of a concept depended on its meta values, so lattices lost their concepts after attaching an index'),
 ('equal implications have equal', 'C28', 'Implication had equality without a matching hash'),
 ('read an empty side', 'C28', "str2imp read an empty side as {''}"),
 ('deep copies of unit', 'C28', 'deep copies of unit and negative implications became ordinary ones or failed'),
 ('compare tables cell by cell', 'C20', 'subseteq_table mixed rows and columns and raised on empty tables: PartialContext could not be constructed'),
 ('filter concepts by number', 'C27', "filter modes 'abs' and 'part' raised TypeError (cmp) and 'part' IndexError at its limits"),
 ('close correctly under a list', 'C08', 'lin_closure closed wrongly under repeated equal implications and returned the given set itself'),
 ('order preclosed sets lectically', 'C06', 'the attribute-incremental algorithm processed sets in the wrong order and missed implications'),
 ('delete examples and attributes', 'C16', 'deleting examples and attributes of an ExplorationDB raised'),
 ('refuse a taken name before', 'C16', 'editing an example to a taken name was refused only after deleting the example'),
 ('check the edited intents', 'C16', 'edit_attribute checked the old intents and ignored the name clash'),
 ('an edited object or attribute must', 'C17', 'edits were not checked against confirmed implications of the other kind'),
 ('quote text values', 'C21', "nominal scales over texts with quotes raised SyntaxError"),
 ('judge patterns by the examples', 'C19', 'patterns were judged wrongly when an example had all attributes'),
 ('generate patterns with frequencies', 'C19', 'the default pattern generator gave no frequencies, so every exploration raised'),
 ('a context without crosses', 'C14', 'factorising a context without crosses divided by zero'),
 ('derive objects from attributes', 'C14', 'the weighted factorisation called a missing argument order and raised'),
 ('constrained factorisation goes on', 'C15', 'the constrained factorisation looped forever or asserted when a factor covered nothing new'),
 ('constrained factorisation yields', 'C15', 'the factor using up the attributes was dropped'),
 ('add all or none of the counter', 'C16', 'a rejection with several counterexamples of which a later one is refused kept the earlier ones'),
 ('read names of a cxt file', 'C22', 'read_cxt evaluated names as Python code'),
 ('read and write unicode cxt', 'C22', 'uread_cxt and uwrite_cxt mixed bytes and text and raised'),
 ('read tab-separated files as text', 'C23', 'tab-separated readers opened files as bytes and raised'),
 ('object names of a tab-separated', 'C23', 'read_txt_with_names took object names for cells; empty tables raised'),
 ('write tab-separated tables', 'C23', 'written tab-separated tables had unquoted quotes and lost empty cells'),
 ('read comma-separated files', 'C23', 'comma-separated readers opened files as bytes, and read_csv took every text as a cross'),
 ('write xml as text', 'C24', 'write_xml and read_xml mixed bytes and text and raised'),
 ('keep names read from xml whole', 'C24', 'names delivered by the parser in several pieces lost all but the last'),
 ('read_xml and uread_xml keep', 'C30', 'the XML readers kept their state in module globals, so two reads in different threads mixed their names and concepts or raised KeyError'),
 ('simultaneous basis computations', 'C30', 'two basis computations on one context overlapping in different threads left the memo on it for good, so queries after later edits got the old rows'),
 ('completing a partial context brings', 'C31', 'after a completion the open implications were those of before it, some already refuted by a completed example'),
 ('a completion that fails leaves', 'C20', 'a completion that fails had already completed some of the examples'),
 ('refuse partial examples and implications', 'C31', 'a partial example, or a confirmation, that left an example without completion was refused only after it had been stored'),
 ('nominal scales of values', 'C21', 'nominal scales of columns with None, nan, inf or numbers beyond floats could not be made or evaluated'),
 ('a deep copy of a many-valued', 'C32', 'a deep copy of a many-valued context was a plain context of truth values'),
 ('rows and columns added to a many-valued', 'C32', 'adding an object to a many-valued context raised AttributeError; added columns of numbers and texts became texts'),
 ('delete_attributes with a repeated', 'C01', 'delete_attributes given a name twice deleted the name of another column'),
 ('a context without table or names', 'C01', 'Context() and Context(attributes=...) raised TypeError though every parameter has a default'),
 ('implications over elements that cannot', 'C28', 'printing an implication over elements that cannot be compared raised TypeError (also C33)'),
 ('a concept over names that cannot', 'C34', 'printing a concept over names that cannot be compared raised TypeError, and so did asking a lattice for the position of one that is not there'),
 ('the text of a refused product', 'C35', 'the text of a refused product of contexts left out the sizes it is about'),
 ('partial contexts keep their names in step', 'C20', 'a partial context with a name given twice had other names than its two tables, so listing its examples raised KeyError'),
 ('editing a scale no longer', 'C01', 'editing a scale raised TypeError halfway and left its names and table out of step'),
 ('unknown attribute names that are pairs', 'C35', 'extracting a subcontext with an unknown name that is a pair raised TypeError instead of the refusal'),
 ('write_fimi wrote attribute names', 'C25', 'write_fimi raised TypeError for attribute names that are tuples, or dropped their brackets'),
 ('every session of an exploration checks', 'C18', 'examples were checked against the implications accepted by the last session that was started on the exploration only: one answering through another session could put a counterexample to accepted implications in'),
 ('names that are no texts or contain quotes', 'C25', 'diagram files were unreadable for names with quotes or backslashes, and names that are no texts raised TypeError'),
 ('uwrite_cxt failed on names', 'C22', 'uwrite_cxt raised TypeError for names that are no texts, such as those read_cxt gives'),
 ('write_xml failed on names', 'C24', 'write_xml raised for names that are no texts'),
 ('comparing scales or many-valued', 'C13', 'comparing two scales, or two many-valued contexts (C32), raised TypeError that they are no contexts'),
 ('blank lines at the end of delimited', 'C23', 'readers of delimited text raised IndexError, or for too few cells, on a blank line at the end of the file'),
 ('many-valued contexts could not be printed', 'C34', 'printing a many-valued context raised KeyError'),
 ('completing a partial context stopped', 'C20', 'completing a partial context prints names: where they cannot be printed it raised UnicodeEncodeError with some examples completed and others not'),
 ('no closures and bases of contexts with names', 'C06', 'the stand-alone closures (C02), and with them every basis, raised TypeError for names that cannot be compared with each other'),
 ('the attribute-incremental basis was wrong', 'C06', 'the attribute-incremental basis was not canonical for names that are not totally ordered (frozensets) and raised TypeError for names that cannot be compared'),
 ('no complement of a context', 'C12', 'complement and compound raised TypeError for attribute names that are not text'),
 ('contexts and scales whose attribute names', 'C21', 'scaling raised TypeError for attribute names that are not text'),
 ('the probability of concepts was lost', 'C26', 'the probability index was 0 instead of 1 from about 1077 objects on: the terms underflowed before they were multiplied by the binomial coefficients'),
 ('the memo of a basis computation hands', 'C30', 'rows got from the context in a callback or another thread during a basis computation were the memo itself: modifying them spoiled the basis'),
 ('examples of a two-sided', 'C17', 'a counterexample or example under a taken name entered under another name, while confirmed implications of the other kind kept meaning the old one'),
 ('an attribute that confirmed', 'C16', 'an attribute mentioned in confirmed implications could be deleted; the basis computation then raised KeyError, leaving the database half changed'),
 ('confirmed implications kept the old', 'C16', 'after edit_attribute with a new name the confirmed implications spoke of the old one'),
 ('many-valued contexts refused', 'C32', 'many-valued contexts with lists, tuples or arrays as values raised ValueError (also C21)'),
 ('a unit implication whose', 'C28', 'a unit implication with its conclusion in the premise failed an assertion in every use'),
 ('frozen sets were taken', 'C28', 'is_respected took frozensets for pairs of sets (also C16: counterexamples given as frozensets)'),
 ('positions in frozen sets', 'C02', 'derivation by positions given as a frozenset or dict keys raised TypeError (also C03)'),
 ('contexts made with tuples', 'C01', 'a context constructed with tuples of names could not be extended or renamed'),
 ('bases went wrong when', 'C36', 'the general basis algorithms modified the sets of a closing procedure that remembers its answers (or gives lists), so the basis was wrong'),
]
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
fixes = [l.split(' ', 1) for l in log if ' fix: ' in l]
out, used = [], set()
for key, prop, what in FIX:
    hit = [h for h, s in fixes if s.startswith('fix: ' + key)]
    assert len(hit) == 1, (key, hit)
    used.add(hit[0])
    out.append('fixed: property=%s %s %s' % (prop, hit[0], what))
assert len(used) == len(fixes), [s for h, s in fixes if h not in used]
FINDINGS = [
    {'property': 'C33', 'mechanism': 'is-prime-one',
     'what': 'is_prime(1) in exploration2/examples/numbers.py is True, so 1 enters the context as a prime',
     'input': 'is_prime(1)', 'where': 'fca/algorithms/exploration2/examples/numbers.py is_prime'},
    {'property': 'C33', 'mechanism': 'bi-unars-import',
     'what': 'exploration_/examples/bi_unars.py imports fca.algorithms.exploration.exploration, which does not exist (it is exploration_)',
     'input': 'import fca.algorithms.exploration_.examples.bi_unars', 'where': 'its first import of the package'},
]
json.dump({'findings': FINDINGS, 'fixed': out}, open(V + 'known_findings.json', 'w'), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('manifest valid,', len(m['checks']), 'checks,', len(out), 'fixes')
except ImportError:
    print('written')
