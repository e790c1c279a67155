"""Writes /verif/DESIGN.md from tools/design_head.md, tools/design_tail.md, the modules' workloads and the planted bugs."""
import ast, glob, json, os
V = '/verif/'
ORACLE = {
 'C01': "An abstract table (names + row masks) replays every edit; after each step all views (objects, attributes, table, cross table, indices, intents, extents, values, pairs, iteration, length) are compared with it, and names are checked to be distinct; refused edits must leave the whole picture as it was. The form of the suffix that separates colliding names is free: only distinctness and identity of the non-colliding names are required.",
 'C02': "Derivation by definition on bit masks, for each set queried, in each of the three families of operators and each container type. `*_inds` methods are asked with list, set, tuple and array only.",
 'C03': "Counts taken from the reference table; both closures by count and plain closure compared.",
 'C04': "The concepts are the intersections of rows (closed family) with their extents; the list, every exhausted iterator and the members of the lattice must each be exactly that set without repetition. Iterators are consumed in a random interleaving with each other, with queries and with new iterators.",
 'C05': "Upper and lower neighbours, filter, ideal, top and bottom are recomputed from the members' intents after every append, remove and annotation; asked with the member itself and with an equal but distinct concept.",
 'C06': "Pseudo-intents by definition (all subsets, ≤ 7 attributes) or by an own next-closure over masks; premise and premise ∪ conclusion compared as sets, multiplicity checked, step clock for termination. Names are of every kind, also ones that cannot be compared or have no total order.",
 'C07': "Soundness, completeness (every attribute set, ≤ 7 attributes), leanness on masks; additionally the answer must be the relative canonical basis of an own next-closure where no condition is given. The confirmed list is compared with its deep picture before the call.",
 'C08': "Naive fixpoint on masks; for the prefix variant agreement on the first k names decides between closure and refusal.",
 'C09': "A freshly built context with the same names and table answers the same query; canonical answers (sets, not orders) compared. Failures are injected from condition and algorithm callbacks at random calls.",
 'C10': "For every attribute set, closure under the cover (own naive closure) equals closure in the context; after minimising, every implication is tested for redundancy. Covers handed to `updated_basis` are those the algorithm itself produces (it is not correct for arbitrary covers, and not claimed to be).",
 'C11': "Distinct rows; intersections of other kept rows by mask arithmetic; the family of intents before and after.",
 'C12': "Every cell recomputed from the definition; sources compared with their picture afterwards.",
 'C13': "Pairs with known relation (equal after permutation, or differing in exactly one named respect); pictures of one side held while the other is edited.",
 'C14': "Online checker: judged at the moment a factor appears, with exact shares (`Fraction`), including shares k/len that are hit exactly; the stop is judged at the end.",
 'C15': "Online checker of the same stream with constraints; termination by the step clock.",
 'C16': "A model of the knowledge base replays the dialogue; the open implications must be the relative basis (own algorithm); with a premise condition they are compared with a fresh computation. Refusals must have the right reason and leave a deep picture unchanged.",
 'C17': "Acceptance is decided from the sets alone; both candidate lists must be the canonical basis without the confirmed ones.",
 'C18': "A hidden universe of objects acts as expert; acceptance decided on masks; handed-out containers are modified by the caller between steps; the table under the session is edited directly in some steps.",
 'C19': "Containment of sets, after every step.",
 'C20': "All total versions between certain and possible that respect the implications are enumerated per example (≤ 2^7) before and after completing.",
 'C21': "Truth of scale conditions is decided by an own function per condition, never by evaluating the text; nominal and ordinal scales by comparing values.",
 'C22': "File text compared with the format line by line, then read back; names that would show being evaluated (writing a marker file, setting a builtin) act as traps.",
 'C23': "Names and values compared with what was put into the file, written by `fca` or by Python's csv module with other quoting, line ends and padding.",
 'C24': "Concept lists compared in order with extents, intents and numeric values; several results are held while more files are read.",
 'C25': "The written text is parsed as a graph; nodes, edges and labels computed from extents and intents.",
 'C26': "Exact rational arithmetic by definition (subset counts up to 2^1100 for objects alike); values compared within 1e-9 relative, probability judged against the floating-point sum for at most 60 objects, and against a 60-digit decimal evaluation for a thousand and more.",
 'C27': "Judged against the definition of keeping the best, with ties free.",
 'C28': "Set algebra; the printed form is read back for names without separators.",
 'C29': "Deep pictures of all shared inputs around each call; repeated calls; modified answers. Exempt: `minimize` (in place by design), `ConceptLattice.parents/.concepts` and other accessors documented to hand out the live object.",
 'C31': "Model: each example is a pair of bit masks (certain, possible); completion is the closure of the certain part and the attributes whose addition keeps the closure within the possible part; the one-step closure of a premise over the examples is recomputed from the masks. Open implications are compared with a fresh computation and judged one by one (not refuted, premise closed, irredundant); that nothing is missing is demanded when none is open, because the one-step operator is not idempotent and the algorithm then reaches some implications only after others have been answered. Whole dialogues run against a hidden total context of which the expert tells a random part.",
 'C32': "Oracle: a plain list of rows edited the same way; values compared with their types, by table, by row, by cell and by name, after every edit; originals of copies and subcontexts are compared again at the end.",
 'C33': "An expert with a finite universe (numbers; all pairs of maps on up to four elements) stands in for `input`; every question must be open on masks, and at the end closures under the accepted implications equal the closures in the universe. Helpers against their definitions on equation masks.",
 'C36': "The operator is a Python function over subsets (closure under random implications, intersections of families, convex hulls, up-sets, GF(2) spans, transitive closures, identity, constants); all its closed sets are enumerated and become the rows of a reference context, so the own relative next-closure gives the expected basis. Conditions that smaller sets meet too select exactly (argument: a candidate that fails the condition and is skipped to its closure skips only sets containing it, which fail as well); for other conditions only soundness is promised. Lazy runs are stopped, interleaved and abandoned; operators raise at a chosen call.",
 'C35': "The call itself: which premise, conclusion, pattern, size or name it got wrong is recomputed on masks; the text must contain it, the fields must equal it.",
 'C34': "The sets and tables given to the constructors and edits; printed texts are rebuilt from them.",
 'C30': "Differential: the same calls on inputs rebuilt from the same seed, alone and then mixed. Threads are run by `rv/threads.py`: one holds the baton at a time and hands it over at chosen line or instruction events inside /repo/fca (rates from 1/3 to 1/300, or 1-4 chosen points in the whole run, which finds overlaps of few switches), so every schedule is repeatable from its seed; a holder that blocks on a lock is overtaken after 0.25 s. Then the shared inputs are compared with their pictures, and the shared context is edited and compared with the model. Evidence counts steps, hand-overs and distinct interleavings. Limit: code of C extensions (numpy, expat) is one step; preemption inside it is not driven.",
}
props = [json.loads(l) for l in open(V + 'properties.jsonl')]
out = [open(V + 'tools/design_head.md').read()]
for p in props:
    i = p['id']
    src = open(V + 'rv/props/%s.py' % i.lower()).read()
    d = {n.targets[0].id: n.value for n in ast.parse(src).body if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name)}
    rule, cases = ast.literal_eval(d['RULE']), ast.literal_eval(d['CASES'])
    out.append('**%s %s.** %s\n*Workload* (%d cases quick, %d thorough): %s\n' % (i, p['title'], ORACLE[i], cases['quick'], cases['thorough'], rule))
out.append(open(V + 'tools/design_tail.md').read().replace('NFIX', str(len(json.load(open(V + 'known_findings.json'))['fixed']))))
rows = []
status = json.load(open(V + 'tools/seeded_history.json'))
for d in sorted(glob.glob(V + 'seeded/*/meta.json')):
    m = json.load(open(d))
    b = os.path.basename(os.path.dirname(d))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'].replace('|', '/'), status.get(b, 'at once')))
out.append('| change | caught by | needs | caught |\n|---|---|---|---|\n' + '\n'.join(rows) + '\n')
if os.path.exists(V + 'tools/design_end.md'):
    out.append(open(V + 'tools/design_end.md').read())
open(V + 'DESIGN.md', 'w').write('\n'.join(out))
