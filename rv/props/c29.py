import copy
import itertools
import os
import fca
import gen
import numpy as np
from fca import Concept, ConceptLattice, ConceptSystem, Context, Implication, ManyValuedContext, UnitImplication
from fca.algorithms import closure_operators as co
from fca.algorithms import factors, implication_covers as ic
from fca.algorithms.dg_basis import compute_dg_basis, compute_dg_basis_simple, dg_basis_iter_simple
from fca.algorithms.filtering import (compute_estability, compute_extent_size, compute_intent_size, compute_istability,
                                      compute_probability, compute_separation_index, filter_concepts, get_modes,
                                      get_compute_functions)
from fca.algorithms.norris import compute_covering_relation, norris
from fca.algorithms.scaling import scale_mvcontext
from fca.compare_context import subseteq_table
from fca.partial_context import PartialContext
from fca.readwrite.cxt import uwrite_cxt, write_cxt
from fca.readwrite.dot import uwrite_dot, write_dot
from fca.readwrite.fimi import write_fimi
from fca.readwrite.tab_separated import uwrite_mv_txt, write_mv_txt
from fca.readwrite.xml_ import write_xml
from fca.scale import NominalScale, OrdinalScale
from lib import check_views, contain, isnap, random_imp, snapshot, sortable, typed
from model import Ref

CASES = {'quick': 3000, 'thorough': 80000}
RULE = ('random histories of 6-30 read-only calls (some eighty entry points) over shared inputs: contexts, sets, lists of '
        'implications, lattices, concepts, many-valued contexts, scales, tables; a deep picture of every input is compared '
        'after every call, every call is repeated, the containers returned are modified, and the call is repeated again. '
        'Non-trivial: a distinct (entry point, incidence, arguments).')
STEPS = 120_000_000


# ------------------------------------------------------------ pictures
def pic(x, d=0):
    """a value that is equal for equal answers; sets and concept lists are unordered"""
    if d > 8:
        return '...'
    if isinstance(x, ManyValuedContext):
        return ('mv', typed(x.objects), typed(x.attributes), [typed(r) for r in x.table])
    if isinstance(x, Context):
        return (type(x).__name__,) + snapshot(x)
    if isinstance(x, PartialContext):
        return ('partial', pic(x.x_context), pic(x.q_context))
    if isinstance(x, Concept):
        return ('concept', frozenset(x.extent), frozenset(x.intent), tuple(sorted(x.meta.items())))
    if isinstance(x, ConceptLattice):
        return ('lattice', [pic(c) for c in x], [frozenset(pic(p) for p in x.parents(c)) for c in x],
                pic(x.top_concept), pic(x.bottom_concept))
    if isinstance(x, ConceptSystem):
        return ('system', [pic(c) for c in x])
    if isinstance(x, Implication):
        return (type(x).__name__, frozenset(x.get_premise()), frozenset(x.get_conclusion()))
    if isinstance(x, np.ndarray):
        return ('array', x.tolist())
    if isinstance(x, dict):
        return ('dict', sorted(((repr(pic(k, d + 1)) if isinstance(k, Concept) else repr(k), pic(v, d + 1))
                                for k, v in x.items()), key=lambda t: t[0]))
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(pic(v, d + 1) if isinstance(v, (Concept, Implication)) else v for v in x))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [pic(v, d + 1) for v in x])
    return x


def bag(x):
    """answers whose order is not part of the answer"""
    if isinstance(x, list) and x and all(isinstance(v, (Concept, Implication)) for v in x):
        return ('bag', sorted((_key(pic(v)) for v in x)))
    return pic(x)


def _key(p):
    return repr([sorted(map(repr, v)) if isinstance(v, frozenset) else repr(v) for v in p])


def spoil(x, depth=0):
    """modify what a caller owns: sets, lists, dicts and contexts returned"""
    if isinstance(x, ManyValuedContext):
        if len(x.objects) and len(x.attributes):
            x.table[0][0] = 'spoiled'
    elif type(x) is Context:
        if x.objects:
            o = x.objects[0]
            x.set_object_intent([a for a in x.attributes if a not in x.get_object_intent(o)], o)
        if len(x.attributes) > 1:
            x.delete_attribute(x.attributes[0])
        x.add_object([True] * len(x.attributes), '__spoiled')
    elif isinstance(x, PartialContext):
        x.add_object_with_intent((set(), set()), '__spoiled')
    elif isinstance(x, ConceptSystem):
        if len(x):
            x.remove(x[0])
        x.append(Concept(['__spoiled'], []))
    elif isinstance(x, (ConceptLattice, Concept, Implication)):
        return
    elif isinstance(x, dict):
        for v in list(x.values()):
            spoil(v, depth + 1)
        x.clear()
        x['__spoiled'] = 1
    elif isinstance(x, set):
        x.clear()
        x.add('__spoiled')
    elif isinstance(x, (list, tuple)):
        if depth < 3:
            for v in list(x):
                spoil(v, depth + 1)
        if isinstance(x, list):
            x.clear()
            x.append('__spoiled')


# ------------------------------------------------------------ the inputs of a case
class Inputs:
    pass


def inputs(rng, obs, i):
    I = Inputs()
    I.kinds = rng.choice(['str', 'str', 'str', 'any'])
    ref = I.ref = gen.spec(rng, 7, 6, gen.STR_KINDS if I.kinds == 'str' else gen.ANY_KINDS)
    if i % 30 == 29:
        ref = I.ref = gen.wide_spec(rng, n=rng.randint(1, 4), m=rng.choice([33, 64, 70]))
        I.kinds = 'wide'
    t, o, a = ref.table(), list(ref.objs), list(ref.atts)
    I.given = (t, o, a)
    I.c = gen.build(fca, ref, rng)
    I.aset = set(gen.subset(rng, ref.atts))
    I.oset = set(gen.subset(rng, ref.objs))
    I.alist = gen.subset(rng, ref.atts)
    I.olist = gen.subset(rng, ref.objs)
    I.ainds = sorted(ref.ai[x] for x in I.alist)
    I.oinds = sorted(ref.oi[x] for x in I.olist)
    I.bg = [random_imp(rng, ref) for _ in range(rng.randint(0, 3))]
    I.oimps = [random_imp(rng, ref.transpose()) for _ in range(rng.randint(0, 2))]
    I.imps = [random_imp(rng, ref, False) for _ in range(rng.randint(0, 5))]
    I.baselist = list(ref.atts)
    I.lattice = ConceptLattice(I.c)
    for c in I.lattice:
        if rng.random() < .3:
            c.meta['v'] = rng.random()
    sub = gen.subset(rng, list(I.lattice))
    I.system = ConceptSystem(sub)
    I.concepts = sub
    every = list(I.lattice)
    rng.shuffle(every)
    I.full = ConceptSystem(every)
    k = rng.randint(0, 4)
    r2 = Ref(ref.atts, ['p%d' % j for j in range(k)], gen.table(rng, ref.m, k))
    I.right = gen.build(fca, r2, rng, rng.choice(['bool', 'npint', 'deepcopy']))
    I.other = gen.build(fca, Ref(ref.objs, ref.atts, [r ^ (1 if rng.random() < .2 and ref.m else 0) for r in ref.rows]), rng, 'bool')
    n, m = rng.randint(0, 5), rng.randint(1, 3)
    rows = [[rng.choice([1, 2, 3, '2', 'red', 'blue', 1.5]) for _ in range(m)] for _ in range(n)]
    I.mvrows = rows
    I.mv = ManyValuedContext(rows, ['r%d' % j for j in range(n)], ['v%d' % j for j in range(m)])
    I.scales = [rng.choice([lambda: NominalScale(j, I.mv), lambda: OrdinalScale(1, 3), lambda: OrdinalScale(0, 4, 'geq')])()
                for j in range(m)]
    I.table = [[x and rng.random() < .8 for x in r] for r in t]
    I.table2 = [list(r) for r in t]
    I.values = {x: rng.random() < .6 for x in gen.subset(rng, ref.atts)[:3]}
    I.pc = PartialContext([list(r) for r in I.table], [list(r) for r in t], list(o), list(a))
    cover = [Implication(set(), set(ref.atts))]
    for r in ref.rows[:-1]:
        cover = ic.updated_basis(ref.an(r), cover, set(ref.atts))
    I.cover = cover
    I.last = ref.an(ref.rows[-1]) if ref.n else set()
    return I


def all_of(I):
    return {'context': pic(I.c), 'attribute set': frozenset(I.aset), 'object set': frozenset(I.oset),
            'attribute list': list(I.alist), 'object list': list(I.olist), 'positions': (list(I.ainds), list(I.oinds)),
            'background implications': isnap(I.bg), 'object implications': isnap(I.oimps), 'implications': isnap(I.imps),
            'base list': list(I.baselist), 'lattice': pic(I.lattice), 'concept system': pic(I.system), 'system of all concepts': pic(I.full),
            'concepts': pic(I.concepts), 'right factor': pic(I.right), 'other context': pic(I.other),
            'values': [list(r) for r in I.mvrows], 'many-valued context': pic(I.mv), 'scales': pic(I.scales),
            'tables': ([list(r) for r in I.table], [list(r) for r in I.table2]), 'value dict': dict(I.values),
            'partial context': pic(I.pc), 'cover': isnap(I.cover), 'example': frozenset(I.last)}


def text(path):
    with open(path, 'rb') as f:
        return f.read()


def entry_points(rng, I, tmp):
    """name -> call without arguments (arguments chosen once, so that it can be repeated)"""
    c, ref, L = I.c, I.ref, I.lattice
    E = {}
    box = lambda s: contain(rng, list(s), [set, list, tuple, frozenset])
    A, O = box(I.aset), box(I.oset)
    E['Context.oprime'] = lambda: c.oprime(O)
    E['Context.aprime'] = lambda: c.aprime(A)
    E['Context.oclosure'] = lambda: c.oclosure(O)
    E['Context.aclosure'] = lambda: c.aclosure(A)
    E['Context.oprime_inds'] = lambda: c.oprime_inds(I.oinds)
    E['Context.aprime_inds'] = lambda: c.aprime_inds(I.ainds)
    E['Context.oclosure_inds'] = lambda: c.oclosure_inds(I.oinds)
    E['Context.aclosure_inds'] = lambda: c.aclosure_inds(I.ainds)
    E['Context.associative_aclosure'] = lambda: c.associative_aclosure(A)
    E['Context.associative_aprime'] = lambda: c.associative_aprime(A)
    E['oprime'] = lambda: co.oprime(I.oset, c)
    E['aprime'] = lambda: co.aprime(I.aset, c)
    E['oclosure'] = lambda: sorted(co.oclosure(I.oset, c), key=repr)
    E['aclosure'] = lambda: sorted(co.aclosure(I.aset, c), key=repr)
    E['Context.concepts'] = lambda: c.concepts
    E['Context.iterate_concepts'] = lambda: list(c.iterate_concepts())
    E['Context.concept_lattice'] = lambda: c.concept_lattice
    E['ConceptLattice'] = lambda: ConceptLattice(c)
    E['norris'] = lambda: norris(c, False)
    E['norris with parents'] = lambda: norris(c)
    if ref.m <= 8:
        E['Context.attribute_implications'] = lambda: c.attribute_implications
        E['Context.get_attribute_implications(confirmed)'] = lambda: c.get_attribute_implications(confirmed=I.bg)
        E['Context.get_attribute_implications(simple, confirmed)'] = lambda: c.get_attribute_implications(
            basis=compute_dg_basis_simple, confirmed=I.bg)
        E['Context.attribute_implications_iter'] = lambda: list(c.attribute_implications_iter())
        E['compute_dg_basis'] = lambda: compute_dg_basis(c, imp_basis=I.bg)
        E['compute_dg_basis_simple'] = lambda: compute_dg_basis_simple(c, imp_basis=I.bg)
        E['dg_basis_iter_simple'] = lambda: list(dg_basis_iter_simple(c, imp_basis=I.bg))
        E['compute_implication_cover'] = lambda: ic.compute_implication_cover(c)
        E['updated_basis'] = lambda: ic.updated_basis(I.last, I.cover, I.baselist_set)
        I.baselist_set = set(ref.atts)
        E['Context.get_attribute_canonical_basis'] = lambda: c.get_attribute_canonical_basis()
        E['Context.object_implications'] = lambda: c.object_implications
        E['Context.get_object_implications(confirmed)'] = lambda: c.get_object_implications(confirmed=I.oimps)
        E['PartialContext.get_attribute_implications'] = lambda: I.pc.get_attribute_implications()
    E['Context.examples'] = lambda: list(c.examples())
    E['Context.intents'] = lambda: list(c.intents())
    if ref.n:
        k = rng.randrange(ref.n)
        E['Context.get_object_intent_by_index'] = lambda: c.get_object_intent_by_index(k)
        E['Context.get_object_intent'] = lambda: c.get_object_intent(ref.objs[k])
        E['Context row'] = lambda: [bool(x) for x in c[k]]
    if ref.m:
        j = rng.randrange(ref.m)
        E['Context.get_attribute_extent_by_index'] = lambda: c.get_attribute_extent_by_index(j)
        E['Context.get_attribute_extent'] = lambda: c.get_attribute_extent(ref.atts[j])
    if ref.n and ref.m:
        E['Context.get_value'] = lambda: bool(c.get_value(ref.objs[k], ref.atts[j]))
    E['Context.object_attribute_pairs'] = lambda: c.object_attribute_pairs
    E['Context.transpose'] = lambda: c.transpose()
    E['Context.extract_subcontext'] = lambda: c.extract_subcontext(I.alist)
    E['Context.extract_subcontext_filtered_by_attributes'] = lambda: c.extract_subcontext_filtered_by_attributes(I.values)
    E['Context.extract_subcontext_filtered_by_attributes(or)'] = lambda: c.extract_subcontext_filtered_by_attributes(
        I.values, mode='or')
    E['Context.clarify_objects'] = lambda: c.clarify_objects()
    E['Context.reduce_objects'] = lambda: c.reduce_objects()
    E['Context.reduce_attributes'] = lambda: c.reduce_attributes()
    if all(isinstance(x, str) for x in ref.atts):
        E['Context.complementary'] = lambda: c.complementary()
        E['Context.compound'] = lambda: c.compound()
    if ref.m:
        E['Context.__mul__'] = lambda: c * I.right
    E['Context.__eq__'] = lambda: c == I.other
    E['Context.__ne__'] = lambda: c != I.other
    E['Context.__eq__(itself)'] = lambda: c == c
    E['Context.__repr__'] = lambda: repr(c)
    E['len(Context)'] = lambda: len(c)
    E['iter(Context)'] = lambda: [[bool(x) for x in r] for r in c]
    E['copy.deepcopy(Context)'] = lambda: copy.deepcopy(c)
    S = set(gen.subset(rng, ref.atts))
    I.S = S
    E['simple_closure'] = lambda: co.simple_closure(I.aset, I.imps)
    E['lin_closure'] = lambda: co.lin_closure(I.aset, I.imps)
    E['closure'] = lambda: co.closure(I.aset, I.baselist, I.imps, 0)
    for im in I.imps[:2]:
        E['Implication.is_respected'] = lambda im=im: bool(im.is_respected(I.aset))
        E['Implication.is_respected(partial)'] = lambda im=im: bool(im.is_respected((I.aset, I.aset | S)))
        if sortable(ref.atts):
            E['Implication.__repr__'] = lambda im=im: repr(im)
        E['copy.deepcopy(Implication)'] = lambda im=im: copy.deepcopy(im)
        E['Implication ==, hash'] = lambda im=im: ([bool(im == x) for x in I.imps], hash(im))
        E['Implication.conclusion'] = lambda im=im: im.conclusion
    if ref.m <= 12:
        fid = rng.choice([.3, .7, 1])
        E['algorithm2'] = lambda: list(factors.algorithm2(c, fid))
        E['algorithm2_weighted'] = lambda: list(factors.algorithm2_weighted(c, fid))
        flags = (rng.random() < .5, rng.randint(1, 2), rng.random() < .3)
        E['algorithm2_w_condition'] = lambda: list(itertools.islice(factors.algorithm2_w_condition(c, fid, *flags), 200))
    E['make_factor_cxts'] = lambda: factors.make_factor_cxts(I.concepts)
    E['make_factor_cxts()'] = lambda: factors.make_factor_cxts()
    if ref.n and ref.m:
        for f in (compute_istability, compute_estability, compute_extent_size, compute_intent_size,
                  compute_separation_index, compute_probability):
            if f is not compute_probability or ref.n < 30:
                E[f.__name__] = lambda f=f: f(L)
        for f in (compute_istability, compute_estability):
            E[f.__name__ + '(ConceptSystem)'] = lambda f=f: f(I.full)
            E['filter_concepts(ConceptSystem, %s)' % f.__name__] = lambda f=f: filter_concepts(I.full, f, 'abs', 3)
        f = rng.choice([compute_istability, compute_extent_size, compute_separation_index])
        v = rng.random()
        E['filter_concepts(value)'] = lambda: filter_concepts(L, f, 'value', v)
        E['filter_concepts(abs)'] = lambda: filter_concepts(L, f, 'abs', 2)
        E['filter_concepts(part)'] = lambda: filter_concepts(L, f, 'part', v)
    E['get_modes'] = lambda: get_modes()
    E['get_compute_functions'] = lambda: {k: v.__name__ for k, v in get_compute_functions().items()}
    for X, w in ((L, 'ConceptLattice'), (I.system, 'ConceptSystem'), (I.full, 'complete ConceptSystem')):
        E['compute_covering_relation(%s)' % w] = lambda X=X: compute_covering_relation(X)
        if len(X):
            q = rng.choice(list(X))
            E[w + '.filter'] = lambda X=X, q=q: X.filter(q)
            E[w + '.ideal'] = lambda X=X, q=q: X.ideal(q)
            E[w + '.children'] = lambda X=X, q=q: X.children(q)
            E[w + '.parents'] = lambda X=X, q=q: set(X.parents(q))
            E[w + '.index'] = lambda X=X, q=q: X.index(q)
            E[w + ' contains'] = lambda X=X, q=q: q in X
            if sortable(ref.objs) and sortable(ref.atts):
                E[w + '.__str__'] = lambda X=X: str(X)
    E['ConceptSystem'] = lambda: ConceptSystem(I.concepts)
    E['scale_mvcontext'] = lambda: scale_mvcontext(I.mv, I.scales)
    E['NominalScale'] = lambda: NominalScale(0, I.mv)
    E['ManyValuedContext.extract_subcontext'] = lambda: I.mv.extract_subcontext(list(I.mv.attributes[:2]))
    E['ManyValuedContext.extract_subcontext_by_condition'] = lambda: I.mv.extract_subcontext_by_condition(lambda k: k != 1)
    E['ManyValuedContext'] = lambda: ManyValuedContext(I.mvrows, list(I.mv.objects), list(I.mv.attributes))
    E['Context'] = lambda: Context(*I.given)
    E['PartialContext'] = lambda: PartialContext(I.table, I.table2, I.given[1], I.given[2])
    E['PartialContext.transpose'] = lambda: I.pc.transpose()
    E['copy.deepcopy(PartialContext)'] = lambda: copy.deepcopy(I.pc)
    if ref.n and ref.m:
        E['subseteq_table'] = lambda: bool(subseteq_table(I.table, I.table2))
    p = os.path.join(tmp, 'c29.out')

    def wrote(f, *a):
        f(*a)
        return text(p)
    E['write_cxt'] = lambda: wrote(write_cxt, c, p)
    if not any(isinstance(x, tuple) for x in ref.atts):
        E['write_fimi'] = lambda: sorted(sorted(l.split()) for l in wrote(write_fimi, c, p).splitlines())
    E['write_mv_txt'] = lambda: wrote(write_mv_txt, I.mv, p)
    E['uwrite_mv_txt'] = lambda: wrote(uwrite_mv_txt, I.mv, p)
    if all(isinstance(x, str) for x in ref.atts + ref.objs):
        E['uwrite_cxt'] = lambda: wrote(uwrite_cxt, c, p)
        X = rng.choice([L, I.system, I.concepts])
        E['write_xml'] = lambda: len(wrote(write_xml, p, X))
        Y = rng.choice([L, I.system])
        E['write_dot'] = lambda: len(wrote(write_dot, Y, p))
        E['uwrite_dot'] = lambda: len(wrote(uwrite_dot, Y, p))
        E['uwrite_dot(full)'] = lambda: wrote(uwrite_dot, Y, p, True) and None
    return E


def case(rng, obs, i):
    I = inputs(rng, obs, i)
    obs.sample = gen.show(I.ref)
    given = copy.deepcopy(I.given)
    E = entry_points(rng, I, obs.tmp)
    before = all_of(I)
    first = {}
    names = [rng.choice(sorted(E)) for _ in range(rng.randint(6, 30))]
    obs.sample['calls'] = names
    for name in names:
        f = E[name]
        got = obs.call(name, f)
        seen = bag(got)
        same_inputs(obs, I, before, given, name)
        if name in first:
            obs.check(seen == first[name], '%s: a later call with the same inputs answers differently' % name,
                      first=first[name], later=seen)
        first[name] = seen
        again = obs.call(name, f)
        obs.check(bag(again) == seen, '%s: repeated at once, it answers differently' % name, first=seen, later=bag(again))
        obs.check(bag(got) == seen, '%s: repeating it changed the answer given before' % name, first=seen, later=bag(got))
        if rng.random() < .6:
            spoil(again)
            same_inputs(obs, I, before, given, name + ', after its answer was modified')
            obs.check(bag(got) == seen, '%s: two answers share what they are made of' % name, first=seen, later=bag(got))
            third = obs.call(name, f)
            obs.check(bag(third) == seen, '%s: after an answer was modified, it answers differently' % name,
                      first=seen, later=bag(third))
            obs.tag('answers modified')
        obs.state(name, I.ref.rows, I.ref.m, sorted(map(repr, I.aset)), repr(seen)[:200])
    check_views(obs, I.c, I.ref, 'after all calls')


def same_inputs(obs, I, before, given, name):
    now = all_of(I)
    if now != before:
        for k in before:
            obs.check(before[k] == now[k], '%s: changed its input (%s)' % (name, k), before=before[k], after=now[k])
    obs.check(I.given == given, '%s: changed the given table or name lists' % name)
    obs.checks += len(before)
