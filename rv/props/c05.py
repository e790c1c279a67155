import copy
import pickle
import fca
from fca import Concept, ConceptSystem, ConceptLattice, compute_index
from fca.algorithms.filtering import get_compute_functions
import gen
from lib import cset

CASES = {'quick': 3000, 'thorough': 60000}
RULE = ('lattices of contexts of every shape (up to 40 concepts) and concept systems made of random subsets of them, '
        'with histories of append, remove, annotation (indices and direct) and order queries, asked with the member '
        'itself and with an equal but distinct concept; neighbours, filters, ideals, top and bottom compared with '
        'inclusion of intents. Non-trivial: a distinct (incidence, member set) with at least two members.')
STEPS = 40_000_000


def key(c):
    return (frozenset(c.extent), frozenset(c.intent))


def judge(rng, obs, cs, members, kind):
    """members: list of keys = expected content"""
    obs.eq(len(cs), len(members), kind + ': number of members')
    obs.eq({key(c) for c in cs}, set(members), kind + ': members')
    for c in list(cs):
        k = key(c)
        q = c if rng.random() < .6 else Concept(set(k[0]), set(k[1]))
        if q is not c:
            obs.check(q == c and hash(q) == hash(c), 'equal concepts with different hashes', concept=k)
        obs.check(q in cs, kind + ': an equal concept is not found in it')
        obs.eq(key(cs[cs.index(q)]), k, kind + ': position of a concept')
        up = [x for x in members if x[1] < k[1]]
        dn = [x for x in members if x[1] > k[1]]
        par = {x for x in up if not any(x[1] < y[1] for y in up)}
        chi = {x for x in dn if not any(y[1] < x[1] for y in dn)}
        P = obs.call(kind + '.parents', cs.parents, q)
        obs.eq((len(P), {key(x) for x in P}), (len(par), par), kind + ': parents are not the upper neighbours', concept=k)
        C = obs.call(kind + '.children', cs.children, q)
        obs.eq((len(C), {key(x) for x in C}), (len(chi), chi), kind + ': children are not the lower neighbours', concept=k)
        obs.check(P == {Concept(*x) for x in par} and C == {Concept(*x) for x in chi}, kind + ': neighbours differ from the set of equal concepts',
                  concept=k)
        F = obs.call(kind + '.filter', cs.filter, q)
        obs.eq((len(F), {key(x) for x in F}), (len(up), set(up)), kind + ': filter is not the strictly greater members')
        I = obs.call(kind + '.ideal', cs.ideal, q)
        obs.eq((len(I), {key(x) for x in I}), (len(dn), set(dn)), kind + ': ideal is not the strictly smaller members')
    for x in members:
        if all(x[1] < y[1] for y in members if y != x):
            obs.eq(key(obs.call(kind + '.top_concept', lambda: cs.top_concept)), x, kind + ': top concept')
        if all(x[1] > y[1] for y in members if y != x):
            obs.eq(key(obs.call(kind + '.bottom_concept', lambda: cs.bottom_concept)), x, kind + ': bottom concept')


def annotate(rng, obs, L, c=None):
    k = rng.randrange(4)
    if k == 0 and len(L.context.objects) and len(L.context.attributes):
        name, f = rng.choice(sorted(get_compute_functions().items()))
        obs.call('compute_index', compute_index, L, f, name)
    elif k == 1:
        c = rng.choice(list(L))
        c.meta[rng.choice(['x', 'a b', 'score'])] = rng.random()
    elif k == 2:
        c = rng.choice(list(L))
        c.meta = {'y': rng.randrange(5)}
    else:
        obs.call('compute_index', compute_index, L, lambda l: {c: len(c.extent) for c in l}, 'own')
    obs.tag('annotated')


def copied(rng, obs, X):
    """a copy of a lattice or system, whose concepts and values are its own"""
    C = obs.call('copy', copy.deepcopy, X) if rng.random() < .5 else obs.call('pickle', lambda: pickle.loads(pickle.dumps(X)))
    obs.eq([(key(c), c.meta) for c in C], [(key(c), c.meta) for c in X], 'concepts of a copy')
    if len(C):
        k = rng.randrange(len(C))
        old = dict(X[k].meta)
        C[k].meta['of the copy'] = 1
        obs.eq(X[k].meta, old, 'a value attached to the concept of a copy reached the original')
    obs.tag('copied')
    return C


def long_system(rng, obs):
    """a system of many concepts, judged at some of its members"""
    z = rng.choice([65, 129, 140, 200])
    A = list(range(z + 1))
    if rng.random() < .5:
        mem = [Concept(set(A[:k]), set(A[k:])) for k in range(z)]              # a chain
    else:
        mem = [Concept({k}, {k}) for k in range(z - 2)] + [Concept(set(A), set()), Concept(set(), set(A))]
    rng.shuffle(mem)
    S = obs.call('ConceptSystem', ConceptSystem, list(mem))
    keys = [key(x) for x in mem]
    for q in rng.sample(mem, 3) + [min(mem, key=lambda x: len(x.intent)), max(mem, key=lambda x: len(x.intent))]:
        k = key(q)
        up, dn = {x for x in keys if x[1] < k[1]}, {x for x in keys if x[1] > k[1]}
        for name, want in (('filter', up), ('ideal', dn), ('parents', {x for x in up if not any(x[1] < y[1] for y in up)}),
                           ('children', {x for x in dn if not any(y[1] < x[1] for y in dn)})):
            got = obs.call('ConceptSystem.' + name, getattr(S, name), q)
            obs.eq((len(got), {key(x) for x in got}), (len(want), want), 'ConceptSystem of many members: ' + name, concept=k)
    obs.eq(key(S.top_concept), min(keys, key=lambda x: len(x[1])), 'ConceptSystem of many members: top concept')
    obs.eq(key(S.bottom_concept), max(keys, key=lambda x: len(x[1])), 'ConceptSystem of many members: bottom concept')
    obs.tag('many members')


def case(rng, obs, i):
    if i % 500 == 77:
        return long_system(rng, obs)
    ref = gen.spec(rng, 7, 6, gen.ALL_KINDS)
    most = 40
    if i % 100 == 50:                             # hundreds of concepts; or many names in few concepts
        k = rng.randint(7, 8)
        n, most = rng.randint(k, 11), 300
        ref = gen.Ref(gen.names(rng, n, 'shuffled', 'o'), gen.names(rng, k, 'shuffled', 'a'),
                      gen.table(rng, n, k, rng.choice(['contra', 'contra', 'random'])))
    elif i % 100 == 51:
        ref = gen.big_spec(rng) if rng.random() < .5 else gen.wide_spec(rng, transposed=rng.random() < .5)
    obs.sample = gen.show(ref)
    want = sorted(ref.concepts(), key=lambda k: (len(k[0]), sorted(map(repr, k[1]))))
    while len(want) > most:
        ref.rows = ref.rows[:len(ref.rows) - 1]
        ref.objs = ref.objs[:len(ref.rows)]
        ref.__init__(ref.objs, ref.atts, ref.rows)
        want = sorted(ref.concepts(), key=lambda k: (len(k[0]), sorted(map(repr, k[1]))))
    c = gen.build(fca, ref, rng)
    L = obs.call('ConceptLattice', ConceptLattice, c)
    if len(want) > 1:
        obs.state(ref.rows, ref.m)
    judge(rng, obs, L, want, 'ConceptLattice')
    for _ in range(rng.randint(0, 2)):
        annotate(rng, obs, L)
        judge(rng, obs, L, want, 'ConceptLattice')
    if i % 3 == 1:
        judge(rng, obs, copied(rng, obs, L), want, 'copied ConceptLattice')
    par = obs.call('compute_covering_relation', fca.compute_covering_relation, list(L))
    for x in L:
        obs.eq({key(p) for p in par[x]}, {key(p) for p in L.parents(x)}, 'stand-alone covering relation')

    # concept systems with a history
    pool = list(L)
    if i % 4 == 2:                                 # of concepts that do not come from one context
        pool = {}
        for _ in range(rng.randint(1, 7)):
            x = Concept(gen.subset(rng, ref.objs), gen.subset(rng, ref.atts))
            pool[key(x)] = x
        pool = list(pool.values())
        obs.tag('hand-made concepts')
    mem = gen.subset(rng, pool)
    given = list(mem)
    S = obs.call('ConceptSystem', ConceptSystem, given)
    keys = [key(x) for x in mem]
    if rng.random() < .5:
        judge(rng, obs, S, keys, 'ConceptSystem')
    for step in range(rng.randint(2, 9) if most == 40 else 2):
        out = [x for x in pool if key(x) not in keys]
        k = rng.randrange(5)
        if k <= 1 and out:
            x = rng.choice(out)
            x = x if rng.random() < .6 else Concept(x.extent, x.intent)
            obs.call('ConceptSystem.append', S.append, x)
            keys.append(key(x))
            obs.tag('append')
        elif k == 2 and keys:
            x = rng.choice(list(S))
            x = x if rng.random() < .6 else Concept(x.extent, x.intent)
            obs.call('ConceptSystem.remove', S.remove, x)
            keys.remove(key(x))
            obs.tag('remove')
        elif k == 3:
            obs.refuse('ConceptSystem.append!', TypeError, S.append, rng.choice([None, 3, ('a', 'b'), {1}]))
        else:
            annotate(rng, obs, L)
        if rng.random() < .7:
            judge(rng, obs, S, keys, 'ConceptSystem')
        if len(keys) > 1:
            obs.state(ref.rows, ref.m, sorted(map(repr, keys)))
    judge(rng, obs, S, keys, 'ConceptSystem')
    if i % 3 == 1:
        T = copied(rng, obs, S)
        if keys:
            x = rng.choice(list(T))
            T.remove(x)
            rest = list(keys)
            rest.remove(key(x))
            judge(rng, obs, T, rest, 'copied ConceptSystem')
            judge(rng, obs, S, keys, 'ConceptSystem')
    obs.eq([key(x) for x in given], [key(x) for x in mem], 'the list given to the concept system changed')
    judge(rng, obs, L, want, 'ConceptLattice')
