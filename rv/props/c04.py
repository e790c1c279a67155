import fca
import gen
from lib import check_concepts, pick_ref, check_views

CASES = {'quick': 6000, 'thorough': 150000}
RULE = ('contexts of every shape and name kind (0-9 objects, 0-8 attributes; wide and tall ones; shipped data), built '
        'in 16 ways; concepts as list, as exhausted iterators consumed in a random interleaving with queries between '
        'the steps, and as lattice members. Non-trivial: a distinct incidence with at least two concepts.')
STEPS = 120_000_000


def case(rng, obs, i):
    ref = pick_ref(rng, i, small=(9, 8), kinds=gen.ALL_KINDS, wide=15, data=150, dmax=700, big=400)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    want = ref.concepts()
    if len(want) > 1:
        obs.state(ref.rows, ref.m)
    check_concepts(obs, obs.call('Context.concepts', lambda: c.concepts), ref, 'concepts', want)
    its = [obs.call('Context.iterate_concepts', c.iterate_concepts) for _ in range(rng.randint(1, 3))]
    refs = [ref] * len(its)
    if rng.random() < .5:                        # enumerations of another context going on at the same time
        other = gen.spec(rng, 7, 6) if rng.random() < .6 else gen.Ref(
            ref.objs, ref.atts, gen.table(rng, ref.n, ref.m))
        oc = gen.build(fca, other, rng)
        for _ in range(rng.randint(1, 2)):
            its.append(obs.call('Context.iterate_concepts', oc.iterate_concepts))
            refs.append(other)
        obs.tag('iterators of two contexts interleaved')
    got = [[] for _ in its]
    live = list(range(len(its)))
    if rng.random() < .3:
        obs.call('Context.iterate_concepts', lambda: next(iter(c.iterate_concepts())))   # and abandoned
        obs.tag('abandoned iterator')
    end = object()
    while live:
        k = rng.choice(live)
        x = obs.call('next(concept iterator)', next, its[k], end)
        if x is end:
            live.remove(k)
        else:
            got[k].append(x)
        if rng.random() < .1:
            q = rng.randrange(4)
            if q == 0:
                obs.call('Context.concepts', c.get_concepts)
            elif q == 1:
                obs.call('Context.aclosure', c.aclosure, gen.subset(rng, ref.atts))
            elif q == 2:
                obs.call('Context.transpose', c.transpose)
            elif len(want) < 60:
                obs.call('ConceptLattice', fca.ConceptLattice, c)
            obs.tag('query between steps')
    for g, r in zip(got, refs):
        check_concepts(obs, g, r, 'exhausted concept iterator', want if r is ref else None)
    if len(want) <= 120:
        L = obs.call('ConceptLattice', fca.ConceptLattice, c)
        check_concepts(obs, L.concepts, ref, 'lattice', want)
        check_concepts(obs, [L[k] for k in range(len(L))], ref, 'lattice by position', want)
        check_concepts(obs, list(L), ref, 'lattice iteration', want)
        check_concepts(obs, obs.call('Context.concept_lattice', lambda: c.concept_lattice), ref, 'context lattice', want)
        obs.check(all(x in L for x in L), 'a member is not contained in its lattice')
    check_views(obs, c, ref, 'after enumeration')
