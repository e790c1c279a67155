import copy
import fca
import gen
from fca.algorithms import closure_operators as co
from lib import Editor, check_basis, check_views, cset, ipairs, snapshot, boolrows, typed

CASES = {'quick': 4000, 'thorough': 90000}
RULE = ('histories of 3-14 steps on one context mixing edits, refused edits, complete queries, abandoned iterators of '
        'concepts and implications, and basis computations whose condition or algorithm callback raises at a random '
        'call; after each step a random choice of queries is asked of the old context and of a freshly built one with '
        'the same names and table. Non-trivial: a distinct (history operation, incidence, query) triple.')
STEPS = 20_000_000


class Boom(Exception):
    pass


def bomb(k):
    left = [k]

    def f(*a, **kw):
        left[0] -= 1
        if left[0] < 0:
            raise Boom()
        return True
    return f


def basis_set(imps):
    return sorted(((sorted(map(repr, p)), sorted(map(repr, q))) for p, q in ipairs(imps)))


QUERIES = {
    'concepts': lambda c, r: cset(c.concepts),
    'concept count': lambda c, r: len(c.concepts),
    'iterate_concepts': lambda c, r: cset(list(c.iterate_concepts())),
    'lattice': lambda c, r: {(frozenset(x.extent), frozenset(x.intent)): cset(L.parents(x))
                             for L in [c.get_concept_lattice()] for x in L},
    'attribute_implications': lambda c, r: basis_set(c.attribute_implications),
    'attribute_implications_iter': lambda c, r: basis_set(list(c.attribute_implications_iter())),
    'canonical_basis': lambda c, r: basis_set(c.get_attribute_canonical_basis()),
    'object_implications': lambda c, r: basis_set(c.get_object_implications()),
    'object_implications property': lambda c, r: basis_set(c.object_implications),
    'pairs': lambda c, r: sorted(map(repr, c.object_attribute_pairs)),
    'transpose': lambda c, r: snapshot(c.transpose()),
    'deepcopy': lambda c, r: snapshot(copy.deepcopy(c)),
    'copy': lambda c, r: (lambda d: (snapshot(d), cset(d.concepts), basis_set(d.get_attribute_implications())))(copy.copy(c)),
    'examples': lambda c, r: list(c.examples()),
    'rows by index': lambda c, r: [c.get_object_intent_by_index(i) for i in range(len(c.objects))],
    'columns by index': lambda c, r: [c.get_attribute_extent_by_index(i) for i in range(len(c.attributes))],
    'rows by name': lambda c, r: [c.get_object_intent(o) for o in c.objects],
    'columns by name': lambda c, r: [c.get_attribute_extent(a) for a in c.attributes],
    'aclosure': lambda c, r: [c.aclosure({a}) for a in c.attributes] + [c.aclosure(set())],
    'oclosure': lambda c, r: [c.oclosure({o}) for o in c.objects] + [c.oclosure(set())],
    'stand-alone aclosure': lambda c, r: [co.aclosure({a}, c) for a in c.attributes] + [co.aclosure(set(), c)],
    'stand-alone oclosure': lambda c, r: [co.oclosure({a}, c) for a in c.objects] + [co.oclosure(set(), c)],
    'associative_aclosure': lambda c, r: [c.associative_aclosure([a]) for a in c.attributes],
    'complementary': lambda c, r: boolrows(c.complementary().table) if all(isinstance(a, str) for a in c.attributes) else 0,
    'reduce_objects': lambda c, r: sorted(map(repr, zip(c.reduce_objects().objects, boolrows(c.reduce_objects().table)))),
    'clarify_objects': lambda c, r: sorted(map(repr, boolrows(c.clarify_objects().table))),
    'reduce_attributes': lambda c, r: sorted(map(repr, c.reduce_attributes().attributes)),
    'table': lambda c, r: (boolrows(c.table), boolrows(c), len(c)),
    'names': lambda c, r: (typed(c.objects), typed(c.attributes), dict(c.object_indices), dict(c.attribute_indices)),
}
NAMES = sorted(QUERIES)


def disturb(rng, obs, c, held):
    """a query that is abandoned or fails half way; returns what happened"""
    k = rng.randrange(9)
    if k == 0:
        it = c.iterate_concepts()
        for _ in range(rng.randint(0, 3)):
            next(it, None)
        held.append(it)
        return 'abandoned concept iterator'
    if k == 1:
        it = c.attribute_implications_iter()
        for _ in range(rng.randint(0, 3)):
            next(it, None)
        held.append(it)
        return 'abandoned basis iterator'
    if k == 2:
        it = c.examples()
        next(it, None)
        held.append(it)
        return 'abandoned examples'
    if k == 8 and held:
        held.pop(rng.randrange(len(held)))
        return 'dropped iterator'
    n = rng.randint(0, 6)
    fs = [lambda: c.get_attribute_implications(cond=bomb(n)),
          lambda: c.get_attribute_implications(basis=fca.compute_dg_basis_simple, cond=bomb(n)),
          lambda: c.get_attribute_canonical_basis(get_basis=lambda x: (x.get_object_intent_by_index(0) if len(x.objects) else 0,
                                                                    x.get_attribute_extent_by_index(0) if len(x.attributes) else 0,
                                                                    bomb(0)())),
          lambda: c.get_object_implications(basis=lambda x, imp_basis: bomb(0)()),
          lambda: c.get_attribute_implications(basis=lambda x, imp_basis, cond: (list(x.examples()), bomb(0)()))]
    try:
        rng.choice(fs)()
    except Boom:
        return 'failed basis computation'
    return 'basis computation'


def case(rng, obs, i):
    ref = gen.spec(rng, 7, 6, gen.STR_KINDS + gen.ANY_KINDS)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    ed = Editor(rng, obs, c, ref, collide=0, max_n=9, max_m=7)
    obs.sample['history'] = ed.history
    held = []
    for step in range(rng.randint(3, 14)):
        x = rng.random()
        if x < .55:
            op = ed.step()
        elif x < .65:
            ed.refused()
            op = 'refused edit'
        else:
            op = obs.call('disturbance', disturb, rng, obs, c, held)
            ed.history.append((op,))
            obs.tag(op)
        fresh = fca.Context(ed.ref.table(), list(ed.ref.objs), list(ed.ref.atts))
        for name in rng.sample(NAMES, rng.randint(3, 9)):
            q = QUERIES[name]
            want = q(fresh, None)
            got = obs.call(name, q, c, None)
            obs.eq(got, want, 'stale answer to %r after %s' % (name, op))
            ed.history.append(('query', name))
            obs.state(op, ed.ref.rows, ed.ref.m, name)
        if rng.random() < .4:
            t = ed.ref.transpose()
            if t.m <= 9:
                check_basis(obs, obs.call('object implications', lambda: c.object_implications), t,
                            'object implications of the current context')
        if rng.random() < .4:
            check_basis(obs, obs.call('attribute implications', lambda: c.attribute_implications), ed.ref,
                        'attribute implications of the current context')
        check_views(obs, c, ed.ref, 'step %d' % step)
