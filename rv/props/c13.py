import copy
import pickle
import random
import fca
import gen
from lib import Editor, check_views, pick_ref, snapshot, sortable
from model import Ref, bits

CASES = {'quick': 5000, 'thorough': 120000}
STEPS = 60_000_000
RULE = ('pairs of contexts: equal ones with permuted rows and columns and built in different ways, ones differing in a '
        'single cell, a single name (also only in its type), one more or less row or column, swapped rows, and unrelated '
        'ones; then copies (pickled ones, too), contexts built from the same lists and derived contexts of every kind, each side edited '
        '3-8 times while the other is compared with its picture. Non-trivial: a distinct (kind of pair or derivation, '
        'incidence) with at least one cell.')


def permuted(rng, ref):
    po, pa = list(range(ref.n)), list(range(ref.m))
    rng.shuffle(po)
    rng.shuffle(pa)
    return Ref([ref.objs[i] for i in po], [ref.atts[j] for j in pa],
               [sum(1 << k for k, j in enumerate(pa) if ref.rows[i] >> j & 1) for i in po])


def same(a, b):
    """equality by definition"""
    return (set(a.objs) == set(b.objs) and set(a.atts) == set(b.atts) and
            len(a.objs) == len(b.objs) and set(a.pairs()) == set(b.pairs()))


def variant(rng, ref):
    """another reference context close to ref"""
    r = permuted(rng, ref) if rng.random() < .6 else ref.copy()
    O, A, R = list(r.objs), list(r.atts), list(r.rows)
    k = rng.randrange(9)
    if k == 0 and O and A:
        i = rng.randrange(len(O))
        R[i] ^= 1 << rng.randrange(len(A))
    elif k == 1 and O:
        i = rng.randrange(len(O))
        x = O[i]
        y = str(x) if not isinstance(x, str) else x + ' '
        if y not in O:
            O[i] = y
    elif k == 2 and A:
        j = rng.randrange(len(A))
        x = A[j]
        y = str(x) if not isinstance(x, str) else x + ' '
        if y not in A:
            A[j] = y
    elif k == 3 and len(R) > 1:
        i, j = rng.sample(range(len(R)), 2)
        R[i], R[j] = R[j], R[i]
    elif k == 4 and O:
        i = rng.randrange(len(O))
        del O[i], R[i]
    elif k == 5 and A:
        A.append(('new', 'name'))
    elif k == 6:
        return r.transpose()
    elif k == 7:
        return gen.spec(rng, 4, 4)
    return Ref(O, A, R)


DERIVE = {
    'deepcopy': lambda c, rng: copy.deepcopy(c),
    'pickled': lambda c, rng: pickle.loads(pickle.dumps(c, rng.choice([2, 3, 4, 5]))),
    'same lists': lambda c, rng: fca.Context(c.cross_table, c.objects, c.attributes),
    'same table array': lambda c, rng: fca.Context(c.table, c.objects, c.attributes),
    'transpose': lambda c, rng: c.transpose(),
    'transpose twice': lambda c, rng: c.transpose().transpose(),
    'complementary': lambda c, rng: c.complementary(),
    'compound': lambda c, rng: c.compound(),
    'subcontext': lambda c, rng: c.extract_subcontext(gen.subset(rng, list(c.attributes))),
    'all attributes': lambda c, rng: c.extract_subcontext(c.attributes),
    'filtered': lambda c, rng: c.extract_subcontext_filtered_by_attributes(gen.subset(rng, list(c.attributes)),
                                                                         rng.choice(['and', 'or'])),
    'filtered by nothing': lambda c, rng: c.extract_subcontext_filtered_by_attributes([]),
    'clarified': lambda c, rng: c.clarify_objects(),
    'reduced objects': lambda c, rng: c.reduce_objects(),
    'reduced attributes': lambda c, rng: c.reduce_attributes(),
    'scale': lambda c, rng: fca.scale.Scale(c),
    'product': lambda c, rng: c * fca.Context([[rng.random() < .5 for _ in range(2)] for _ in c.attributes],
                                              c.attributes, ['p', 'q']),
    'product with same attributes': lambda c, rng: c * fca.Context([[rng.random() < .5 for _ in c.attributes] for _ in c.attributes],
                                                                   c.attributes, c.attributes),
}


def picture(c):
    return (snapshot(c), list(c.examples()), [c.get_attribute_extent(a) for a in c.attributes],
            [c.get_object_intent(o) for o in c.objects], sorted(map(repr, c.object_attribute_pairs)))


def case(rng, obs, i):
    ref = pick_ref(rng, i, small=(7, 6), kinds=gen.ALL_KINDS, wide=40, data=150, big=500)
    if i % 9 == 8:
        ref = pick_ref(rng, 0, (7, 6), ['int', 'intshuf', 'intfar'], 0, 0)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    cell = ref.n and ref.m
    others = [permuted(rng, ref)] + [variant(rng, ref) for _ in range(4)]
    for o in others:
        d = gen.build(fca, o, rng)
        want = same(ref, o)
        obs.eq(bool(obs.call('Context.__eq__', lambda: c == d)), want, 'equality misjudged', other=gen.show(o), context=gen.show(ref))
        obs.eq(bool(obs.call('Context.__eq__', lambda: d == c)), want, 'equality misjudged the other way', other=gen.show(o))
        obs.eq(bool(obs.call('Context.__ne__', lambda: c != d)), not want, 'inequality misjudged', other=gen.show(o))
        obs.tag('equal pair' if want else 'different pair')
        if cell:
            obs.state('eq', want, ref.rows, ref.m, o.rows, o.m)
    # scales are contexts
    s, t = fca.scale.Scale(c), fca.scale.Scale(d)
    for x, y in ((s, d), (d, s), (s, t), (t, s), (s, s), (s, c), (c, s)):
        w = want if (x is d or y is d or x is t or y is t) else True
        obs.eq(bool(obs.call('Scale.__eq__', lambda: x == y)), w, 'equality with scales misjudged', other=gen.show(o), context=gen.show(ref))
        obs.eq(bool(obs.call('Scale.__ne__', lambda: x != y)), not w, 'inequality with scales misjudged', other=gen.show(o))
    obs.check(bool(obs.call('Context.__eq__', lambda: c == c)), 'a context does not equal itself')
    x = rng.choice([None, 3, 'text', [], (), ref.table(), {'a': 1}, list(ref.objs), object()])
    obs.refuse('Context.__eq__!', TypeError, lambda: c == x)
    check_views(obs, c, ref, 'after comparisons')

    # independence
    name = rng.choice(sorted(DERIVE))
    if name == 'same lists':
        L = [[list(r) for r in ref.table()], list(ref.objs), list(ref.atts)]
        c = fca.Context(*L)
        d = fca.Context(*L)
        obs.check(c == d, 'two contexts of the same lists differ')
    else:
        d = obs.call('derive ' + name, DERIVE[name], c, rng)
        L = None
    if name in ('deepcopy', 'pickled', 'same table array', 'transpose twice'):
        obs.check(c == d, name + ': the copy does not equal its source')
        check_views(obs, d, ref, name)
    obs.tag('derived: ' + name)
    if cell:
        obs.state('derive', name, ref.rows, ref.m)
    dr = Ref.of_table(list(d.objects), list(d.attributes), [[bool(x) for x in r] for r in d.table])
    sides = [(c, ref, d), (d, dr, c)]
    rng.shuffle(sides)
    keep = {id(d): picture(d), id(c): picture(c)}
    lists = None if L is None else copy.deepcopy(L)
    for mine, r, other in sides:
        ed = Editor(rng, obs, mine, r, collide=.05)
        for _ in range(rng.randint(3, 8)):
            op = ed.step()
            obs.eq(picture(other), keep[id(other)], '%s: editing one side (%s) changed the other' % (name, op))
        keep[id(mine)] = picture(mine)
        check_views(obs, mine, ed.ref, 'edited side')
    if L is not None:
        obs.eq(L, lists, 'editing a context changed the lists it was made from')
