import fca
import gen
from fca.algorithms import closure_operators as co
from fca.algorithms import aibasis, dg_basis
from lib import check_basis, ipairs, pick_ref, want_basis, check_views, sortable

CASES = {'quick': 3000, 'thorough': 60000}
RULE = ('contexts of every shape, name kind and attribute order (0-9 objects, 0-8 attributes, some with up to 13 '
        'attributes, tall ones), every basis algorithm called directly (with both closure procedures) and through the '
        'context, eagerly and lazily, in random order on the same context; the reference enumerates pseudo-intents by '
        'definition (up to 7 attributes) or by its own next-closure. Non-trivial: a distinct incidence with a '
        'non-empty basis.')
STEPS = 60_000_000
CLOSES = [co.simple_closure, co.lin_closure]


def case(rng, obs, i):
    if i % 25 == 24:
        m = rng.randint(9, 13)
        n = rng.randint(1, 8)
        ref = gen.Ref(gen.names(rng, n, rng.choice(gen.ANY_KINDS), 'o'), gen.names(rng, m, rng.choice(gen.ANY_KINDS), 'a'),
                      gen.table(rng, n, m))
    elif i % 100 == 37:                            # beyond a machine word of attributes, few distinct columns
        n, m, k = rng.randint(1, 4), rng.choice([33, 63, 64, 65, 70]), rng.randint(1, 4)
        base = gen.table(rng, n, k, 'random')
        pick = [rng.randrange(k) for _ in range(m)]
        ref = gen.Ref(gen.names(rng, n, 'plain', 'o'), gen.names(rng, m, rng.choice(gen.TEXT_KINDS), 'a'),
                      [sum(1 << j for j in range(m) if r >> pick[j] & 1) for r in base])
    elif i % 100 == 62:
        ref = gen.big_spec(rng, transposed=False)
    elif i % 25 == 12:
        ref = gen.spec(rng, 40, 6, gen.ANY_KINDS)
    else:
        ref = gen.spec(rng, 9, 8, gen.ANY_KINDS, mix='o')
    obs.sample = gen.show(ref)
    ps = ref.pseudo_by_next_closure(200)
    if ps is None:
        obs.tag('skipped: basis over 200 implications')
        return
    if ref.m <= 7:
        d = ref.pseudo_by_definition()
        assert d == ps, 'reference models disagree'
    want = want_basis(ref, ps)
    c = gen.build(fca, ref, rng)
    if want:
        obs.state(ref.rows, ref.m)
    obs.tag('basis size %s' % (len(want) if len(want) < 5 else '5-14' if len(want) < 15 else '15+'))
    algos = [
        ('compute_dg_basis', lambda: fca.compute_dg_basis(c)),
        ('compute_dg_basis(simple)', lambda: fca.compute_dg_basis(c, close=co.simple_closure)),
        ('compute_dg_basis_simple', lambda: fca.compute_dg_basis_simple(c)),
        ('compute_dg_basis_simple(lin)', lambda: fca.compute_dg_basis_simple(c, close=co.lin_closure)),
        ('dg_basis_iter_simple', lambda: list(dg_basis.dg_basis_iter_simple(c))),
        ('dg_basis_iter_simple(lin)', lambda: list(dg_basis.dg_basis_iter_simple(c, close=co.lin_closure))),
        ('Context.attribute_implications_iter', lambda: list(c.attribute_implications_iter())),
        ('Context.get_attribute_implications', lambda: c.get_attribute_implications()),
        ('Context.attribute_implications', lambda: c.attribute_implications),
        ('Context.get_attribute_implications(simple)',
         lambda: c.get_attribute_implications(basis=fca.compute_dg_basis_simple)),
        ('compute_canonical_basis', lambda: aibasis.compute_canonical_basis(c)),
        ('compute_canonical_basis(lin)', lambda: aibasis.compute_canonical_basis(c, close=co.lin_closure)),
        ('Context.get_attribute_canonical_basis', lambda: c.get_attribute_canonical_basis()),
    ]
    rng.shuffle(algos)
    if len(want) > 40:
        algos = algos[:5]
    for name, f in algos:
        check_basis(obs, obs.call(name, f), ref, name, want)
    # object side through the context, and the premise is the pseudo-intent itself, not a subset of it
    if ref.n <= 8 and ref.m <= 8:
        t = ref.transpose()
        check_basis(obs, obs.call('Context.get_object_implications', c.get_object_implications), t,
                    'Context.get_object_implications')
    # a lazily consumed prefix, other work in between
    it = obs.call('Context.attribute_implications_iter', c.attribute_implications_iter)
    got = []
    for _ in range(rng.randint(0, len(want) + 2)):
        x = obs.call('next(basis iterator)', next, it, None)
        if x is None:
            obs.eq(len(got), len(want), 'the lazy basis ended early')
            break
        got.append(x)
        if rng.random() < .3:
            obs.call('Context.get_attribute_implications', c.get_attribute_implications)
    g = ipairs(got)
    obs.check(len(g) == len(set(g)) and set(g) <= want, 'a lazily yielded implication is not of the canonical basis', got=g)
    check_views(obs, c, ref, 'after computing bases')
