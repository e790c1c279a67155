import fca
import gen
from fca import ConceptLattice, ConceptSystem
from fca.algorithms.filtering import (compute_estability, compute_extent_size, compute_intent_size, compute_istability,
                                      compute_probability, compute_separation_index, filter_concepts, get_compute_functions,
                                      get_modes)
from lib import pick_ref, snapshot

CASES = {'quick': 4000, 'thorough': 100000}
RULE = ('lattices of non-empty contexts, the six indices and user-made ones (many ties, all equal, all distinct, negative, '
        'integers), all three modes with thresholds at, between and beyond the values, numbers from 0 to beyond the size, '
        'parts from 0 to 1; judged against the definition of keeping the best. Non-trivial: a distinct '
        '(values, mode, parameter).')
STEPS = 150_000_000

REAL = [compute_istability, compute_estability, compute_extent_size, compute_intent_size, compute_separation_index,
        compute_probability]


def user_index(rng, L):
    k = rng.randrange(7)
    n = len(L)
    if k == 0:
        v = [1.0] * n
    elif k == 1:
        v = list(range(n))
        rng.shuffle(v)
    elif k == 2:
        v = [rng.randint(0, 2) for _ in range(n)]
    elif k == 3:
        v = [rng.choice([-1.5, -1, 0, .5, 2]) for _ in range(n)]
    elif k == 4:                                  # nearly equal values
        v = [1 + rng.choice([0, 1e-12, -1e-12, 1e-9, .1]) for _ in range(n)]
    elif k == 5:                                  # steps of equal height
        v = [rng.randint(0, n) / 4 for _ in range(n)]
    else:
        v = [rng.random() for _ in range(n)]
    m = dict(zip(L, v))
    order = list(m)
    rng.shuffle(order)
    return lambda lattice: {c: m[c] for c in order}


def case(rng, obs, i):
    ref = pick_ref(rng, i, (8, 6), wide=50, data=200, dmax=500, big=400)
    if not ref.n or not ref.m:
        ref = gen.spec(rng, 9, 7, min_obj=1, min_att=1)
    if i % 150 == 77:                             # more than a hundred concepts
        k = rng.randint(100, 140)
        ref = gen.Ref(gen.names(rng, k, 'shuffled', 'o'), gen.names(rng, k, 'shuffled', 'a'), [(1 << j) - 1 for j in range(k)]) \
            if rng.random() < .5 else gen.Ref(gen.names(rng, 7, 'shuffled', 'o'), gen.names(rng, 7, 'shuffled', 'a'),
                                              gen.table(rng, 7, 7, 'contra'))
        obs.tag('over 100 concepts')
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    L = ConceptLattice(c)
    view = [(id(x), frozenset(x.extent), frozenset(x.intent), dict(x.meta)) for x in L]
    par = [set(map(id, L.parents(x))) for x in L]
    csnap = snapshot(c)
    n = len(L)
    known = obs.call('get_compute_functions', get_compute_functions)
    obs.eq(set(known), {'Probability index', 'Separation index', 'Intensional stability', 'Extensional stability',
                        'Extent size', 'Intent size'}, 'names of the indices offered')
    if n <= 40:
        name, f = rng.choice([('Extent size', compute_extent_size), ('Intent size', compute_intent_size),
                              ('Separation index', compute_separation_index), ('Probability index', compute_probability),
                              ('Intensional stability', compute_istability),
                              ('Extensional stability', compute_estability)])
        a, b = known[name](L), f(L)
        obs.eq([a[x] for x in L], [b[x] for x in L], 'the index offered under the name ' + name)
    modes = obs.call('get_modes', get_modes)
    obs.eq(set(modes), {'part', 'abs', 'value'}, 'modes offered')
    for _ in range(4):
        f = rng.choice(rng.choice([REAL, list(known.values())])) if rng.random() < .35 else user_index(rng, L)
        vals = f(L)
        v = [vals[x] for x in L]
        mode = rng.choice(rng.choice([['value', 'abs', 'abs', 'part', 'part'], list(modes)]))
        if mode == 'value':
            s = sorted(set(v))
            opt = rng.choice(s + [a + (b - a) / 2 for a, b in zip(s, s[1:])] + [s[0] - 1, s[-1] + 1, 0, .5])
        elif mode == 'abs':
            opt = rng.choice([0, 1, 2, 3, n - 1, n, n + 1, 2 * n, rng.randint(0, n)])
            opt = rng.choice([opt, opt, opt, float(opt), opt + rng.choice([.5, .9, .01])])
        else:
            opt = rng.choice([0, 1, .5, .25, 1 / 3, .75, .99, .01, rng.random(), rng.randint(0, n) / n])
        got = obs.call('filter_concepts', filter_concepts, L, f, mode, opt)
        where = '%s %r of values %r' % (mode, opt, v if len(v) < 40 else v[:40])
        obs.check(isinstance(got, ConceptSystem), 'the result is no concept system (%s)' % where)
        got = list(got)
        ids = {id(x): k for k, x in enumerate(L)}
        pos = []
        for x in got:
            k = ids.get(id(x))
            if k is None and x in L:
                k = L.index(x)
            obs.check(k is not None, 'a kept concept is none of the lattice (%s)' % where, concept=x)
            pos.append(k)
        obs.eq(len(set(pos)), len(pos), 'a concept is kept twice (%s)' % where)
        kept = set(pos)
        lo = min([v[k] for k in kept], default=None)
        hi = max([v[k] for k in range(n) if k not in kept], default=None)
        if mode == 'value':
            obs.eq(kept, {k for k in range(n) if v[k] >= opt}, 'not exactly those at or above the threshold (%s)' % where)
        else:
            want = min(int(opt), n) if mode == 'abs' else int(n * opt)
            if mode == 'abs':
                obs.eq(len(kept), want, 'number kept (%s)' % where)
            else:
                obs.check(len(kept) >= want, 'fewer kept than the part asks for (%s)' % where, kept=len(kept), want=want)
                # beyond the share only what lies closer to the next best than the last two inside lie to each other
                s = sorted(v, reverse=True)
                step = s[want - 2] - s[want - 1] if want > 1 else 0
                low = want + sum(1 for x in s[want:] if s[want] - x < step - 1e-13)
                high = want + sum(1 for x in s[want:] if s[want] - x < step + (1e-13 if step else 0))
                obs.check(low <= len(kept) <= high, 'number kept beyond the share (%s)' % where, kept=len(kept),
                          at_least=low, at_most=high)
                if len(kept) > want:
                    obs.tag('more than the part, close values')
            obs.check(lo is None or hi is None or lo >= hi, 'a dropped concept ranks higher than a kept one (%s)' % where,
                      lowest_kept=lo, highest_dropped=hi)
        obs.tag(mode)
        obs.state(mode, opt, v)
        obs.eq([(id(x), frozenset(x.extent), frozenset(x.intent), dict(x.meta)) for x in L], view, 'filtering changed the lattice')
    if n <= 40:
        obs.eq([set(map(id, L.parents(x))) for x in L], par, 'filtering changed the upper neighbours')
    obs.eq(snapshot(c), csnap, 'filtering changed the context')
    whole = obs.call('filter_concepts', filter_concepts, L, user_index(rng, L), 'part')
    obs.eq(len(whole), n, 'the default part is the whole')
