from decimal import Decimal, localcontext
from fractions import Fraction
import fca
import gen
from fca import ConceptLattice
from fca.algorithms.filtering import (compute_estability, compute_extent_size, compute_index, compute_intent_size,
                                      compute_istability, compute_probability, compute_separation_index,
                                      get_compute_functions)
from lib import pick_ref, snapshot
from model import Ref, bits, istability, probability

CASES = {'quick': 3000, 'thorough': 80000}
RULE = ('lattices of non-empty contexts of all shapes (repeated, full and empty rows and columns, tall and wide ones, the '
        'repository\'s data), every index of every concept against exact rational arithmetic by definition, indices attached '
        'in random order, repeatedly and over values stored before. Non-trivial: a distinct (context, index).')
STEPS = 300_000_000


def separation(ref, e, t):
    area = bin(e).count('1') * bin(t).count('1')
    if not area:
        return Fraction(1)
    cols = ref.cols()
    total = sum(bin(ref.rows[i]).count('1') for i in bits(e)) + sum(bin(cols[j]).count('1') for j in bits(t)) - area
    return Fraction(area, total)


def probability_large(ref, intent):
    """the same by its definition, in long decimal numbers"""
    with localcontext() as ctx:
        ctx.prec, ctx.Emin = 60, -999999
        n = ref.n
        p = [Decimal(bin(c).count('1')) / n for c in ref.cols()]
        pb = Decimal(1)
        for j in bits(intent):
            pb *= p[j]
        rest = [p[j] for j in range(ref.m) if not intent >> j & 1]
        if pb == 1:
            t = Decimal(1)
            for q in rest:
                t *= 1 - q ** n
            return t
        tot, binom, qk = Decimal(0), 1, [Decimal(1)] * len(rest)
        a, b = Decimal(1), (1 - pb) ** n
        for k in range(n + 1):
            t = binom * a * b
            for x in qk:
                t *= 1 - x
            tot += t
            binom = binom * (n - k) // (k + 1)
            a *= pb
            b /= 1 - pb
            qk = [x * q for x, q in zip(qk, rest)]
        return tot


def near(a, b):
    return isinstance(a, (int, float)) and abs(float(a) - float(b)) <= 1e-9 + 1e-7 * abs(float(b))


def masks(ref, c):
    return ref.om(c.extent), ref.am(c.intent)


def lattice_view(L):
    return [(frozenset(c.extent), frozenset(c.intent)) for c in L]


def case(rng, obs, i):
    ref = pick_ref(rng, i, (8, 7), wide=25, data=150, dmax=700, big=400)
    if i % 100 == 33:                             # many alike objects (or attributes): counts of subsets are huge numbers
        k, z = rng.randint(1, 3), rng.choice([52, 54, 64, 100, 1020, 1023, 1024, 1030, 1100, 1300])
        rows = [rng.getrandbits(k) for _ in range(3)]
        ref = Ref(['g%d' % x for x in range(z)], ['m%d' % x for x in range(k)],
                  [rows[0] if rng.random() < .7 else rng.choice(rows) for _ in range(z)])
        if rng.random() < .4:
            ref = ref.transpose()
        obs.tag('huge subset counts')
    if not ref.n or not ref.m:
        ref = gen.spec(rng, 9, 7, min_obj=1, min_att=1)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    L = obs.call('ConceptLattice', ConceptLattice, c)
    if len(L) > 220:
        obs.tag('large lattice')
    tr = ref.transpose()
    N = [len(ref.objs), len(ref.atts)]
    funcs = {
        'istability': (compute_istability, lambda e, t: istability(ref, t)),
        'estability': (compute_estability, lambda e, t: istability(tr, e)),
        'separation': (compute_separation_index, lambda e, t: separation(ref, e, t)),
        'extent size': (compute_extent_size, lambda e, t: Fraction(bin(e).count('1'), N[0])),
        'intent size': (compute_intent_size, lambda e, t: Fraction(bin(t).count('1'), N[1])),
        'probability': (compute_probability, lambda e, t: probability(ref, t)),
    }
    if ref.n > 60 and ref.m and len(L) * ref.n * (ref.m + 5) < 400000:
        funcs['probability'] = (compute_probability, lambda e, t: probability_large(ref, t))
        obs.tag('probability, many objects')
    elif ref.n > 60 or len(L) > 60 and ref.n > 25:
        funcs.pop('probability')                  # exact binomials of large tables are slow
    order = list(funcs)
    rng.shuffle(order)
    before, csnap = lattice_view(L), snapshot(c)
    parents = [{(frozenset(p.extent), frozenset(p.intent)) for p in L.parents(x)} for x in L]
    stored = [{} for _ in L]
    if rng.random() < .3:
        for k, x in enumerate(L):
            if rng.random() < .6:
                stored[k]['old'] = x.meta['old'] = rng.random()
    want = {}
    for name in order:
        f, d = funcs[name]
        want[name] = [d(*masks(ref, x)) for x in L]
        got = obs.call('compute_' + name, f, L)
        obs.eq(len(got), len(L), name + ': number of values')
        for x, w in zip(L, want[name]):
            obs.check(x in got, name + ': a concept has no value', concept=x)
            obs.check(near(got[x], w), name + ': differs from its definition', concept=x, got=got[x], want=w)
        obs.eq(lattice_view(L), before, name + ' changed the lattice')
        obs.eq([x.meta for x in L], stored, name + ' stored values by itself')
        obs.state(name, ref.rows, ref.m)
        obs.tag(name)
        if rng.random() < .75:
            label = rng.choice([name, 'label ' + name, 'old', 'x'])
            obs.call('compute_index', compute_index, L, f, label)
            for k, x in enumerate(L):
                obs.check(label in x.meta and near(x.meta[label], want[name][k]), 'attached value of %s' % name,
                          meta=x.meta, label=label, want=want[name][k])
                stored[k][label] = x.meta[label]
                obs.eq(x.meta, stored[k], 'attaching an index changed other stored values')
    if rng.random() < .3:                         # the same concepts, in another order, in a system
        every = list(L)
        rng.shuffle(every)
        system = fca.ConceptSystem(every)
        for name in ('istability', 'estability'):
            got = obs.call('compute_%s (system)' % name, funcs[name][0], system)
            obs.eq(len(got), len(L), name + ' of a system: number of values')
            for x, w in zip(L, want[name]):
                obs.check(x in got and near(got[x], w), name + ' of a system: differs from its definition', concept=x, want=w)
            obs.check(len(system) == len(every) and all(p is q for p, q in zip(system, every)), name + ' changed the system')
    if rng.random() < .3:                         # an index of the user's own
        vals = {x: rng.randint(0, 3) for x in L}
        obs.call('compute_index', compute_index, L, lambda l: dict(vals), 'mine')
        for k, x in enumerate(L):
            obs.eq(x.meta, dict(stored[k], mine=vals[x]), 'attaching a user-made index')
    # the lattice is as usable as before
    obs.eq(lattice_view(L), before, 'the lattice changed')
    obs.eq(snapshot(c), csnap, 'the context changed')
    obs.eq([{(frozenset(p.extent), frozenset(p.intent)) for p in L.parents(x)} for x in L], parents,
           'upper neighbours after attaching indices')
    obs.check(all(x in L and L[L.index(x)] is x for x in L), 'concepts are not found any more')
    obs.check(all(L.children(x) is not None for x in list(L)[:5]), 'lower neighbours')
    if i % 50 == 0:
        obs.eq(set(get_compute_functions().values()),
               {compute_probability, compute_separation_index, compute_istability, compute_estability,
                compute_extent_size, compute_intent_size}, 'the offered index functions')
