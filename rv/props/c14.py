from fractions import Fraction

import fca
import gen
from fca.algorithms import factors
from lib import check_views, pick_ref, same_context
from model import Ref

CASES = {'quick': 5000, 'thorough': 120000}
RULE = ('contexts of every shape and name kind with ties (repeated rows and columns), fidelities 0, 1 and random '
        'between, consumed lazily; every produced factor is judged when it appears (concept, new crosses, reported '
        'share, fidelity not reached before), the stop is judged at the end, and at full fidelity the product of the '
        'factor contexts is compared with the table. Non-trivial: a distinct (incidence, fidelity) with at least one '
        'cross.')
STEPS = 150_000_000
EPS = 1e-9


def reached(covered, total, fid):
    """the share covered is at least fid; where a rounding error could decide, give the code the benefit"""
    share, fid = Fraction(covered, total), Fraction(fid)
    if share == fid and share.denominator & (share.denominator - 1) == 0:
        return True                 # both are short binary fractions: no rounding anywhere
    return share >= fid + Fraction(EPS)


def left(ref, U):
    rows = [0] * ref.n
    for g, m in U:
        rows[g] |= 1 << m
    return rows


def worth(name, ref, rows, extent):
    """what the concept with this extent newly covers: crosses, or cells of the rows and columns concerned"""
    intent = ref.up(extent)
    n, k, cols = 0, 0, 0
    for g in range(ref.n):
        if extent >> g & 1:
            z = rows[g] & intent
            n += bin(z).count('1')
            k += z > 0
            cols |= z
    return n if name == 'algorithm2' else k * bin(cols).count('1')


def produce(rng, obs, c, ref, fid, name):
    fn = getattr(factors, name)
    total = len(ref.pairs())
    greedy = ref.n * ref.m <= 400
    U = {(i, j) for i in range(ref.n) for j in range(ref.m) if ref.rows[i] >> j & 1}
    out = []
    if fid == 1 and rng.random() < .5:
        it = obs.call(name, fn, c)                  # the default is everything
    else:
        it = obs.call(name, fn, c, fid) if rng.random() < .7 else obs.call(name, fn, c, fidelity=fid)
    cols = ref.cols()
    end = object()
    while True:
        x = obs.call('next(%s)' % name, next, it, end)
        if x is end:
            break
        cpt, val = x
        obs.check(total > 0, name + ': a factor of a context without crosses', factor=cpt)
        obs.check(not reached(total - len(U), total, fid), name + ': a factor after the fidelity was reached',
                  factor=cpt, fidelity=fid)
        e, i = ref.om(cpt.extent), ref.am(cpt.intent)
        obs.check(ref.up(e) == i and ref.down(i) == e, name + ': a factor that is no formal concept', factor=cpt)
        new = {(g, m) for g, m in U if e >> g & 1 and i >> m & 1}
        obs.check(new, name + ': a factor that covers nothing new', factor=cpt)
        if name == 'algorithm2':
            obs.check(abs(val - len(new) / total) < EPS, name + ': the reported share is not the newly covered one',
                      reported=val, covered=len(new) / total)
        else:
            area = len({g for g, m in new}) * len({m for g, m in new})
            obs.check(abs(val - area / (ref.n * ref.m)) < EPS,
                      name + ': the reported share is not that of the rows and columns newly covered',
                      reported=val, covered=area / (ref.n * ref.m))
        if greedy:
            # the concept of no single attribute, and of no attribute added to the factor, does better
            rows = left(ref, U)
            for j in range(ref.m):
                r1 = worth(name, ref, rows, cols[j])
                obs.check(r1 <= worth(name, ref, rows, e), name + ': the concept of an attribute covers more',
                          factor=cpt, attribute=ref.atts[j])
                if name == 'algorithm2':
                    obs.check(worth(name, ref, rows, e & cols[j]) <= len(new),
                              name + ': with one attribute more the factor covers more', factor=cpt, attribute=ref.atts[j])
            obs.tag('greedy choice judged')
        U -= new
        out.append(cpt)
    if total:
        cov = (total - len(U)) / total
        obs.check(cov > fid - EPS, name + ': ended before the fidelity was reached', covered=cov, fidelity=fid)
        obs.state(name, ref.rows, ref.m, fid)
    else:
        obs.eq(out, [], name + ': factors without crosses')
    return out


def any_factors(rng, obs, c, ref):
    """the factor contexts of any collection of concepts, not only of a greedy decomposition"""
    cs = [fca.Concept(e, t) for e, t in sorted(ref.concepts(), key=lambda x: (len(x[0]), sorted(map(repr, x[1]))))]
    fs = rng.sample(cs, rng.randint(0, min(len(cs), 9)))
    if rng.random() < .4:                                   # not only formal concepts
        fs += [fca.Concept(gen.subset(rng, ref.objs), gen.subset(rng, ref.atts)) for _ in range(rng.randint(1, 3))]
    if fs and rng.random() < .3:
        fs.append(rng.choice(fs))                           # one of them twice
    if rng.random() < .3:
        fs.append(fca.Concept([], gen.subset(rng, ref.atts)))
        fs.append(fca.Concept(gen.subset(rng, ref.objs), []))
    rng.shuffle(fs)
    given = [(set(f.extent), set(f.intent)) for f in fs]
    og, fa = obs.call('make_factor_cxts', factors.make_factor_cxts, rng.choice([list, tuple])(fs))
    obs.eq([(f.extent, f.intent) for f in fs], given, 'any factors: the given factors changed')
    k = len(fs)
    obs.eq((len(og.attributes), len(fa.objects)), (k, k), 'any factors: one name per factor')
    obs.eq(list(og.attributes), list(fa.objects), 'any factors: the two contexts name the factors alike')
    obs.eq(len(set(og.attributes)), k, 'any factors: names of factors are distinct')
    obs.eq(set(og.objects), set().union(*[e for e, _ in given]), 'any factors: the objects are those of the extents')
    obs.eq(set(fa.attributes), set().union(*[t for _, t in given]), 'any factors: the attributes are those of the intents')
    for j, (e, t) in enumerate(given):
        obs.eq(og.get_attribute_extent_by_index(j), e, 'any factors: column of a factor is not its extent')
        obs.eq(fa.get_object_intent_by_index(j), t, 'any factors: row of a factor is not its intent')
    if k:
        p = obs.call('product', lambda: og * fa)
        got = {(o, a) for x, o in enumerate(p.objects) for y, a in enumerate(p.attributes) if p.table[x][y]}
        obs.eq(got, {(o, a) for e, t in given for o in e for a in t}, 'any factors: the product is not the union of the factors')
    obs.tag('any factors')


def sparse(rng, lo, hi):
    n, m = rng.randint(1, 8), rng.randint(lo, hi)
    rows = [0] * n
    for j in range(m):
        for g in rng.sample(range(n), rng.choice([0, 1, 1, 1, min(2, n)])):
            rows[g] |= 1 << j
    if rng.random() < .4:
        rows = [sum((rows[g] >> j & 1) << g for g in range(n)) for j in range(m)]
        n, m = m, n
    return Ref(gen.names(rng, n, rng.choice(gen.ALL_KINDS), 'o'), gen.names(rng, m, rng.choice(gen.ALL_KINDS), 'a'), rows)


def case(rng, obs, i):
    ref = pick_ref(rng, i, small=(9, 8), kinds=gen.ALL_KINDS, wide=0, data=200, dmax=250, big=500)
    if i % 40 == 21:                                # many attributes or objects, few crosses each
        ref = sparse(rng, 33, 70)
        obs.tag('33-70 attributes or objects')
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    fid = rng.choice([0, .25, .5, .8, .9, 1, 1, 1, rng.random()])
    obs.budget(10_000_000 + 40_000 * ref.n * ref.m)
    total = len(ref.pairs())
    if total and rng.random() < .3:                 # a share that some number of crosses has exactly
        fid = rng.randint(0, total) / total
    for name in ('algorithm2', 'algorithm2_weighted'):
        fs = produce(rng, obs, c, ref, fid, name)
        if fid == 1:
            given = list(fs)
            og, fa = obs.call('make_factor_cxts', factors.make_factor_cxts, rng.choice([list, tuple])(fs))
            obs.eq((len(og.attributes), len(fa.objects)), (len(fs), len(fs)), 'factor contexts: number of factors')
            p = obs.call('product', lambda: og * fa)
            oi = [k for k in range(ref.n) if ref.rows[k]]
            cols = ref.cols()
            aj = [k for k in range(ref.m) if cols[k]]
            obs.eq(set(p.objects), {ref.objs[k] for k in oi}, 'factor contexts: objects are not those with crosses')
            obs.eq(set(p.attributes), {ref.atts[k] for k in aj}, 'factor contexts: attributes are not those with crosses')
            obs.eq((len(p.objects), len(p.attributes)), (len(oi), len(aj)), 'factor contexts: a name twice')
            got = {(o, a) for x, o in enumerate(p.objects) for y, a in enumerate(p.attributes) if p.table[x][y]}
            obs.eq(got, set(ref.pairs()), name + ': the product of the factor contexts is not the context')
            obs.eq(fs, given, 'the given factors changed')
            obs.tag('full fidelity')
    if rng.random() < .5:
        any_factors(rng, obs, c, ref)
    check_views(obs, c, ref, 'after factorisation')
