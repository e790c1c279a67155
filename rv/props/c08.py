import fca
import gen
from fca.algorithms import closure_operators as co
from lib import isnap
from model import imp_close

CASES = {'quick': 20000, 'thorough': 500000}
STEPS = 60_000_000
RULE = ('random implication lists (0-12, chains and cycles, repeated and equal-but-distinct members, empty premises '
        'and conclusions, unit implications, conclusions overlapping premises) over 0-9 names of every kind, rarely up to 300 implications over up to 260 names, sets inside '
        'and partly outside the mentioned names, both procedures and the prefix-bounded one for every prefix length. '
        'Non-trivial: a distinct (implication list, set) whose closure is larger than the set.')


def imps(rng, U, big=False):
    out = []
    shape = rng.randrange(4)
    n = rng.choice([0, 1, 2, 3, 5, 8, 12] if not big else [33, 66, 100, 130, 260, 300])
    if big and rng.random() < .5:                  # one chain through all names, backwards or in any order
        out = [fca.Implication({a}, {b}) for a, b in zip(U, U[1:])]
        if rng.random() < .5:
            out.reverse()
        else:
            rng.shuffle(out)
        n = rng.randint(0, 5)
    for k in range(n):
        if shape == 0 and len(U) > 1:              # chains and cycles
            a, b = rng.sample(U, 2)
            p, q = {a}, {b}
            if rng.random() < .3:
                p.add(rng.choice(U))
        else:
            p, q = (set(gen.subset(rng, U)), set(gen.subset(rng, U))) if not big else \
                tuple(set(rng.sample(U, rng.choice([0, 1, 2, 2, 3, 5]))) for _ in range(2))
            if shape == 1:
                p = set(rng.sample(sorted(p, key=repr), min(len(p), 2)))
        if rng.random() < .08:
            p = set()
        if rng.random() < .08:
            q = set()
        if rng.random() < .2:
            q |= p
        d = q - p
        if len(d) == 1 and rng.random() < .4:
            out.append(fca.UnitImplication(p, next(iter(d))))
        else:
            out.append(fca.Implication(p, q))
    for _ in range(rng.randint(0, 3)):
        if out and rng.random() < .5:
            x = rng.choice(out)
            y = x if rng.random() < .4 else fca.Implication(set(x.premise), x.conclusion | x.premise) \
                if rng.random() < .5 else fca.Implication(set(x.premise), set(x.conclusion))
            out.insert(rng.randint(0, len(out)), y)
    rng.shuffle(out)
    return out


def case(rng, obs, i):
    m = gen.size(rng, 9)
    big = i % 400 == 133                           # long lists, many names, long chains
    if big:
        m = rng.choice([33, 64, 65, 70, 130, 260])
        obs.tag('large')
    U = gen.names(rng, m, rng.choice(gen.ANY_KINDS), 'a')
    L = imps(rng, U, big)
    pairs = [(set(x.get_premise()), set(x.get_conclusion())) for x in L]
    obs.sample = {'names': [repr(u) for u in U], 'implications': [repr(x) for x in L]}
    snap, ids = isnap(L), list(map(id, L))
    for _ in range(6):
        s = set(gen.subset(rng, U)) if not big else set(rng.sample(U, rng.randint(0, 6))) | set(U[:rng.randint(0, 2)])
        if rng.random() < .1:
            s.add('outside the base')
        before = set(s)
        want = imp_close(s, pairs)
        for name, f in (('simple_closure', co.simple_closure), ('lin_closure', co.lin_closure)):
            got = obs.call(name, f, s, L)
            obs.eq(set(got), want, name + ': not the least closed superset', given=before)
            obs.check(got is not s, name + ': returned the given set itself instead of a new one')
        for k in {0, m, rng.randint(0, m), rng.randint(0, m)}:
            base = list(U)
            cur = set(s)
            agree = all((x in want) == (x in cur) for x in U[:k])
            ok, got = obs.call('closure', co.closure, cur, base, L, k)
            obs.eq(bool(ok), agree, 'closure: agreement with the prefix misjudged', given=before, prefix=U[:k], closure=want)
            if agree:
                obs.eq(set(got), want, 'closure: not the least closed superset', given=before, prefix=U[:k])
            obs.eq((cur, base), (before, list(U)), 'closure: the given set or base was modified')
            obs.tag('prefix agrees' if agree else 'prefix differs')
        obs.eq(s, before, 'the given set was modified')
        obs.check(isnap(L) == snap and list(map(id, L)) == ids, 'the given implications were modified', after=isnap(L))
        if want != before:
            obs.state(sorted(map(repr, before)), [(sorted(map(repr, p)), sorted(map(repr, q))) for p, q in pairs])
