"""The worked explorations that come with the package, driven through the dialogue they hold on the command line."""
import builtins
import functools
import itertools
import sys
import fca
from fca import Implication
from model import bits, mask_close

CASES = {'quick': 900, 'thorough': 9000}
RULE = ('the exploration of number properties with an expert who knows the numbers of a random finite universe and answers '
        'at the prompts (which numbers refute, and in which order, is random), checked after every answer and at '
        'the end; the exploration of pairs of self-maps of a set, where the expert knows all pairs on up to four elements and gives '
        'whole or partial counterexamples; the helpers of the latter on random pairs, attribute sets and '
        'implications. Non-trivial: a distinct state of a dialogue or judged helper input.')
STEPS = 300_000_000


class Prompted:
    """stands in for the person at the prompt"""
    def __init__(self, obs, answer):
        self.obs, self.answer = obs, answer

    def __call__(self, prompt=''):
        a = self.answer(str(prompt))
        self.obs.event('prompt', str(prompt), a)
        return a

    def __enter__(self):
        self.old = builtins.input
        builtins.input = self

    def __exit__(self, *a):
        builtins.input = self.old


# ------------------------------------------------------------------ numbers
FACTORIALS = [1, 2, 6, 24, 120, 720, 5040, 40320]
DEFS = {'even': lambda n: n in range(0, n + 1, 2), 'odd': lambda n: n not in range(0, n + 1, 2),
        'divided_by_three': lambda n: sum(map(int, str(n))) in (0, 3, 6, 9, 12, 15, 18, 21, 24, 27),
        'prime': lambda n: n > 1 and not any(n % p == 0 for p in range(2, int(n ** .5) + 1)),
        'factorial': lambda n: n in FACTORIALS}


def props(n):
    """the properties of a number; whether 1 counts as prime is judged on its own (a known finding), not in every dialogue"""
    import fca.algorithms.exploration2.examples.numbers as nb
    return {a for a, f in DEFS.items() if (nb.is_prime(1) if (a, n) == ('prime', 1) else f(n))}


def one(rng, obs):
    import fca.algorithms.exploration2.examples.numbers as nb
    obs.check(not obs.call('is_prime', nb.is_prime, 1), 'is_prime(1)', mechanism='is-prime-one')


def valid(univ, p, q):
    return all(p & ~u or not q & ~u for u in univ)


def judge_numbers(obs, s, names, seen, accepted, univ, what):
    am = lambda x: sum(1 << names.index(a) for a in x)
    c = s.context
    obs.eq(list(c.objects), seen, what + ': the numbers put into the context')
    for k in seen:
        obs.eq(set(c.get_intent(k)), props(k), what + ': the properties of a number', number=k)
    acc = [(am(i.premise), am(i.premise | i.conclusion)) for i in s.get_accepted_implications()]
    obs.eq(acc, accepted, what + ': accepted implications')
    for p, q in acc:
        obs.check(valid(univ, p, q), what + ': an accepted implication is refuted by a number of the universe', imp=(p, q))
    obs.state(what, seen, acc)
    return acc


def numbers(rng, obs):
    import fca.algorithms.exploration2.examples.numbers as nb
    for _ in range(12):
        n = rng.choice([rng.randint(1, 60), rng.randint(1, 800), rng.choice(FACTORIALS)])
        obs.eq(bool(obs.call('is_prime', nb.is_prime, n)), 'prime' in props(n), 'is_prime', number=n)
        obs.eq(bool(obs.call('is_factorial', nb.is_factorial, n)), 'factorial' in props(n), 'is_factorial', number=n)
    lo = rng.randint(1, 9)
    U = list(range(lo, lo + rng.randint(0, 40)))
    if rng.random() < .5:
        U = rng.sample(range(1, 800), rng.randint(0, 25)) + rng.sample(FACTORIALS, rng.randint(0, 4))
    U = sorted(set(U))
    rng.shuffle(U)
    obs.sample = {'universe': U}
    e = obs.call('CommandLineExploration', nb.CommandLineExploration)
    names = list(e._cxt.attributes)
    obs.eq(sorted(names), sorted(DEFS), 'the attributes asked about')
    am = lambda x: sum(1 << names.index(a) for a in x)
    for k in rng.sample(U, min(3, len(U))):
        obs.eq(obs.call('get_intent', e.get_intent, k), props(k), 'the properties of a number', number=k)
    univ = [am(props(k)) for k in U]
    asked, seen, accepted = [], [], []
    is_valid = e.is_valid

    def hooked(imp):
        s = e._session
        judge_numbers(obs, s, names, seen, accepted, univ, 'at a question')
        asked.append((am(imp.premise), am(imp.premise | imp.conclusion)))
        p, q = asked[-1]
        got = is_valid(imp)
        obs.eq(bool(got), valid(univ, p, q), 'the answer taken from the prompt')
        obs.check(mask_close(p, accepted) & q != q, 'a question that is already answered by the accepted ones', imp=imp)
        obs.check(all(not (p & ~r == 0 and q & ~r) for r in [am(props(k)) for k in seen]),
                  'a question that a number given before refutes', imp=imp)
        if got:
            accepted.append((p, q))
        return got

    e.is_valid = hooked

    def answer(prompt):
        p, q = asked[-1]
        if 'valid' in prompt:
            return str(valid(univ, p, q))
        k = rng.choice([k for k, u in zip(U, univ) if not p & ~u and q & ~u])
        seen.append(k)
        return str(k)

    with Prompted(obs, answer):
        obs.call('explore', e.explore)
    acc = judge_numbers(obs, e._session, names, seen, accepted, univ, 'at the end')
    for s in range(1 << len(names)):
        want = (1 << len(names)) - 1
        for u in univ:
            if not s & ~u:
                want &= u
        obs.eq(mask_close(s, acc), want, 'at the end: the accepted implications do not close a set as the universe does', set=s)
    obs.tag('dialogue on numbers, %s questions' % (len(asked) if len(asked) < 5 else '5+'))


# ------------------------------------------------------------------ bi-unars
TERMS = ['id', 'f', 'g', 'ff', 'fg', 'gf', 'gg']
PAIRS = [(a, b) for a in range(7) for b in range(a + 1, 7)]
FLIP = [0, 2, 1, 6, 5, 4, 3]                       # the terms with f and g exchanged
EQ = {p: k for k, p in enumerate(PAIRS)}
SYM = [EQ[tuple(sorted((FLIP[a], FLIP[b])))] for a, b in PAIRS]


def intent_of(f, g):
    after = lambda x, y: tuple(x[k - 1] for k in y)
    t = [tuple(range(1, len(f) + 1)), f, g, after(f, f), after(f, g), after(g, f), after(g, g)]
    return sum(1 << k for k, (a, b) in enumerate(PAIRS) if t[a] == t[b])


def flip(m):
    return sum(1 << SYM[k] for k in bits(m))


@functools.lru_cache(None)
def universe(n):
    """intent -> pairs with it (at most a few), over all pairs of maps on 1..n elements"""
    out = {}
    for k in range(1, n + 1):
        maps = list(itertools.product(range(1, k + 1), repeat=k))
        for f in maps:
            for g in maps:
                ps = out.setdefault(intent_of(f, g), [])
                if len(ps) < 8:
                    ps.append((f, g))
    return out


MISSING = 'fca.algorithms.exploration.exploration'       # the name the example imports its exploration by, which does not exist
failed = []


def module():
    try:
        import fca.algorithms.exploration_.examples.bi_unars as bu
    except ModuleNotFoundError as e:
        if e.name != MISSING:
            raise
        failed.append(str(e))
        import fca.algorithms.exploration_.exploration as real
        sys.modules[MISSING] = real
        import fca.algorithms.exploration_.examples.bi_unars as bu
    return bu


def importable(rng, obs):
    obs.call('import bi_unars', module)
    obs.check(not failed, 'the bi-unars example cannot be imported', error=failed, mechanism='bi-unars-import')


def eqs(bu, m):
    return {bu.attributes[k] for k in bits(m)}


def mask(bu, s):
    return sum(1 << k for k, a in enumerate(bu.attributes) if a in s)


def helpers(rng, obs):
    bu = module()
    obs.eq([str(t) for t in bu.terms], TERMS, 'the terms')
    obs.eq([str(a) for a in bu.attributes], ['%s = %s' % (TERMS[a], TERMS[b]) for a, b in PAIRS], 'the equations')
    n = rng.choice([1, 2, 3, 3, 4, 5, 9])
    for _ in range(6):
        f, g = (tuple(rng.randint(1, n) for _ in range(n)) for _ in 'fg')
        if rng.random() < .3:
            g = f
        b = bu.BiUnar(f, g)
        obs.eq(obs.call('compose', bu.compose, f, g), tuple(f[g[k] - 1] for k in range(n)), 'composition of maps')
        want = intent_of(f, g)
        obs.eq(mask(bu, obs.call('bu_intent', bu.bu_intent, b)), want, 'equations that hold', pair=(f, g))
        c = obs.call('BiUnar.automorphic_copy', b.automorphic_copy)
        obs.eq((c.f, c.g), (g, f), 'the copy with both maps exchanged')
        obs.eq(mask(bu, bu.bu_intent(c)), flip(want), 'equations of the exchanged pair', pair=(f, g))
        p, q = (rng.getrandbits(21) & rng.getrandbits(21) & rng.getrandbits(21) for _ in 'pq')
        imp = Implication(eqs(bu, p & want), eqs(bu, q))
        x, y = obs.call('generate_partial_counterexample', bu.generate_partial_counterexample, imp, b)
        rel = p & want | q
        obs.eq((mask(bu, x), mask(bu, y)), (want & rel, (1 << 21) - 1 & ~rel | want & rel), 'a partial counterexample', imp=(p, q))
        obs.state('pair', f, g)
    for _ in range(10):
        m = rng.getrandbits(21) & rng.getrandbits(21)
        if rng.random() < .3:
            m |= flip(m)
        obs.eq(mask(bu, obs.call('get_symmetric_attribute_set', bu.get_symmetric_attribute_set, eqs(bu, m))), flip(m),
               'the equations with f and g exchanged', equations=m)
        d = m & ~flip(m) | flip(m) & ~m
        low = d & -d
        obs.eq(bool(obs.call('is_orbit_maximal', bu.is_orbit_maximal, eqs(bu, m))), not d or bool(m & low),
               'whether a set comes first in its orbit', equations=m)
        q = rng.getrandbits(21) & rng.getrandbits(21)
        i = obs.call('get_symmetric_implication', bu.get_symmetric_implication, Implication(eqs(bu, m), eqs(bu, q)))
        obs.eq((mask(bu, i.premise), mask(bu, i.premise | i.conclusion)), (flip(m), flip(m | q)), 'the implication with f and g exchanged')
        obs.state('set', m)
    k = rng.randrange(21)
    obs.eq(obs.call('get_symmetric_equality', bu.get_symmetric_equality, bu.attributes[k]) in (bu.attributes[SYM[k]], None), True,
           'the equation with f and g exchanged', equation=k)
    n = rng.choice([1, 2, 2, 3])
    ex = obs.call('generate_examples', lambda: list(bu.generate_examples(n)))
    maps = list(itertools.product(range(1, n + 1), repeat=n))
    obs.eq(sorted((b.f, b.g) for b in ex), sorted(itertools.product(maps, maps)), 'all pairs of maps', n=n)
    p, q = (rng.getrandbits(21) & rng.getrandbits(21) & rng.getrandbits(21) for _ in 'pq')
    if rng.random() < .5:
        u = rng.choice(sorted(universe(3)))
        p &= u
    imp = Implication(eqs(bu, p), eqs(bu, q))
    e = obs.call('find_counter_example', bu.find_counter_example, n, imp)
    bad = [(f, g) for f in maps for g in maps if not p & ~intent_of(f, g) and q & ~intent_of(f, g)]
    if e is None:
        obs.check(not bad, 'no counterexample found though there is one', imp=(p, q), n=n, counterexample=bad[:1])
    else:
        obs.check((e.f, e.g) in bad, 'no counterexample', imp=(p, q), pair=(e.f, e.g))
    obs.tag('counterexample' if bad else 'no counterexample')
    if n < 3:
        c = obs.call('generate_context', bu.generate_context, n, bu.attributes)
        obs.eq(sorted((b.f, b.g, mask(bu, x), mask(bu, y)) for b, (x, y) in zip(c.objects, c.intents())),
               sorted((f, g, intent_of(f, g), intent_of(f, g)) for f in maps for g in maps), 'the context of all pairs', n=n)
    bg = obs.call('generate_background_implications', bu.generate_background_implications, bu.attributes)
    got = sorted((mask(bu, i.premise), mask(bu, i.conclusion)) for i in bg)
    want = sorted(((1 << i) | (1 << j), 1 << l) for i in range(21) for j in range(21) for l in range(21)
                  if linked(PAIRS[i], PAIRS[j], PAIRS[l]))
    obs.eq({(p, q) for p, q in got}, {(p, q) for p, q in want}, 'the background implications')


def linked(x, y, z):
    """z follows from x and y by transitivity of equality, all of them on three terms"""
    return x != y and len({x, y, z}) == 3 and len(set(x) | set(y) | set(z)) == 3


def biunars(rng, obs):
    bu = module()
    univ = universe(4)
    n = rng.choice([1, 2] if obs.tier == 'quick' else [1, 2, 2, 3])
    cxt = bu.generate_context(n, bu.attributes)
    db = obs.call('ExplorationDB', bu.ExplorationDB, cxt, bu.generate_background_implications(bu.attributes), bu.is_orbit_maximal)
    ex = obs.call('CommandLineExpert', bu.CommandLineExpert)
    x = obs.call('AttributeExploration', bu.AttributeExploration, db, ex)
    part = rng.choice([0, .3, 1])
    obs.sample = {'elements': n, 'partial counterexamples': part}
    given = [(b.f, b.g) for b in db.objects]
    asked = []
    nbase = len(db.base)
    is_valid = ex.is_valid

    def judge(what):
        base = [(mask(bu, i.premise), mask(bu, i.premise | i.conclusion)) for i in db.base]
        obs.eq([(b.f, b.g) for b in db.objects], given, what + ': the pairs in the context')
        for b, (s, t) in list(zip(db.objects, cxt.intents()))[-9 if what != 'at the end' else 0:]:
            w = intent_of(b.f, b.g)
            s, t = mask(bu, s), mask(bu, t)
            obs.check(not s & ~w and not w & ~t, what + ': what is known of a pair is not true of it', pair=(b.f, b.g), certain=s,
                      possible=t, true=w)
            obs.check(mask_close(s, base) == s, what + ': certain equations of a pair violate a confirmed implication', pair=(b.f, b.g))
        obs.state(what, n, len(given), base[nbase:])
        return base

    def hooked(imp):
        asked.append((mask(bu, imp.premise), mask(bu, imp.premise | imp.conclusion)))
        p, q = asked[-1]
        base = judge('at a question')
        obs.check(mask_close(p, base) & q != q, 'a question that the confirmed implications answer', imp=(p, q))
        got = is_valid(imp)
        obs.eq(bool(got), valid(univ, p, q), 'the answer taken from the prompt')
        return got

    ex.is_valid = hooked
    pick = []

    def answer(prompt):
        p, q = asked[-1]
        if 'valid' in prompt:
            return str(valid(univ, p, q))
        if 'partial' in prompt:
            return str(rng.random() < part)
        if not pick:
            u = rng.choice([u for u in univ if not p & ~u and q & ~u])
            f, g = rng.choice(univ[u])
            pick.extend([f, g])
            given.extend([(f, g), (g, f)])
        return repr(pick.pop(0))

    with Prompted(obs, answer):
        obs.call('explore', ex.explore, x)
    base = judge('at the end')
    for p, q in base:
        obs.check(valid(univ, p, q), 'a confirmed implication is refuted by a pair of maps', imp=(p, q))
    for _ in range(400):
        s = rng.getrandbits(21) & rng.getrandbits(21) & rng.getrandbits(21)
        want = (1 << 21) - 1
        for u in univ:
            if not s & ~u:
                want &= u
        obs.eq(mask_close(s, base), want, 'at the end: the confirmed implications do not close a set as all pairs do', set=s)
    obs.tag('dialogue on pairs of maps')


def case(rng, obs, i):
    if i % 450 in (17, 18):
        return (one if i % 450 == 17 else importable)(rng, obs)
    if i % 3 < 2:
        return numbers(rng, obs)
    if i % 900 in (2, 5, 8):
        return biunars(rng, obs)
    helpers(rng, obs)
