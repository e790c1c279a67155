import copy
import fca
import gen
from fca import Implication
from fca.algorithms import implication_covers as ic
from fca.algorithms import closure_operators as co
from lib import imasks, check_views, random_imp
from model import Ref, mask_close

CASES = {'quick': 4000, 'thorough': 100000}
RULE = ('contexts of every shape (0-10 objects, 0-7 attributes) in random insertion orders; the cover built directly '
        'and object by object (judged after every object against the context so far), '
        'no implication in it may be subsumed by another; now and then 12-16 attributes with 10-18 objects, where the equivalence '
        'is judged on some 330 attribute sets; each of them minimised now and then; every attribute set is closed '
        'under the cover and compared. Non-trivial: a distinct (incidence, order) with at least one object.')
STEPS = 5_000_000


def judge(obs, cover, ref, what):
    cm = imasks(ref, cover)
    for s in range(1 << ref.m):
        obs.eq(mask_close(s, cm), ref.ac(s), what + ': not equivalent to the context', attribute_set=ref.an(s),
               cover=cover, context=gen.show(ref))


def lean(obs, cover, what):
    for k, x in enumerate(cover):
        for y in cover[:k] + cover[k + 1:]:
            obs.check(not (y.premise <= x.premise and x.conclusion <= y.conclusion),
                      what + ': an implication is subsumed by another', imp=x, by=y, cover=cover)


def minimal(obs, cover, ref, what):
    cm = imasks(ref, cover)
    for k, (p, q) in enumerate(cm):
        obs.check(mask_close(p, cm[:k] + cm[k + 1:]) & q != q, what + ': an implication follows from the others',
                  imp=cover[k], cover=cover)


def wide(rng, obs, few):
    """covers of 40 to some hundreds of implications"""
    m, n = rng.choice([(12, 14), (13, 12), (14, 18), (14, 12), (16, 10)])
    d = rng.choice([.5, .6, .7])
    ref = Ref(gen.names(rng, n, 'plain', 'o'), gen.names(rng, m, rng.choice(gen.ANY_KINDS), 'a'),
              [sum(1 << j for j in range(m) if rng.random() < d) for _ in range(n)])
    if few:                                     # few objects that lack many attributes each
        m = rng.choice([13, 14, 16, 17, 20, 33, 40])
        n = rng.choice([1, 1, 2, 3])
        lack = lambda: sum(1 << j for j in rng.sample(range(m), rng.randint(1, m if n == 1 else min(m, 15))))
        full = (1 << m) - 1
        rows = [full & ~lack() for _ in range(min(n, 2))]
        rows += [rng.choice(rows + [rows[0] & rows[-1], full]) for _ in range(n - len(rows))]
        rng.shuffle(rows)
        ref = Ref(gen.names(rng, n, 'plain', 'o'), gen.names(rng, m, rng.choice(gen.ANY_KINDS), 'a'), rows)
        obs.tag('few objects, 13-40 attributes')
    c = gen.build(fca, ref, rng)
    cover = obs.call('compute_implication_cover', ic.compute_implication_cover, c)
    small = None
    if len(cover) < 120:
        small = copy.deepcopy(cover)
        obs.call('minimize', ic.minimize, small)
    for cov, what in ((cover, 'compute_implication_cover'), (small, 'minimize')):
        if cov is None:
            continue
        cm = imasks(ref, cov)
        for s in [rng.getrandbits(m) & rng.getrandbits(m) for _ in range(300)] + [1 << j for j in range(m)] + [0] + ref.rows \
                + [r & ~(1 << j) for r in ref.rows for j in range(m)] + [r | 1 << j for r in ref.rows for j in range(m)]:
            obs.eq(mask_close(s, cm), ref.ac(s), what + ': not equivalent to the context', attribute_set=ref.an(s),
                   context=gen.show(ref))
    lean(obs, cover, 'compute_implication_cover')
    if small is not None:
        minimal(obs, small, ref, 'minimize')
    obs.tag('wide context, cover of %s' % ('< 40' if len(cover) < 40 else '40+' if len(cover) < 100 else '100+'))
    obs.state('wide', ref.rows)


def case(rng, obs, i):
    if i % 400 == 123 or i % 100 == 61:
        return wide(rng, obs, i % 100 == 61)
    ref = gen.spec(rng, 10, 7, mix='oa')
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    if ref.n:
        obs.state(ref.rows, ref.m)
    cover = obs.call('compute_implication_cover', ic.compute_implication_cover, c)
    judge(obs, cover, ref, 'compute_implication_cover')
    lean(obs, cover, 'compute_implication_cover')
    if rng.random() < .7:
        obs.call('minimize', ic.minimize, cover, *([co.lin_closure] if rng.random() < .3 else []))
        judge(obs, cover, ref, 'minimize')
        minimal(obs, cover, ref, 'minimize')
        obs.tag('minimised cover of %s' % (len(cover) if len(cover) < 5 else '5+'))
    # object by object, from the implication that says everything follows from nothing
    A = set(ref.atts)
    basis = [Implication(set(), set(A))]
    for k in range(ref.n):
        basis = obs.call('updated_basis', ic.updated_basis, ref.an(ref.rows[k]), basis, set(A))
        r = Ref(ref.objs[:k + 1], ref.atts, ref.rows[:k + 1])
        judge(obs, basis, r, 'updated_basis')
        lean(obs, basis, 'updated_basis')
        if rng.random() < .15:
            small = copy.deepcopy(basis)
            obs.call('minimize', ic.minimize, small)
            judge(obs, small, r, 'minimize')
            minimal(obs, small, r, 'minimize')
            obs.tag('minimised between updates')
    cm = imasks(ref, basis)
    for _ in range(4):
        imp = random_imp(rng, ref, valid=rng.random() < .5)
        p, q = ref.am(imp.premise), ref.am(imp.conclusion)
        got = obs.call('is_redundant', ic.is_redundant, imp, basis,
                       *rng.choice([[], [co.lin_closure], [co.simple_closure]]))
        obs.eq(bool(got), mask_close(p, cm) & q == q, 'is_redundant: does the implication follow from the cover', imp=imp,
               cover=basis)
        obs.tag('redundant' if got else 'not redundant')
    # any list of implications, chains of them too
    imps = [random_imp(rng, ref, False) for _ in range(rng.randint(0, 6))]
    if ref.m and rng.random() < .7:
        order = rng.sample(ref.atts, ref.m)
        imps += [Implication({a}, {b}) for a, b in zip(order, order[1:])]
        rng.shuffle(imps)
    cm = imasks(ref, imps)
    for _ in range(4):
        p = ref.am(gen.subset(rng, ref.atts)) & (rng.getrandbits(ref.m) if ref.m else 0)
        q = mask_close(p, cm)
        if rng.random() < .7:
            q &= (rng.getrandbits(ref.m) if ref.m else 0)
        else:
            q ^= 1 << rng.randrange(ref.m) if ref.m else 0
        imp = Implication(ref.an(p), ref.an(q))
        got = obs.call('is_redundant', ic.is_redundant, imp, imps,
                       *rng.choice([[], [], [co.lin_closure], [co.simple_closure]]))
        obs.eq(bool(got), mask_close(p, cm) & q == q, 'is_redundant: does the implication follow from the list',
               imp=imp, cover=imps)
        obs.tag('any list: redundant' if got else 'any list: not redundant')
    check_views(obs, c, ref, 'after computing covers')
