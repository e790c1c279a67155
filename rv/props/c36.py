import itertools
import fca
import gen
from fca.algorithms import closure_operators as co
from fca.algorithms import dg_basis
from lib import check_relative, imasks, isnap, random_imp, relative_pseudo
from model import Ref, imp_close, mask_close

CASES = {'quick': 5000, 'thorough': 130000}
RULE = ('closure operators on 0-7 attributes that come from no table: implied by random implications, intersections of '
        'random families, convex hulls on a line, up-sets of an order, spans over GF(2), transitive closures, identity, '
        'constant; names in any order and of mixed, incomparable kinds; answers as list, set, frozenset, tuple, iterator '
        'or one shared remembered set; with and without confirmed implications and premise conditions; both algorithms '
        'and three implication closures; lazy runs abandoned, interleaved, and operators that fail midway or compute bases themselves. Non-trivial: '
        'a distinct (closure system, confirmed) with a closed set that is not everything.')
STEPS = 10_000_000


class Boom(Exception):
    pass


def operator(rng):
    """(attributes, python closure function set -> set, kind)"""
    kind = rng.choice(['implications', 'implications', 'family', 'family', 'convex', 'upset', 'span', 'transitive',
                       'identity', 'constant', 'size'])
    if kind == 'transitive':
        pts = range(rng.choice([2, 3]))
        atts = rng.sample([(a, b) for a in pts for b in pts], min(rng.randint(2, 6), len(pts) ** 2))
        dom = set(atts)

        def cl(s):
            s = set(s)
            while True:
                t = {(a, d) for a, b in s for c, d in s if b == c} & dom
                if t <= s:
                    return s
                s |= t
        return atts, cl, kind
    if kind == 'span':
        atts = rng.sample(range(1, 16), rng.randint(1, 7))

        def cl(s):
            span = {0}
            for x in s:
                span |= {x ^ y for y in span}
            return {x for x in atts if x in span}
        return atts, cl, kind
    if kind == 'convex':
        atts = rng.sample([x / 2 for x in range(-8, 9)], rng.randint(0, 7))
        return atts, lambda s: {x for x in atts if s and min(s) <= x <= max(s)}, kind
    pool = ['a', 'b', 'c', '', ' ', 'ä', 1, 2, -3, 2.5, (1, 2), ('a',), None, 'not a', frozenset([1]), b'x']
    atts = rng.sample(pool if rng.random() < .6 else list('abcdefg'), rng.randint(0, 7))
    if kind == 'implications':
        imps = [(set(gen.subset(rng, atts)) if rng.random() < .85 else set(), set(gen.subset(rng, atts)))
                for _ in range(rng.randint(0, 7))]
        return atts, lambda s: imp_close(s, imps), kind
    if kind == 'family':
        fam = [set(gen.subset(rng, atts)) for _ in range(rng.randint(0, 9))]

        def cl(s):
            r = set(atts)
            for f in fam:
                if set(s) <= f:
                    r &= f
            return r
        return atts, cl, kind
    if kind == 'upset':
        rank = {a: rng.randrange(4) for a in atts}
        less = {(a, b) for a in atts for b in atts if rank[a] < rank[b] and rng.random() < .5}
        for z, x, y in itertools.product(atts, atts, atts):
            if (x, z) in less and (z, y) in less:
                less.add((x, y))
        return atts, lambda s: set(s) | {b for a, b in less if a in s}, kind
    if kind == 'identity':
        return atts, set, kind
    if kind == 'constant':
        return atts, lambda s: set(atts), kind
    k = rng.randint(0, len(atts))
    return atts, lambda s: set(s) if len(s) < k else set(atts), kind


def closed_sets(atts, cl):
    """the closure system as a reference context: every closed set is a row"""
    m = len(atts)
    rows = []
    for s in range(1 << m):
        x = {atts[j] for j in range(m) if s >> j & 1}
        if cl(x) == x:
            rows.append(s)
    return Ref(['r%d' % i for i in range(len(rows))], list(atts), rows)


def own_close(s, imps):
    return imp_close(set(s), [(i.premise, i.conclusion) for i in imps])


def case(rng, obs, i):
    atts, cl, kind = operator(rng)
    ref = closed_sets(atts, cl)
    obs.sample = {'operator': kind, 'attributes': repr(atts), 'closed sets': [repr(ref.an(r)) for r in ref.rows[:40]]}
    bg = [random_imp(rng, ref) for _ in range(rng.randint(0, 5))] if rng.random() < .5 else []
    bm = imasks(ref, bg)
    obs.sample['confirmed'] = [repr(b) for b in bg]
    if len(ref.rows) > 1:
        obs.state(tuple(ref.rows), ref.m, tuple(sorted(bm)))
    obs.tag('operator: ' + kind)
    cache = {}
    asked = []
    given = rng.choice([list, set, frozenset, tuple, iter, 'shared'])

    inner = None
    if rng.random() < .15:                        # the operator itself computes other bases
        rule = {1: {2}, 2: {3, 4}}
        leads = lambda s: set().union(s, *(rule.get(x, set()) for x in s))
        trans = lambda s: leads(leads(s))
        inner = rng.choice([
            lambda: dg_basis.generalized_compute_dg_basis([4, 3, 2, 1], trans),
            lambda: list(dg_basis.generalized_dg_basis_iter([4, 3, 2, 1], trans)),
            lambda: next(dg_basis.generalized_dg_basis_iter([4, 3, 2, 1], trans)),
            lambda: fca.Context([[1, 0, 1], [0, 1, 1]], ['x', 'y'], ['p', 'q', 'r']).attribute_implications])
        obs.tag('an operator that computes a basis')

    def aclose(s):
        k = frozenset(s)
        obs.check(k <= set(atts), 'the operator is asked about attributes that are not there', asked=s)
        asked.append(k)
        if given == 'shared':
            if k not in cache:
                cache[k] = cl(k)
            return cache[k]
        if inner and len(asked) % 3 == 0:
            inner()
        r = list(cl(k))
        rng.shuffle(r)
        return given(r)

    close = rng.choice([co.simple_closure, co.lin_closure, own_close, 'remembered', 'sorted'])
    closed = {}                                   # what a remembering procedure has answered

    def remembered(s, imps):
        k = (frozenset(s), tuple((frozenset(i.premise), frozenset(i.conclusion)) for i in imps))
        if k not in closed:
            closed[k] = own_close(s, imps)
        return closed[k]

    if close == 'remembered':
        close = remembered
    elif close == 'sorted':
        close = lambda s, imps: sorted(own_close(s, imps), key=repr)
    names = list(atts)
    if rng.random() < .2:
        names = tuple(atts)
    snap, ids = isnap(bg), list(map(id, bg))

    def kept(what):
        obs.check(isnap(bg) == snap and list(map(id, bg)) == ids, what + ': the confirmed implications were modified')
        obs.check(list(names) == list(atts), what + ': the attributes were modified')
        for k, v in cache.items():
            obs.check(v == cl(k), what + ': a set the operator keeps was modified', of=set(k), kept=v)
        for k, v in closed.items():
            obs.check(v == imp_close(set(k[0]), k[1]), what + ': a set the closing procedure keeps was modified', of=k, kept=v)

    kw = {'close': close}
    if bg or rng.random() < .5:
        kw['imp_basis'] = bg
    if close is co.simple_closure and rng.random() < .5:
        del kw['close']
    want = relative_pseudo(ref, bm)
    full = lambda **k: dg_basis.generalized_compute_dg_basis(names, aclose, **dict(kw, **k))
    lazy = lambda **k: dg_basis.generalized_dg_basis_iter(names, aclose, **dict(kw, **k))

    def judge(imps, what):
        check_relative(obs, imps, ref, bm, what)
        seen = []
        for p, _ in imasks(ref, imps):
            obs.check(not any(p & q == p for q in seen), what + ': a premise is listed after one that contains it',
                      premise=ref.an(p), basis=imps)
            seen.append(p)
        kept(what)

    a = obs.call('generalized_compute_dg_basis', full)
    obs.check(type(a) is list, 'generalized_compute_dg_basis does not return a list')
    judge(a, 'generalized_compute_dg_basis')
    b = obs.call('generalized_dg_basis_iter', lambda: list(lazy()))
    judge(b, 'generalized_dg_basis_iter')
    obs.eq(isnap(a), isnap(b), 'the two algorithms give different lists')
    # each implication is a fresh pair of sets of its own
    for x in a:
        x.premise.add('spoilt')
        x.conclusion.add('spoilt')
    kept('spoiling the answer')
    judge(obs.call('generalized_compute_dg_basis', full), 'generalized_compute_dg_basis, again')

    r = rng.random()
    if r < .25 and b:
        # some of it now, the rest later, with other work in between
        k = rng.randint(1, len(b))
        g, h = lazy(), lazy()
        first = list(itertools.islice(g, k))
        obs.eq(isnap(first), isnap(b[:k]), 'a lazy run begins otherwise')
        if rng.random() < .5:
            obs.eq(isnap(list(h)), isnap(b), 'a second lazy run differs')
            rest = list(g)
        else:
            rest = []
            for x, y in itertools.zip_longest(g, h):
                rest += [x] if x is not None else []
                if rng.random() < .3:
                    full()
        obs.eq(isnap(first + rest), isnap(b), 'an interrupted lazy run differs')
        kept('lazy runs side by side')
        obs.tag('lazy, interrupted')
        g = lazy()
        next(g)
        g.close()
        judge(obs.call('generalized_dg_basis_iter', lambda: list(lazy())), 'after an abandoned lazy run')
    elif r < .45 and asked:
        # the operator fails: the failure arrives, and the next run is unaffected
        k = rng.randint(1, len(set(asked)))
        err = Boom('operator')
        cnt = [0]

        def broken(s):
            cnt[0] += 1
            if cnt[0] == k:
                raise err
            return aclose(s)
        f = rng.choice([lambda: dg_basis.generalized_compute_dg_basis(names, broken, **kw),
                        lambda: list(dg_basis.generalized_dg_basis_iter(names, broken, **kw))])
        try:
            out = f()
        except Boom as e:
            obs.check(e is err, 'another failure arrives than the one raised')
            obs.tag('operator fails')
        else:
            obs.check(cnt[0] < k, 'a failure of the operator is swallowed', answer=out)
        kept('a failing operator')
        judge(obs.call('generalized_compute_dg_basis', full), 'after a failing operator')
    elif r < .8:
        x = set(gen.subset(rng, atts))
        k = rng.randint(0, ref.m)
        name, cond, down = rng.choice([('at most %d' % k, lambda s: len(s) <= k, True), ('inside', lambda s: s <= x, True),
                                       ('not all of', lambda s: not x <= s, True), ('disjoint', lambda s: not s & x, True),
                                       ('at least', lambda s: len(s) >= k, False), ('even', lambda s: len(s) % 2 == 0, False),
                                       ('meets', lambda s: bool(s & x), False), ('none', lambda s: False, True)])
        f = rng.choice([full, lambda **k: list(lazy(**k))])
        imps = obs.call('with condition', f, cond=cond)
        kept('with condition')
        ms = imasks(ref, imps)
        for imp, (p, q) in zip(imps, ms):
            obs.check(cond(set(imp.premise)), 'with condition: a premise that does not meet it', imp=imp, condition=name)
            obs.eq(q, ref.ac(p), 'with condition: premise and conclusion are not the closure of the premise', imp=imp)
            obs.eq(mask_close(p, bm), p, 'with condition: a premise not closed under the confirmed ones', imp=imp)
        obs.eq(len(set(p for p, _ in ms)), len(ms), 'with condition: two implications with one premise')
        if down:
            # a condition that smaller sets meet too selects exactly from the canonical basis
            obs.eq(sorted(p for p, _ in ms), sorted(p for p in want if cond(ref.an(p))),
                   'with a condition that smaller sets meet too: not the part of the basis that meets it', condition=name,
                   basis=imps)
            obs.tag('downward condition')
        else:
            obs.tag('other condition')
