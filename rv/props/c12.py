import fca
import gen
from fca.context import MultiplicationException
from lib import check_views, contain, modified, pick_ref, same_context, suffix_ok, other_name
from model import Ref

CASES = {'quick': 6000, 'thorough': 150000}
STEPS = 40_000_000
RULE = ('contexts of every shape and name kind (also without rows or columns, wide, tall); transposition, complement, '
        'compound, subcontexts on random name lists in random order, row filters in both modes, products of compatible '
        'and incompatible contexts, unknown names; names, order and incidence compared with the definition, sources '
        'compared before and after. Non-trivial: a distinct (operation, incidence, argument) with at least one cell.')


def case(rng, obs, i):
    ref = pick_ref(rng, i, small=(9, 8), kinds=gen.ALL_KINDS, wide=15, data=80, big=300)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    T = ref.table()
    cell = bool(ref.n and ref.m)
    t = obs.call('Context.transpose', c.transpose)
    check_views(obs, t, ref.transpose(), 'transpose')
    check_views(obs, obs.call('Context.transpose', t.transpose), ref, 'transposed twice')
    modified(rng, obs, t, c, ref, 'transpose', .3)
    if cell:
        obs.state('t', ref.rows, ref.m)
    neg = ['not ' + str(a) for a in ref.atts]
    if len(set(neg)) == len(neg):
        N = [[not x for x in r] for r in T]
        x = obs.call('Context.complementary', c.complementary)
        same_context(obs, x, ref.objs, neg, N, 'complement')
        modified(rng, obs, x, c, ref, 'complementary', .2)
        if not set(neg) & set(ref.atts):
            x = obs.call('Context.compound', c.compound)
            same_context(obs, x, ref.objs, ref.atts + neg, [a + b for a, b in zip(T, N)], 'compound')
            modified(rng, obs, x, c, ref, 'compound', .2)
            obs.tag('compound')
    if i % 30 == 4 and ref.m:                      # names that collide side by side
        j = rng.randrange(ref.m)
        A = ref.atts[:j] + ['not ' + str(rng.choice(ref.atts[:j] + ref.atts[j + 1:] or ref.atts))] + ref.atts[j + 1:]
        if len(set(A)) == len(A) and len({str(a) for a in A}) == len(A):
            d = obs.call('Context.compound', fca.Context([list(r) for r in T], list(ref.objs), list(A)).compound)
            suffix_ok(obs, list(d.attributes), A + ['not ' + str(a) for a in A], 'compound of colliding names')
            obs.eq((list(d.objects), [[bool(x) for x in r] for r in d.table]), (ref.objs, [list(a) + [not x for x in a] for a in T]),
                   'compound of colliding names: objects and cells')
            obs.tag('compound of colliding names')
    for _ in range(3):
        names = gen.subset(rng, ref.atts) if rng.random() < .9 else list(ref.atts)
        inds = [ref.ai[a] for a in names]
        arg = list(names)
        x = obs.call('Context.extract_subcontext', c.extract_subcontext, arg)
        same_context(obs, x, ref.objs, names, [[r[j] for j in inds] for r in T], 'subcontext')
        modified(rng, obs, x, c, ref, 'extract_subcontext', .2)
        obs.eq(arg, names, 'the given attribute list was modified')
        mode = rng.choice(['and', 'or', None])
        keep = [k for k, r in enumerate(T) if (any if mode == 'or' else all)(r[j] for j in inds)]
        arg = contain(rng, list(names))
        a = (arg,) if mode is None else (arg, mode)
        x = obs.call('Context.extract_subcontext_filtered_by_attributes', c.extract_subcontext_filtered_by_attributes, *a)
        same_context(obs, x, [ref.objs[k] for k in keep], ref.atts, [T[k] for k in keep], 'row filter %s' % mode)
        modified(rng, obs, x, c, ref, 'extract_subcontext_filtered_by_attributes', .3)
        if cell:
            obs.state('s', ref.rows, ref.m, inds, mode)
    bad = gen.subset(rng, ref.atts)
    bad.insert(rng.randint(0, len(bad)), other_name(rng, ref.atts))
    obs.refuse('Context.extract_subcontext!', Exception, c.extract_subcontext, list(bad))
    obs.refuse('Context.extract_subcontext_filtered_by_attributes!', Exception,
               c.extract_subcontext_filtered_by_attributes, list(bad), rng.choice(['and', 'or']))
    # products
    k = gen.size(rng, 6)
    right = Ref(list(ref.atts), gen.names(rng, k, rng.choice(gen.ANY_KINDS), 'a'), gen.table(rng, ref.m, k))
    d = gen.build(fca, right, rng)
    p = obs.call('Context.__mul__', lambda: c * d)
    rt = right.table()
    same_context(obs, p, ref.objs, right.atts,
                 [[any(T[g][z] and rt[z][m] for z in range(ref.m)) for m in range(k)] for g in range(ref.n)], 'product')
    if cell and k:
        obs.state('p', ref.rows, ref.m, right.rows, k)
    modified(rng, obs, p, c, ref, 'product', .2)
    modified(rng, obs, p, d, right, 'product', .2)
    check_views(obs, d, right, 'right factor')
    if i % 25 == 1:
        # many middle elements link one pair
        z = rng.choice([7, 8, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 513])
        k1, k2 = rng.randint(1, 3), rng.randint(1, 3)
        mid = ['z%d' % x for x in range(z)]

        def line():
            k = rng.choice([0, 1, z - 1, z, z])
            w = [True] * k + [False] * (z - k)
            if rng.random() < .3:
                rng.shuffle(w)
            return w
        L = [line() for _ in range(k1)]
        R = [list(x) for x in zip(*[line() for _ in range(k2)])]
        lo, ra = ['g%d' % x for x in range(k1)], ['m%d' % x for x in range(k2)]
        left, rgt = fca.Context(L, lo, mid), fca.Context(R, mid, ra)
        p = obs.call('Context.__mul__', lambda: left * rgt)
        same_context(obs, p, lo, ra, [[any(a and R[x][m] for x, a in enumerate(r)) for m in range(k2)] for r in L],
                     'product through many middle elements')
        obs.state('pm', tuple(map(tuple, L)), tuple(map(tuple, R)))
    if i % 20 == 3:
        # random contexts: the size asked for, distinct names, density 0 and 1 exact
        n, m, d = gen.size(rng, 12), gen.size(rng, 12), rng.choice([0, 0, 1, 1, .3, rng.random()])
        r = obs.call('make_random_context', fca.make_random_context, n, m, d)
        obs.eq((len(r.objects), len(set(r.objects)), len(r.attributes), len(set(r.attributes))), (n, n, m, m),
               'random context: number of distinct names')
        rows = [sum(1 << j for j, x in enumerate(row) if x) for row in r]
        obs.eq([len(row) for row in r], [m] * n, 'random context: shape')
        check_views(obs, r, Ref(list(r.objects), list(r.attributes), rows), 'random context')
        if d in (0, 1):
            obs.eq(rows, [(1 << m) - 1 if d else 0] * n, 'random context of density %s' % d)
        obs.state('random', n, m, d)
    wrong = list(ref.atts)
    how = rng.randrange(5)
    perm = sorted(wrong, key=lambda _: rng.random())
    if how > 2 and perm != wrong:
        wrong = perm                                        # the same names, in another order
        obs.tag('product of contexts whose middle names are ordered differently')
    elif how == 0 or not wrong:
        wrong.append(other_name(rng, wrong))
    elif how == 1:
        wrong.pop(rng.randrange(len(wrong)))
    else:
        wrong[rng.randrange(len(wrong))] = other_name(rng, wrong)
    e = gen.build(fca, Ref(wrong, right.atts, gen.table(rng, len(wrong), k)), rng, 'bool')
    obs.refuse('Context.__mul__!', MultiplicationException, lambda: c * e)
    check_views(obs, c, ref, 'source')
