import numpy as np
import fca
import gen
from fca.algorithms import closure_operators as co
from lib import CONTAINERS, check_views, contain, pick_ref, sortable

CASES = {'quick': 2500, 'thorough': 60000}
STEPS = 40_000_000
RULE = ('contexts of every shape and kind of names (small, wide beyond 64 columns, tall, shipped data), built in 14 '
        'ways; up to 60 attribute sets and 60 object sets each (all of them for small sides) through name-based, '
        'index-based and stand-alone operators in every accepted container. Non-trivial: a distinct '
        '(table, set) with a non-empty set.')
INDS = [list, set, tuple, lambda x: np.array(x, dtype=int), frozenset, dict.fromkeys, lambda x: dict.fromkeys(x).keys()]
SETS = (set, frozenset, dict, type({}.keys()))


def side(rng, obs, c, ref, names, up, down, ms, prefix):
    """one direction: *prefix* is 'a' or 'o'; up derives this side, down comes back"""
    other = ref.on if prefix == 'a' else ref.an
    this = ref.an if prefix == 'a' else ref.on
    prime, closure = getattr(c, prefix + 'prime'), getattr(c, prefix + 'closure')
    pinds, cinds = getattr(c, prefix + 'prime_inds'), getattr(c, prefix + 'closure_inds')
    sprime, sclosure = getattr(co, prefix + 'prime'), getattr(co, prefix + 'closure')
    cont, icont = rng.choice(CONTAINERS), rng.choice(INDS)
    bits = [j for j in range(len(names))]
    for m in ms:
        inds = [j for j in bits if m >> j & 1]
        if rng.random() < .5:
            rng.shuffle(inds)
        ns = [names[j] for j in inds]
        d, cl = up(m), down(up(m))
        want_d, want_cl = other(d), this(cl)
        if ns and rng.random() < .2:             # the same name given more than once
            extra = [rng.choice(ns) for _ in range(rng.choice([1, 2, max(0, len(names) - len(ns)), len(names)]))]
            ns = ns + extra
            inds = inds + [names.index(x) for x in extra]
            obs.tag('repeated name in the collection')
        arg = cont(list(ns))
        obs.eq(obs.call('Context.%sprime' % prefix, prime, arg), want_d, '%sprime of a set' % prefix, given=ns)
        obs.eq(obs.call('Context.%sclosure' % prefix, closure, arg), want_cl, '%sclosure of a set' % prefix, given=ns)
        obs.eq(list(arg), list(cont(list(ns))), 'the given collection was modified')
        ia = icont(list(inds))
        obs.eq(sorted(int(x) for x in obs.call('Context.%sprime_inds' % prefix, pinds, ia)),
               [j for j in range(d.bit_length()) if d >> j & 1], '%sprime_inds of positions' % prefix, given=inds)
        obs.eq(sorted(int(x) for x in obs.call('Context.%sclosure_inds' % prefix, cinds, ia)),
               [j for j in range(cl.bit_length()) if cl >> j & 1], '%sclosure_inds of positions' % prefix, given=inds)
        obs.eq([int(x) for x in ia] if not isinstance(ia, SETS) else set(ia),
               inds if not isinstance(ia, SETS) else set(inds), 'the given positions were modified')
        s = set(ns)
        obs.eq(obs.call('%sprime' % prefix, sprime, s, c), want_d, 'stand-alone %sprime' % prefix, given=ns)
        r = obs.call('%sclosure' % prefix, sclosure, s, c)
        obs.eq(set(r), want_cl, 'stand-alone %sclosure' % prefix, given=ns)
        obs.eq(len(r), len(want_cl), 'stand-alone %sclosure: number of names' % prefix, given=ns)
        if sortable(names):
            obs.eq(list(r), sorted(want_cl), 'stand-alone %sclosure is not the sorted list of the closure' % prefix, given=ns)
        obs.eq(s, set(ns), 'the given set was modified')
        if m:
            obs.state(prefix, ref.rows, ref.m, m)


def huge(rng, obs):
    """more objects (or attributes) than 16 bits count"""
    n, m = rng.choice([65536, 65537, 66000]), rng.randint(1, 3)
    base = [(1 << m) - 1, rng.getrandbits(m), rng.getrandbits(m)]
    rows = [base[0] if rng.random() < .999 else rng.choice(base) for k in range(n)]
    rows[rng.choice([0, 1, -1, -2])] ^= 1
    flip = rng.random() < .4
    objs, atts = list(range(n)), ['m%d' % j for j in range(m)]
    c = obs.call('Context', fca.Context, [[bool(r >> j & 1) for j in range(m)] for r in rows], objs, atts)
    if flip:
        c = obs.call('Context.transpose', c.transpose)
    down, up, close = (c.oprime, c.aprime, c.oclosure) if flip else (c.aprime, c.oprime, c.aclosure)
    obs.sample = {'rows': n, 'attributes': m, 'transposed': flip, 'patterns': base}
    for mask in range(1 << m):
        s = {atts[j] for j in range(m) if mask >> j & 1}
        ext = {k for k in objs if rows[k] & mask == mask}
        cl = (1 << m) - 1
        for k in ext:
            cl &= rows[k]
        obs.eq(obs.call('prime', down, set(s)), ext, 'derivation among very many', given=s)
        obs.eq(obs.call('prime back', up, ext), {atts[j] for j in range(m) if cl >> j & 1}, 'derivation of very many', given=s)
        obs.eq(obs.call('closure', close, set(s)), {atts[j] for j in range(m) if cl >> j & 1}, 'closure through very many', given=s)
        obs.state('huge', flip, m, mask, len(ext))
    obs.tag('more than 65535')


def case(rng, obs, i):
    if i == 777:
        return huge(rng, obs)
    ref = pick_ref(rng, i, kinds=gen.ALL_KINDS, wide=12, data=80, big=250)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    cap = 60 if ref.n * ref.m <= 200 else 10
    side(rng, obs, c, ref, ref.atts, ref.down, ref.up, gen.all_or_some_masks(rng, ref.m, cap), 'a')
    side(rng, obs, c, ref, ref.objs, ref.up, ref.down, gen.all_or_some_masks(rng, ref.n, cap), 'o')
    check_views(obs, c, ref, 'after the queries')
