import fca
import gen
from lib import contain, pick_ref, check_views
from model import bits

CASES = {'quick': 2500, 'thorough': 60000}
STEPS = 20_000_000
RULE = ('contexts of every shape (also without rows or columns, wide, tall), all or up to 50 attribute sets each, '
        'counting closure and counting derivation (also by positions, of attributes and of objects) against counts taken from the reference table. '
        'Non-trivial: a distinct (table, attribute set) with at least one row.')


def by_position(obs, d, n, want, what, inds):
    obs.check(all(0 <= k < n for k in d), 'counts for positions that there are not: ' + what, got=d)
    obs.eq([int(d.get(k, 0)) for k in range(n)], want, what, given=inds)


def huge(rng, obs):
    """more objects (or attributes) than 16 bits count"""
    n, m = rng.choice([65536, 65537, 66000]), rng.randint(1, 3)
    base = [(1 << m) - 1, rng.getrandbits(m), rng.getrandbits(m)]
    most = rng.random() < .5
    rows = [base[0] if most and k != 5 else rng.choice(base) for k in range(n)]
    flip = rng.random() < .4
    t = [[bool(r >> j & 1) for j in range(m)] for r in rows]
    objs, atts = list(range(n)), ['m%d' % j for j in range(m)]
    c = obs.call('Context', fca.Context, t, objs, atts)
    if flip:
        c = obs.call('Context.transpose', c.transpose)
    obs.sample = {'rows': n, 'attributes': m, 'transposed': flip, 'patterns': base}
    for mask in range(1 << m):
        js = [j for j in range(m) if mask >> j & 1]
        sup = [k for k in objs if rows[k] & mask == mask]
        want = [sum(1 for k in sup if rows[k] >> j & 1) for j in range(m)]
        if not flip:
            d, size = obs.call('Context.associative_aclosure', c.associative_aclosure, [atts[j] for j in js])
            obs.eq(int(size), len(sup), 'support of an attribute set, many objects', given=js)
            obs.eq([int(d.get(a, 0)) for a in atts], want, 'support counts of the attributes, many objects', given=js)
        else:
            d = obs.call('Context.associative_aprime', c.associative_aprime, sup)
            obs.eq([int(d.get(a, 0)) for a in atts], want, 'numbers of given attributes per object, many attributes', given=js)
        obs.state('huge', flip, m, js, len(sup))
    obs.tag('more than 65535')


def case(rng, obs, i):
    if i == 777:
        return huge(rng, obs)
    ref = pick_ref(rng, i, kinds=gen.ALL_KINDS, wide=12, data=80, big=250)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    cap = 50 if ref.n * ref.m <= 200 else 10
    for m in gen.all_or_some_masks(rng, ref.m, cap):
        ns = list(ref.an(m))
        ext = ref.down(m)
        sup = bin(ext).count('1')
        d, size = obs.call('Context.associative_aclosure', c.associative_aclosure, contain(rng, ns))
        obs.eq(int(size), sup, 'support of an attribute set', given=ns)
        want = {a: sum(1 for o in bits(ext) if ref.rows[o] >> j & 1) for j, a in enumerate(ref.atts)}
        obs.check(set(d) <= set(ref.atts), 'counts for something that is no attribute', got=d)
        obs.eq({a: int(d.get(a, 0)) for a in ref.atts}, want, 'support counts of the attributes', given=ns)
        if sup:
            obs.eq({a for a in d if d[a] == size}, ref.an(ref.ac(m)),
                   'attributes counted in full are not the closure', given=ns)
        d = obs.call('Context.associative_aprime', c.associative_aprime, contain(rng, ns))
        obs.check(set(d) <= set(ref.objs), 'counts for something that is no object', got=d)
        obs.eq({o: int(d.get(o, 0)) for o in ref.objs},
               {o: bin(ref.rows[k] & m).count('1') for k, o in enumerate(ref.objs)},
               'numbers of given attributes per object', given=ns)
        # the same by positions
        inds = list(bits(m))
        rng.shuffle(inds)
        kind = rng.choice([list, set, tuple, frozenset, dict.fromkeys])
        arg = kind(inds)
        by_position(obs, obs.call('Context.associative_aprime_inds', c.associative_aprime_inds, arg), ref.n,
                    [bin(r & m).count('1') for r in ref.rows], 'given attributes per object, by positions', inds)
        obs.eq(arg, kind(inds), 'the given positions were modified')
        if ref.n:
            obs.state(ref.rows, ref.m, m)
    cols = ref.cols()
    for m in gen.all_or_some_masks(rng, ref.n, cap // 2):
        inds = list(bits(m))
        rng.shuffle(inds)
        kind = rng.choice([list, set, tuple, frozenset, dict.fromkeys])
        arg = kind(inds)
        by_position(obs, obs.call('Context.associative_oprime_inds', c.associative_oprime_inds, arg), ref.m,
                    [bin(col & m).count('1') for col in cols], 'given objects per attribute, by positions', inds)
        obs.eq(arg, kind(inds), 'the given positions were modified')
    check_views(obs, c, ref, 'after the queries')
