"""Workload generators: contexts of many shapes, names of many kinds, many ways of being built."""
import copy
import string
from model import Ref

UNI = ['ä', 'ß', 'я', '漢', '🙂', 'é', 'Ω', 'ñ', 'ø', 'ı', 'Ā', 'ž']


def _uniq(names):
    seen, out = set(), []
    for x in names:
        y, k = x, 0
        while y in seen:
            k += 1
            y = x + '~%d' % k
        seen.add(y)
        out.append(y)
    return out


def names(rng, n, kind, side):
    """n distinct names"""
    base = 'g' if side == 'o' else 'm'
    if kind == 'plain':
        return [base + str(i) for i in range(n)]
    if kind == 'shuffled':
        x = [base + str(i) for i in range(n)]
        rng.shuffle(x)
        return x
    if kind == 'letters':
        pool = [a for a in string.ascii_letters] + [a + b for a in 'xyz' for b in string.ascii_letters]
        return rng.sample(pool, n) if n <= len(pool) else [base + str(i) for i in range(n)]
    if kind == 'shared':                        # same names may serve on both sides
        return ['x%d' % i for i in range(n)]
    if kind == 'int':
        return list(range(n))
    if kind == 'intshuf':                       # ints that differ from their positions
        x = list(range(n))
        rng.shuffle(x)
        return x
    if kind == 'intfar':
        return rng.sample(range(-3 * n - 5, 3 * n + 5), n)
    if kind == 'reversed':
        return ['%s%03d' % (base, 999 - i) for i in range(n)]
    if kind == 'tuple':
        x = [(i // 3, i % 3) for i in range(n)]
        rng.shuffle(x)
        return x
    if kind == 'long':                          # long names that differ only late, or only early
        same = rng.choice(['attribute number ', 'the thing that is called ', 'x' * 70, 'a ' * 20 + 'b'])
        x = rng.sample(range(10, 99 + n), n)
        return [same + str(k) for k in x] if rng.random() < .7 else [str(k) + same[::-1] for k in x]
    if kind == 'odd':                           # falsy, blank, look-alikes, unicode, punctuation
        pool = ['', ' ', '0', '1', 'None', 'True', 'a_0', 'a_1', 'a', 'b b', 'a.b', 'x,y', '=>', 'not a',
                '"q"', "it's", 'A', 'aa', '#', '%s', '{}', '\\', 'é', 'ß', '漢字', '🙂', 'Z', '_', '-1', '1.0']
        if n <= len(pool):
            return rng.sample(pool, n)
        return _uniq(pool + [base + str(i) for i in range(n - len(pool))])
    if kind == 'suffix':                        # names like those made for duplicates
        pool = ['a', 'a_0', 'a_1', 'a_2', 'b', 'b_1', 'a_0_0', 'a_10', 'b_0']
        if n <= len(pool):
            return rng.sample(pool, n)
        return _uniq(pool + ['c_%d' % i for i in range(n - len(pool))])
    if kind == 'float':
        return [x / 2 for x in rng.sample(range(0, 4 * n + 2), n)]
    if kind == 'texty':                         # safe text names (no separators, no literals)
        pool = ['alpha', 'Beta', 'gamma ray', 'x-ray', 'Größe', 'naïve', 'ключ', '属性', 'smiley🙂',
                'path', 'objects', 'table', 'i', 'id', 'max', 'list', 'o.p', 'q/r', 's+t', 'ü b e r']
        if n <= len(pool):
            return rng.sample(pool, n)
        return _uniq(rng.sample(pool, len(pool)) + ['%s%d' % (base, i) for i in range(n - len(pool))])
    if kind == 'mixed':                         # names of several sorts, not comparable with each other
        pool = ['a', 'b', '1', 1, 2, '2', '0', '2.5', 0, -3, 2.5, None, (), (1, 'x'), ('a',), 'None', b'a', frozenset({1}), '()', False, 'ä']
        pool = [x for x in pool if not (x is False)] if rng.random() < .5 else [x for x in pool if x != 0 or x is False]
        r = rng.sample(pool, min(n, len(pool)))
        return r + ['%s%d' % (base, i) for i in range(n - len(r))]
    if kind == 'sets':                          # frozensets: comparable, but in no order
        pool = [frozenset(x for x in range(4) if k >> x & 1) for k in range(16)]
        rng.shuffle(pool)
        return pool[:n] + [frozenset({base, i}) for i in range(n - 16)]
    raise ValueError(kind)


TEXT_KINDS = ['plain', 'shuffled', 'letters', 'shared', 'reversed', 'texty', 'long']
STR_KINDS = TEXT_KINDS + ['odd', 'suffix']
ORDERED_KINDS = STR_KINDS + ['int', 'intshuf', 'intfar', 'tuple', 'float']
ANY_KINDS = ORDERED_KINDS + ['mixed', 'sets']  # these need not have an order
ALL_KINDS = ANY_KINDS + ['mixed']


def table(rng, n, m, shape=None):
    """list of row masks"""
    M = (1 << m) - 1
    shape = shape or rng.choice(SHAPES)
    if shape == 'random' or n == 0 or m == 0:
        d = rng.choice([0.05, 0.15, 0.3, 0.45, 0.6, 0.75, 0.9, 0.97])
        return [sum(1 << j for j in range(m) if rng.random() < d) for _ in range(n)]
    if shape == 'coldens':                       # every attribute has its own frequency
        ds = [rng.random() for _ in range(m)]
        return [sum(1 << j for j in range(m) if rng.random() < ds[j]) for _ in range(n)]
    if shape == 'empty':
        return [0] * n
    if shape == 'full':
        return [M] * n
    if shape == 'chain':
        r = [(1 << rng.randint(0, m)) - 1 for _ in range(n)]
        return _permute_cols(rng, r, m)
    if shape == 'nominal':
        return [1 << (i % m) for i in range(n)]
    if shape == 'contra':                        # contranominal: many concepts
        return [M & ~(1 << (i % m)) for i in range(n)]
    if shape == 'dups':
        k = rng.randint(1, max(1, n // 2))
        base = table(rng, k, m, 'random')
        return [rng.choice(base) for _ in range(n)]
    if shape == 'dupcols':
        k = rng.randint(1, max(1, m // 2))
        base = table(rng, n, k, 'random')
        pick = [rng.randrange(k) for _ in range(m)]
        return [sum(1 << j for j in range(m) if r >> pick[j] & 1) for r in base]
    if shape == 'meets':                         # many rows are intersections of others
        base = table(rng, max(1, n // 2), m, 'random')
        r = list(base)
        while len(r) < n:
            x = M
            for b in rng.sample(base, rng.randint(1, len(base))):
                x &= b
            r.append(x)
        rng.shuffle(r)
        return r
    if shape == 'special':                       # random plus full/empty rows and columns
        r = table(rng, n, m, 'random')
        for _ in range(rng.randint(1, 3)):
            i = rng.randrange(n)
            r[i] = rng.choice([0, M, M & ~(1 << rng.randrange(m)), 1 << rng.randrange(m)])
        j = rng.randrange(m)
        c = rng.random()
        if c < .3:
            r = [x | 1 << j for x in r]
        elif c < .6:
            r = [x & ~(1 << j) for x in r]
        return r
    if shape == 'blocks':
        k = rng.randint(1, 3)
        return [sum(1 << j for j in range(m) if (j * k // m) == (i * k // n) and rng.random() < .85)
                for i in range(n)]
    if shape == 'implied':                       # rows closed under a few random implications
        imps = [(1 << rng.randrange(m) | 1 << rng.randrange(m), 1 << rng.randrange(m))
                for _ in range(rng.randint(1, m + 1))]
        out = []
        for r in table(rng, n, m, 'random'):
            ch = True
            while ch:
                ch = False
                for p, c in imps:
                    if p & r == p and not c & r:
                        r |= c
                        ch = True
            out.append(r)
        return out
    raise ValueError(shape)


def _permute_cols(rng, rows, m):
    p = list(range(m))
    rng.shuffle(p)
    return [sum(1 << p[j] for j in range(m) if r >> j & 1) for r in rows]


SHAPES = ['random', 'random', 'random', 'coldens', 'empty', 'full', 'chain', 'nominal', 'contra',
          'dups', 'dupcols', 'meets', 'special', 'special', 'blocks', 'implied', 'implied']


def size(rng, hi, small=False):
    """sizes from 0, small ones often"""
    c = rng.random()
    if c < .05:
        return 0
    if c < .12:
        return 1
    if c < .45:
        return rng.randint(1, min(4, hi))
    return rng.randint(1, hi)


def spec(rng, max_obj=8, max_att=7, kinds=ANY_KINDS, shape=None, min_obj=0, min_att=0, akinds=None, mix=''):
    n = max(min_obj, size(rng, max_obj))
    m = max(min_att, size(rng, max_att))
    if rng.random() < .5:
        k = rng.choice(kinds)
        ko = ka = k if akinds is None or k in akinds else rng.choice(akinds)
    else:
        ko, ka = rng.choice(kinds), rng.choice(akinds or kinds)
    if shape == 'contra':
        n = min(n, 8)
    if 'o' in mix and rng.random() < .1:            # sides whose names may be of sorts that cannot be compared
        ko = 'mixed'
    if 'a' in mix and rng.random() < .1:
        ka = 'mixed'
    rows = table(rng, n, m, shape)
    return Ref(names(rng, n, ko, 'o'), names(rng, m, ka, 'a'), rows)


def limit_spec(rng, kinds=TEXT_KINDS, n=None, m=None, transposed=False):
    """rows whose numbers of crosses sit at the limits of small counters"""
    m = m or rng.choice([255, 256, 257, 280, 512])
    n = n if n is not None else rng.randint(1, 4)
    rows = [sum(1 << j for j in rng.sample(range(m), min(m, rng.choice([0, 1, 127, 128, 254, 255, 256, 256, 257, m]))))
            for _ in range(n)]
    r = Ref(names(rng, n, rng.choice(kinds), 'o'), names(rng, m, rng.choice(kinds), 'a'), rows)
    return r.transpose() if transposed else r


def wide_spec(rng, kinds=TEXT_KINDS, n=None, m=None, transposed=False):
    """few concepts, many columns (beyond machine-word width) or, transposed, many rows"""
    if m is None:
        m = rng.choice([31, 32, 33, 62, 63, 64, 65, 66, 70, 96, 127, 128, 129, 140])
        if rng.random() < .15:                   # beyond 8-bit counters
            m = rng.choice([255, 256, 257, 280])
            n = n if n is not None else rng.randint(1, 4)
            if rng.random() < .5:
                return limit_spec(rng, kinds, n, m, transposed)
    n = n if n is not None else rng.randint(1, 7)
    shape = rng.choice(['random', 'dups', 'meets', 'special', 'coldens', 'chain', 'full', 'high', 'moved', 'moved'])
    if shape == 'high':                          # rows that differ only beyond bit 60
        low = rng.getrandbits(m) & ((1 << 60) - 1)
        rows = [low | (rng.getrandbits(max(1, m - 60)) << 60) & ((1 << m) - 1) for _ in range(n)]
    elif shape == 'moved':                       # rows that differ in one cross a machine word away, or in one cell
        rows = [rng.getrandbits(m) & (rng.getrandbits(m) if rng.random() < .5 else rng.choice([-1, 1 << rng.randrange(m)]))
                for _ in range(max(1, n // 2))][:n]
        while len(rows) < n:
            r, b = rng.choice(rows), rng.randrange(m)
            d = rng.choice([0, 1, 8, 16, 31, 32, 53, 60, 61, 62, 63, 64, 65]) * rng.choice([-1, 1])
            if not r >> b & 1 or not 0 <= b + d < m or r >> b + d & 1:
                b, d = next(((x, d) for x in range(m) if r >> x & 1 and 0 <= x + d < m and not r >> x + d & 1), (b, 0))
            rows.append(r ^ 1 << b ^ 1 << b + d if d else r ^ 1 << b)
        rng.shuffle(rows)
    else:
        rows = table(rng, n, m, shape)
    r = Ref(names(rng, n, rng.choice(kinds), 'o'), names(rng, m, rng.choice(kinds), 'a'), rows)
    if transposed:
        r = r.transpose()
    return r


def big_spec(rng, kinds=TEXT_KINDS, transposed=None, n=None):
    """more than a thousand objects (or, transposed, attributes): beyond recursion depth and 8- and 10-bit counters"""
    n = n or rng.choice([1000, 1001, 1023, 1024, 1025, 1100, 1300])
    m = rng.randint(0, 5)
    base = [rng.getrandbits(m) if m else 0 for _ in range(rng.randint(1, 6))]
    rows = [rng.choice(base) for _ in range(n)]
    if rng.random() < .3:                        # runs of equal rows
        rows.sort()
    if m and rng.random() < .4:                  # one row nearly everywhere, a few others far in
        common = rng.choice([base[0], (1 << m) - 1])
        rows = [common] * n
        for _ in range(rng.randint(1, 3)):
            rows[rng.choice([-1, -2, rng.randrange(n), rng.randrange(n // 2, n)])] ^= 1 << rng.randrange(m)
    r = Ref(names(rng, n, rng.choice(kinds), 'o'), names(rng, m, rng.choice(kinds), 'a'), rows)
    return r.transpose() if (rng.random() < .4 if transposed is None else transposed) else r


HOWS = ['bool', 'bool', 'int', 'tuple', 'tuplenames', 'npbool', 'npint', 'byobj', 'byatt', 'deepcopy', 'transposed',
        'detour', 'queried', 'setrows', 'setcols', 'shared']
BIG_HOWS = ['bool', 'int', 'tuple', 'tuplenames', 'npbool', 'npint', 'deepcopy', 'transposed', 'shared']


def build(fca, ref, rng, how=None, wild=True):
    """A real context with the names and table of *ref*, built in one of many ways.

    The odd ways go through public edits, copies and queries, so that leftover hidden state of those
    can show in any later observation."""
    import numpy as np
    how = how or rng.choice(HOWS if max(ref.n, ref.m) < 500 else BIG_HOWS)
    C = fca.Context
    t, o, a = ref.table(), list(ref.objs), list(ref.atts)
    if how == 'bool':
        return C(t, o, a)
    if how == 'int':
        return C([[int(x) for x in r] for r in t], o, a)
    if how == 'tuple':
        return C([tuple(r) for r in t], o, a)
    if how == 'tuplenames':
        return C(t, tuple(o), tuple(a))
    if how == 'npbool' or how == 'npint':
        return C(np.array(t, dtype=bool if how == 'npbool' else int).reshape(len(o), len(a)), o, a)
    if how == 'byobj':
        c = C([], [], a)
        for x, row in zip(o, ref.rows):
            if rng.random() < .5:
                c.add_object_with_intent(ref.an(row), x)
            else:
                c.add_object([bool(row >> j & 1) for j in range(ref.m)], x)
        return c
    if how == 'byatt':
        c = C([[] for _ in o], o, [])
        for x, col in zip(a, ref.cols()):
            if rng.random() < .5:
                c.add_attribute_with_extent(ref.on(col), x)
            else:
                c.add_attribute([bool(col >> i & 1) for i in range(ref.n)], x)
        return c
    if how == 'deepcopy':
        return copy.deepcopy(C(t, o, a))
    if how == 'transposed':
        return C(t, o, a).transpose().transpose()
    if how == 'detour':
        c = C(t, o, a)
        for _ in range(rng.randint(1, 4)):
            k = rng.randrange(5)
            if k == 0:
                c.add_object([rng.random() < .5 for _ in a], ('tmp', 0) if not isinstance(o[0] if o else '', str) else '__tmp')
                c.delete_object(c.objects[-1])
            elif k == 1:
                c.add_attribute([rng.random() < .5 for _ in o], ('tmp', 0) if not isinstance(a[0] if a else '', str) else '__tmp')
                c.delete_attribute(c.attributes[-1])
            elif k == 2 and o:
                x = rng.choice(o)
                c.set_object_intent([], x)
                c.set_object_intent(ref.an(ref.rows[ref.oi[x]]), x)
            elif k == 3 and a:
                x = rng.choice(a)
                c.set_attribute_extent(set(o), x)
                c.set_attribute_extent(ref.on(ref.cols()[ref.ai[x]]), x)
            elif k == 4 and o:
                x = rng.choice(o)
                c.rename_object(x, '__other')
                c.rename_object('__other', x)
        return c
    if how == 'queried':
        c = C(t, o, a)
        try:
            if ref.m <= 8 and ref.n <= 40:
                c.get_attribute_implications()
                c.get_attribute_canonical_basis()
            next(iter(c.iterate_concepts()))
            list(c.examples())
        except Exception:
            pass                                 # judged where that query is the subject
        return c
    if how == 'setrows':
        c = C([[False] * ref.m for _ in o], o, a)
        for x, row in zip(o, ref.rows):
            c.set_object_intent(ref.an(row), x)
        return c
    if how == 'setcols':
        c = C([[True] * ref.m for _ in o], o, a)
        for x, col in zip(a, ref.cols()):
            c.set_attribute_extent(ref.on(col), x)
        return c
    if how == 'shared':                          # another context made from the same lists, then edited
        c = C(t, o, a)
        d = C(t, o, a)
        if o:
            d.delete_object(o[0])
        if a:
            d.delete_attribute(a[-1])
        return c
    raise ValueError(how)


def make(fca, rng, ref=None, how=None, **kw):
    ref = ref or spec(rng, **kw)
    return build(fca, ref, rng, how), ref


def subset(rng, seq):
    """random subset as a list, biased to empty, singletons, all"""
    seq = list(seq)
    c = rng.random()
    if not seq or c < .1:
        return []
    if c < .25:
        return [rng.choice(seq)]
    if c < .32:
        return seq
    k = rng.randint(0, len(seq))
    return rng.sample(seq, k)


def all_or_some_masks(rng, m, cap):
    if (1 << m) <= cap:
        return list(range(1 << m))
    s = {0, (1 << m) - 1}
    for j in range(min(m, cap // 4)):
        s.add(1 << j)
    while len(s) < cap:
        d = rng.choice([.1, .25, .5, .8])
        s.add(sum(1 << j for j in range(m) if rng.random() < d))
    return list(s)


def show(ref):
    return {'objects': [repr(x) for x in ref.objs[:12]], 'attributes': [repr(x) for x in ref.atts[:12]],
            'rows': [''.join('X' if r >> j & 1 else '.' for j in range(min(ref.m, 40))) for r in ref.rows[:12]],
            'size': [ref.n, ref.m]}
