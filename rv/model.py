"""Reference model: a formal context on integer bit masks, written from the definitions only."""
from itertools import combinations
from fractions import Fraction


def bits(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1


class Ref:
    """objs, atts: name lists; rows[i]: mask of attributes of object i."""

    def __init__(self, objs, atts, rows):
        self.objs, self.atts, self.rows = list(objs), list(atts), list(rows)
        self.oi = {o: i for i, o in enumerate(self.objs)}
        self.ai = {a: i for i, a in enumerate(self.atts)}
        self.n, self.m = len(self.objs), len(self.atts)
        self.M = (1 << self.m) - 1
        self.G = (1 << self.n) - 1

    @classmethod
    def of_table(cls, objs, atts, table):
        return cls(objs, atts, [sum(1 << j for j, x in enumerate(r) if x) for r in table])

    def table(self):
        return [[bool(r >> j & 1) for j in range(self.m)] for r in self.rows]

    def cols(self):
        return [sum(1 << i for i in range(self.n) if self.rows[i] >> j & 1) for j in range(self.m)]

    def transpose(self):
        return Ref(self.atts, self.objs, self.cols())

    def copy(self):
        return Ref(self.objs, self.atts, self.rows)

    # names <-> masks
    def am(self, names):
        r = 0
        for a in names:
            r |= 1 << self.ai[a]
        return r

    def om(self, names):
        r = 0
        for o in names:
            r |= 1 << self.oi[o]
        return r

    def an(self, mask):
        return {self.atts[j] for j in bits(mask)}

    def on(self, mask):
        return {self.objs[i] for i in bits(mask)}

    # derivation
    def up(self, om):
        r = self.M
        for i in bits(om):
            r &= self.rows[i]
        return r

    def down(self, am):
        r = 0
        for i, row in enumerate(self.rows):
            if row & am == am:
                r |= 1 << i
        return r

    def ac(self, am):
        r = self.M
        for row in self.rows:
            if row & am == am:
                r &= row
        return r

    def oc(self, om):
        return self.down(self.up(om))

    def intents(self):
        s = {self.M}
        for row in set(self.rows):
            s |= {row & x for x in s}
        return s

    def concepts(self):
        """set of (extent frozenset, intent frozenset) in names"""
        return {(frozenset(self.on(self.down(i))), frozenset(self.an(i))) for i in self.intents()}

    def pairs(self):
        return [(self.objs[i], self.atts[j]) for i in range(self.n) for j in range(self.m)
                if self.rows[i] >> j & 1]

    # canonical basis ----------------------------------------------------
    def pseudo_by_definition(self):
        """{premise mask: closure mask}, straight from the recursive definition (2^m subsets)."""
        out = []
        for k in range(self.m + 1):
            for c in combinations(range(self.m), k):
                p = sum(1 << j for j in c)
                cl = self.ac(p)
                if cl == p:
                    continue
                if all(not (q & p == q and q != p) or qc & p == qc for q, qc in out):
                    out.append((p, cl))
        return dict(out)

    def pseudo_by_next_closure(self, limit=None):
        """The same by an own next-closure over the implicational closure, for wider contexts."""
        L = []

        def close(s):
            ch = True
            while ch:
                ch = False
                for p, c in L:
                    if p & s == p and c & s != c:
                        s |= c
                        ch = True
            return s
        a = 0
        out = {}
        while True:
            c = self.ac(a)
            if c != a:
                L.append((a, c))
                out[a] = c
                if limit is not None and len(out) > limit:
                    return None
            if a == self.M:
                return out
            for i in range(self.m - 1, -1, -1):
                b = 1 << i
                if a & b:
                    a &= ~b
                else:
                    low = b - 1
                    x = close((a & low) | b)
                    if x & low == a & low:
                        a = x
                        break
            else:
                return out

    def pseudo(self):
        return self.pseudo_by_definition() if self.m <= 7 else self.pseudo_by_next_closure()

    def holds(self, pm, cm):
        return self.ac(pm) & cm == cm

    # covering relation over an arbitrary family of masks
    @staticmethod
    def upper_covers(family):
        """{x: set of maximal members strictly below x as sets} = lattice parents (smaller intents)."""
        out = {}
        for x in family:
            below = [y for y in family if y != x and y & x == y]
            out[x] = {y for y in below if not any(z != y and y & z == y for z in below)}
        return out


def imp_close(s, imps):
    """least superset of s (any python set) closed under [(premise, conclusion)]"""
    s = set(s)
    ch = True
    while ch:
        ch = False
        for p, c in imps:
            if p <= s and not c <= s:
                s |= c
                ch = True
    return s


def mask_close(s, imps):
    ch = True
    while ch:
        ch = False
        for p, c in imps:
            if p & s == p and c & s != c:
                s |= c
                ch = True
    return s


def istability(ref, intent):
    """share of subsets of the extent with common attributes == intent, by full enumeration"""
    ext = list(bits(ref.down(intent)))
    # number of subsets per derived intent, built object by object
    cnt = {ref.M: 1}
    for i in ext:
        new = dict(cnt)
        for k, v in cnt.items():
            kk = k & ref.rows[i]
            new[kk] = new.get(kk, 0) + v
        cnt = new
    return Fraction(cnt.get(intent, 0), 1 << len(ext))


def probability(ref, intent):
    """P(intent is closed) for n random rows with independent attribute frequencies"""
    n = ref.n
    cols = ref.cols()
    p = [Fraction(bin(c).count('1'), n) for c in cols]
    pb = Fraction(1)
    for j in bits(intent):
        pb *= p[j]
    rest = [p[j] for j in range(ref.m) if not intent >> j & 1]
    tot = Fraction(0)
    binom = 1
    for k in range(n + 1):
        t = binom * pb ** k * (1 - pb) ** (n - k)
        for q in rest:
            t *= 1 - q ** k
        tot += t
        binom = binom * (n - k) // (k + 1)
    return tot


def relative_pseudo(ref, bg):
    """{premise: closure} of the canonical basis relative to bg = [(pm, cm)] valid in ref"""
    L = list(bg)
    a = mask_close(0, L)
    out = {}
    while True:
        c = ref.ac(a)
        if c != a:
            L.append((a, c))
            out[a] = c
        if a == ref.M:
            return out
        for i in range(ref.m - 1, -1, -1):
            b = 1 << i
            if a & b:
                a &= ~b
            else:
                low = b - 1
                x = mask_close((a & low) | b, L)
                if x & low == a & low:
                    a = x
                    break
        else:
            return out
