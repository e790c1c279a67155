"""Oracles and drivers shared by several properties (public API of fca only)."""
import contextlib
import copy
import io
import locale
import fca
import gen
from model import Ref, bits, mask_close, relative_pseudo
from core import Violation, short


def anywhere(rng, fn):
    """*fn*, now and then called where the encoding of the system is not Unicode"""
    if rng.random() < .6:
        return fn

    def there(*a, **k):
        try:
            locale.setlocale(locale.LC_CTYPE, 'C')
        except locale.Error:
            return fn(*a, **k)
        try:
            return fn(*a, **k)
        finally:
            locale.setlocale(locale.LC_CTYPE, 'C.UTF-8')
    return there


def unprinted(rng, fn):
    """*fn*, now and then called where no name beyond ASCII, or nothing at all, can be printed"""
    r = rng.random()
    if r < .5:
        return fn

    def there(*a, **k):
        out = io.TextIOWrapper(io.BytesIO(), encoding='ascii')
        if r > .85:
            out.close()
        with contextlib.redirect_stdout(out):
            return fn(*a, **k)
    return there


def typed(xs):
    return [(type(x).__name__, x) for x in xs]


def boolrows(table):
    return [[bool(x) for x in row] for row in table]


def check_views(obs, c, ref, where=''):
    """Every view of context *c* agrees with the model *ref*."""
    w = ' (%s)' % where if where else ''
    E = obs.eq
    E(typed(c.objects), typed(ref.objs), 'object list differs from the replayed history' + w)
    E(typed(c.attributes), typed(ref.atts), 'attribute list differs from the replayed history' + w)
    T = ref.table()
    E(len(c), ref.n, 'length' + w)
    E(boolrows(c.table), T, 'table view differs' + w)
    E(boolrows(c.cross_table), T, 'cross table view differs' + w)
    E(boolrows(iter(c)), T, 'iteration over rows differs' + w)
    E(dict(c.object_indices), ref.oi, 'object index map differs' + w)
    E(dict(c.attribute_indices), ref.ai, 'attribute index map differs' + w)
    rows = [ref.an(r) for r in ref.rows]
    cols = [ref.on(x) for x in ref.cols()]
    E([c.get_object_intent_by_index(i) for i in range(ref.n)], rows, 'row intents by index differ' + w)
    E([c.get_object_intent(o) for o in ref.objs], rows, 'row intents by name differ' + w)
    E(list(c.examples()), rows, 'listed examples differ' + w)
    E(list(c.intents()), rows, 'listed intents differ' + w)
    E([c.get_attribute_extent_by_index(j) for j in range(ref.m)], cols, 'column extents by index differ' + w)
    E([c.get_attribute_extent(a) for a in ref.atts], cols, 'column extents by name differ' + w)
    pairs = list(c.object_attribute_pairs)
    E(len(pairs), len(ref.pairs()), 'number of object-attribute pairs differs' + w)
    E(set(pairs), set(ref.pairs()), 'object-attribute pairs differ' + w)
    if ref.n * ref.m <= 80:
        E([[bool(c.get_value(o, a)) for a in ref.atts] for o in ref.objs], T, 'single values differ' + w)
        E([[bool(c[i][j]) for j in range(ref.m)] for i in range(ref.n)], T, 'cells by position differ' + w)


def same_context(obs, c, objs, atts, table, what):
    """names and table in exactly this order"""
    obs.eq(typed(c.objects), typed(objs), what + ': objects')
    obs.eq(typed(c.attributes), typed(atts), what + ': attributes')
    obs.eq(boolrows(c.table), [[bool(x) for x in r] for r in table], what + ': incidence')
    obs.eq(boolrows(c.cross_table), [[bool(x) for x in r] for r in table], what + ': incidence in the cross table')


def ref_of(c):
    """model of a context read off its table"""
    return Ref.of_table(list(c.objects), list(c.attributes), [[bool(x) for x in r] for r in c.table])


def snapshot(c):
    return (typed(c.objects), typed(c.attributes), boolrows(c.table), boolrows(c.cross_table),
            dict(c.object_indices), dict(c.attribute_indices))


def cset(concepts):
    return {(frozenset(c.extent), frozenset(c.intent)) for c in concepts}


def check_concepts(obs, concepts, ref, what, want=None):
    concepts = list(concepts)
    got = cset(concepts)
    want = ref.concepts() if want is None else want
    obs.eq(len(concepts), len(got), what + ': some concept is listed twice')
    obs.check(got == want, what + ': not the formal concepts of the context',
              extra=[x for x in got if x not in want][:3], missing=[x for x in want if x not in got][:3],
              context=gen.show(ref))


def ipairs(imps):
    """[(premise, premise | conclusion)] of implications"""
    return [(frozenset(i.premise), frozenset(i.premise | i.conclusion)) for i in imps]


def want_basis(ref, ps=None):
    ps = ref.pseudo() if ps is None else ps
    return {(frozenset(ref.an(p)), frozenset(ref.an(c))) for p, c in ps.items()}


def check_basis(obs, imps, ref, what, want=None):
    got = ipairs(imps)
    want = want_basis(ref) if want is None else want
    s = set(got)
    obs.check(len(got) == len(s), what + ': an implication is listed twice', got=got, context=gen.show(ref))
    obs.check(s == want, what + ': not the canonical basis', extra=[x for x in s if x not in want][:3],
              missing=[x for x in want if x not in s][:3], context=gen.show(ref))


def imasks(ref, imps):
    return [(ref.am(i.premise), ref.am(i.premise | i.conclusion)) for i in imps]


def isnap(imps):
    """deep picture of a list of implications"""
    return [(type(i).__name__, frozenset(i.get_premise()), frozenset(i.get_conclusion())) for i in imps]


def check_relative(obs, imps, ref, bg, what):
    """exactly the canonical basis relative to the background (masks)"""
    want = want_basis(ref, relative_pseudo(ref, bg))
    check_basis(obs, imps, ref, what, want)


def random_imp(rng, ref, valid=True, unit=.2, trivial=.1):
    """an implication over ref's attributes; if valid, it holds in ref. None if impossible."""
    p = ref.am(gen.subset(rng, ref.atts)) if rng.random() > .12 else 0
    if valid:
        c = ref.ac(p)
        if rng.random() < .6:
            c &= rng.getrandbits(ref.m) if ref.m else 0
    else:
        c = rng.getrandbits(ref.m) if ref.m else 0
    if rng.random() < .5:
        c |= p
    if c & ~p and rng.random() < unit:
        j = rng.choice(list(bits(c & ~p)))
        return fca.UnitImplication(ref.an(p), ref.atts[j])
    if not c & ~p and rng.random() > trivial:
        c2 = ref.ac(p) if valid else c
        c |= c2
    return fca.Implication(ref.an(p), ref.an(c))


CONTAINERS = [list, set, tuple, frozenset, lambda x: dict.fromkeys(x), lambda x: dict.fromkeys(x).keys()]


def contain(rng, xs, kinds=None):
    return rng.choice(kinds or CONTAINERS)(xs)


def contain_rep(rng, xs):
    """a collection of these names; now and then a list or tuple that repeats some of them, in any order"""
    if xs and rng.random() < .35:
        ys = list(xs) + [rng.choice(xs) for _ in range(rng.choice([1, 1, 2, 3, len(xs)]))]
        rng.shuffle(ys)
        return rng.choice([list, tuple])(ys)
    return contain(rng, xs)


# ------------------------------------------------------------------ edits
def suffix_ok(obs, got, asked, what):
    """names after a construction or edit that asked for *asked*"""
    obs.eq(len(got), len(asked), what + ': number of names')
    dup = {x for x in asked if asked.count(x) > 1}
    if not dup:
        obs.eq(typed(got), typed(asked), what + ': names without collision must be kept')
        return
    obs.tag('name collision')
    obs.eq(len(set(got)), len(got), what + ': names are not pairwise distinct', got_names=got, asked=asked)
    for g, a in zip(got, asked):
        if a in dup:
            obs.check(isinstance(g, str) and g.startswith(str(a)) and len(g) > len(str(a)),
                      what + ': colliding name not made distinct by a suffix', got=got, asked=asked)
        elif not any(str(a).startswith(str(d) + '_') for d in dup):
            obs.check(type(g) is type(a) and g == a, what + ': a name that does not collide was changed',
                      got=got, asked=asked)
        else:
            obs.check(str(g).startswith(str(a)), what + ': a name lost its identity', got=got, asked=asked)


def other_name(rng, names, collide=.0):
    """a fresh name of the same sort, sometimes an existing one"""
    if names and rng.random() < collide:
        return rng.choice(names)
    probe = names[0] if names else 'x'
    while True:
        if isinstance(probe, str):
            x = rng.choice(['n', 'new', 'Z', '', ' ', 'a_', 'ü']) + str(rng.randrange(60))
            if rng.random() < .08:
                x = rng.choice(['a', 'a_0', 'a_1', 'b_1', '0', '', 'not a'])
        elif isinstance(probe, tuple):
            x = (rng.randrange(9), rng.randrange(9))
        elif isinstance(probe, float):
            x = rng.randrange(200) / 4
        else:
            x = rng.randrange(-90, 90)
        if x not in names:
            return x


class Editor:
    """Applies the same random public edits to a context and to its model."""

    def __init__(self, rng, obs, c, ref, collide=.06, max_n=14, max_m=12):
        self.rng, self.obs, self.c, self.ref = rng, obs, c, ref
        self.collide, self.max_n, self.max_m = collide, max_n, max_m
        self.history = []

    def _adopt(self, objs, atts, rows, what):
        suffix_ok(self.obs, list(self.c.objects), objs, what)
        suffix_ok(self.obs, list(self.c.attributes), atts, what)
        self.ref = Ref(list(self.c.objects), list(self.c.attributes), rows)

    def _call(self, api, *a):
        self.history.append((api,) + a)
        return self.obs.call('Context.' + api, getattr(self.c, api), *a)

    def ops(self):
        r = ['add_object', 'add_object_with_intent', 'add_attribute', 'add_attribute_with_extent'] * 2
        if self.ref.n:
            r += ['set_object_intent', 'set_object_intent', 'delete_object', 'rename_object']
        if self.ref.m:
            r += ['set_attribute_extent', 'set_attribute_extent', 'delete_attribute', 'rename_attribute',
                  'delete_attributes']
        r += ['remove_empty_objects']
        if self.ref.n >= self.max_n:
            r = [x for x in r if not x.startswith('add_object')] + ['delete_object'] * 2
        if self.ref.m >= self.max_m:
            r = [x for x in r if not x.startswith('add_attribute')] + ['delete_attribute'] * 2
        return r

    def _vec(self, mask, k):
        v = [bool(mask >> i & 1) for i in range(k)]
        c = self.rng.randrange(5)
        if c == 0:
            return [int(x) for x in v]
        if c == 1:
            return tuple(v)
        if c == 2:
            import numpy as np
            return np.array(v, dtype=bool)
        return v

    def step(self, op=None):
        rng, ref = self.rng, self.ref
        op = op or rng.choice(self.ops())
        O, A, R = list(ref.objs), list(ref.atts), list(ref.rows)
        d = rng.choice([0, .2, .5, .5, .8, 1])
        if op in ('add_object', 'add_object_with_intent'):
            row = sum(1 << j for j in range(ref.m) if rng.random() < d)
            name = other_name(rng, O, self.collide)
            if op == 'add_object':
                self._call(op, self._vec(row, ref.m), name)
            else:
                self._call(op, contain_rep(rng, list(ref.an(row))), name)
            self._adopt(O + [name], A, R + [row], op)
        elif op in ('add_attribute', 'add_attribute_with_extent'):
            col = sum(1 << i for i in range(ref.n) if rng.random() < d)
            name = other_name(rng, A, self.collide)
            if op == 'add_attribute':
                self._call(op, self._vec(col, ref.n), name)
            else:
                self._call(op, contain_rep(rng, list(ref.on(col))), name)
            self._adopt(O, A + [name], [r | (col >> i & 1) << ref.m for i, r in enumerate(R)], op)
        elif op == 'set_object_intent':
            o = rng.choice(O)
            row = sum(1 << j for j in range(ref.m) if rng.random() < d)
            self._call(op, contain_rep(rng, list(ref.an(row))), o)
            R[ref.oi[o]] = row
            self._adopt(O, A, R, op)
        elif op == 'set_attribute_extent':
            a = rng.choice(A)
            col = sum(1 << i for i in range(ref.n) if rng.random() < d)
            self._call(op, contain_rep(rng, list(ref.on(col))), a)
            j = ref.ai[a]
            self._adopt(O, A, [r & ~(1 << j) | (col >> i & 1) << j for i, r in enumerate(R)], op)
        elif op == 'delete_object':
            o = rng.choice(O)
            self._call(op, o)
            i = ref.oi[o]
            self._adopt(O[:i] + O[i + 1:], A, R[:i] + R[i + 1:], op)
        elif op == 'delete_attribute':
            a = rng.choice(A)
            self._call(op, a)
            self._drop([ref.ai[a]], op)
        elif op == 'delete_attributes':
            names = gen.subset(rng, A)
            given = contain(rng, names, [list, tuple])
            if names and rng.random() < .25:                # a name given twice
                given = names + [rng.choice(names) for _ in range(rng.choice([1, 1, 2]))]
                rng.shuffle(given)
            self._call(op, given)
            self._drop([ref.ai[a] for a in names], op)
        elif op == 'rename_object':
            o = rng.choice(O)
            new = o if rng.random() < .08 else other_name(rng, O, self.collide)
            self._call(op, o, new)
            O[ref.oi[o]] = new
            self._adopt(O, A, R, op)
        elif op == 'rename_attribute':
            a = rng.choice(A)
            new = a if rng.random() < .08 else other_name(rng, A, self.collide)
            self._call(op, a, new)
            A[ref.ai[a]] = new
            self._adopt(O, A, R, op)
        elif op == 'remove_empty_objects':
            self.obs.check(self._call(op) is self.c, 'remove_empty_objects does not return the context')
            k = [i for i, r in enumerate(R) if r]
            self._adopt([O[i] for i in k], A, [R[i] for i in k], op)
        self.obs.tag(op)
        return op

    def _drop(self, inds, op):
        keep = [j for j in range(self.ref.m) if j not in inds]
        rows = [sum(1 << k for k, j in enumerate(keep) if r >> j & 1) for r in self.ref.rows]
        self._adopt(list(self.ref.objs), [self.ref.atts[j] for j in keep], rows, op)

    def refused(self):
        """an edit that must be refused and must leave everything as it was"""
        rng, ref, c = self.rng, self.ref, self.c
        bo, ba = other_name(rng, ref.objs), other_name(rng, ref.atts)
        k = rng.randrange(11)
        wrong = lambda n: [True] * rng.choice([x for x in (n - 1, n + 1, n + 2) if x >= 0])
        R = self.obs.refuse
        if k == 0:
            R('Context.delete_object!', Exception, c.delete_object, bo)
        elif k == 1:
            R('Context.delete_attribute!', Exception, c.delete_attribute, ba)
        elif k == 2:
            names = gen.subset(rng, ref.atts)
            names.insert(rng.randint(0, len(names)), ba)
            R('Context.delete_attributes!', Exception, c.delete_attributes, names)
        elif k == 3:
            R('Context.rename_object!', Exception, c.rename_object, bo, other_name(rng, ref.objs, .3))
        elif k == 4:
            R('Context.rename_attribute!', Exception, c.rename_attribute, ba, other_name(rng, ref.atts, .3))
        elif k == 5:
            R('Context.set_object_intent!', Exception, c.set_object_intent, gen.subset(rng, ref.atts), bo)
        elif k == 6:
            R('Context.set_attribute_extent!', Exception, c.set_attribute_extent, gen.subset(rng, ref.objs), ba)
        elif k == 7 and ref.n:
            names = gen.subset(rng, ref.atts)
            names.insert(rng.randint(0, len(names)), ba)
            R('Context.set_object_intent!', Exception, c.set_object_intent, names, rng.choice(ref.objs))
        elif k == 8 and ref.m:
            names = gen.subset(rng, ref.objs)
            names.insert(rng.randint(0, len(names)), bo)
            R('Context.set_attribute_extent!', Exception, c.set_attribute_extent, names, rng.choice(ref.atts))
        elif k == 9:
            R('Context.add_object!', Exception, c.add_object, wrong(ref.m), bo)
        else:
            R('Context.add_attribute!', Exception, c.add_attribute, wrong(ref.n), ba)
        self.history.append(('refused', k))
        self.obs.tag('refused edit')


def clone(ref):
    return Ref(ref.objs, ref.atts, ref.rows)


def data_contexts():
    """the contexts shipped with the repository's own tests (realistic tables)"""
    import os
    d = '/repo/tests/algorithms/'
    out = []
    for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
        if f.endswith('.cxt'):
            lines = open(d + f, encoding='utf-8', errors='replace').read().split('\n')
            n, m = int(lines[2]), int(lines[3])
            objs = ['%d %s' % (i, x.strip()) for i, x in enumerate(lines[5:5 + n])]
            atts = ['%d %s' % (i, x.strip()) for i, x in enumerate(lines[5 + n:5 + n + m])]
            rows = [sum(1 << j for j, x in enumerate(l.strip()) if x == 'X')
                    for l in lines[5 + n + m:5 + n + m + n]]
            out.append((f, Ref(objs, atts, rows)))
    return out


def sortable(names):
    """can these names be put in order by comparing them?"""
    if any(isinstance(x, frozenset) for x in names):
        return False
    try:
        sorted(names)
        return True
    except TypeError:
        return False


def pick_ref(rng, i, small=(8, 7), kinds=gen.ANY_KINDS, wide=20, data=60, dmax=10 ** 6, big=0, tall=None):
    """the usual mixture of subject contexts: small random, wide or tall, very large, realistic"""
    if big and i % big == big // 2:
        return gen.big_spec(rng, transposed=tall)
    if data and i % data == data - 1:
        D = [r for _, r in data_contexts() if r.n * r.m <= dmax]
        if D:
            return rng.choice(D).copy()
    if wide and i % wide == wide - 1:
        return gen.wide_spec(rng, transposed=rng.random() < .5)
    return gen.spec(rng, small[0], small[1], kinds)


def modified(rng, obs, x, c, ref, what, share=.4):
    """the answer is edited: the original context must not see it"""
    if rng.random() > share:
        return
    k = rng.randrange(4)
    if k == 0 and len(x.objects):
        o = rng.choice(list(x.objects))
        obs.call('Context.set_object_intent', x.set_object_intent, set(x.attributes) - x.get_object_intent(o), o)
    elif k == 1 and len(x.attributes):
        obs.call('Context.delete_attribute', x.delete_attribute, rng.choice(list(x.attributes)))
    elif k == 2 and len(x.objects):
        obs.call('Context.rename_object', x.rename_object, rng.choice(list(x.objects)), 'another name')
    else:
        obs.call('Context.add_object_with_intent', x.add_object_with_intent, set(), 'another object')
    check_views(obs, c, ref, 'source after an edit of what %s returned' % what)
    obs.tag('answer edited')
