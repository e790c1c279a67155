import copy
import itertools
import pickle
import fca
import gen
import lib
from fca import Concept, ConceptLattice, ConceptSystem
from fca.partial_context import PartialContext
from props.c21 import column

CASES = {'quick': 6000, 'thorough': 150000}
RULE = ('concepts over names of every kind, comparable or not, compared with equal ones, ones with fewer, more or other elements on '
        'one side, and with other things; values attached; lattices (by the default builder and by others that list the concepts in '
        'any order) and systems of any concepts, with repetitions, read by position, slice, iteration and printed lines before and '
        'after edits; contexts, many-valued contexts and partial contexts printed along edit histories. Non-trivial: a distinct printed text.')
STEPS = 20_000_000


def key(c):
    return (frozenset(c.extent), frozenset(c.intent))


def sides(rng):
    sizes = [0, 1, 2, 3, 4, 6, 9] if rng.random() < .97 else [17, 40, 70, 130, 300]
    O = gen.names(rng, rng.choice(sizes), rng.choice(gen.ALL_KINDS), 'o')
    A = gen.names(rng, rng.choice(sizes), rng.choice(gen.ALL_KINDS), 'a')
    return O, A


def change(rng, s, univ):
    """the same set, or one with less, more or something else"""
    s = set(s)
    k = rng.randrange(4)
    out = [u for u in univ if u not in s]
    if k in (1, 3) and s:
        s.discard(rng.choice(sorted(s, key=repr)))
    if k in (2, 3) and out:
        s.add(rng.choice(out))
    return s


def texts(side):
    """the printed lists a side may give: in order when the names have one"""
    xs = list(side)
    if lib.sortable(xs):
        return [repr(sorted(xs))]
    return [repr(list(p)) for p in itertools.permutations(xs)] if len(xs) < 6 else None


def shown(obs, c, ext, att, meta):
    got = obs.call('str(Concept)', str, c)
    obs.eq(obs.call('repr(Concept)', repr, c), got, 'str and repr of a concept')
    es = ['G'] if not att else texts(ext)
    is_ = ['M'] if not ext else texts(att)
    tail = ' meta: {}'.format(meta) if meta else ''
    if es is None or is_ is None:
        obs.eq((len(got), got.startswith('('), got.endswith(')' + tail)),
               (sum(2 + len(', '.join(map(repr, s))) if t is None or t[0] not in 'GM' else 1 for s, t in ((ext, es), (att, is_)))
                + 4 + len(tail), True, True), 'length of a printed concept', text=got)
    else:
        obs.check(any(got == '(%s, %s)%s' % (e, i, tail) for e in es for i in is_), 'the printed concept is not what it holds',
                  text=got, extent=ext, intent=att, meta=meta)
    obs.state(got)


def concept_case(rng, obs):
    O, A = sides(rng)
    e, a = set(gen.subset(rng, O)), set(gen.subset(rng, A))
    ge, ga = lib.contain_rep(rng, sorted(e, key=repr)), lib.contain_rep(rng, sorted(a, key=repr))
    c = obs.call('Concept', Concept, ge, ga)
    for g in (ge, ga):                               # a concept has its own sets
        if isinstance(g, set) and rng.random() < .5:
            g.add('zz-later')
        elif isinstance(g, list) and rng.random() < .5:
            g.append('zz-later')
    obs.eq((c.extent, c.intent), (e, a), 'sets of a concept')
    meta = {}
    shown(obs, c, e, a, meta)
    for _ in range(rng.choice([0, 1, 1, 2])):
        k, v = rng.choice(['x', 'a b', 'score', '', 'meta']), rng.choice([0, 1, .5, -2.25, 10 ** 20, 'text', None])
        c.meta[k] = v
        meta[k] = v
    shown(obs, c, e, a, meta)
    pairs = list(obs.call('Concept.pairs', c.pairs))
    want = {(x, y) for x in e for y in a}
    obs.eq((len(pairs), set(pairs)), (len(want), want), 'pairs of a concept')
    for _ in range(4):
        f, b = (change(rng, e, O), set(a)) if rng.random() < .4 else (set(e), change(rng, a, A)) if rng.random() < .7 else \
            (change(rng, e, O), change(rng, a, A))
        d = Concept(f, b)
        if rng.random() < .3:
            d.meta['other'] = 1
        same = e == f and a == b
        obs.eq((bool(c == d), bool(d == c)), (same, same), 'equality of concepts', one=(e, a), other=(f, b))
        obs.eq((bool(c != d), bool(d != c)), (not same, not same), 'inequality of concepts', one=(e, a), other=(f, b))
        obs.eq(len({c, d}), 1 if same else 2, 'a set of two concepts', one=(e, a), other=(f, b))
        if same:
            obs.eq(hash(c), hash(d), 'equal concepts have different hashes')
    flipped = Concept(a, e)
    obs.eq(bool(c == flipped), e == a, 'a concept equal to the one with its sides exchanged', one=(e, a))
    for x in (None, 0, (e, a), (frozenset(e), frozenset(a)), str(e), fca.Implication(e, a)):
        obs.eq((bool(c == x), bool(c != x)), (False, True), 'a concept equal to something else', other=x)
    if rng.random() < .7:
        cp = obs.call('copy.deepcopy', copy.deepcopy, c)
    else:
        cp = obs.call('pickle', lambda: pickle.loads(pickle.dumps(c)))
    obs.eq((bool(cp == c), cp.extent, cp.intent, cp.meta), (True, e, a, meta), 'a copied concept')
    cp.extent.add('zz-copy')
    obs.eq((c.extent, bool(c == cp)), (e, False), 'a copied concept shares its sets')


def container(rng, obs, S, content, what):
    """content: the concepts S must list, in this order"""
    n = len(content)
    E = obs.eq
    E(len(S), n, what + ': length')
    E([id(c) for c in obs.call(what + ' iterated', list, S)], [id(c) for c in content], what + ': iteration')
    E([id(S[i]) for i in range(n)], [id(c) for c in content], what + ': by position')
    E([id(S[-i - 1]) for i in range(n)], [id(c) for c in reversed(content)], what + ': by position from the end')
    i, j = rng.randint(-n - 1, n + 1), rng.randint(-n - 1, n + 1)
    E([id(c) for c in obs.call(what + ' slice', lambda: S[i:j])], [id(c) for c in content[i:j]], what + ': slice')
    obs.refuse(what + '[]!', IndexError, lambda: S[n])
    E([id(c) for c in reversed(S)], [id(c) for c in reversed(content)], what + ': reversed')
    text = obs.call('str(%s)' % what, str, S)
    E(text, '\n'.join(str(c) for c in content), what + ': printed lines')
    obs.state(text)
    keys = [key(c) for c in content]
    for k in (keys if n < 12 else rng.sample(keys, 8)):
        q = Concept(*k)
        E(q in S, True, what + ': a member is not found', concept=k)
        E(obs.call(what + '.index', S.index, q), keys.index(k), what + ': position of a member', concept=k)
    for _ in range(3):
        if n:
            c = rng.choice(content)
            q = Concept(change(rng, c.extent, ['zz-1', 0]), change(rng, c.intent, ['zz-1', 0]))
        else:
            q = Concept([], [])
        if key(q) not in keys:
            E(q in S, False, what + ': found what is not there', concept=key(q))
            obs.refuse(what + '.index!', ValueError, S.index, q)
    for x in (None, 'x', 1):
        E(x in S, False, what + ': found what is no concept')


def shuffled(rng):
    def builder(context):
        cs, parents = fca.norris(context)
        cs = list(cs)
        rng.shuffle(cs)
        return cs, parents
    return builder


def lattice_case(rng, obs):
    ref = gen.spec(rng, 6, 5, gen.ALL_KINDS, mix='')
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    own = rng.random() < .4
    L = obs.call('ConceptLattice', ConceptLattice, c, builder=shuffled(rng)) if own else obs.call('ConceptLattice', ConceptLattice, c)
    content = list(L.concepts)
    want = ref.concepts()
    obs.eq((len(content), {key(x) for x in content}), (len(want), set(want)), 'concepts of a lattice')
    obs.check(L.context is c, 'the context of a lattice is another one')
    container(rng, obs, L, content, 'ConceptLattice')
    top, bottom = min(want, key=lambda k: len(k[1])), max(want, key=lambda k: len(k[1]))
    obs.eq((key(L.top_concept), key(L.bottom_concept)), (top, bottom), 'top and bottom of a lattice', own_builder=own)
    if rng.random() < .5:
        rng.choice(content).meta['x'] = .5
        container(rng, obs, L, content, 'ConceptLattice')
    if rng.random() < .03:
        z = rng.choice([33, 65, 101, 130, 257, 300])
        mem = [Concept({j, -j - 1}, {z - j}) for j in range(z)]
        rng.shuffle(mem)
        container(rng, obs, obs.call('ConceptSystem', ConceptSystem, list(mem)), mem, 'ConceptSystem')
        obs.tag('many concepts')
    # systems of any concepts, repetitions included
    pool = content + [Concept(change(rng, x.extent, ref.objs), change(rng, x.intent, ref.atts)) for x in content[:5]]
    mem = [rng.choice(pool) for _ in range(rng.randint(0, 7))]
    given = list(mem)
    S = obs.call('ConceptSystem', ConceptSystem, given) if mem or rng.random() < .5 else obs.call('ConceptSystem', ConceptSystem)
    container(rng, obs, S, mem, 'ConceptSystem')
    for _ in range(rng.randint(1, 4)):
        k = rng.randrange(4)
        if k <= 1:
            x = rng.choice(pool)
            obs.call('ConceptSystem.append', S.append, x)
            mem.append(x)
        elif k == 2 and mem:
            x = rng.choice(mem)
            q = x if rng.random() < .5 else Concept(x.extent, x.intent)
            obs.call('ConceptSystem.remove', S.remove, q)
            del mem[[key(y) for y in mem].index(key(x))]
        else:
            obs.refuse('ConceptSystem.append!', TypeError, S.append, rng.choice([None, 3, ('a', 'b'), {1}, ref.atts]))
        container(rng, obs, S, mem, 'ConceptSystem')
    obs.eq(len(ConceptSystem()), 0, 'a new system is empty')
    if given is not mem:
        obs.tag('system')


def context_case(rng, obs):
    ref = gen.spec(rng, 7, 7, gen.ALL_KINDS)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    ed = lib.Editor(rng, obs, c, ref)
    for k in range(rng.randint(1, 4)):
        r = ed.ref
        want = ', '.join(map(str, r.atts)) + '\n' + ''.join(
            '%s\t%s\n' % (str(o), ''.join('X' if row >> j & 1 else '.' for j in range(r.m))) for o, row in zip(r.objs, r.rows))
        obs.eq(obs.call('repr(Context)', repr, c), want, 'the printed context is not what it holds')
        obs.eq(str(c), want, 'str of a context')
        obs.state(want)
        if lib.sortable(r.objs) and lib.sortable(r.atts) and type(next(iter(r.objs), '')) in (str, int):
            ed.step()
    obs.tag('context')


def mv_case(rng, obs):
    n, m = gen.size(rng, 6), gen.size(rng, 5)
    objs, atts = gen.names(rng, n + 4, rng.choice(gen.ALL_KINDS), 'o'), gen.names(rng, m + 4, rng.choice(gen.ALL_KINDS), 'a')
    free_o, free_a, objs, atts = objs[n:], atts[m:], objs[:n], atts[:m]
    cols = [column(rng, n)[1] for _ in range(m)]
    rows = [[c[k] for c in cols] for k in range(n)]
    mv = obs.call('ManyValuedContext', fca.ManyValuedContext, [list(r) for r in rows], list(objs), list(atts))
    obs.sample = {'objects': [repr(o) for o in objs], 'attributes': [repr(a) for a in atts], 'rows': [[repr(v) for v in r] for r in rows]}
    for k in range(rng.randint(1, 4)):
        got = obs.call('repr(ManyValuedContext)', repr, mv)
        obs.eq(str(mv), got, 'str of a many-valued context')
        want = ', '.join(map(str, atts)) + '\n' + ''.join('\t'.join(map(str, [o] + r)) + '\n' for o, r in zip(objs, rows))
        # names and values in this order, each one once; blanks between them may be any
        obs.eq(''.join(got.split()), ''.join(want.split()), 'the printed many-valued context is not what it holds', text=got)
        obs.eq(got.count('\n') - got.endswith('\n'), want.count('\n') - 1, 'lines of a printed many-valued context', text=got)
        obs.state(want)
        e = rng.randrange(4)
        if e == 0 and free_a:
            col = column(rng, len(objs))[1]
            obs.call('ManyValuedContext.add_attribute', mv.add_attribute, list(col), free_a[-1])
            atts, rows = atts + [free_a.pop()], [r + [v] for r, v in zip(rows, col)]
        elif e == 1 and objs and len(set(map(repr, objs))) == len(objs):
            j = rng.randrange(len(objs))
            obs.call('ManyValuedContext.delete_object', mv.delete_object, objs[j])
            objs, rows = objs[:j] + objs[j + 1:], rows[:j] + rows[j + 1:]
        elif e == 2 and objs and free_o:
            j = rng.randrange(len(objs))
            obs.call('ManyValuedContext.rename_object', mv.rename_object, objs[j], free_o[-1])
            objs = objs[:j] + [free_o.pop()] + objs[j + 1:]
    obs.tag('many-valued context')


def partial_case(rng, obs):
    r = gen.spec(rng, 6, 6, gen.ALL_KINDS)
    x = [row & rng.getrandbits(max(1, r.m)) for row in r.rows]
    table = lambda rows: [[bool(row >> j & 1) for j in range(r.m)] for row in rows]
    P = obs.call('PartialContext', PartialContext, table(x), table(r.rows), list(r.objs), list(r.atts))
    objs, xs, qs = list(r.objs), list(x), list(r.rows)
    obs.sample = dict(gen.show(r), certain=x)

    def judge(P, objs, atts, xs, qs, what):
        want = ', '.join(map(str, atts)) + '\n' + ', '.join(map(str, objs)) + '\n' + ''.join(
            '\n' + ''.join('X' if a >> j & 1 else '?' if q >> j & 1 else '.' for j in range(len(atts))) for a, q in zip(xs, qs))
        obs.eq(obs.call('repr(PartialContext)', repr, P), want, what)
        obs.eq(str(P), want, what + ' (str)')
        obs.state(want)
    judge(P, objs, r.atts, xs, qs, 'the printed partial context is not what it holds')
    cols = lambda rows: [sum(1 << i for i, row in enumerate(rows) if row >> j & 1) for j in range(r.m)]
    judge(P.transpose(), list(r.atts), objs, cols(xs), cols(qs), 'the printed transposed partial context')
    for k in range(rng.randint(0, 2)):
        name = lib.other_name(rng, objs) if not any(type(o) is not type(objs[0]) for o in objs) else ('new', k)
        if name in objs:
            continue
        q = rng.getrandbits(max(1, r.m)) & ((1 << r.m) - 1)
        a = q & rng.getrandbits(max(1, r.m))
        obs.call('PartialContext.add_object_with_intent', P.add_object_with_intent, (r.an(a), r.an(q)), name)
        objs, xs, qs = objs + [name], xs + [a], qs + [q]
        judge(P, objs, r.atts, xs, qs, 'the printed partial context after an example was added')
    obs.tag('partial context')


def case(rng, obs, i):
    k = i % 8
    if k < 3:
        concept_case(rng, obs)
    elif k < 6:
        lattice_case(rng, obs)
    elif k == 6:
        (context_case if rng.random() < .6 else mv_case)(rng, obs)
    else:
        partial_case(rng, obs)
