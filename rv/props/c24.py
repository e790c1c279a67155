import os
import fca
import gen
from fca import Concept, ConceptLattice, ConceptSystem
from fca.readwrite.xml_ import read_xml, uread_xml, write_xml
from lib import anywhere, typed
from model import Ref

CASES = {'quick': 3000, 'thorough': 80000}
RULE = ('lattices, subsets of their concepts and hand-made concept lists (repeated, empty, disjoint concepts), names with '
        'markup, quotes, inner and repeated blanks, entities, astral characters and of lengths beyond parser buffers, rarely a thousand objects, attributes or concepts, '
        'numeric descriptive values, files read in any order and interleaving, also under a locale of an encoding that is not Unicode. Non-trivial: a distinct concept list.')
STEPS = 150_000_000

NASTY = ['', '<a>', '&', '&amp;', '"q"', "it's", ']]>', '<!-- x -->', '<?x?>', 'a b', 'a  b', 'a   b c', '&lt;', '漢字', '🙂 x', 'ä',
         'o1', 'a1', '0', '1.5', 'None', '>', '<', '=', '/', '</object>', '<object id="o1">', '%s', '{0}', '\\', 'x&y<z>"',
         'привет мир', 'é', '\u00a0x'[1:], 'a\u00a0b', 'a\tb', '#', "'", '-', '_', 'a_b', 'G', 'M', '&#10;', '&#x41;', 'ﬁ', '𝒜𝒷']


def long_name(rng, k):
    n = rng.choice([700, 1023, 2000, 4090, 5000, 8190, 8192, 9000, 16500, 33000, 65530, 66000])
    return ''.join(rng.choice(['ab', 'é', '🙂', '& ', '漢', 'x']) for _ in range(8)) * (n // 8) + '.%d' % k


def some_names(rng, n, side):
    k = rng.random()
    if k < .55:
        p = rng.sample(NASTY, min(n, len(NASTY)))
        return p + ['%s%d' % (side, j) for j in range(n - len(p))]
    if k < .62 and n:
        return [long_name(rng, j) for j in range(n)] if n <= 3 else [long_name(rng, 0)] + gen.names(rng, n - 1, 'plain', side)
    if k < .75:                                  # no texts: written as their texts
        p = rng.sample(ODD, min(n, len(ODD)))
        return p + ['%s%d' % (side, j) for j in range(n - len(p))]
    return gen.names(rng, n, rng.choice(['plain', 'letters', 'texty', 'shared', 'reversed', 'int', 'intshuf', 'intfar', 'float']), side)


ODD = [1, 2, 0, -7, 2.5, None, (), (1, 'x'), ('<', '&'), b'a', frozenset({1}), 10 ** 20, 'a', 'b c', 'ä', (1, 2), 'x<y', -0.5]
KEYS = ['Probability index', 'Separation index', 'Intensional stability', 'Extent size', 'x', 'AbC', 'a b c', 'stability']


def build(rng, big=False):
    """(what to write, [(extent, intent, meta)])"""
    n, m = gen.size(rng, 7), gen.size(rng, 6)
    if big:
        kind = rng.choice(['names', 'concepts', 'both'])
        n, m = (rng.choice([999, 1000, 1001, 1200]), rng.choice([3, 30, 1100])) if kind != 'concepts' else (8, 9)
        ref = Ref(gen.names(rng, n, rng.choice(['plain', 'shuffled', 'shared']), 'o'),
                  gen.names(rng, m, rng.choice(['plain', 'shuffled', 'shared']), 'a'), [0] * n)
        few = lambda s: rng.sample(s, rng.choice([0, 1, min(len(s), 12), len(s) if kind == 'names' else min(len(s), 40)]))
        cs = [Concept(few(ref.objs), few(ref.atts)) for _ in range(4 if kind == 'names' else rng.choice([300, 1001, 1100]))]
        for k, c in enumerate(cs):
            if rng.random() < .5:
                c.meta['x'] = k / 7
        return 'very large', cs if rng.random() < .5 else ConceptSystem(cs)
    ref = Ref(some_names(rng, n, 'o'), some_names(rng, m, 'a'), gen.table(rng, n, m))
    kind = rng.choice(['lattice', 'system', 'list', 'free', 'free'])
    if kind == 'free':
        cs = [Concept(gen.subset(rng, ref.objs), gen.subset(rng, ref.atts)) for _ in range(rng.randint(0, 8))]
        if cs and rng.random() < .3:
            x = rng.choice(cs)
            cs.insert(rng.randint(0, len(cs)), Concept(x.extent, x.intent))
        whole = cs if rng.random() < .5 else ConceptSystem(cs)
    else:
        L = ConceptLattice(gen.build(fca, ref, rng, 'bool'))
        whole = L
        if kind != 'lattice':
            cs = gen.subset(rng, list(L))
            rng.shuffle(cs)
            whole = cs if kind == 'list' else ConceptSystem(cs)
    used = rng.sample(KEYS, rng.randint(0, 4))
    for c in whole:
        for k in used:
            if rng.random() < .85:
                c.meta[k] = rng.choice([0.0, 1.0, .1, 1 / 3, 2 / 7, 1e-9, 1e20, -4.5, 3, 0, 123456789, rng.random()])
    return kind, whole


def view(cs):
    return [(frozenset(map(str, c.extent)), frozenset(map(str, c.intent)), dict(c.meta)) for c in cs]


def judge(obs, got, want, what):
    obs.check(isinstance(got, ConceptSystem), what + ': not a concept system', type=type(got))
    obs.eq(len(got), len(want), what + ': number of concepts')
    for k, (c, (e, t, meta)) in enumerate(zip(got, want)):
        obs.check(set(c.extent) == e, what + ': extent of concept %d' % k, got=c.extent, want=e)
        obs.check(set(c.intent) == t, what + ': intent of concept %d' % k, got=c.intent, want=t)
        obs.eq(dict(c.meta), meta, what + ': descriptive values of concept %d' % k)


def case(rng, obs, i):
    files = []
    for k in range(rng.choice([1, 1, 2, 3]) if i % 600 != 150 else 2):
        kind, cs = build(rng, i % 600 == 150)
        want, given = view(cs), typed([(c.extent, c.intent) for c in cs])
        path = os.path.join(obs.tmp, 'c24-%d.xml' % k)
        obs.call('write_xml', anywhere(rng, write_xml), path, cs)
        obs.eq(view(cs), want, 'writing changed the concepts')
        obs.eq(typed([(c.extent, c.intent) for c in cs]), given, 'writing changed the names')
        if any(not isinstance(x, str) for c in cs for x in list(c.extent) + list(c.intent)):
            obs.tag('names that are no texts')
        files.append((path, want))
        obs.tag(kind)
        obs.state(sorted(map(repr, [(sorted(a), sorted(b), c) for a, b, c in want])))
    obs.sample = {'concepts': [[[repr(sorted(a))[:300], repr(sorted(b))[:300], c] for a, b, c in w[:12]] for _, w in files]}
    held = []
    order = files + ([rng.choice(files)] if rng.random() < .5 else [])
    rng.shuffle(order)
    for path, want in order:
        raw = open(path, 'rb').read()
        for api, r in rng.sample([('read_xml', read_xml), ('uread_xml', uread_xml)], 2):
            got = obs.call(api, anywhere(rng, r), path)
            judge(obs, got, want, api)
            held.append((api, got, want))
        obs.eq(open(path, 'rb').read() == raw, True, 'reading changed the file')
    for api, got, want in held:
        judge(obs, got, want, api + ', looked at after later reads')
    # results do not share state with later reads
    if len(held) > 1:
        _, got, want = held[0]
        for c in got:
            c.extent.add('zz')
            c.intent.clear()
            c.meta['zz'] = 1
        got.append(Concept(['zz'], []))
        for api, g, w in held[1:]:
            judge(obs, g, w, api + ', after another result was modified')
        judge(obs, obs.call('read_xml', read_xml, order[0][0]), order[0][1], 'read_xml after a result was modified')
