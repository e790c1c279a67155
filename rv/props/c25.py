import os
import re
from collections import Counter
import fca
import gen
from fca import ConceptLattice, ConceptSystem
from fca.readwrite.dot import uwrite_dot, write_dot
from fca.readwrite.fimi import write_fimi
from lib import anywhere, pick_ref, snapshot
from model import Ref

CASES = {'quick': 2500, 'thorough': 60000}
RULE = ('lattices and random subsets of their concepts, contexts with several (up to a dozen) objects or attributes in one '
        'place, names with dots, digits, arrows, brackets, quotes, backslashes, unicode, names that are no texts; files written also under a locale of another encoding; the written file is parsed as a graph and compared '
        'with the graph computed from extents and intents. Non-trivial: a distinct (concept family, kind of file).')
STEPS = 60_000_000

POOL = ['a', 'b', 'c0', 'c1 -> c2', '[x]', 'a;b', '{', '}', 'x,y', 'ä', '漢', '🙂', '1', '12', '...', '=', 'a b', '<', '>', '&',
        '#', '//', 'label', 'n', 'node', 'edge', "it's", '%i', '%s', '5', 'é', '->', 'c3', '(', 'x-1',
        '"', '\\', 'a"b', 'q\\', '\\\\', '\\n', 'say "hi"', 'C:\\new', '\\"', '"x"', 'a\\l', '\\N', '"];']

TOKEN = re.compile(r'\s*(?:(?P<str>"(?:[^"\\]|\\.)*")|(?P<arrow>->)|(?P<p>[\[\]{};,=])|(?P<id>[A-Za-z0-9_.\-]+?(?=->|[\[\]{};,=\s"]|$)))', re.S)


def parse_dot(text):
    """(nodes, edges with attributes) of a graphviz digraph"""
    toks, pos = [], 0
    text = text.rstrip()
    while pos < len(text):
        mt = TOKEN.match(text, pos)
        if not mt:
            raise ValueError('not DOT at %r' % text[pos:pos + 40])
        toks.append((mt.lastgroup, mt.group(mt.lastgroup)))
        pos = mt.end()
    it = 0

    def want(v):
        nonlocal it
        if it >= len(toks) or toks[it][1] != v:
            raise ValueError('expected %r at token %d of %r' % (v, it, toks[it:it + 5]))
        it += 1
    want('digraph')
    if toks[it][0] == 'id':
        it += 1
    want('{')
    nodes, edges = [], []

    def attrs():
        nonlocal it
        d = {}
        while it < len(toks) and toks[it] == ('p', '['):
            it += 1
            while toks[it] != ('p', ']'):
                if toks[it][1] in ',;':
                    it += 1
                    continue
                k = toks[it][1]
                want_k = toks[it][0]
                if want_k not in ('id', 'str'):
                    raise ValueError('attribute name expected')
                it += 1
                want('=')
                v = toks[it]
                d[k] = v[1][1:-1] if v[0] == 'str' else v[1]
                it += 1
            it += 1
        return d
    while toks[it] != ('p', '}'):
        if toks[it] == ('p', ';'):
            it += 1
            continue
        kind, a = toks[it]
        if kind not in ('id', 'str'):
            raise ValueError('statement expected at %r' % (toks[it:it + 4],))
        it += 1
        if toks[it] == ('p', '='):
            it += 2
        elif toks[it][0] == 'arrow':
            it += 1
            b = toks[it][1]
            it += 1
            edges.append((a, b, attrs()))
        else:
            d = attrs()
            if a not in ('node', 'edge', 'graph'):
                nodes.append(a)
    if it != len(toks) - 1:
        raise ValueError('text after the graph')
    return nodes, edges


def own(family, k):
    """own objects and attributes of family[k]"""
    e, t = family[k]
    oo = [x for x in e if not any(e2 < e and x in e2 for e2, _ in family)]
    oa = [x for x in t if not any(t2 < t and x in t2 for _, t2 in family)]
    return oo, oa


def lines(label):
    """the lines that a label written in graphviz' notation shows"""
    out, k = [''], 0
    while k < len(label):
        ch = label[k]
        if ch == '\\' and k + 1 < len(label):
            k += 1
            if label[k] in 'nlr':
                out.append('')
            else:
                out[-1] += label[k]
        else:
            out[-1] += ch
        k += 1
    return out


def label_ok(obs, label, names, mode, what):
    labels = [x.strip() for x in lines(label)]
    names = [str(x).strip() for x in names]
    n = len(names)
    if mode == 'full' and n > 6:
        obs.check(len(labels) == 7 and labels[-1] == '...' and not Counter(labels[:6]) - Counter(names),
                  what + ': not six of the own names and dots', got=labels, own=names)
        obs.tag('six and dots')
    elif mode == 'number' or mode == 'plain' and n >= 5:
        obs.eq(labels, [str(n)], what + ': not the number of own names')
        obs.tag('abbreviated')
    else:
        obs.eq(sorted(labels), sorted(names), what + ': not the own names')
        obs.tag('spelled out')


def judge_dot(obs, path, family, mode, what):
    raw = open(path, 'rb').read().decode('utf-8')
    try:
        nodes, edges = parse_dot(raw)
    except (ValueError, IndexError) as e:
        obs.check(False, what + ': the file is no graph: %s' % e, file=raw)
    n = len(family)
    obs.eq(len(nodes), n, what + ': number of nodes')
    obs.eq(len(set(nodes)), n, what + ': nodes are not distinct')
    # nodes carry the position of their concept in their name, or else come in that order
    pos = [int(y) if (y := ''.join(ch for ch in x if ch.isdigit())) else -1 for x in nodes]
    num = dict(zip(nodes, pos if sorted(pos) == list(range(n)) else range(n)))
    cover, heads, tails = [], {}, {}
    for a, b, d in edges:
        obs.check(a in num and b in num, what + ': an edge to nowhere', edge=(a, b))
        if a == b:
            for key, store in (('headlabel', heads), ('taillabel', tails)):
                if key in d:
                    obs.check(num[a] not in store, what + ': labelled twice', node=a)
                    store[num[a]] = d[key]
        else:
            cover.append((num[a], num[b]))
    want = []
    for b, (_, tb) in enumerate(family):
        for a, (_, ta) in enumerate(family):
            if ta < tb and not any(ta < tc < tb for _, tc in family):
                want.append((a, b))
    obs.eq(sorted(cover), sorted(want), what + ': edges are not the covering pairs, upper to lower')
    for k in range(n):
        oo, oa = own(family, k)
        for names, store, side in ((oo, heads, 'objects'), (oa, tails, 'attributes')):
            w = '%s: own %s of concept %d' % (what, side, k)
            obs.eq(k in store, bool(names), w + ': labelled though there are none, or not labelled')
            if names:
                label_ok(obs, store[k], names, mode, w)


def text_names(rng, n, side):
    if rng.random() < .5:
        p = rng.sample(POOL, min(n, len(POOL)))
        return p + ['%s%d' % (side, k) for k in range(n - len(p))]
    return gen.names(rng, n, rng.choice(['plain', 'letters', 'texty', 'reversed', 'shared', 'int', 'intshuf', 'intfar', 'float', 'tuple', 'mixed', 'mixed']), side)


def case(rng, obs, i):
    n, m = gen.size(rng, 6), gen.size(rng, 6)
    rows = gen.table(rng, n, m)
    if i % 40 == 17:                                # many neighbours of one concept, or a long chain
        n = m = rng.randint(9, 24)
        rows = [1 << k for k in range(n)] if rng.random() < .7 else [(1 << k) - 1 for k in range(n)]
        rng.shuffle(rows)
        obs.tag('9-24 objects')
    # several objects and attributes in the same place
    if rng.random() < .45 and n:
        for _ in range(rng.randint(3, 10)):
            rows.append(rng.choice(rows[:n]))
        k = rows[rng.randrange(n)]
        if rng.random() < .5:
            rows += [k] * rng.randint(4, 8)
        n = len(rows)
    if rng.random() < .35 and m:
        j = rng.randrange(m)
        for _ in range(rng.randint(3, 8)):
            rows = [r | (r >> j & 1) << m for r in rows]
            m += 1
    ref = Ref(text_names(rng, n, 'o'), text_names(rng, m, 'a'), rows)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng, rng.choice(['bool', 'byobj', 'npint', 'deepcopy']))
    L = ConceptLattice(c)
    whole = L
    if rng.random() < .4:
        cs = gen.subset(rng, list(L))
        rng.shuffle(cs)
        whole = ConceptSystem(cs)
        obs.tag('part of a lattice')
    family = [(frozenset(x.extent), frozenset(x.intent)) for x in whole]
    path = os.path.join(obs.tmp, 'c25.dot')
    for api, args, mode in rng.sample([('write_dot', (), 'plain'), ('uwrite_dot', (), 'number'),
                                       ('uwrite_dot', (True,), 'full'), ('uwrite_dot', (False,), 'number')], 3):
        f = write_dot if api == 'write_dot' else anywhere(rng, uwrite_dot)
        obs.call(api, f, whole, path, *args)
        judge_dot(obs, path, family, mode, api + repr(args))
        obs.eq([(frozenset(x.extent), frozenset(x.intent)) for x in whole], family, 'writing changed the concepts')
        obs.state(api, args, sorted((sorted(map(repr, a)), sorted(map(repr, b))) for a, b in family))
    if i % 4 == 0:
        obs.refuse(api + '!', AssertionError, f, whole, '')
    fimi(rng, obs, i)


def fimi(rng, obs, i):
    ref = pick_ref(rng, i, (9, 9), ['plain', 'shuffled', 'letters', 'shared', 'int', 'intshuf', 'intfar', 'float', 'suffix', 'tuple', 'mixed'],
                   wide=20, data=0, big=150)
    c = gen.build(fca, ref, rng)
    before = snapshot(c)
    path = os.path.join(obs.tmp, 'c25.fimi')
    obs.call('write_fimi', write_fimi, c, path)
    lines = open(path, 'rb').read().decode('utf-8').split('\n')
    obs.eq(lines.pop(), '', 'fimi: the last line does not end')
    obs.eq(len(lines), ref.n, 'fimi: number of lines')
    for k, l in enumerate(lines):
        obs.eq(sorted(l.split()), sorted(w for a in ref.an(ref.rows[k]) for w in str(a).split()), 'fimi: items of line %d' % k)
    obs.eq(snapshot(c), before, 'writing changed the context')
    obs.state('fimi', ref.rows, [repr(a) for a in ref.atts])
