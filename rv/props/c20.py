import copy
import fca
import gen
from fca.compare_context import subseteq_table
from fca.partial_context import PartialContext
from lib import boolrows, check_basis, check_relative, check_views, imasks, isnap, other_name, random_imp, suffix_ok, typed, unprinted
from model import Ref, bits, mask_close

CASES = {'quick': 6000, 'thorough': 150000}
RULE = ('pairs of tables over the same names (consistent and not, without rows or columns), histories of 2-10 steps: '
        'consistent and inconsistent additions, copies, transposition, completion under random implications (feasible '
        'and not); the set of implication-respecting total versions of every example is enumerated before and after; '
        'open implications judged against every example. Non-trivial: a distinct (step, both incidences, implications).')
STEPS = 5_000_000


def views(obs, pc, x, q, what):
    obs.eq((typed(pc.objects), typed(pc.attributes)), (typed(x.objs), typed(x.atts)), what + ': names')
    check_views(obs, pc.x_context, x, what + ': certain part')
    check_views(obs, pc.q_context, q, what + ': possible part')
    obs.eq([(set(a), set(b)) for a, b in pc.intents()], [(x.an(a), q.an(b)) for a, b in zip(x.rows, q.rows)],
           what + ': partial intents')
    obs.check(all(a & b == a for a, b in zip(x.rows, q.rows)), what + ': a certain cross is not possible')


def adopt(obs, pc, objs, atts, xrows, qrows, what):
    """the models after *objs* and *atts* were asked for: repeated names get distinct suffixes"""
    suffix_ok(obs, list(pc.objects), objs, what + ': objects')
    suffix_ok(obs, list(pc.attributes), atts, what + ': attributes')
    return Ref(list(pc.objects), list(pc.attributes), list(xrows)), Ref(list(pc.objects), list(pc.attributes), list(qrows))


def versions(x, q, am):
    free = list(bits(q & ~x))
    out = set()
    for k in range(1 << len(free)):
        v = x | sum(1 << f for j, f in enumerate(free) if k >> j & 1)
        if mask_close(v, am) == v:
            out.add(v)
    return out


def judge_open(obs, pc, x, q, what, rng):
    imps = obs.call('PartialContext.get_attribute_implications', pc.get_attribute_implications)
    for imp in imps:
        p, c = x.am(imp.premise), x.am(imp.conclusion)
        for k in range(x.n):
            obs.check(not (x.rows[k] & p == p and c & ~q.rows[k]),
                      what + ': an open implication is incompatible with an example', imp=imp, example=x.objs[k])
    if x.rows == q.rows:
        check_basis(obs, imps, x, what + ': without uncertainty')
        bg = [random_imp(rng, x) for _ in range(rng.randint(0, 3))]
        snap = isnap(bg)
        check_relative(obs, obs.call('PartialContext.get_attribute_implications', pc.get_attribute_implications,
                                     confirmed=bg), x, imasks(x, bg), what + ': relative, without uncertainty')
        obs.eq(isnap(bg), snap, 'the confirmed implications were modified')
        obs.tag('no uncertainty')


def large(rng, obs):
    """many examples or attributes: copies, transposes and additions"""
    n, m = rng.choice([(1, 256), (1, 257), (2, 128), (4, 64), (256, 1), (257, 1), (64, 4), (16, 16), (3, 300), (300, 2), (20, 6), (40, 5), (33, 4)])
    full, dx = rng.random() < .5, rng.choice([.2, .7])
    q = Ref(gen.names(rng, n, 'plain', 'o'), gen.names(rng, m, 'plain', 'a'),
            [(1 << m) - 1 if full else rng.getrandbits(m) for _ in range(n)])
    x = Ref(q.objs, q.atts, [0 if rng.random() < dx else r & rng.getrandbits(m) for r in q.rows])
    obs.sample = {'certain': gen.show(x), 'possible': gen.show(q)}
    pc = obs.call('PartialContext', PartialContext, [list(t) for t in x.table()], [list(t) for t in q.table()], list(x.objs), list(x.atts))
    views(obs, pc, x, q, 'large')
    other = obs.call('copy.deepcopy', copy.deepcopy, pc)
    views(obs, other, x, q, 'copy of a large one')
    t = obs.call('PartialContext.transpose', pc.transpose)
    views(obs, t, x.transpose(), q.transpose(), 'transpose of a large one')
    a, b = rng.getrandbits(m), rng.getrandbits(m)
    obs.call('PartialContext.add_object_with_intent', other.add_object_with_intent, (x.an(a & b), x.an(b)), 'new')
    views(obs, other, Ref(x.objs + ['new'], x.atts, x.rows + [a & b]), Ref(q.objs + ['new'], q.atts, q.rows + [b]), 'add to a large one')
    views(obs, pc, x, q, 'after its copy was extended')
    # implications that some total version satisfies, and completion by them
    pool = range(m) if m < 9 else rng.sample(range(m), 8)
    tot = Ref(q.objs, q.atts, [a | b & rng.getrandbits(m) for a, b in zip(x.rows, q.rows)])
    tot = Ref(tot.objs, tot.atts, [r & ~((1 << pool[0]) | (1 << pool[-1])) | (rng.choice([0, (1 << pool[0]) | (1 << pool[-1])]) & b) | a
                                   for r, a, b in zip(tot.rows, x.rows, q.rows)])
    imps = [fca.Implication({ref_a}, {ref_b}) for ref_a in [q.atts[j] for j in pool] for ref_b in [q.atts[j] for j in pool] if ref_a != ref_b]
    imps = [z for z in imps if tot.holds(tot.am(z.premise), tot.am(z.conclusion))][:6]
    am = imasks(x, imps)
    obs.call('PartialContext.complete', unprinted(rng, pc.complete), imps)
    used = sum(1 << j for j in pool)
    nx, nq = [], []
    for k, (a, b) in enumerate(zip(x.rows, q.rows)):
        c = mask_close(a, am)
        nx.append(c)
        out = 0
        for j in range(m):
            if b >> j & 1 and mask_close(c | 1 << j, am) & ~b:
                out |= 1 << j
        nq.append(b & ~out)
    views(obs, pc, Ref(x.objs, x.atts, nx), Ref(q.objs, q.atts, nq), 'completion of a large one')
    if imps:
        obs.tag('large completed')
    obs.state('large', n, m, x.rows, q.rows)
    obs.tag('large')


def case(rng, obs, i):
    if i % 75 == 43:
        return large(rng, obs)
    wide = i % 20 == 7                                       # more attributes, more implications
    ref = gen.spec(rng, 4, 11, mix='o', min_att=8) if wide else gen.spec(rng, 5, 6, mix='o')
    q = ref
    d = rng.choice([0, 0, .2, .5, .9])
    x = Ref(ref.objs, ref.atts, [r & ~sum(1 << j for j in range(ref.m) if rng.random() < d) for r in ref.rows])
    obs.sample = {'certain': gen.show(x), 'possible': gen.show(q)}
    hist = obs.sample['history'] = []
    mk = lambda r: [list(t) for t in r.table()] if rng.random() < .5 else [[int(v) for v in t] for t in r.table()]
    # acceptance
    if ref.n and ref.m:
        y = Ref(x.objs, x.atts, list(x.rows))
        for _ in range(rng.randint(1, 2)):
            k = rng.randrange(ref.n)
            y.rows[k] ^= 1 << rng.randrange(ref.m)
        ok = all(a & b == a for a, b in zip(y.rows, q.rows))
        obs.eq(bool(obs.call('subseteq_table', subseteq_table, mk(y), mk(q))), ok, 'inclusion of tables misjudged')
        if ok:
            views(obs, obs.call('PartialContext', PartialContext, mk(y), mk(q), list(y.objs), list(y.atts)), y, q, 'accepted')
        else:
            obs.refuse('PartialContext!', ValueError, PartialContext, mk(y), mk(q), list(y.objs), list(y.atts))
            obs.tag('refused construction')
    if ref.n and rng.random() < .15:                         # tables of other dimensions
        t, u = mk(x), mk(q)
        v = rng.choice([t, u])
        if rng.random() < .5:
            v.pop() if rng.random() < .5 else v.append(list(v[0]))
        else:
            wider = not ref.m or rng.random() < .5
            for r in v:
                r.append(v is u or False) if wider else r.pop()
        obs.refuse('subseteq_table!', ValueError, subseteq_table, t, u)
        obs.refuse('PartialContext!', ValueError, PartialContext, t, u, list(x.objs), list(x.atts))
        obs.tag('tables of different dimensions')
    O, A = list(x.objs), list(x.atts)
    if rng.random() < .15:                                   # names given repeatedly
        for names in (O, A):
            if len(names) > 1 and rng.random() < .7:
                names[rng.randrange(len(names))] = rng.choice(names)
    given = list(O), list(A)
    pc = obs.call('PartialContext', PartialContext, mk(x), mk(q), O, A)
    x, q = adopt(obs, pc, O, A, x.rows, q.rows, 'construction')
    views(obs, pc, x, q, 'construction')
    judge_open(obs, pc, x, q, 'construction', rng)
    for step in range(rng.randint(2, 10)):
        op = rng.choice(['add', 'add', 'refused add', 'copy', 'transpose', 'complete', 'complete', 'open'])
        if op == 'add':
            if x.n > 8:
                continue
            b = rng.getrandbits(x.m) if x.m else 0
            a = b & (rng.getrandbits(x.m) if x.m else 0)
            name = other_name(rng, x.objs, .12)
            hist.append(('add', repr(name), repr((x.an(a), x.an(b)))))
            obs.call('PartialContext.add_object_with_intent', pc.add_object_with_intent, (x.an(a), x.an(b)), name)
            x, q = adopt(obs, pc, x.objs + [name], x.atts, x.rows + [a], q.rows + [b], 'add')
        elif op == 'refused add':
            if not x.m:
                continue
            b = rng.getrandbits(x.m) & ~(1 << rng.randrange(x.m))
            a = b & rng.getrandbits(x.m) | 1 << rng.choice([j for j in range(x.m) if not b >> j & 1])
            hist.append(('refused add', repr((x.an(a), x.an(b)))))
            obs.refuse('PartialContext.add_object_with_intent!', ValueError, pc.add_object_with_intent,
                       (x.an(a), x.an(b)), other_name(rng, x.objs))
        elif op == 'copy':
            other = obs.call('copy.deepcopy', copy.deepcopy, pc)
            views(obs, other, x, q, 'copy')
            a = rng.getrandbits(x.m) if x.m else 0
            if rng.random() < .5:
                pc, other = other, pc
            other.add_object_with_intent((x.an(a), x.an(a)), other_name(rng, x.objs))
            hist.append(('copy',))
        elif op == 'transpose':
            t = obs.call('PartialContext.transpose', pc.transpose)
            views(obs, t, x.transpose(), q.transpose(), 'transpose')
            a = rng.getrandbits(x.n) if x.n else 0
            t.add_object_with_intent((x.on(a), x.on(a)), other_name(rng, x.atts))
            hist.append(('transpose',))
        elif op == 'complete':
            if wide and rng.random() < .6 and x.n:               # long chains
                tot = Ref(x.objs, x.atts, [a | b & rng.getrandbits(x.m) for a, b in zip(x.rows, q.rows)])
                names = list(x.atts)
                rng.shuffle(names)
                imps = [fca.Implication({s}, {t}) for s, t in zip(names, names[1:])]
                if rng.random() < .8:
                    imps = [z for z in imps if tot.holds(tot.am(z.premise), tot.am(z.conclusion))]
                imps += [random_imp(rng, tot) for _ in range(rng.randint(0, 8))]
                rng.shuffle(imps)
                obs.tag('many implications')
            elif rng.random() < .6 and x.n:      # implications that some total version satisfies
                tot = Ref(x.objs, x.atts, [a | b & rng.getrandbits(x.m) if x.m else 0 for a, b in zip(x.rows, q.rows)])
                imps = [random_imp(rng, tot) for _ in range(rng.randint(0, 5))]
            else:
                imps = [random_imp(rng, x, False) for _ in range(rng.randint(0, 3))]
            am = imasks(x, imps)
            hist.append(('complete', repr(imps)))
            snap = isnap(imps)
            if all(mask_close(a, am) & ~b == 0 for a, b in zip(x.rows, q.rows)):
                V = [versions(a, b, am) for a, b in zip(x.rows, q.rows)]
                obs.call('PartialContext.complete', unprinted(rng, pc.complete), imps)
                got = list(pc.intents())
                obs.eq(len(got), x.n, 'completion changed the number of examples')
                nx, nq = [], []
                for k, (a, b) in enumerate(got):
                    a, b = x.am(a), x.am(b)
                    obs.check(a & b == a, 'after completion a certain cross is not possible', example=x.objs[k])
                    obs.eq(a, mask_close(x.rows[k], am), 'completion: forced attributes are not exactly the certain ones')
                    obs.check(versions(a, b, am) == V[k], 'completion changed the possible total versions of an example',
                              example=x.objs[k], before=sorted(V[k]), after=sorted(versions(a, b, am)))
                    u = 0
                    for v in V[k]:
                        u |= v
                    obs.eq(b, u, 'completion: an attribute of no total version is still possible')
                    nx.append(a)
                    nq.append(b)
                x, q = Ref(x.objs, x.atts, nx), Ref(q.objs, q.atts, nq)
            else:
                obs.refuse('PartialContext.complete!', ValueError, unprinted(rng, pc.complete), imps)
                obs.tag('refused completion')
                views(obs, pc, x, q, 'after a completion that failed')
            obs.eq(isnap(imps), snap, 'the given implications were modified')
        obs.tag(op)
        views(obs, pc, x, q, op)
        if rng.random() < .5:
            judge_open(obs, pc, x, q, op, rng)
        obs.state(op, x.rows, q.rows, x.m)
    obs.eq((O, A), given, 'the given name lists were modified')
