import fca
import gen
from fca.algorithms import exploration as ex
from fca.context import NotUniqueElementException
from lib import check_views, ipairs, isnap, other_name, snapshot, want_basis
from model import Ref, mask_close

CASES = {'quick': 3000, 'thorough': 70000}
RULE = ('histories of 4-14 operations (confirmations by position, counterexamples of both kinds, additions, edits; '
        'about a third meant to be refused) from random initial contexts; after every operation context, both candidate '
        'lists and both confirmed lists are compared with a model that decides acceptance from the sets alone. '
        'Some sessions confirm dozens of implications before each is put to the test. '
        'Non-trivial: a distinct (operation, outcome, incidence, confirmed) situation.')
STEPS = 5_000_000


def look(e):
    return (snapshot(e.context), isnap(e.attribute_implications), isnap(e.object_implications),
            isnap(e.confirmed_attribute_implications), isnap(e.confirmed_object_implications))


def all_hold(ref, ca, co):
    t = ref.transpose()
    return (all(ref.holds(ref.am(p), ref.am(q)) for p, q in ca) and
            all(t.holds(t.am(p), t.am(q)) for p, q in co))


def judge(obs, e, ref, ca, co, what):
    check_views(obs, e.context, ref, what)
    for side, r, cand, conf, mine in (('attribute', ref, e.attribute_implications, e.confirmed_attribute_implications, ca),
                                      ('object', ref.transpose(), e.object_implications, e.confirmed_object_implications, co)):
        obs.eq(ipairs(conf), mine, '%s: confirmed %s implications differ from the history' % (what, side))
        for p, q in mine:
            obs.check(r.holds(r.am(p), r.am(q)), '%s: a confirmed %s implication does not hold' % (what, side), imp=(p, q))
        want = want_basis(r) - set(mine)
        got = ipairs(cand)
        obs.eq((len(got), set(got)), (len(want), want),
               '%s: candidate %s implications are not the basis without the confirmed ones' % (what, side))
    obs.state(what, ref.rows, ref.m, sorted(map(repr, ca)), sorted(map(repr, co)))


def index(rng, n):
    """a position, sometimes counted from the end"""
    k = rng.randrange(n)
    return k - n if rng.random() < .15 else k


def many(rng, obs):
    """a session with a great many confirmed implications, one side or both"""
    z = rng.choice([5, 6, 7, 10, 12])
    ref = Ref(gen.names(rng, z, 'plain', 'o'), gen.names(rng, z, rng.choice(['plain', 'letters', 'long']), 'a'),
              [1 << k for k in range(z)])                       # every two attributes imply all
    if z < 7:
        ref = Ref(ref.objs, ref.atts, [ref.M & ~r for r in ref.rows]) if rng.random() < .2 else ref
    obs.sample = gen.show(ref)
    e = obs.call('BasicExploration', ex.BasicExploration, gen.build(fca, ref, rng))
    ca, co = [], []
    for side in rng.choice(['a', 'o', 'ao']):
        cand = e.attribute_implications if side == 'a' else e.object_implications
        keep = rng.choice([0, 0, 1, 3])
        while len(cand) > keep:
            k = index(rng, len(cand))
            (ca if side == 'a' else co).extend(ipairs([cand[k]]))
            obs.call('confirm', e.confirm_attribute_implication if side == 'a' else e.confirm_object_implication, k)
            cand = e.attribute_implications if side == 'a' else e.object_implications
    judge(obs, e, ref, ca, co, 'many confirmed')
    t = ref.transpose()
    for side, r, conf, put, edit in (('a', ref, ca, e.add_object, e.edit_object), ('o', t, co, e.add_attribute, e.edit_attribute)):
        allm = [(r.am(p), r.am(p | q)) for p, q in conf]
        for k in rng.sample(range(len(allm)), min(len(allm), 12)):      # broken alone, all others kept where they can be
            m = mask_close(allm[k][0], allm[:k] + allm[k + 1:])
            before = look(e)
            if mask_close(m, allm) == m:
                continue
            obs.refuse('refused addition', (ex.BasisConflict,), put, r.an(m), 'new name')
            obs.refuse('refused edit', (ex.BasisConflict,), edit, r.an(m), rng.choice(r.objs))
            obs.eq(look(e), before, 'a refused operation changed something')
    obs.tag('many confirmed')


def case(rng, obs, i):
    if i % 150 == 77:
        return many(rng, obs)
    kinds = ['plain', 'shuffled', 'letters', 'reversed', 'texty', 'suffix']
    ref = gen.spec(rng, 5, 5, kinds + (gen.ANY_KINDS if rng.random() < .3 else []))
    init = gen.build(fca, ref, rng)
    ref0 = ref.copy()
    obs.sample = gen.show(ref)
    hist = obs.sample['history'] = []
    e = obs.call('BasicExploration', ex.BasicExploration, init)
    ca, co = [], []
    judge(obs, e, ref, ca, co, 'start')
    for step in range(rng.randint(4, 14)):
        O, A, R = list(ref.objs), list(ref.atts), list(ref.rows)
        t = ref.transpose()
        before = look(e)
        op = rng.choice(['confirm_a', 'confirm_o', 'cex_a', 'cex_a', 'cex_o', 'cex_o', 'add_object', 'add_attribute',
                         'edit_object', 'edit_object', 'edit_attribute', 'edit_attribute'])
        bad = None
        am = [(ref.am(p), ref.am(q)) for p, q in ca]
        om = [(t.am(p), t.am(q)) for p, q in co]
        m = rng.getrandbits(ref.m) if ref.m else 0
        x = rng.getrandbits(ref.n) if ref.n else 0
        if rng.random() < .6:
            m, x = mask_close(m, am), mask_close(x, om)
        if op == 'confirm_a':
            if not e.attribute_implications:
                continue
            k = index(rng, len(e.attribute_implications))
            ca = ca + ipairs([e.attribute_implications[k]])
            f, a = e.confirm_attribute_implication, (k,)
        elif op == 'confirm_o':
            if not e.object_implications:
                continue
            k = index(rng, len(e.object_implications))
            co = co + ipairs([e.object_implications[k]])
            f, a = e.confirm_object_implication, (k,)
        elif op in ('cex_a', 'add_object'):
            if ref.n >= 9:
                continue
            name = rng.choice(O) if O and rng.random() < .15 else other_name(rng, O + A)
            bad = (NotUniqueElementException,) if name in O else ()
            if op == 'cex_a':
                if not e.attribute_implications:
                    continue
                k = index(rng, len(e.attribute_implications))
                p, q = [ref.am(z) for z in ipairs([e.attribute_implications[k]])[0]]
                if rng.random() < .6:
                    m = mask_close(m | p, am)
                if p & m != p:
                    bad += (ex.NotCounterExamplePremise,)
                elif q & m == q:
                    bad += (ex.NotCounterExampleConclusion,)
                f, a = e.counter_example_for_attr_implication, (name, ref.an(m), k)
            else:
                f, a = e.add_object, (ref.an(m), name)
            if mask_close(m, am) != m:
                bad = bad + (ex.BasisConflict,)
            if not bad:
                ref = Ref(O + [name], A, R + [m])
        elif op in ('cex_o', 'add_attribute'):
            if ref.m >= 8:
                continue
            name = rng.choice(A) if A and rng.random() < .15 else other_name(rng, O + A)
            bad = (NotUniqueElementException,) if name in A else ()
            if op == 'cex_o':
                if not e.object_implications:
                    continue
                k = index(rng, len(e.object_implications))
                p, q = [t.am(z) for z in ipairs([e.object_implications[k]])[0]]
                if rng.random() < .6:
                    x = mask_close(x | p, om)
                if p & x != p:
                    bad += (ex.NotCounterExamplePremise,)
                elif q & x == q:
                    bad += (ex.NotCounterExampleConclusion,)
                f, a = e.counter_example_for_obj_implication, (name, ref.on(x), k)
            else:
                f, a = e.add_attribute, (ref.on(x), name)
            if mask_close(x, om) != x:
                bad = bad + (ex.BasisConflict,)
            if not bad:
                ref = Ref(O, A + [name], [r | (x >> k & 1) << ref.m for k, r in enumerate(R)])
        elif op == 'edit_object':
            name = rng.choice(O) if O and rng.random() < .9 else other_name(rng, O)
            f, a = e.edit_object, (ref.an(m), name)
            if name not in O:
                bad = (Exception,)
            else:
                rows = list(R)
                rows[ref.oi[name]] = m
                new = Ref(O, A, rows)
                if all_hold(new, ca, co):
                    ref = new
                else:
                    bad = (ex.BasisConflict,)
        else:
            name = rng.choice(A) if A and rng.random() < .9 else other_name(rng, A)
            f, a = e.edit_attribute, (ref.on(x), name)
            if name not in A:
                bad = (Exception,)
            else:
                j = ref.ai[name]
                new = Ref(O, A, [r & ~(1 << j) | (x >> k & 1) << j for k, r in enumerate(R)])
                if all_hold(new, ca, co):
                    ref = new
                else:
                    bad = (ex.BasisConflict,)
        hist.append((op,) + tuple(repr(z) for z in a))
        given = [set(z) if isinstance(z, set) else z for z in a]
        if bad:
            obs.refuse('refused ' + op, bad, f, *a)
            obs.eq(look(e), before, 'a refused %s changed something' % op)
            obs.tag('refused ' + op)
            obs.state('refused ' + op, ref.rows, ref.m, sorted(map(repr, ca)), sorted(map(repr, co)))
        else:
            obs.call(op, f, *a)
            obs.tag(op)
            judge(obs, e, ref, ca, co, op)
        obs.eq(list(a), given, 'a given set was modified')
        if rng.random() < .1:
            before, r0 = look(e), obs.call('BasicExploration.__repr__', repr, e)
            obs.eq(look(e), before, 'printing changed something')
            rest = r0
            for title, what in (('Context:', str(e.context)), ('Attribute implications:', e.attribute_implications),
                                ('Confirmed attribute implications:', e.confirmed_attribute_implications),
                                ('Object implications:', e.object_implications),
                                ('Confirmed object implications:', e.confirmed_object_implications)):
                body = what if isinstance(what, str) else ''.join('%s\n' % imp for imp in what)
                obs.check(rest.startswith(title + '\n'), 'the printed form lacks a heading', heading=title, printed=r0)
                rest = rest[len(title) + 1:].lstrip('=')[1:]
                obs.check(rest.startswith(body), 'a part of the printed form is not what the exploration holds', part=title, want=body,
                          printed=r0)
                rest = rest[len(body):]
                if isinstance(what, str):
                    rest = rest[1:]
            obs.eq(rest, '', 'the end of the printed form')
            obs.tag('printed')
    check_views(obs, init, ref0, 'the initial context')
