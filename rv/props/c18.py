import fca
import gen
from fca import Context, Implication
from fca.algorithms.exploration2 import exploration as ex
from lib import check_relative, imasks, isnap, other_name, random_imp, ref_of, check_views, suffix_ok
from model import Ref, mask_close

CASES = {'quick': 4000, 'thorough': 90000}
RULE = ('sessions of 4-16 steps: accepting candidates and other valid implications, rejecting candidates and other '
        'implications with genuine, false and conflicting counterexamples, adding objects through the context (now and then under a taken name), and '
        'modifying every list and set handed out; after each step objects, intents, extents, accepted implications and '
        'candidates are compared with the model. Non-trivial: a distinct (step, outcome, incidence, accepted) situation.')
STEPS = 10_000_000


def look(s):
    x = s.context
    return (list(x.objects), list(x.attributes), [x.get_intent(o) for o in x.objects],
            [x.get_extent(a) for a in x.attributes], isnap(s.get_accepted_implications()))


def grown(obs, s, ref, name, m):
    """the model after an added object; a taken name comes apart by suffixes, which the objects show"""
    asked = ref.objs + [name]
    if name in ref.objs:
        got = list(s.context.objects)
        suffix_ok(obs, got, asked, 'an object under a taken name')
        asked = got
    return Ref(asked, ref.atts, ref.rows + [m])


def judge(obs, s, ref, acc, what):
    x = s.context
    obs.eq((list(x.objects), list(x.attributes)), (ref.objs, ref.atts), what + ': names of the session context')
    obs.eq([set(x.get_intent(o)) for o in ref.objs], [ref.an(r) for r in ref.rows], what + ': object intents')
    obs.eq([set(x.get_extent(a)) for a in ref.atts], [ref.on(c) for c in ref.cols()], what + ': attribute extents')
    obs.eq(isnap(s.get_accepted_implications()), isnap(acc), what + ': accepted implications')
    am = imasks(ref, acc)
    for k, row in enumerate(ref.rows):
        obs.check(mask_close(row, am) == row, what + ': an object violates an accepted implication', object=ref.objs[k])
    check_relative(obs, obs.call('get_candidates', s.get_candidates), ref, am, what + ': candidates')
    obs.state(what, ref.rows, ref.m, sorted(am))


def doubtful(rng, obs):
    """an accepted implication that an object of the context violates: what is added has to respect it all the same"""
    ref = gen.spec(rng, 6, 5, mix='o')
    if not ref.n or not ref.m:
        return
    obs.sample = gen.show(ref)
    s = ex.Exploration(ex.ExplorationContext(gen.build(fca, ref, rng))).create_session()
    acc = []
    for _ in range(rng.randint(1, 3)):
        x = random_imp(rng, ref, False)
        obs.call('accept_implication', s.accept_implication, x)
        acc.append(x)
    am = imasks(ref, acc)
    for _ in range(6):
        m = rng.choice(ref.rows) if rng.random() < .7 else rng.getrandbits(ref.m)
        name = other_name(rng, ref.objs)
        x = random_imp(rng, ref, False)
        p, q = imasks(ref, [x])[0]
        bad = (ex.IllegalContextModification,) if mask_close(m, am) != m else ()
        before = look(s)
        if rng.random() < .5:
            f, a = s.context.add_object, (name, ref.an(m))
        else:
            f, a = s.reject_implication, (x, name, ref.an(m))
            bad += () if p & m == p and q & m != q else (ex.FalseCounterexample,)
        if bad:
            obs.refuse('doubtful!', bad, f, *a)
            obs.eq(look(s), before, 'a refused addition changed the session')
            obs.tag('like an object that violates' if m in ref.rows else 'violates')
        else:
            obs.call('doubtful', f, *a)
            ref = Ref(ref.objs + [name], ref.atts, ref.rows + [m])
        obs.eq([set(s.context.get_intent(o)) for o in s.context.objects], [ref.an(r) for r in ref.rows], 'object intents')
        obs.eq(isnap(s.get_accepted_implications()), isnap(acc), 'accepted implications')


def case(rng, obs, i):
    if i % 30 == 13:
        return doubtful(rng, obs)
    ref = gen.spec(rng, 6, 6, mix='o')
    obs.sample = gen.show(ref)
    hist = obs.sample['history'] = []
    inner = gen.build(fca, ref, rng)
    cxt = ex.ExplorationContext(inner)
    e = obs.call('Exploration', ex.Exploration, cxt)
    if rng.random() < .2:
        ref = gen.spec(rng, 6, 6, mix='o')
        obs.sample.update(gen.show(ref))
        inner = gen.build(fca, ref, rng)
        cxt = ex.ExplorationContext(inner)
        e.set_context(cxt)
    others = []

    def another():
        """another session of the same exploration or of another one of the same context: its knowledge is its own"""
        by = e if rng.random() < .5 else obs.call('Exploration', ex.Exploration, cxt)
        there = [random_imp(rng, ref, rng.random() < .5) for _ in range(rng.randint(0, 2))]
        o = obs.call('Exploration.create_session', by.create_session)
        for x in there:
            o.accept_implication(x)
        others.append((o, there))
        obs.tag('two sessions of one exploration' if by is e else 'two explorations of one context')
    if rng.random() < .15:
        another()
    s = obs.call('Exploration.create_session', e.create_session)
    if rng.random() < .15:
        another()
    acc = []
    judge(obs, s, ref, acc, 'start')
    for step in range(rng.randint(4, 16)):
        am = imasks(ref, acc)
        if rng.random() < .03:
            another()
        op = rng.choice(['accept', 'accept', 'reject', 'reject', 'reject', 'add', 'meddle', 'edit'])
        before = look(s)
        cand = s.get_candidates()
        name = other_name(rng, ref.objs, .12)
        m = rng.getrandbits(ref.m) if ref.m else 0
        if rng.random() < .6:
            m = mask_close(m, am)
        bad = None
        if op == 'accept':
            x = rng.choice(cand) if cand and rng.random() < .7 else random_imp(rng, ref)
            hist.append(('accept', repr(x)))
            obs.call('accept_implication', s.accept_implication, x)
            acc = acc + [x]
        elif op == 'reject':
            if ref.n > 10:
                continue
            x = rng.choice(cand) if cand and rng.random() < .8 else random_imp(rng, ref, rng.random() < .5)
            p, q = imasks(ref, [x])[0]
            if rng.random() < .5:
                m = mask_close(m | p, am)
            bad = ()
            if not (p & m == p and q & m != q):
                bad += (ex.FalseCounterexample,)
            if mask_close(m, am) != m:
                bad += (ex.IllegalContextModification,)
            given = ref.an(m)
            hist.append(('reject', repr(x), repr(name), repr(given)))
            if bad:
                obs.refuse('reject_implication!', bad, s.reject_implication, x, name, given)
                op = 'refused rejection'
            else:
                obs.call('reject_implication', s.reject_implication, x, name, given)
                ref = grown(obs, s, ref, name, m)
            obs.eq(given, ref.an(m), 'the given intent was modified')
            given.clear()                                # the caller's own set afterwards
        elif op == 'add':
            if ref.n > 10:
                continue
            given = ref.an(m)
            hist.append(('add_object', repr(name), repr(given)))
            if mask_close(m, am) != m:
                bad = (ex.IllegalContextModification,)
                obs.refuse('ExplorationContext.add_object!', bad, s.context.add_object, name, given)
                op = 'refused addition'
            else:
                obs.call('ExplorationContext.add_object', s.context.add_object, name, given)
                ref = grown(obs, s, ref, name, m)
        elif op == 'edit':                               # the table under the session is edited by its owner
            if not ref.n:
                continue
            k = rng.randrange(ref.n)
            O, R = list(ref.objs), list(ref.rows)
            name = other_name(rng, ref.objs)
            how = rng.choice(['set', 'set', 'rename', 'delete', 'replace'])
            m = mask_close(m, am)
            hist.append(('edit', how, repr(O[k]), repr(ref.an(m))))
            if how == 'set':
                inner.set_object_intent(ref.an(m), O[k])
                R[k] = m
            elif how == 'rename':
                inner.rename_object(O[k], name)
                O[k] = name
            else:
                inner.delete_object(O[k])
                del O[k], R[k]
                if how == 'replace':
                    inner.add_object_with_intent(ref.an(m), name)
                    O.append(name)
                    R.append(m)
            ref = Ref(O, ref.atts, R)
            op = 'edit under the session'
        else:
            x = s.context
            k = rng.randrange(6)
            if k == 0:
                x.objects.append('intruder')
            elif k == 1:
                x.attributes.clear()
            elif k == 2 and ref.n:
                x.get_intent(rng.choice(ref.objs)).clear()
            elif k == 3 and ref.m:
                x.get_extent(rng.choice(ref.atts)).update({'intruder'})
            elif k == 4:
                s.get_accepted_implications().append(None)
            else:
                cand.clear()
            hist.append(('meddle', k))
            bad = True
        if bad:
            obs.eq(look(s), before, '%s changed the session' % op)
        obs.tag(op)
        judge(obs, s, ref, acc, op)
    for o, there in others:
        obs.eq(isnap(o.get_accepted_implications()), isnap(there), 'another session over the context accepted something')
