import fca
import gen
from fca import Implication
from fca.algorithms.exploration_ import exploration as ex
from fca.partial_context import PartialContext
from lib import check_views, contain, imasks, isnap, other_name, random_imp
from model import Ref, bits, mask_close

CASES = {'quick': 4000, 'thorough': 90000}
RULE = ('dialogues about a hidden context of which an expert knows every object but reports attributes of examples only in '
        'part: whole dialogues until no implication is open, and histories of 4-16 operations (confirming open and other '
        'implications, valid, refuted and unsatisfiable; withdrawing; rejecting with partial and total, single and several, '
        'genuine, false, contradictory and uncompletable counterexamples; adding examples; completing; touching), with and '
        'without a condition on premises; after every step the certain and possible attributes of every example, names, '
        'confirmed and open implications are judged. Non-trivial: a distinct (operation, outcome, both incidences, base).')
STEPS = 10_000_000


def look(db, pc):
    return (list(pc.objects), list(pc.attributes), [(frozenset(a), frozenset(b)) for a, b in pc.intents()],
            isnap(db.base), isnap(db.open_implications))


def completed(x, q, am):
    """forced and still possible attributes of each example; None if some example has no completion"""
    nx, nq = [], []
    for a, b in zip(x.rows, q.rows):
        c = mask_close(a, am)
        if c & ~b:
            return None
        p = c
        for j in bits(b & ~c):
            if not mask_close(c | 1 << j, am) & ~b:
                p |= 1 << j
        nx.append(c)
        nq.append(p)
    return Ref(x.objs, x.atts, nx), Ref(q.objs, q.atts, nq)


def xq(x, q, s):
    r = (1 << x.m) - 1
    for a, b in zip(x.rows, q.rows):
        if a & s == s:
            r &= b
    return r


def judge(obs, db, pc, x, q, base, what, cond=None):
    obs.eq((list(db.objects), list(db.attributes)), (x.objs, x.atts), what + ': names differ from the history')
    check_views(obs, pc.x_context, x, what + ': certain attributes')
    check_views(obs, pc.q_context, q, what + ': possible attributes')
    obs.eq([(frozenset(i.premise), frozenset(i.premise | i.conclusion)) for i in db.base],
           [(frozenset(i.premise), frozenset(i.premise | i.conclusion)) for i in base],
           what + ': confirmed implications differ from the history')
    am = imasks(x, base)
    for k, (a, b) in enumerate(zip(x.rows, q.rows)):
        obs.check(not a & ~b, what + ': a certain attribute is not possible', example=x.objs[k])
        obs.check(not mask_close(a, am) & ~b, what + ': no version of an example respects the confirmed implications',
                  example=x.objs[k], base=base)
    op = db.open_implications
    om = imasks(x, op)
    for i, (p, c) in enumerate(om):
        obs.check(cond is None or cond(set(op[i].premise)), what + ': an open implication whose premise is not admitted', imp=op[i])
        obs.check(not c & ~xq(x, q, p), what + ': an open implication is refuted by an example', imp=op[i])
        obs.check(mask_close(p, am) == p, what + ': the premise of an open implication is not closed under the confirmed ones',
                  imp=op[i])
        obs.check(c & ~p, what + ': an open implication says nothing', imp=op[i])
    obs.eq(len(set(p for p, _ in om)), len(om), what + ': two open implications with one premise')
    if cond is None and not op:
        for s in range(1 << x.m):
            if mask_close(s, am) == s:
                obs.check(xq(x, q, s) == s, what + ': nothing is open, but an implication that no example refutes is not confirmed',
                          premise=x.an(s), conclusion=x.an(xq(x, q, s)), confirmed=base)
        obs.tag('nothing open')
    if cond is None:
        for k in range(len(om)):
            rest = om[:k] + om[k + 1:]
            obs.check(om[k][1] & ~mask_close(om[k][0], am + rest), what + ': an open implication follows from the others', imp=op[k])
    fresh = obs.call('PartialContext.get_attribute_implications', pc.get_attribute_implications, confirmed=list(base),
                     **({} if cond is None else {'cond': cond}))
    obs.eq(sorted(om), sorted(imasks(x, fresh)), what + ': open implications are not those of the current examples')
    obs.state(what, x.rows, q.rows, x.m, sorted(am))


def conds(rng):
    k = rng.randint(0, 3)
    return rng.choice([lambda x: len(x) >= k, lambda x: len(x) <= k, lambda x: len(x) % 2 == k % 2])


def veil(rng, row, m, keep=0, lost=0):
    """what is told of an object: (certain, possible); certainly has *keep*, certainly lacks *lost*"""
    d, e = rng.choice([(0, 0), (.5, .5), (.8, .3), (1, 1), (.2, 1)])
    a = b = row
    for j in range(m):
        if rng.random() < d:
            a &= ~(1 << j)
        if rng.random() < e:
            b |= 1 << j
    return a | keep, b & ~lost


def give_form(rng, ref, names, pairs):
    """the forms in which an expert may answer"""
    its = [(ref.an(a), ref.an(b)) for a, b in pairs]
    if rng.random() < .3:
        its = [list(t) for t in its]
    return rng.choice([list, tuple])(names), rng.choice([list, tuple])(its)


def case(rng, obs, i):
    m = rng.randint(0, 5)
    n = rng.randint(0, 7)
    U = Ref(gen.names(rng, n, rng.choice(gen.STR_KINDS + gen.ANY_KINDS), 'o'),
            gen.names(rng, m, rng.choice(gen.STR_KINDS + gen.ANY_KINDS), 'a'), gen.table(rng, n, m))
    known = gen.subset(rng, range(n))
    first = [veil(rng, U.rows[k], m) for k in known]
    base = [random_imp(rng, U) for _ in range(rng.randint(0, 3))]
    x = Ref([U.objs[k] for k in known], U.atts, [a for a, b in first])
    q = Ref([U.objs[k] for k in known], U.atts, [b for a, b in first])
    obs.sample = dict(gen.show(U), known=known, told=[(U.an(a), U.an(b)) for a, b in first], base=[repr(b) for b in base])
    hist = obs.sample['history'] = []
    T = lambda r: [[bool(v) for v in t] for t in r.table()]
    pc = obs.call('PartialContext', PartialContext, T(x), T(q), list(x.objs), list(x.atts))
    give = []

    class Expert:
        def provide_counterexample(self, imp):
            return give[0]
    cond = conds(rng) if i % 6 == 5 else None
    db = obs.call('ExplorationDB', ex.ExplorationDB, pc, list(base), *([] if cond is None else [cond]))
    ae = ex.AttributeExploration(db, Expert())
    judge(obs, db, pc, x, q, base, 'start', cond)
    truth = {U.objs[k]: U.rows[k] for k in known}
    count = 0
    if i % 3 == 0:
        return dialogue(rng, obs, U, db, ae, pc, give, x, q, base, hist, cond)
    for step in range(rng.randint(4, 16)):
        am = imasks(x, base)
        before = look(db, pc)
        count += 1
        name = other_name(rng, x.objs)
        op = rng.choice(['confirm', 'confirm', 'reject', 'reject', 'reject', 'add', 'add', 'unconfirm', 'complete', 'touch'])
        bad = None
        opens = db.open_implications
        if op == 'confirm':
            if opens and rng.random() < .7:
                imps = [rng.choice(opens) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
            else:
                imps = [random_imp(rng, U, rng.random() < .6)]
            if len(imps) == 1 and rng.random() < .6:
                f, a = ae.confirm_implication, (imps[0],)
            else:
                f, a = ae.confirm_implications, (imps,)
            new = completed(x, q, am + imasks(x, imps))
            if new is None:
                bad = (ValueError,)
            else:
                x, q = new
                base = base + imps
        elif op == 'unconfirm':
            if not base:
                continue
            z = rng.choice(base)
            f, a = ae.unconfirm_implication, (z,)
            base = list(base)
            base.remove(z)
        elif op in ('add', 'reject'):
            if x.n > 9:
                continue
            b = rng.getrandbits(m) if m else 0
            c = b & (rng.getrandbits(m) if m else 0)
            if rng.random() < .5 and n:
                c, b = veil(rng, rng.choice(U.rows), m)
            names, pairs = [name], [(c, b)]
            bad = ()
            if op == 'reject':
                if not opens:
                    continue
                imp = rng.choice(opens)
                p, k = imasks(x, [imp])[0]
                if rng.random() < .7 and k & ~p:
                    c |= p
                    b |= c
                    z = rng.choice(list(bits(k & ~p)))
                    c, b = c & ~(1 << z), b & ~(1 << z)
                    if rng.random() < .7:
                        c = mask_close(c, am)
                        b |= c
                    pairs = [(c, b)]
                if not c & ~b and not (p & c == p and k & ~b):
                    bad = (ex.NotCounterexample,)
                elif rng.random() < .3:
                    b2 = rng.getrandbits(m) if m else 0
                    c2 = b2 & rng.getrandbits(m) if m else 0
                    names.append(rng.choice(x.objs + [name]) if rng.random() < .15 else other_name(rng, x.objs + [name]))
                    pairs.append((c2, b2))
                    obs.tag('two partial examples')
            if not bad:
                if any(mask_close(c, am) & ~b for c, b in pairs):
                    bad += (ex.IllegalContextModification,)
                    obs.tag('uncompletable example')
                if rng.random() < .1 and x.objs:
                    names[0] = rng.choice(x.objs)
                if len(set(names)) < len(names) or set(names) & set(x.objs):
                    bad += (ex.NotUniqueObjectName,)
            if op == 'add':
                f, a = db.add_example, (names[0], (U.an(pairs[0][0]), U.an(pairs[0][1])))
            else:
                give[:] = [give_form(rng, U, names, pairs)]
                hist.append(('counterexample', repr(give[0])))
                f, a = ae.reject_implication, (imp,)
            if not bad:
                x = Ref(x.objs + names, x.atts, x.rows + [c for c, b in pairs])
                q = Ref(q.objs + names, q.atts, q.rows + [b for c, b in pairs])
                if op == 'reject':
                    x, q = completed(x, q, am)
        elif op == 'complete':
            f, a = db.complete, ()
            new = completed(x, q, am)
            if new is None:
                bad = (ValueError,)
            else:
                x, q = new
        else:
            f, a = db.touch, ()
        hist.append((op,) + tuple(repr(z) for z in a))
        if bad:
            obs.refuse('refused ' + op, bad, f, *a)
            obs.eq(look(db, pc), before, 'a refused %s changed something' % op)
            obs.tag('refused ' + op)
            obs.state('refused ' + op, x.rows, q.rows, sorted(am))
        else:
            obs.call(op, f, *a)
            obs.tag(op)
            judge(obs, db, pc, x, q, base, op, cond)


def dialogue(rng, obs, U, db, ae, pc, give, x, q, base, hist, cond):
    """a truthful expert who tells of each example at least what refutes the implication"""
    m = U.m
    truth = {o: U.rows[U.oi[o]] for o in x.objs}
    many = 0
    for step in range(2000):
        opens = db.open_implications
        if not opens:
            break
        imp = rng.choice(opens)
        p, c = imasks(U, [imp])[0]
        if U.holds(p, c):
            hist.append(('confirm', repr(imp)))
            obs.call('confirm_implication', ae.confirm_implication, imp)
            base = base + [imp]
            x, q = completed(x, q, imasks(x, base))
            obs.tag('expert confirms')
        else:
            k = rng.choice([k for k in range(U.n) if U.rows[k] & p == p and c & ~U.rows[k]])
            row = U.rows[k]
            many += 1
            name = U.objs[k] if U.objs[k] not in x.objs and rng.random() < .6 else other_name(rng, x.objs + U.objs)
            lost = rng.choice(list(bits(c & ~row)))
            pairs, names = [veil(rng, row, m, p, 1 << lost)], [name]
            truth[name] = row
            if rng.random() < .25:
                k2 = rng.randrange(U.n)
                names.append(other_name(rng, x.objs + U.objs + [name]))
                truth[names[-1]] = U.rows[k2]
                pairs.append(veil(rng, U.rows[k2], m))
            give[:] = [give_form(rng, U, names, pairs)]
            hist.append(('reject', repr(imp), repr(give[0])))
            obs.call('reject_implication', ae.reject_implication, imp)
            x = Ref(x.objs + names, x.atts, x.rows + [a for a, b in pairs])
            q = Ref(q.objs + names, q.atts, q.rows + [b for a, b in pairs])
            x, q = completed(x, q, imasks(x, base))
            obs.tag('expert rejects')
        if rng.random() < .5:
            judge(obs, db, pc, x, q, base, 'dialogue', cond)
        for o, a, b in zip(x.objs, x.rows, q.rows):
            obs.check(not a & ~truth[o] and not truth[o] & ~b, 'the dialogue denies what the expert knows of an example', example=o)
    else:
        obs.check(False, 'the dialogue with a truthful expert does not end')
    judge(obs, db, pc, x, q, base, 'end of dialogue', cond)
    if cond is None:
        bm = imasks(U, db.base)
        for s in range(1 << m):
            obs.eq(mask_close(s, bm), U.ac(s),
                   'after the dialogue the confirmed implications are not the knowledge of the expert', attribute_set=U.an(s))
    obs.state('dialogue', U.rows, m, many)
