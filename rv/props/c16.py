import copy
import fca
import gen
from fca import Context, Implication
from fca.algorithms.exploration_ import exploration as ex
from lib import check_relative, check_views, imasks, isnap, other_name, random_imp, snapshot, typed
from model import Ref, bits, mask_close

CASES = {'quick': 4000, 'thorough': 90000}
RULE = ('histories of 4-16 operations (valid and invalid confirm, withdraw, reject with single or several '
        'counterexamples, add, delete, edit and rename of examples and attributes) on databases over random contexts '
        'and base knowledge; after every operation examples, names, base and the exact relative basis are compared '
        'with the replayed model; one case in five is a whole dialogue with a truthful expert. Non-trivial: a distinct '
        '(operation, outcome, incidence, base) situation.')
STEPS = 10_000_000


def look(db, cxt):
    return (snapshot(cxt), list(db.objects), list(db.attributes), isnap(db.base), isnap(db.open_implications))


def judge(obs, db, cxt, ref, base, what, cond=None):
    obs.eq((list(db.objects), list(db.attributes)), (ref.objs, ref.atts), what + ': names differ from the history')
    check_views(obs, cxt, ref, what)
    got = [(frozenset(i.premise), frozenset(i.premise | i.conclusion)) for i in db.base]
    obs.eq(got, [(frozenset(i.premise), frozenset(i.premise | i.conclusion)) for i in base],
           what + ': confirmed implications differ from the history')
    for k, row in enumerate(ref.rows):
        for imp in base:
            p, q = ref.am(imp.premise), ref.am(imp.premise | imp.conclusion)
            obs.check(p & row != p or q & row == q, what + ': an example violates a confirmed implication',
                      example=ref.objs[k], imp=imp)
    if cond is None:
        check_relative(obs, db.open_implications, ref, imasks(ref, base), what + ': open implications')
    else:
        judge_cond(obs, db, cxt, ref, base, cond, what)
    obs.state(what, ref.rows, ref.m, sorted(imasks(ref, base)))


def conds(rng):
    """a condition on the premises of open implications"""
    k = rng.randint(0, 3)
    return rng.choice([lambda x: len(x) >= k, lambda x: len(x) <= k, lambda x: len(x) % 2 == k % 2, lambda x: False])


def judge_cond(obs, db, cxt, ref, base, cond, what):
    got = db.open_implications
    for imp in got:
        p, q = ref.am(imp.premise), ref.am(imp.premise | imp.conclusion)
        obs.check(cond(set(imp.premise)), what + ': an open implication whose premise does not meet the condition', imp=imp)
        obs.check(ref.holds(p, q), what + ': an open implication that does not hold', imp=imp)
    fresh = obs.call('get_attribute_implications', cxt.get_attribute_implications, confirmed=list(base), cond=cond)
    key = lambda imps: {(frozenset(i.premise), frozenset(i.premise | i.conclusion)) for i in imps}
    obs.eq(key(got), key(fresh), what + ': open implications are not those of the current context under the condition')
    obs.tag('with a condition on premises')


def respects(ref, base, m, atts=None):
    return all(mask_close(m, [x]) == m for x in imasks(ref, base))


def renamed(b, old, new):
    if old not in b.premise | b.conclusion:
        return b
    return Implication(*[{new if x == old else x for x in part} for part in (b.premise, b.get_conclusion())])


def dialogue(rng, obs):
    """a truthful expert: the universe is a hidden context"""
    U = gen.spec(rng, 10, 6, gen.ANY_KINDS, mix='o')
    known = gen.subset(rng, range(U.n)) if rng.random() < .6 else []
    ref = Ref([U.objs[i] for i in known], U.atts, [U.rows[i] for i in known])
    base = [random_imp(rng, U) for _ in range(rng.randint(0, 3))]
    obs.sample = dict(gen.show(U), known=known, base=[repr(b) for b in base])
    cxt = gen.build(fca, ref, rng)

    class Expert:
        def provide_counterexample(self, imp):
            p, q = U.am(imp.premise), U.am(imp.premise | imp.conclusion)
            c = [i for i in range(U.n) if U.rows[i] & p == p and U.rows[i] & q != q]
            i = rng.choice(c)
            ns, its = [U.objs[i]], [U.an(U.rows[i])]
            ask.append(i)
            if rng.random() < .25:              # volunteers a second object
                j = rng.randrange(U.n)
                if U.objs[j] not in cxt.objects and j != i:
                    ns.append(U.objs[j])
                    its.append(U.an(U.rows[j]))
                    ask.append(j)
            return (ns[0], its[0]) if len(ns) == 1 and rng.random() < .5 else (ns, its)
    ask = []
    db = obs.call('ExplorationDB', ex.ExplorationDB, cxt, list(base))
    ae = ex.AttributeExploration(db, Expert())
    for step in range(3000):
        op = ae.get_open_implications()
        if not op:
            break
        imp = rng.choice(op)
        p, q = U.am(imp.premise), U.am(imp.premise | imp.conclusion)
        if U.holds(p, q):
            many = [x for x in op if U.holds(U.am(x.premise), U.am(x.premise | x.conclusion))]
            if rng.random() < .2 and len(many) > 1:
                obs.call('confirm_implications', ae.confirm_implications, many)
            else:
                obs.call('confirm_implication', ae.confirm_implication, imp)
            obs.tag('expert confirms')
        else:
            del ask[:]
            obs.call('reject_implication', ae.reject_implication, imp)
            for i in ask:
                ref = Ref(ref.objs + [U.objs[i]], ref.atts, ref.rows + [U.rows[i]])
            obs.tag('expert rejects')
        if rng.random() < .4:
            judge(obs, db, cxt, ref, db.base, 'dialogue')
    else:
        obs.check(False, 'the dialogue with a truthful expert does not end')
    bm = imasks(U, db.base)
    for s in range(1 << U.m):
        obs.eq(mask_close(s, bm), U.ac(s), 'after the dialogue the confirmed implications are not the knowledge of the expert',
               attribute_set=U.an(s), base=db.base)
    obs.state('dialogue', U.rows, U.m, sorted(known))


def doubtful(rng, obs):
    """background knowledge that an example violates: what is added or changed has to respect it all the same"""
    ref = gen.spec(rng, 6, 5, gen.ANY_KINDS)
    if not ref.n or not ref.m:
        return
    obs.sample = gen.show(ref)
    cxt = gen.build(fca, ref, rng)
    base = [random_imp(rng, ref, False) for _ in range(rng.randint(1, 3))]
    db = obs.call('ExplorationDB', ex.ExplorationDB, cxt, list(base))
    am = imasks(ref, base)
    for _ in range(6):
        m = rng.choice(ref.rows) if rng.random() < .7 else rng.getrandbits(ref.m)
        fresh = other_name(rng, ref.objs)
        before = look(db, cxt)
        bad = mask_close(m, am) != m
        k = None
        if rng.random() < .6:
            f, a = db.add_example, (fresh, ref.an(m))
        else:
            k = rng.randrange(ref.n)
            f, a = db.edit_example, (rng.choice([fresh, ref.objs[k]]), ref.objs[k], ref.an(m))
            bad = bad and m != ref.rows[k]
        if bad:
            obs.refuse('doubtful!', ex.IllegalContextModification, f, *a)
            obs.eq(look(db, cxt), before, 'a refused change of doubtful knowledge changed something')
            obs.tag('like an example that violates')
        else:
            obs.call('doubtful', f, *a)
            O, R = list(ref.objs), list(ref.rows)
            if k is None:
                O, R = O + [fresh], R + [m]
            else:
                O[k], R[k] = a[0], m
            ref = Ref(O, ref.atts, R)
        check_views(obs, cxt, ref, 'doubtful knowledge')
        obs.eq(isnap(db.base), isnap(base), 'doubtful knowledge changed')


def case(rng, obs, i):
    if i % 30 == 13:
        return doubtful(rng, obs)
    if i % 5 == 4:
        return dialogue(rng, obs)
    ref = gen.spec(rng, 6, 6, gen.STR_KINDS + gen.ANY_KINDS)
    if i % 40 == 17:
        n, m = rng.randint(9, 40), rng.randint(2, 6)
        ref = Ref(gen.names(rng, n, rng.choice(gen.ANY_KINDS), 'o'), gen.names(rng, m, rng.choice(gen.ANY_KINDS), 'a'), gen.table(rng, n, m))
        if rng.random() < .6:
            ref.rows[:] = [r | 3 if r & 3 else r for r in ref.rows]
            ref = Ref(ref.objs, ref.atts, ref.rows)
        obs.tag('9-40 examples')
    base = [random_imp(rng, ref) for _ in range(rng.randint(0, 3))]
    cxt = gen.build(fca, ref, rng)
    obs.sample = dict(gen.show(ref), base=[repr(b) for b in base])
    hist = obs.sample['history'] = []
    cond = conds(rng) if rng.random() < .2 else None
    db = obs.call('ExplorationDB', ex.ExplorationDB, cxt, list(base), *([] if cond is None else [cond]))
    give = []

    class Expert:
        def provide_counterexample(self, imp):
            return give[0]
    ae = ex.AttributeExploration(db, Expert())
    judge(obs, db, cxt, ref, base, 'start', cond)

    for step in range(rng.randint(4, 16)):
        used = set().union(*[b.premise | b.conclusion for b in base]) if base else set()
        O, A, R = list(ref.objs), list(ref.atts), list(ref.rows)
        fresh_o = other_name(rng, O)
        m = rng.getrandbits(ref.m) if ref.m else 0
        if rng.random() < .6:
            m = mask_close(m, imasks(ref, base))
        before = look(db, cxt)
        held, were = list(base), isnap(base)
        op = rng.choice(['confirm', 'confirm', 'unconfirm', 'add', 'add', 'delete', 'edit', 'edit', 'add_attribute',
                         'delete_attribute', 'edit_attribute', 'edit_attribute', 'reject', 'reject', 'touch'])
        bad = None                                   # exceptions one of which must be raised
        if op == 'confirm':
            imps = db.open_implications
            x = rng.choice(imps) if imps and rng.random() < .6 else random_imp(rng, ref)
            f, a = rng.choice([db.confirm_implication, ae.confirm_implication]), (x,)
            base = base + [x]
        elif op == 'unconfirm':
            if not base:
                continue
            x = rng.choice(base)
            f, a = rng.choice([db.unconfirm_implication, ae.unconfirm_implication]), (x,)
            base = list(base)
            base.remove(x)
        elif op == 'add':
            name = rng.choice(O) if O and rng.random() < .15 else fresh_o
            f, a = db.add_example, (name, ref.an(m))
            bad = ()
            if not respects(ref, base, m):
                bad += (ex.IllegalContextModification,)
            if name in O:
                bad += (ex.NotUniqueObjectName,)
            ref = Ref(O + [name], A, R + [m]) if not bad else ref
        elif op == 'delete':
            name = rng.choice(O) if O and rng.random() < .8 else fresh_o
            f, a = db.delete_example, (name,)
            if name in O:
                k = ref.oi[name]
                ref = Ref(O[:k] + O[k + 1:], A, R[:k] + R[k + 1:])
            else:
                bad = (Exception,)
        elif op == 'edit':
            if not O:
                continue
            old = rng.choice(O)
            new = rng.choice([old, old, fresh_o, rng.choice(O)])
            if rng.random() < .25:
                m = R[ref.oi[old]]
            f, a = db.edit_example, (new, old, ref.an(m))
            bad = ()
            if new != old and new in O:
                bad += (ex.NotUniqueObjectName,)
            if m != R[ref.oi[old]] and not respects(ref, base, m):
                bad += (ex.IllegalContextModification,)
            if not bad:
                k = ref.oi[old]
                O[k], R[k] = new, m
                ref = Ref(O, A, R)
        elif op == 'add_attribute':
            if ref.m >= 8:
                continue
            name = rng.choice(A) if A and rng.random() < .2 else other_name(rng, A)
            ext = rng.getrandbits(ref.n) if ref.n else 0
            f, a = db.add_attribute, (name, ref.on(ext))
            if name in A:
                bad = (ex.NotUniqueAttributeName,)
            else:
                ref = Ref(O, A + [name], [r | (ext >> k & 1) << ref.m for k, r in enumerate(R)])
        elif op == 'delete_attribute':
            free = [x for x in A if x not in used]
            if used and rng.random() < .3:
                name = rng.choice([x for x in A if x in used])
                bad = (ex.IllegalContextModification,)
            elif free and rng.random() < .8:
                name = rng.choice(free)
                j = ref.ai[name]
                low = (1 << j) - 1
                ref = Ref(O, A[:j] + A[j + 1:], [r & low | (r >> (j + 1)) << j for r in R])
            else:
                name = other_name(rng, A)
                bad = (Exception,)
            f, a = db.delete_attribute, (name,)
        elif op == 'edit_attribute':
            if not A:
                continue
            old = rng.choice(A)
            new = old
            if rng.random() < .6:
                new = rng.choice([other_name(rng, A), rng.choice(A)])
            ext = rng.getrandbits(ref.n) if ref.n else 0
            j = ref.ai[old]
            if rng.random() < .4 and ref.n:          # one example changed, or none
                ext = sum((r >> j & 1) << k for k, r in enumerate(R)) ^ rng.choice([0, 1 << rng.randrange(ref.n), 1 << ref.n - 1])
            rows = [r & ~(1 << j) | (ext >> k & 1) << j for k, r in enumerate(R)]
            f, a = db.edit_attribute, (new, old, ref.on(ext))
            bad = ()
            if new != old and new in A:
                bad += (ex.NotUniqueAttributeName,)
            if not all(respects(ref, base, r) for r in rows):
                bad += (ex.IllegalContextModification,)
            if not bad:
                A[j] = new
                ref = Ref(O, A, rows)
                if new != old:
                    base = [renamed(b, old, new) for b in base]
                    if old in used:
                        obs.tag('renamed in confirmed implications')
        elif op == 'reject':
            imps = db.open_implications
            if not imps:
                continue
            x = rng.choice(imps)
            p, q = ref.am(x.premise), ref.am(x.premise | x.conclusion)
            if rng.random() < .6:
                m = mask_close(m | p, imasks(ref, base))
            name = rng.choice(O) if O and rng.random() < .1 else fresh_o
            names, ms = [name], [m]
            bad = ()
            if not (p & m == p and q & m != q):
                bad += (ex.NotCounterexample,)
            if not respects(ref, base, m):
                bad += (ex.IllegalContextModification,)
            if name in O:
                bad += (ex.NotUniqueObjectName,)
            if bad and ex.NotCounterexample in bad:
                bad = (ex.NotCounterexample,)
            if rng.random() < .3 and (not bad or bad == (ex.NotCounterexample,)):
                m2 = mask_close(rng.getrandbits(ref.m) if ref.m else 0, imasks(ref, base))
                n2 = other_name(rng, O + [name])
                if not bad and rng.random() < .4:        # the first is fine, a later one is not
                    if rng.random() < .5:
                        n2 = rng.choice(O + [name])
                        bad = (ex.NotUniqueObjectName,)
                    else:
                        m2 = rng.getrandbits(ref.m)
                        if respects(ref, base, m2):
                            bad = ()
                        else:
                            bad = (ex.IllegalContextModification,)
                    obs.tag('second of two examples refused' if bad else 'two examples')
                names.append(n2)
                ms.append(m2)
            give[:] = [(name, ref.an(m)) if len(names) == 1 and rng.random() < .5 else (names, [ref.an(z) for z in ms])]
            f, a = ae.reject_implication, (x,)
            hist.append(('counterexample', repr(give[0])))
            if not bad:
                ref = Ref(O + names, A, R + ms)
        else:
            f, a = rng.choice([db.touch, db.complete]), ()
        hist.append((op,) + tuple(repr(z) for z in a))
        if bad:
            obs.refuse('refused ' + op, bad, f, *a)
            obs.eq(look(db, cxt), before, 'a refused %s changed something' % op)
            obs.tag('refused ' + op)
            obs.state('refused ' + op, ref.rows, ref.m, sorted(imasks(ref, base)))
        else:
            obs.call(op, f, *a)
            obs.tag(op)
            judge(obs, db, cxt, ref, base, op, cond)
        obs.eq(isnap(held), were, 'an implication that was given to be confirmed was modified')
        if rng.random() < .1:                        # what is handed out can be modified
            db.open_implications.clear()
            db.base.append(None)
            judge(obs, db, cxt, ref, base, 'after modifying handed out lists', cond)
