import itertools
import os
import random
import core
import fca
import gen
from fca import Concept, ConceptLattice, ConceptSystem, Context, ManyValuedContext
from fca.algorithms import closure_operators as co
from fca.algorithms import implication_covers as ic
from fca.algorithms.exploration import BasicExploration
from fca.algorithms.exploration2.exploration import Exploration, ExplorationContext
from fca.algorithms.exploration_.exploration import ExplorationDB
from fca.algorithms import factors
from fca.algorithms.dg_basis import compute_dg_basis, compute_dg_basis_simple, dg_basis_iter_simple
from fca.algorithms.filtering import compute_extent_size, filter_concepts
from fca.algorithms.patterns import BasicPatternExploration, iterate_positive_patterns
from fca.partial_context import PartialContext
from fca.readwrite.comma_separated import read_csv, read_mv_csv
from fca.readwrite.cxt import read_cxt, uread_cxt, uwrite_cxt, write_cxt
from fca.readwrite.tab_separated import (read_mv_txt, read_txt, read_txt_with_names, uread_mv_txt, uwrite_mv_txt,
                                         write_mv_txt)
from fca.readwrite.xml_ import read_xml, uread_xml, write_xml
from lib import Editor, check_basis, check_concepts, check_views, snapshot
from model import Ref
from props.c29 import all_of, bag, entry_points, inputs, pic, spoil
from threads import Baton

CASES = {'quick': 2200, 'thorough': 50000}
RULE = ('2-4 threads of 1-4 calls each, of which one at a time runs and hands over at chosen lines or bytecode '
        'instructions of the library (at every point with a rate from 1/3 to 1/300, or at 1-4 points in all): the read-only '
        'entry points of C29 on shared inputs, readers and writers of files of their own, dialogues, edits and completions '
        'on objects of their own; and, in a third of the cases, up to four iterators advanced in turn with further calls in '
        'between and from within callbacks, some answers modified by their receiver. Every answer is compared with the one '
        'given alone, then the shared inputs, then the context after further edits with the model. Non-trivial: a distinct '
        'interleaving of distinct calls.')
STEPS = 120_000_000


# ------------------------------------------------------------ things a thread does with objects of its own
def own_context(rng, n=4, m=4, kinds=('plain', 'letters', 'texty')):
    ref = gen.spec(rng, n, m, kinds)
    return ref, Context(ref.table(), list(ref.objs), list(ref.atts))


def do_xml(rng, tmp):
    _, c = own_context(rng)
    p = os.path.join(tmp, 'x.xml')
    write_xml(p, ConceptLattice(c))
    r = rng.choice([read_xml, uread_xml])
    return lambda: r(p)


def do_write_xml(rng, tmp):
    _, c = own_context(rng)
    p = os.path.join(tmp, 'w.xml')
    L = ConceptLattice(c)
    f = lambda: (write_xml(p, L), read_xml(p))[1]
    return f


def do_cxt(rng, tmp):
    _, c = own_context(rng)
    p = os.path.join(tmp, 'x.cxt')
    w, r = rng.choice([(write_cxt, read_cxt), (uwrite_cxt, uread_cxt)])
    return lambda: (w(c, p), r(p))[1]


def do_mv(rng, tmp):
    p = os.path.join(tmp, 'x.txt')
    n, m = rng.randint(1, 4), rng.randint(1, 3)
    mv = ManyValuedContext([[rng.randint(0, 9) for _ in range(m)] for _ in range(n)],
                           ['o%d' % k for k in range(n)], ['a%d' % k for k in range(m)])
    w, r = rng.choice([(write_mv_txt, read_mv_txt), (uwrite_mv_txt, uread_mv_txt)])
    return lambda: (w(mv, p), r(p))[1]


def do_text(rng, tmp):
    ref, c = own_context(rng)
    p = os.path.join(tmp, 'y.txt')
    d = rng.choice([',', '\t', 'names'])
    sep = ',' if d == ',' else '\t'
    with open(p, 'w', encoding='utf-8') as f:
        f.write(sep.join('a%d' % j for j in range(ref.m + 1)) + '\n' + ('' if d == ',' else '\n'))
        for k, r in enumerate(ref.rows):
            f.write(sep.join((['o%d' % k] if d != '\t' else []) + ['01'[r >> j & 1] for j in range(ref.m)] + ['0']) + '\n')
    r = {',': rng.choice([read_csv, read_mv_csv]), '\t': read_txt, 'names': read_txt_with_names}[d]
    return lambda: r(p)


def do_edits(rng, tmp):
    ref, c = own_context(rng, 5, 5)
    plan = [rng.randrange(6) for _ in range(rng.randint(1, 4))]
    masks = [(rng.getrandbits(9), rng.getrandbits(9)) for _ in plan]

    def f():
        out = []
        for k, (op, (x, y)) in enumerate(zip(plan, masks)):
            O, A = list(c.objects), list(c.attributes)
            if op == 0:
                c.add_object_with_intent([a for j, a in enumerate(A) if x >> j & 1], 'new%d' % k)
            elif op == 1:
                c.add_attribute_with_extent([o for j, o in enumerate(O) if x >> j & 1], 'new%d' % k)
            elif op == 2 and O:
                c.set_object_intent([a for j, a in enumerate(A) if x >> j & 1], O[y % len(O)])
            elif op == 3 and A:
                c.set_attribute_extent([o for j, o in enumerate(O) if x >> j & 1], A[y % len(A)])
            elif op == 4 and len(O) > 1:
                c.delete_object(O[y % len(O)])
            elif op == 5 and A:
                c.rename_attribute(A[y % len(A)], 'other%d' % k)
            out.append(pic(c))
            out.append(bag(c.get_attribute_implications()))
            out.append(bag(c.concepts))
        return out
    return f


def do_db(rng, tmp):
    _, c = own_context(rng)
    bits_ = [rng.getrandbits(8) for _ in range(4)]

    def f():
        db = ExplorationDB(c, [])
        out = []
        for k, b in enumerate(bits_):
            op = list(db.open_implications)
            if not op:
                break
            imp = min(op, key=lambda i: (sorted(i.premise), sorted(i.conclusion)))
            if b & 1:
                db.confirm_implication(imp)
            else:
                try:
                    db.add_example('ex%d' % k, set(imp.premise))
                except Exception as e:
                    out.append(type(e).__name__)
            out.append((bag(db.open_implications), bag(db.base), pic(c)))
        return out
    return f


def do_basic(rng, tmp):
    _, c = own_context(rng)
    bits_ = [rng.getrandbits(8) for _ in range(3)]

    def f():
        e = BasicExploration(c)
        out = []
        for k, b in enumerate(bits_):
            if b & 1 and e.attribute_implications:
                e.confirm_attribute_implication(b % len(e.attribute_implications))
            elif e.attribute_implications:
                x = e.attribute_implications[b % len(e.attribute_implications)]
                try:
                    e.counter_example_for_attr_implication('ex%d' % k, set(x.premise), b % len(e.attribute_implications))
                except Exception as x:
                    out.append(type(x).__name__)
            out.append((bag(e.attribute_implications), bag(e.object_implications),
                        bag(e.confirmed_attribute_implications), pic(e.context)))
        return out
    return f


def do_session(rng, tmp):
    _, c = own_context(rng)
    bits_ = [rng.getrandbits(8) for _ in range(3)]

    def f():
        s = Exploration(ExplorationContext(c)).create_session()
        out = []
        for k, b in enumerate(bits_):
            cand = s.get_candidates()
            if not cand:
                break
            imp = cand[b % len(cand)]
            try:
                if b & 1:
                    s.accept_implication(imp)
                else:
                    s.reject_implication(imp, 'ex%d' % k, set(imp.premise))
            except Exception as e:
                out.append(type(e).__name__)
            out.append((bag(s.get_candidates()), bag(s.get_accepted_implications()), pic(c)))
        return out
    return f


def do_patterns(rng, tmp):
    ref, c = own_context(rng)
    neg = Context(Ref(['n0', 'n1'], ref.atts, gen.table(rng, 2, ref.m)).table(), ['n0', 'n1'], list(ref.atts))

    def f():
        e = BasicPatternExploration(c, neg)
        ps = sorted((sorted(p), n) for p, n in e.get_unconfirmed_patterns_with_examples())
        out = [ps]
        for p, _ in ps[:2]:
            try:
                e.confirm_pattern(set(p))
            except Exception as x:
                out.append(type(x).__name__)
            out.append(sorted(o for o, _ in e.iterate_unexplained_examples()))
        return out
    return f


def do_partial(rng, tmp):
    ref = gen.spec(rng, 4, 4, ('plain',))
    x = Ref(ref.objs, ref.atts, [r & rng.getrandbits(ref.m) if ref.m else 0 for r in ref.rows])
    pc = PartialContext(x.table(), ref.table(), list(ref.objs), list(ref.atts))
    imps = [fca.Implication(gen.subset(rng, ref.atts), gen.subset(rng, ref.atts)) for _ in range(2)]

    def f():
        try:
            pc.complete(imps)
        except ValueError:
            return 'refused'
        return pic(pc), bag(pc.get_attribute_implications())
    return f


def do_cover(rng, tmp):
    ref, c = own_context(rng)

    def f():
        cover = ic.compute_implication_cover(c)
        ic.minimize(cover)
        return bag(cover)
    return f


def do_system(rng, tmp):
    ref, c = own_context(rng)
    L = list(ConceptLattice(c))
    more = Concept(['own'], list(ref.atts))

    def f():
        s = ConceptSystem(L)
        out = [[pic(p) for p in s.parents(x)].__len__() for x in L]
        s.append(more)
        s.remove(s[0])
        return out, [frozenset(pic(p) for p in s.parents(x)) for x in s]
    return f


def do_duplicates(rng, tmp):
    n, m = rng.randint(2, 5), rng.randint(1, 4)
    o, a = [rng.choice('xy') for _ in range(n)], [rng.choice('pq') for _ in range(m)]
    t = Ref(range(n), range(m), gen.table(rng, n, m)).table()
    return lambda: Context(t, list(o), list(a))


OWN = {'read xml': do_xml, 'write and read xml': do_write_xml, 'write and read cxt': do_cxt,
       'write and read values': do_mv, 'read text': do_text, 'edit own context': do_edits, 'own exploration': do_db,
       'own two-sided exploration': do_basic, 'own session': do_session, 'own patterns': do_patterns,
       'complete own partial context': do_partial, 'own cover': do_cover, 'own concept system': do_system,
       'context with repeated names': do_duplicates}
FOCUS = {'bases': 'mplications asis cover'.split(), 'concepts': 'oncept orris atti Filter filter compute_'.split(),
         'files': 'read write'.split(), 'derivation': 'prime closure intent extent'.split()}


def plan(rng, shared, E, own):
    """names of the calls of one thread"""
    names = sorted(E) + sorted(own) * 2
    k = rng.choice(sorted(FOCUS) + ['any', 'any'])
    if k != 'any':
        names = [n for n in names if any(f in n for f in FOCUS[k])] or names
    return [rng.choice(names) for _ in range(rng.randint(1, 4))]


def set_up(seed, obs, i, n, where):
    """the same shared inputs and calls every time it is run"""
    rng = random.Random(seed)
    I = inputs(rng, obs, i)
    calls = []
    for t in range(n):
        tmp = os.path.join(obs.tmp, '%s%d' % (where, t))
        os.makedirs(tmp, exist_ok=True)
        r = random.Random('%s.%d' % (seed, t))
        E = entry_points(r, I, tmp)
        own = {k: f(random.Random('%s.%d.%s' % (seed, t, k)), tmp) for k, f in OWN.items()}
        if t == 0 or r.random() < .6:
            names = plan(r, I, E, own)
        calls.append([(k, own[k] if k in own else E[k]) for k in names])
    return I, calls


# ------------------------------------------------------------ iterators and callbacks
def iterators(rng, I):
    """name -> a fresh iterator over answers about shared inputs"""
    c, ref = I.c, I.ref
    fid = rng.choice([.6, 1])
    G = {'iterate_concepts': c.iterate_concepts, 'examples': c.examples, 'intents': c.intents,
         'iter(Context)': lambda: ([bool(x) for x in r] for r in c),
         'iter(ConceptLattice)': lambda: iter(I.lattice), 'iter(ConceptSystem)': lambda: iter(I.system),
         'PartialContext.intents': I.pc.intents,
         'iterate_positive_patterns': lambda: iterate_positive_patterns(c, I.other)}
    if ref.m <= 8:
        G['attribute_implications_iter'] = c.attribute_implications_iter
        G['dg_basis_iter_simple'] = lambda: dg_basis_iter_simple(c, imp_basis=I.bg)
    if ref.m <= 12:
        G['algorithm2'] = lambda: factors.algorithm2(c, fid)
        G['algorithm2_weighted'] = lambda: factors.algorithm2_weighted(c, fid)
        G['algorithm2_w_condition'] = lambda: itertools.islice(factors.algorithm2_w_condition(c, fid, True, 1, False), 100)
    return G


def callers(rng, I):
    """name -> call(hook), which calls the hook in the middle of its work"""
    c, ref = I.c, I.ref
    B = {}

    def hooked(hook, f):
        def g(*a):
            hook()
            return f(*a)
        return g
    if ref.m <= 8:
        ok = rng.choice([lambda a: True, lambda a: len(a) < 2])
        for n, f in (('get_attribute_implications', lambda h: c.get_attribute_implications(cond=hooked(h, ok))),
                     ('get_attribute_implications(confirmed)', lambda h: c.get_attribute_implications(
                         confirmed=I.bg, cond=hooked(h, ok))),
                     ('get_attribute_implications(basis=)', lambda h: c.get_attribute_implications(
                         basis=lambda x, imp_basis, cond: (h(), compute_dg_basis_simple(x, imp_basis=imp_basis, cond=cond))[1])),
                     ('get_object_implications(basis=)', lambda h: c.get_object_implications(
                         basis=lambda x, imp_basis: (compute_dg_basis(x, imp_basis=imp_basis), h())[0])),
                     ('compute_dg_basis', lambda h: compute_dg_basis(c, imp_basis=I.bg, cond=hooked(h, ok))),
                     ('compute_dg_basis_simple', lambda h: compute_dg_basis_simple(c, imp_basis=I.bg, cond=hooked(h, ok))),
                     ('dg_basis_iter_simple', lambda h: list(dg_basis_iter_simple(c, imp_basis=I.bg, cond=hooked(h, ok)))),
                     ('PartialContext.get_attribute_implications', lambda h: I.pc.get_attribute_implications(
                         cond=hooked(h, ok))),
                     ('ExplorationDB', lambda h: ExplorationDB(c, list(I.bg), hooked(h, ok)).open_implications)):
            B[n] = f
    B['extract_subcontext_by_condition'] = lambda h: I.mv.extract_subcontext_by_condition(hooked(h, lambda k: k != 1))
    if len(I.lattice) and ref.n and ref.m:
        B['filter_concepts'] = lambda h: filter_concepts(
            I.lattice, hooked(h, compute_extent_size), 'abs', 2)
    return B


def within(rng, obs, i):
    """one thread: several iterators advanced in turn, other calls in between and from within callbacks"""
    seed = '%d:%d' % (i, rng.getrandbits(40))

    def make():
        r = random.Random(seed)
        I = inputs(r, obs, i)
        E = entry_points(r, I, obs.tmp)
        own = {k: f(random.Random('%s.%s' % (seed, k)), obs.tmp) for k, f in OWN.items()}
        return I, iterators(r, I), callers(r, I), dict(E, **own)
    I, G, B, E = make()
    obs.sample = gen.show(I.ref)
    gs = [rng.choice(sorted(G)) for _ in range(rng.randint(0, 4))]
    if rng.random() < .5 and gs:
        gs[1:] = [gs[0]] * len(gs[1:])                  # the same iterator several times
    b = rng.choice(sorted(B)) if rng.random() < .6 or not gs else None
    inner = [rng.choice(plan(rng, I, E, own_names(E))) for _ in range(rng.randint(0, 4))]
    obs.sample['iterators'], obs.sample['caller'], obs.sample['called'] = gs, b, inner
    alone_g = {g: [bag(x) for x in obs.call(g, lambda: list(G[g]()))] for g in gs}
    alone_b = bag(obs.call(b, lambda: B[b](lambda: None))) if b else None
    # a thing of one's own is worked on once: it must not be picked twice
    inner = sorted(set(inner), key=lambda e: (inner.index(e), e))
    alone_e = {e: bag(E[e]()) for e in inner}
    I, G, B, E = make()
    before = all_of(I)
    its, got = [G[g]() for g in gs], [[] for _ in gs]
    live = set(range(len(gs)))
    todo = list(inner)

    def step():
        if live and (not todo or rng.random() < .7):
            k = rng.choice(sorted(live))
            try:
                x = next(its[k])
                # concepts get the rest of their extents as the iterator goes on
                got[k].append(x if isinstance(x, Concept) else bag(x))
                if rng.random() < .2:
                    spoil(x)
                    obs.tag('answers modified')
            except StopIteration:
                live.discard(k)
        elif todo:
            e = todo.pop()
            x = E[e]()
            obs.apis[e] = obs.apis.get(e, 0) + 1
            obs.check(bag(x) == alone_e[e], e + ': called in the middle of other work, another answer than alone',
                      alone=alone_e[e], got=bag(x))
            if rng.random() < .5:
                spoil(x)
                obs.tag('answers modified')
        else:
            return
        obs.tag('steps in between')
    if b:
        hooks = []

        def hook():
            hooks.append(1)
            if len(hooks) < 200:
                for _ in range(rng.choice([0, 1, 1, 2, 4])):
                    step()
        x = bag(obs.call(b, lambda: B[b](hook)))
        obs.check(x == alone_b, b + ': with other work from within its callback, another answer than alone',
                  alone=alone_b, got=x)
        obs.tag('callbacks')
        obs.tags['calls back'] = obs.tags.get('calls back', 0) + len(hooks)
    while live or todo:
        step()
    for k, g in enumerate(gs):
        got[k] = [bag(x) if isinstance(x, Concept) else x for x in got[k]]
        obs.check(got[k] == alone_g[g], g + ': advanced in turn with others, it yields something else than alone',
                  alone=alone_g[g], got=got[k], others=gs)
    now = all_of(I)
    for k in before:
        obs.check(before[k] == now[k], 'work in between changed a shared input (%s)' % k, before=before[k], after=now[k])
    obs.tag('within')
    check_views(obs, I.c, I.ref, 'after work in between')
    after_edits(rng, obs, I, 'work in between and an edit')
    obs.state(gs, b, inner, I.ref.rows)


def own_names(E):
    return {k: E[k] for k in E if k in OWN}


def body(calls):
    def f():
        out = []
        for name, call in calls:
            try:
                out.append((name, bag(call())))
            except core.StepBudget:
                out.append((name, 'no answer'))
                break
            except Exception as e:
                out.append((name, ('raised', type(e).__name__, str(e)[:300])))
        return out
    return f


def after_edits(rng, obs, J, when):
    """nothing stays behind"""
    ed = Editor(rng, obs, J.c, J.ref, collide=0, max_n=9, max_m=8)
    for _ in range(rng.randint(1, 3) if max(J.ref.n, J.ref.m) < 30 else 0):
        ed.step()
        check_views(obs, J.c, ed.ref, 'after ' + when)
        if ed.ref.m <= 8:
            check_basis(obs, J.c.get_attribute_implications(), ed.ref, 'basis after ' + when)
        check_concepts(obs, J.c.concepts, ed.ref, 'concepts after ' + when)
        obs.eq([J.c.get_object_intent(o) for o in ed.ref.objs], [ed.ref.an(r) for r in ed.ref.rows],
               'row intents after ' + when)
        obs.eq([co.aprime({a}, J.c) for a in ed.ref.atts], [ed.ref.on(x) for x in ed.ref.cols()],
               'column extents after ' + when)


def case(rng, obs, i):
    if rng.random() < .35:
        return within(rng, obs, i)
    n = rng.choice([2, 2, 2, 3, 4])
    seed = '%d:%d' % (i, rng.getrandbits(40))
    fine = rng.random() < .35
    I, calls = set_up(seed, obs, i, n, 'a')
    obs.sample = dict(gen.show(I.ref), calls=[[k for k, _ in c] for c in calls])
    # alone, one after the other
    want, count = [], 0
    for t in range(n):
        b = Baton(rng, fine)
        r = b.run([body(calls[t])])[0]
        if isinstance(r, BaseException):
            raise r
        want.append(r)
        count += b.events
    for t, r in enumerate(want):
        for name, x in r:
            obs.check(x != 'no answer', name + ' gave no answer alone')
            obs.check(not (isinstance(x, tuple) and x[:1] == ('raised',)), name + ' failed alone', result=x)
    # side by side
    J, again = set_up(seed, obs, i, n, 'b')
    before = all_of(J)
    if rng.random() < .6:
        b = Baton(rng, fine, rate=rng.choice([1 / 3, .1, .03, .01, 1 / 300]))
    else:
        b = Baton(rng, fine, steps=[rng.randint(1, max(1, count)) for _ in range(rng.randint(1, 4))])
    got = b.run([body(c) for c in again])
    for r in got:
        if isinstance(r, BaseException):
            raise r
    obs.sample['handed over at'] = [list(map(str, x)) for x in b.trace[:40]]
    for t, c in enumerate(again):
        for k, (name, _) in enumerate(c):
            obs.apis[name] = obs.apis.get(name, 0) + 2
            obs.event('answer', 'thread %d' % t, name, got[t][k] if k < len(got[t]) else None)
    for t in range(n):
        for (name, w), (_, g) in zip(want[t], got[t]):
            obs.check(g == w, name + ': side by side with other threads, another answer than alone', alone=w, got=g,
                      others=[[k for k, _ in c] for u, c in enumerate(again) if u != t])
        obs.eq(len(got[t]), len(want[t]), 'number of answers')
    now = all_of(J)
    for k in before:
        obs.check(before[k] == now[k], 'running side by side changed a shared input (%s)' % k, before=before[k], after=now[k])
    obs.checks += len(before)
    after_edits(rng, obs, J, 'running side by side and an edit')
    obs.tag('instructions' if fine else 'lines')
    obs.tag('%d threads' % n)
    for _ in range(b.switches and 1):
        obs.tag('interleaved')
    obs.tags['steps'] = obs.tags.get('steps', 0) + b.events
    obs.tags['hand-overs'] = obs.tags.get('hand-overs', 0) + b.switches
    obs.tags['hand-overs because of a wait'] = obs.tags.get('hand-overs because of a wait', 0) + b.takeovers
    if b.switches:
        obs.state(b.trace, obs.sample['calls'])
