import fca
import gen
import lib
from fca.algorithms import exploration as e0, patterns as pt
from fca.algorithms.exploration2 import exploration as e2
from fca.algorithms.exploration_ import exploration as e1
from fca.compare_context import subseteq_table
from fca.context import (ContextException, IncorrectAttributeException, IncorrectElementException, MultiplicationException,
                         NotContextException, NotTableException, NotUniqueElementException)
from fca.partial_context import PartialContext

CASES = {'quick': 4000, 'thorough': 100000}
RULE = ('calls that must be refused, over contexts and sets of every shape: tables of the wrong size, products that do not fit, unknown '
        'attribute names, wrong, harmless or conflicting counterexamples in all three explorations, negative examples and patterns that '
        'are none, partial tables that do not fit; the kind of the exception, what it carries and what its text names are compared '
        'with the call. Non-trivial: a distinct (kind, text).')
STEPS = 5_000_000


def text(obs, e, named, what):
    """the text of a refusal names all of these"""
    t = obs.call('str(%s)' % type(e).__name__, str, e)
    for x in named:
        obs.check(str(x) in t, what + ': the text of the refusal leaves out what it is about', text=t, lacking=x)
    obs.state(type(e).__name__, t)
    obs.tag(type(e).__name__)
    return t


def numbers(t):
    out, cur = [], ''
    for ch in t + ' ':
        if ch.isdigit():
            cur += ch
        elif cur:
            out.append(int(cur))
            cur = ''
    return out


def tables(rng, obs):
    n, m = rng.randint(0, 6), rng.randint(0, 6)
    T = [[rng.random() < .5 for _ in range(m)] for _ in range(n)]
    O, A = gen.names(rng, n, 'letters', 'o'), gen.names(rng, m, 'letters', 'a')
    k = rng.choice([x for x in range(0, 9) if x != n])
    e = obs.refuse('Context!', ValueError, fca.Context, T, ['o' + chr(97 + j) for j in range(k)], A)
    obs.eq(sorted(numbers(text(obs, e, [], 'Context'))), sorted([n, k]), 'the counts a refused table names')
    if n:
        k = rng.choice([x for x in range(0, 9) if x != m])
        e = obs.refuse('Context!', ValueError, fca.Context, T, O, ['a' + chr(97 + j) for j in range(k)])
        obs.eq(sorted(numbers(text(obs, e, [], 'Context'))), sorted([m, k]), 'the counts a refused table names')
    # products
    ref = gen.spec(rng, 6, 6)
    c = gen.build(fca, ref, rng)
    other = gen.spec(rng, 6, 6)
    if rng.random() < .4:
        other = gen.Ref(list(ref.atts[:-1]), gen.names(rng, 3, 'letters', 'a'), gen.table(rng, max(0, ref.m - 1), 3))
    d = gen.build(fca, other, rng)
    if ref.atts != other.objs:
        e = obs.refuse('Context.__mul__!', MultiplicationException, lambda: c * d)
        obs.eq((e.atts_num_l, e.objs_num_r), (ref.m, other.n), 'the sizes a refused product names')
        obs.check(isinstance(e, ContextException), 'a refused product is no refusal of a context')
        obs.eq(numbers(text(obs, e, [], 'product')), [ref.m, other.n], 'the sizes in the text of a refused product')
    # unknown names
    wrong = []
    for _ in range(rng.randint(1, 3) if rng.random() < .9 else rng.randint(4, 40)):
        w = lib.other_name(rng, ref.atts + wrong)
        if not isinstance(w, str) or '\n' not in w and '\t' not in w:
            wrong.append(w)
    names = gen.subset(rng, ref.atts) + wrong
    rng.shuffle(names)
    api, f = rng.choice([('extract_subcontext', lambda: c.extract_subcontext(names)),
                         ('extract_subcontext_filtered_by_attributes', lambda: c.extract_subcontext_filtered_by_attributes(
                             names, rng.choice(['and', 'or'])))])
    e = obs.refuse('Context.%s!' % api, ValueError, f)
    t = text(obs, e, wrong, api)
    obs.eq(sorted(l[1:] for l in t.split('\n') if l.startswith('\t')), sorted(map(str, wrong)), 'the names a refused subcontext names')
    x = rng.choice(ref.atts + ref.objs + ['x', 1, ('a', 2)])
    for e, x in ((NotUniqueElementException(x), x), (IncorrectAttributeException(x, ref.atts), x), (NotTableException(x), x)):
        obs.check(isinstance(e, ContextException), 'a refusal of a context is none', kind=type(e).__name__)
        text(obs, e, [x], 'element')
    obs.check(issubclass(IncorrectAttributeException, IncorrectElementException), 'an incorrect attribute is no incorrect element')
    text(obs, NotContextException(), ['ontext'], 'not a context')


def basic(rng, obs):
    ref = gen.spec(rng, 5, 5, min_obj=1, min_att=1)
    obs.sample = gen.show(ref)
    x = obs.call('BasicExploration', e0.BasicExploration, gen.build(fca, ref, rng))
    for kind, imps, univ, taken, counter, add, confirm, confirmed in (
            ('attribute', lambda: x.attribute_implications, ref.atts, ref.objs, x.counter_example_for_attr_implication, x.add_object,
             x.confirm_attribute_implication, lambda: x.confirmed_attribute_implications),
            ('object', lambda: x.object_implications, ref.objs, ref.atts, x.counter_example_for_obj_implication, x.add_attribute,
             x.confirm_object_implication, lambda: x.confirmed_object_implications)):
        new = lib.other_name(rng, taken)
        for _ in range(2):
            if not imps():
                break
            k = rng.randrange(len(imps()))
            imp = imps()[k]
            p, c = set(imp.premise), set(imp.conclusion)
            s = set(gen.subset(rng, univ))
            r = rng.random()
            s = s | p | c if r < .3 else s - {rng.choice(sorted(p, key=repr))} if p and r < .6 else s
            fault = []
            if not p <= s:
                fault.append(e0.NotCounterExamplePremise)
            if c <= s:
                fault.append(e0.NotCounterExampleConclusion)
            bad = [i for i in confirmed() if not i.is_respected(set(s))]
            if bad:
                fault.append(e0.BasisConflict)
            if not fault:
                continue
            e = obs.refuse('counter_example (%s)!' % kind, tuple(fault), counter, new, set(s), k)
            obs.check(isinstance(e, e0.ExplorationException), 'a refused counterexample is no refusal of an exploration')
            obs.eq(e.set, s, 'the set a refusal carries')
            if not isinstance(e, e0.BasisConflict):
                obs.check(isinstance(e, e0.WrongCounterExample), 'a wrong counterexample of another kind')
                obs.eq((set(e.implication.premise), set(e.implication.conclusion)), (p, c), 'the implication a refusal carries')
                t = text(obs, e, [imp] + [repr(u) for u in s], 'counterexample')
                obs.check(('premise' in t, 'conclusion' in t) == ((True, False) if isinstance(e, e0.NotCounterExamplePremise) else (False, True)),
                          'the text of a refusal blames the wrong side', text=t)
            if imps() and rng.random() < .7:
                obs.call('confirm', confirm, rng.randrange(len(imps())))
        for imp in confirmed():
            s = set(imp.premise) | set(gen.subset(rng, univ))
            bad = [i for i in confirmed() if not i.is_respected(set(s))]
            if bad:
                e = obs.refuse('add (%s)!' % kind, e0.BasisConflict, add, set(s), new)
                obs.check(isinstance(e, e0.ExplorationException), 'a conflict is no refusal of an exploration')
                obs.eq(e.set, s, 'the set a conflict carries')
                text(obs, e, [repr(u) for u in s], 'conflict')
    edits(rng, obs, x)


def edits(rng, obs, x):
    """an edit is refused for a set that does conflict: the new one, or one the edit would make of another line"""
    c = x.context
    for _ in range(3):
        objs, atts = list(c.objects), list(c.attributes)
        rows = [[bool(v) for v in r] for r in c]
        confirmed = {'object': list(x.confirmed_attribute_implications), 'attribute': list(x.confirmed_object_implications)}
        if rng.random() < .5:
            i, kind, other, edit = rng.randrange(len(objs)), 'object', 'attribute', x.edit_object
            s, name = set(gen.subset(rng, atts)), objs[i]
            rows[i] = [a in s for a in atts]
            lines = [{g for g, r in zip(objs, rows) if r[j]} for j in range(len(atts))]
        else:
            j, kind, other, edit = rng.randrange(len(atts)), 'attribute', 'object', x.edit_attribute
            s, name = set(gen.subset(rng, objs)), atts[j]
            for g, r in zip(objs, rows):
                r[j] = g in s
            lines = [{a for a, v in zip(atts, r) if v} for r in rows]
        bad = [s] if any(not i.is_respected(set(s)) for i in confirmed[kind]) else []
        bad += [l for l in lines if any(not i.is_respected(set(l)) for i in confirmed[other])]
        if bad:
            e = obs.refuse('edit_%s!' % kind, e0.BasisConflict, edit, set(s), name)
            obs.check(set(e.set) in bad, 'a refused edit blames a set that conflicts with nothing', blamed=e.set, conflicting=bad)
            text(obs, e, [repr(u) for u in e.set], 'conflict')
        else:
            obs.call('edit_%s' % kind, edit, set(s), name)


def sessions(rng, obs):
    ref = gen.spec(rng, 5, 5, min_att=1)
    obs.sample = gen.show(ref)
    imp = lib.random_imp(rng, ref, valid=True, trivial=0)
    p, c = set(imp.premise), set(imp.conclusion)
    if not c:
        return
    bad, good = p | set(gen.subset(rng, [a for a in ref.atts if a not in c])), set(ref.atts)
    new = lib.other_name(rng, ref.objs)
    db = obs.call('ExplorationDB', e1.ExplorationDB, gen.build(fca, ref, rng), [imp])
    e = obs.refuse('add_example!', e1.IllegalContextModification, db.add_example, new, set(bad))
    obs.check(isinstance(e, e1.ExplorationException), 'a conflict is no refusal of an exploration')
    text(obs, e, ['background knowledge'], 'conflict')
    if ref.n:
        e = obs.refuse('add_example!', e1.NotUniqueObjectName, db.add_example, rng.choice(ref.objs), set(good))
        obs.check(isinstance(e, e1.ExplorationException), 'a taken name is no refusal of an exploration')
    e = obs.refuse('add_attribute!', e1.NotUniqueAttributeName, db.add_attribute, rng.choice(ref.atts), set())
    obs.check(isinstance(e, e1.ExplorationException), 'a taken name is no refusal of an exploration')

    class Expert:
        def provide_counterexample(self, imp):
            return new, set(good)
    X = e1.AttributeExploration(db, Expert())
    e = obs.refuse('reject_implication!', e1.NotCounterexample, X.reject_implication, imp)
    obs.check(isinstance(e, e1.ExplorationException), 'a wrong counterexample is no refusal of an exploration')
    s = e2.Exploration(e2.ExplorationContext(gen.build(fca, ref, rng))).create_session()
    s.accept_implication(imp)
    e = obs.refuse('session.reject_implication!', e2.FalseCounterexample, s.reject_implication, imp, new, set(good))
    obs.check(isinstance(e, e2.ExplorationException), 'a wrong counterexample is no refusal of an exploration')
    e = obs.refuse('session.context.add_object!', e2.IllegalContextModification, s.context.add_object, new, set(bad))
    obs.check(isinstance(e, e2.ExplorationException), 'a conflict is no refusal of an exploration')
    text(obs, e, ['background knowledge'], 'conflict')


def patterns(rng, obs):
    pos = gen.spec(rng, 5, 5, min_att=1)
    na = list(pos.atts)
    rng.shuffle(na)
    n = rng.randint(0, 4)
    neg = gen.Ref(gen.names(rng, n, 'letters', 'o'), na, gen.table(rng, n, pos.m))
    obs.sample = {'positive': gen.show(pos), 'negative': gen.show(neg)}
    pc, nc = gen.build(fca, pos, rng), gen.build(fca, neg, rng)
    other = gen.Ref(neg.objs, neg.atts[:-1] + [lib.other_name(rng, neg.atts)], neg.rows)
    e = obs.refuse('BasicPatternExploration!', pt.AttributeMismatch, pt.BasicPatternExploration, pc, gen.build(fca, other, rng, 'bool'))
    obs.check(isinstance(e, pt.PatternExplorationException) and isinstance(e, pt.ContextMismatch), 'a mismatch of another kind')
    obs.eq((list(e.pos_atts), list(e.neg_atts)), (list(pos.atts), list(other.atts)), 'the attributes a mismatch carries')
    text(obs, e, ['do not match'], 'mismatch')
    b = pt.BasicPatternExploration(pc, nc)
    for _ in range(4):
        s = set(gen.subset(rng, pos.atts))
        inp, inn = pos.down(pos.am(s)), neg.down(neg.am(s))
        bad = (() if inp else (pt.NotAPositivePattern,)) + ((pt.NotANegativePattern,) if inn else ())
        if bad:
            e = obs.refuse('confirm_pattern!', bad, b.confirm_pattern, set(s))
            obs.check(isinstance(e, pt.NotAPatternException) and isinstance(e, pt.PatternExplorationException), 'a wrong pattern of another kind')
            obs.eq(set(e.atts), s, 'the pattern a refusal carries')
            t = text(obs, e, [repr(a) for a in s], 'pattern')
            obs.check(('positive' if isinstance(e, pt.NotAPositivePattern) else 'negative') in t, 'the text blames the wrong context', text=t)
        q = set(gen.subset(rng, pos.atts))
        if not q <= s:
            e = obs.refuse('add_negative_example!', pt.NotNegativeExample, b.add_negative_example, 'zz', set(s), set(q))
            obs.check(isinstance(e, pt.WrongNegativeExample) and isinstance(e, pt.PatternExplorationException), 'a wrong example of another kind')
            obs.eq((set(e.intent), set(e.pattern)), (s, q), 'what a refused negative example carries')
            text(obs, e, [repr(a) for a in s | q], 'negative example')
    s, q = set(gen.subset(rng, pos.atts)), set(gen.subset(rng, pos.atts))
    e = pt.ConfirmedPatternsConflict(s, q)
    obs.eq((set(e.intent), set(e.conflicting_pattern)), (s, q), 'what a conflict with a pattern carries')
    text(obs, e, [repr(a) for a in s | q], 'conflict')
    text(obs, pt.NotAPatternException(s), [repr(a) for a in s], 'pattern')


def partial(rng, obs):
    n, m = rng.randint(1, 5), rng.randint(0, 5)
    q = [[rng.random() < .6 for _ in range(m)] for _ in range(n)]
    x = [[v and rng.random() < .5 for v in r] for r in q]
    O, A = gen.names(rng, n, 'letters', 'o'), gen.names(rng, m, 'letters', 'a')
    cut = rng.randrange(4)
    if cut == 0:
        k = rng.choice([j for j in range(0, 8) if j != n])
        y, want = [[False] * m for _ in range(k)], [n, k]
    elif cut == 1:
        k = rng.choice([j for j in range(0, 8) if j != m])
        y, want = [[False] * k for _ in range(n)], [m, k]
    else:
        y, want = None, None
    if y is not None:
        a, b = (x, y) if rng.random() < .5 else (y, x)
        e = obs.refuse('subseteq_table!', ValueError, subseteq_table, a, b)
        obs.eq(sorted(numbers(text(obs, e, [], 'table'))), sorted(want), 'the sizes a refused comparison names')
        obs.refuse('PartialContext!', ValueError, PartialContext, a, b, O, A)
    elif n * m:
        i, j = rng.randrange(n), rng.randrange(m)
        x[i][j], q[i][j] = True, False
        obs.eq(bool(obs.call('subseteq_table', subseteq_table, x, q)), False, 'a table with a cross more is no part of the other')
        text(obs, obs.refuse('PartialContext!', ValueError, PartialContext, x, q, O, A), ['x table', 'q table'], 'partial table')


KINDS = [tables, basic, basic, sessions, patterns, partial]


def case(rng, obs, i):
    KINDS[i % len(KINDS)](rng, obs)
