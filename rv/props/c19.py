import fca
import gen
from fca.algorithms import patterns as pt
from lib import check_views, contain, contain_rep, other_name
from model import Ref

CASES = {'quick': 5000, 'thorough': 120000}
RULE = ('pairs of positive and negative contexts over the same attributes (each in its own order; full, empty and '
        'repeated rows; no rows), histories of 3-12 confirmations, additions of positive and negative examples with and '
        'without a pattern, valid and invalid, examples corrected, deleted and renamed; explanations, examples, the offered patterns with their counts and order '
        'judged from the sets (and, for the default generator, from fresh contexts and from the concepts it must not leave out) after every step, with the default generator and with a given one. Non-trivial: a '
        'distinct (step, outcome, both incidences, confirmed patterns).')
STEPS = 5_000_000


def build_again(ref):
    return fca.Context(ref.table(), list(ref.objs), list(ref.atts))


def neg_row(pos, neg, r):
    return pos.am(neg.an(r))


def closed_extents(ref):
    out = {(1 << ref.n) - 1}
    for j in range(ref.m):
        e = ref.down(1 << j)
        out |= {x & e for x in out}
    return out


def judge(rng, obs, b, pos, neg, conf, gen_list, what):
    check_views(obs, b.positive_cxt, pos, what + ': positive context')
    check_views(obs, b.negative_cxt, neg, what + ': negative context')
    obs.eq([frozenset(x) for x in b.confirmed_patterns], conf, what + ': confirmed patterns')
    expl = lambda s: any(c <= s for c in conf)
    for _ in range(3):
        s = set(gen.subset(rng, pos.atts))
        obs.eq(bool(obs.call('is_explained', b.is_explained, contain(rng, sorted(s, key=repr), [set, frozenset, list]))), expl(s), what + ': explained', example=s, confirmed=conf)
    un = [(o, pos.an(r)) for o, r in zip(pos.objs, pos.rows) if not expl(pos.an(r))]
    obs.eq([(o, set(s)) for o, s in obs.call('iterate_unexplained_examples', lambda: list(b.iterate_unexplained_examples()))],
           un, what + ': unexplained examples')
    gens = obs.call('iterate_patterns_with_examples', lambda: list(b.iterate_patterns_with_examples()))
    if gen_list is None:
        for p, freq in gens:
            m = neg.am(p)
            obs.check(not neg.down(m), what + ': a generated pattern occurs in a negative example', pattern=p)
            obs.eq(int(freq), bin(pos.down(pos.am(p))).count('1'), what + ': frequency of a generated pattern', pattern=p)
        obs.eq(len({frozenset(p) for p, _ in gens}), len(gens), what + ': a pattern is generated twice')
        # every group of positive examples that its own attributes tell from the negative ones, by whatever subset
        # of these attributes it is described, is generated
        ext = {pos.down(pos.am(p)) for p, _ in gens}
        for E in {pos.down(pos.up(e)) for e in closed_extents(pos)}:
            B = pos.up(E)
            if all(pos.down(s & B) != E for s in [neg_row(pos, neg, r) for r in neg.rows]):
                obs.check(E in ext, what + ': a concept that no negative example can meet is not generated',
                          extent=pos.on(E), intent=pos.an(B))
                obs.tag('concept that must be generated')
        fresh = list(pt.iterate_positive_patterns(build_again(pos), build_again(neg)))
        show = lambda ps: sorted((sorted(map(repr, p)), int(k)) for p, k in ps)
        obs.eq(show(gens), show(fresh), what + ': generated patterns are not those of the current contexts')
    want = [(frozenset(p), sum(1 for _, s in un if p <= s)) for p, _ in gens if not expl(p)]
    got = [(frozenset(p), int(k)) for p, k in obs.call('get_unconfirmed_patterns_with_examples',
                                                        b.get_unconfirmed_patterns_with_examples)]
    key = lambda x: (sorted(map(repr, x[0])), x[1])
    obs.eq(sorted(got, key=key), sorted(want, key=key), what + ': offered patterns')
    obs.eq([k for _, k in got], sorted([k for _, k in got], reverse=True), what + ': most covering pattern not first')
    p = set(gen.subset(rng, pos.atts))
    ex = obs.call('iterate_examples', lambda: list(b.iterate_examples(p)))
    obs.eq(sorted((repr(o), sorted(map(repr, s))) for o, s in ex),
           sorted((repr(pos.objs[k]), sorted(map(repr, pos.an(r)))) for k, r in enumerate(pos.rows) if p <= pos.an(r)),
           what + ': positive examples of a pattern')
    obs.state(what, pos.rows, neg.rows, pos.m, sorted(sorted(map(repr, c)) for c in conf))


def many(rng, obs):
    """a session with a great many confirmed patterns"""
    z = rng.choice([17, 21, 33, 40, 65])
    atts = ['m%d' % j for j in range(z)]
    pos = Ref(['p%d' % k for k in range(z)], atts, [1 << k | (rng.choice([0, 0, 1 << (k + 1) % z])) for k in range(z)])
    neg = Ref(['n'], list(atts), [0])
    b = obs.call('BasicPatternExploration', pt.BasicPatternExploration, gen.build(fca, pos, rng), gen.build(fca, neg, rng))
    conf = []
    for k in rng.sample(range(z), rng.choice([z, z - 1, z - 3])):
        s = pos.an(pos.rows[k]) if rng.random() < .3 else {atts[k]}
        obs.call('confirm_pattern', b.confirm_pattern, set(s))
        conf.append(frozenset(s))
    obs.tag('many patterns')
    judge(rng, obs, b, pos, neg, conf, None, 'many patterns')
    for k in range(z):
        obs.eq(bool(obs.call('is_explained', b.is_explained, {atts[k]})), any(c <= {atts[k]} for c in conf),
               'many patterns: explained', example=atts[k])


def concepts(rng, obs):
    """positive examples with a great many concepts"""
    z = rng.choice([7, 8, 8])
    atts = ['m%d' % j for j in range(z)]
    n = rng.choice([z, z, z + 3])
    pos = Ref(['p%d' % k for k in range(n)], atts, [((1 << z) - 1) & ~(1 << k % z) for k in range(n)])
    neg = Ref(['n%d' % k for k in range(2)], list(atts), [0, rng.choice([0, 1, 3])])
    b = obs.call('BasicPatternExploration', pt.BasicPatternExploration, gen.build(fca, pos, rng), gen.build(fca, neg, rng))
    obs.tag('many concepts')
    judge(rng, obs, b, pos, neg, [], None, 'many concepts')


def case(rng, obs, i):
    if i % 400 == 251:
        return concepts(rng, obs)
    if i % 100 == 51:
        return many(rng, obs)
    pos = gen.spec(rng, 7, 6, mix='oa')
    n = gen.size(rng, 5)
    na = list(pos.atts)
    rng.shuffle(na)
    neg = Ref(gen.names(rng, n, rng.choice(gen.ANY_KINDS), 'o'), na, gen.table(rng, n, pos.m))
    obs.sample = {'positive': gen.show(pos), 'negative': gen.show(neg)}
    hist = obs.sample['history'] = []
    pc, nc = gen.build(fca, pos, rng), gen.build(fca, neg, rng)
    pos0, neg0 = pos.copy(), neg.copy()
    gl = None
    answers = [('x1', set(gen.subset(rng, pos.atts)))]
    if rng.random() < .5:
        gl = [(set(gen.subset(rng, pos.atts)), rng.randrange(9)) for _ in range(rng.randint(0, 6))]
        b = obs.call('BasicPatternExploration', pt.BasicPatternExploration, pc, nc, lambda p: iter(answers),
                     lambda p, q: ((set(s), k) for s, k in gl))
    else:
        b = obs.call('BasicPatternExploration', pt.BasicPatternExploration, pc, nc, lambda p: iter(answers))
    conf = []
    if pos.m:
        other = Ref(neg.objs, neg.atts[:-1] + [other_name(rng, neg.atts)], neg.rows)
        obs.refuse('BasicPatternExploration!', pt.AttributeMismatch, pt.BasicPatternExploration, pc,
                   gen.build(fca, other, rng, 'bool'))
    judge(rng, obs, b, pos, neg, conf, gl, 'start')
    for step in range(rng.randint(3, 12)):
        op = rng.choice(['confirm', 'confirm', 'confirm', 'negative', 'negative', 'positive', 'expert', 'edit'])
        s = gen.subset(rng, pos.atts)
        if op == 'confirm':
            if rng.random() < .5 and pos.n:
                s = rng.sample(s, rng.randint(0, len(s)))
                s = [a for a in s if a in pos.an(rng.choice(pos.rows))]
            elif rng.random() < .4:
                cand = b.get_unconfirmed_patterns_with_examples()
                if cand:
                    s = list(rng.choice(cand)[0])
            inp, inn = pos.down(pos.am(s)), neg.down(neg.am(s))
            arg = contain(rng, s, [set, list, frozenset, tuple])
            if rng.random() < .2 and s:
                arg = list(s) + [rng.choice(s)]             # names given twice
            hist.append(('confirm', repr(s)))
            if inp and not inn:
                r = obs.call('confirm_pattern', b.confirm_pattern, arg)
                obs.check(r is b, 'confirm_pattern does not return the exploration')
                conf = conf + [frozenset(s)]
                if isinstance(arg, set):
                    arg.clear()                             # the caller's own set afterwards
            else:
                bad = (() if inp else (pt.NotAPositivePattern,)) + ((pt.NotANegativePattern,) if inn else ())
                obs.refuse('confirm_pattern!', bad, b.confirm_pattern, arg)
                op = 'refused confirm'
        elif op == 'negative':
            if neg.n > 8:
                continue
            name = other_name(rng, neg.objs)
            pat = None if rng.random() < .4 else contain_rep(rng, gen.subset(rng, pos.atts))
            if pat is not None and rng.random() < .5:
                s = list(set(s) | set(pat))
            hist.append(('negative', repr(name), repr(s), repr(pat)))
            if pat is None or set(pat) <= set(s):
                r = obs.call('add_negative_example', b.add_negative_example, name, contain_rep(rng, s), *([] if pat is None else [pat]))
                obs.check(r is b, 'add_negative_example does not return the exploration')
                neg = Ref(neg.objs + [name], neg.atts, neg.rows + [neg.am(s)])
            else:
                obs.refuse('add_negative_example!', pt.NotNegativeExample, b.add_negative_example, name, set(s), pat)
                op = 'refused negative'
        elif op == 'positive':
            if pos.n > 10:
                continue
            name = other_name(rng, pos.objs)
            hist.append(('positive', repr(name), repr(s)))
            r = obs.call('add_positive_example', b.add_positive_example, name, contain_rep(rng, s))
            obs.check(r is b, 'add_positive_example does not return the exploration')
            pos = Ref(pos.objs + [name], pos.atts, pos.rows + [pos.am(s)])
        elif op == 'edit':                                  # the examples themselves corrected
            which = rng.choice('pn')
            cxt, ref = (b.positive_cxt, pos) if which == 'p' else (b.negative_cxt, neg)
            if not ref.n:
                continue
            k, how = rng.randrange(ref.n), rng.choice(['intent', 'intent', 'delete', 'rename'])
            op = 'edited example: ' + how
            hist.append((op, which, k, repr(s)))
            if how == 'intent':
                obs.call('set_object_intent', cxt.set_object_intent, set(s), ref.objs[k])
                ref = Ref(ref.objs, ref.atts, ref.rows[:k] + [ref.am(s)] + ref.rows[k + 1:])
            elif how == 'delete':
                obs.call('delete_object', cxt.delete_object, ref.objs[k])
                ref = Ref(ref.objs[:k] + ref.objs[k + 1:], ref.atts, ref.rows[:k] + ref.rows[k + 1:])
            else:
                name = other_name(rng, ref.objs)
                obs.call('rename_object', cxt.rename_object, ref.objs[k], name)
                ref = Ref(ref.objs[:k] + [name] + ref.objs[k + 1:], ref.atts, ref.rows)
            if which == 'p':
                pos = ref
            else:
                neg = ref
        else:
            obs.eq(list(obs.call('iterate_new_objects', lambda: list(b.iterate_new_objects(set(s))))), answers,
                   'the objects of the expert')
        obs.tag(op)
        judge(rng, obs, b, pos, neg, conf, gl, op)
    check_views(obs, pc, pos0, 'the given positive context')
    check_views(obs, nc, neg0, 'the given negative context')
