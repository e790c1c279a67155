import copy
import itertools
import pickle
import fca
import gen
from fca import Implication, UnitImplication
from fca.implication import NegativeImplication

CASES = {'quick': 6000, 'thorough': 200000}
RULE = ('implications of the three kinds over names of all kinds, rarely hundreds (premises and conclusions overlapping, empty, equal), '
        'judged against random, derived and all small sets and partial examples; equality and hashes over pairs drawn so '
        'that equal ones are frequent; copies modified afterwards; printed forms read back. '
        'Non-trivial: a distinct (kind, premise, conclusion, set).')
STEPS = 1_000_000


def respects(p, c, s):
    return not p <= s or c <= s


def pair(rng, univ):
    p, c = set(gen.subset(rng, univ)), set(gen.subset(rng, univ))
    k = rng.random()
    if k < .2:
        c |= p
    elif k < .3:
        c = set(p)
    elif k < .4:
        c = {x for x in c if x in p}
    return p, c


def sets_to_try(rng, univ, p, c):
    out = [set(), set(univ), set(p), p | c, set(c), c - p]
    if p:
        out.append(p - {rng.choice(sorted(p, key=repr))})
    if c:
        out.append((p | c) - {rng.choice(sorted(c, key=repr))})
    out += [set(gen.subset(rng, univ)) for _ in range(4)]
    if len(univ) <= 4:
        out += [{u for k, u in enumerate(univ) if b >> k & 1} for b in range(1 << len(univ))]
    return out


def case(rng, obs, i):
    univ = gen.names(rng, rng.randint(1, 7) if i % 50 != 31 else rng.choice([9, 12, 20, 33, 64, 70, 130, 300]),
                     rng.choice(gen.ALL_KINDS), 'a')
    p, c = pair(rng, univ)
    c_out = c - p
    obs.sample = {'premise': repr(p), 'conclusion': repr(c)}
    gp, gc = set(p), set(c)
    form = rng.choice([set, frozenset, list, tuple])
    given = form(p), form(c)
    if form is set:
        given = gp, gc
    imp = obs.call('Implication', Implication, *given)
    neg = obs.call('NegativeImplication', NegativeImplication, *given)
    kinds = [('Implication', imp), ('NegativeImplication', neg)]
    if len(univ) < 9 or rng.random() < .3:
        shown(obs, imp, p, c - p, '%s => %s')
        shown(obs, neg, p, c - p, '%s => not (%s)')
    unit = None
    ucon = set()
    if len(univ) > 1:
        x = rng.choice([u for u in univ if u not in p] if len(p) < len(univ) and rng.random() < .8 else univ)
        ucon = {x} - p                       # nothing, if the premise contains it
        unit = obs.call('UnitImplication', UnitImplication, given[0], x)
        kinds.append(('UnitImplication', unit))
    # independence of the given sets
    if form is set:
        gp.add('zz-later')
        gc.discard(next(iter(gc), None))
        gc.add('zz-later')
    for name, im in kinds:
        con = ucon if name == 'UnitImplication' else c_out
        obs.eq((set(im.premise), set(im.conclusion)), (p, con), name + ': its two sets')
        obs.eq((set(im.get_premise()), set(im.get_reduced_conclusion())), (p, con), name + ': its two sets, by method')
        if name != 'UnitImplication':
            obs.eq(set(im.get_conclusion()), c, name + ': the whole conclusion')
        judge(rng, obs, name, im, univ, p, con)
        other(rng, obs, name, im, p, con)
    # equality and hashes
    q, d = pair(rng, univ) if rng.random() < .4 else (set(p), rng.choice([c_out, c | p, c, c_out | set(gen.subset(rng, sorted(p, key=repr)))]))
    if rng.random() < .15:
        q, d = set(p), c_out ^ {rng.choice(univ)}
    if rng.random() < .1:
        q = p ^ {rng.choice(univ)}
    second = Implication(q, d)
    same(obs, imp, second, p == q and c_out == d - q)
    same(obs, second, imp, p == q and c_out == d - q)
    same(obs, neg, NegativeImplication(q, d), p == q and c_out == d - q)
    if unit is not None:
        for e in ({x}, {x} | p, {x} | set(gen.subset(rng, univ)), set(gen.subset(rng, univ))):
            for q in (p, set(gen.subset(rng, univ))):
                o = Implication(q, e)
                want = p == q and e - q == ucon
                same(obs, unit, o, want)
                same(obs, o, unit, want)
        y = rng.choice(univ)
        same(obs, unit, UnitImplication(set(p), y), ucon == {y} - p)
    # containers treat equal ones as one
    L = [imp, second, Implication(p, c | p)] + ([unit] if unit is not None else [])
    keys = {(frozenset(a.premise), frozenset(a.conclusion)) for a in L}
    obs.eq(len(set(L)), len(keys), 'a set of implications', L=L)
    obs.eq(Implication(p, c_out) in {imp: 1}, True, 'an equal implication is not found in a dict')
    printed(rng, obs)


def judge(rng, obs, name, im, univ, p, c):
    for s in sets_to_try(rng, univ, p, c):
        keep = set(s)
        if rng.random() < .2:
            s = frozenset(s)
        got = obs.call(name + '.is_respected', im.is_respected, s)
        want = (not p <= s or not c & s) if name == 'NegativeImplication' else respects(p, c, s)
        obs.eq(bool(got), want, name + ': respected by a set', imp=im, set=s)
        obs.eq(s, keep, 'the set was modified')
    for _ in range(6):
        hi = rng.choice([set(gen.subset(rng, univ)), p | c, p | set(gen.subset(rng, univ)), set(univ)])
        lo = {u for u in hi if rng.random() < .6} | (p & hi if rng.random() < .6 else set())
        part = rng.choice([(lo, hi), (lo, hi), [lo, hi], (frozenset(lo), frozenset(hi))])
        keep = (set(lo), set(hi))
        got = obs.call(name + '.is_respected', im.is_respected, part)
        if name == 'NegativeImplication':
            # decided for ordinary ones by the statement; here: no total version between may be lost
            want = not p <= lo or not c & hi
        else:
            want = c <= hi or not p <= lo
        obs.eq(bool(got), want, name + ': respected by a partial example', imp=im, example=part)
        obs.eq(tuple(part), keep, 'the partial example was modified')
    obs.state(name, sorted(map(repr, p)), sorted(map(repr, c)))
    obs.tag(name)


def other(rng, obs, name, im, p, c):
    """copies are of the same kind and independent"""
    if rng.random() < .7:
        cp = obs.call('copy.deepcopy', copy.deepcopy, im)
    else:
        cp = obs.call('pickle', lambda: pickle.loads(pickle.dumps(im)))
    obs.check(type(cp) is type(im), 'a copy is of another kind', got=type(cp), want=type(im))
    obs.eq((set(cp.premise), set(cp.conclusion)), (p, c), 'sets of a copy')
    same(obs, cp, im, True)
    later = copy.deepcopy(cp)
    mine = cp.get_premise() if rng.random() < .5 else cp.get_conclusion()
    mine.add('zz-copy')
    for x in (im, later):
        obs.eq((set(x.premise), set(x.conclusion)), (p, c), 'modifying a copy changed its original, or the reverse')
    in_list = copy.deepcopy([im, im])
    obs.check(in_list[0] is not im and in_list[0] == im, 'a copied list shares its implications')


def same(obs, a, b, want):
    obs.eq(bool(a == b), want, 'equality of implications', a=a, b=b, a_sets=(a.get_premise(), a.get_conclusion()),
           b_sets=(b.get_premise(), b.get_conclusion()))
    obs.eq(bool(a != b), not want, 'inequality of implications', a=a, b=b)
    if want:
        obs.eq(hash(a), hash(b), 'equal implications have different hashes', a=a, b=b)


def shown(obs, imp, p, c, form):
    """the text names the elements of both sides, in some order"""
    text = obs.call('repr of an implication', repr, imp)
    obs.eq(obs.call('str of an implication', str, imp), text, 'str and repr of an implication')
    ps, cs = [str(x) for x in p], [str(x) for x in c]
    obs.eq(len(text), len(form % (', '.join(ps), ', '.join(cs))), 'length of the printed form', text=text, premise=p, conclusion=c)
    if form == '%s => %s' and all(type(x) is str for x in p | c):
        obs.eq(text, form % (', '.join(sorted(ps)), ', '.join(sorted(cs))), 'the printed form does not list both sides in order',
               premise=p, conclusion=c)
        obs.tag('printed in order')
    elif len(p) < 5 and len(c) < 5:
        obs.check(any(text == form % (', '.join(a), ', '.join(b)) for a in itertools.permutations(ps)
                      for b in itertools.permutations(cs)), 'the printed form does not name both sides', text=text, premise=p, conclusion=c)
        obs.tag('printed')
    else:
        obs.check(all(x in text for x in ps + cs), 'the printed form leaves an element out', text=text, premise=p, conclusion=c)


def printed(rng, obs):
    univ = gen.names(rng, rng.randint(1, 8), rng.choice(['plain', 'letters', 'texty', 'shared', 'reversed', 'suffix']), 'a')
    p, c = pair(rng, univ)
    im = Implication(p, c)
    text = obs.call('Implication.__repr__', repr, im)
    obs.eq(str(im), text, 'str and repr of an implication')
    back = obs.call('Implication.str2imp', Implication.str2imp, text)
    obs.eq((set(back.premise), set(back.conclusion)), (p, c - p), 'the printed form reads back differently', text=text)
    same(obs, back, im, True)
    obs.check(type(back) is Implication, 'read as another kind')
    broken = rng.choice([text.replace('=>', ''), text.replace('=>', '= >'), text + ' => ' + rng.choice(univ), text + '=>',
                         '=>' + text, '', rng.choice(univ)])
    obs.refuse('Implication.str2imp!', Exception, Implication.str2imp, broken)
    free = [u for u in univ if u not in p]
    if free:
        u = UnitImplication(p, rng.choice(free))
        same(obs, obs.call('Implication.str2imp', Implication.str2imp, repr(u)), u, True)
    obs.state('text', text)
