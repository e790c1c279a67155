import ast
import numpy
import fca
import gen
from fca.algorithms.scaling import scale_mvcontext
from fca.scale import NominalScale, OrdinalScale, Scale
from lib import boolrows, snapshot, typed
from fca import Context, ManyValuedContext

CASES = {'quick': 5000, 'thorough': 150000}
RULE = ('many-valued tables of ints, floats, numeric texts, other texts (quotes, blanks, unicode, falsy values), sequences, scales '
        'nominal, ordinal (both directions) and user-made from a bank of conditions whose truth is decided by an own '
        'function, not by evaluating them; rarely up to 1100 rows or 300 columns. Non-trivial: a distinct (column values, scale) pair with its derived columns.')
STEPS = 60_000_000

TEXTS = ['red', 'green', "it's", '"q"', '', ' ', 'back\\slash', 'ü', '漢', 'None', 'True', 'value', 'a b', 'x\'"y', '1a',
         '%s', '{}', 'a,b', 'tab\there', 'new\nline', '🙂']
NUMTEXTS = ['1', '2', '7', '-3', '0', '1.5', '2e1', ' 4 ', '1_000', '007', '-0.5', '+2']


# missing values, numbers without literals, values of other types
ODD = [None, 'nan', 'NaN', float('nan'), 'inf', '-inf', 'Infinity', float('inf'), -float('inf'), '1e400', 10 ** 400, 10 ** 30,
       frozenset({3}), frozenset(), b'x', b'5', 1 + 2j, '', '1', 1, 0, 1.0, True, False, '0', 'x', "float('inf')",
       "'nan'", 'value != value', -0.0, '-0', 1e-320, 2 ** 53, 2 ** 53 + 1]


# values that are sequences themselves, also rows of equally long ones
SEQS = [(), [], (1, 2), [1, 2], (1,), [0], ('a', 'b'), ['x'], ((1, 2), (3, 4)), [[1], [2]], range(2), (None, 'q'), {1: 2}, {4}, bytearray(b'ab')]


def as_seen(v):
    """the value a scale's condition is about"""
    try:
        return float(v)
    except (TypeError, ValueError, OverflowError):
        return str(v)


NAN = object()


def token(v):
    """equal for values that count as equal"""
    return NAN if type(v) is float and v != v else v


def named(attribute):
    """the value a nominal attribute names: a number, or a quoted text"""
    try:
        x = float(attribute)
    except ValueError:
        return ast.literal_eval(attribute)
    return x + 0.0


def named_by(seen):
    return seen + 0.0 if type(seen) is float else seen


def finite(v):
    return type(v) is float and v - v == 0


def bank(rng):
    """(condition text, own decision) pairs"""
    k = rng.randint(-4, 9)
    t = rng.choice(TEXTS)
    f = rng.choice([.5, 1.5, 2, 20])
    num = lambda v: type(v) is float
    return rng.choice([
        ('value == %d' % k, lambda v: num(v) and v == k),
        ('value != %d' % k, lambda v: not (num(v) and v == k)),
        ('value == %r' % t, lambda v: not num(v) and v == t),
        ('value == %r' % f, lambda v: num(v) and v == f),
        ('value != %r' % t, lambda v: num(v) or v != t),
        ('value in (%r, %d)' % (t, k), lambda v: v == k if num(v) else v == t),
        ('isinstance(value, float) and value > %d' % k, lambda v: num(v) and v > k),
        ('isinstance(value, float) and value <= %d' % k, lambda v: num(v) and v <= k),
        ('isinstance(value, str)', lambda v: not num(v)),
        ('isinstance(value, str) and len(value) > 1', lambda v: not num(v) and len(v) > 1),
        ('isinstance(value, float) and %d <= value < %d' % (k, k + 4), lambda v: num(v) and k <= v < k + 4),
        ('True', lambda v: True),
        ('False', lambda v: False),
        ('value', lambda v: bool(v)),
        ('not value', lambda v: not v),
        ('str(value) == %r' % str(float(k)), lambda v: str(v) == str(float(k))),
    ])


def column(rng, n):
    kind = rng.choice(['int', 'small', 'float', 'text', 'numtext', 'mixed', 'mixed', 'bool', 'odd', 'seq', 'pair', 'twins'] if n < 200 else
                      ['small', 'bool', 'float'])
    one = {'int': lambda: rng.randint(-5, 12), 'small': lambda: rng.randint(0, 3),
           'float': lambda: rng.choice([0.0, .5, 1.0, 1.5, 2.25, -3.0, 1e6, 1 / 3]),
           'text': lambda: rng.choice(TEXTS), 'numtext': lambda: rng.choice(NUMTEXTS),
           'bool': lambda: rng.random() < .5, 'twins': lambda: rng.choice([True, 'True', False, 'False', b'5', "b'5'", 1, '1', 0, '0', 'None', None]),
           'odd': lambda: rng.choice(ODD),
           'seq': lambda: rng.choice(SEQS + [1, 'x', None]), 'pair': lambda: (rng.randint(0, 2), rng.randint(0, 1))}
    if kind == 'mixed':
        return kind, [one[rng.choice(['int', 'float', 'text', 'numtext', 'small'])]() for _ in range(n)]
    return kind, [one[kind]() for _ in range(n)]


def mv_view(c):
    return typed(c.objects), typed(c.attributes), [typed(r) for r in c.table]


def same_mv(obs, c, objs, atts, rows, what):
    obs.check(isinstance(c, ManyValuedContext), what + ': not a many-valued context', type=type(c))
    obs.eq((typed(c.objects), typed(c.attributes)), (typed(objs), typed(atts)), what + ': names')
    obs.eq([typed(r) for r in c.table], [typed(r) for r in rows], what + ': values')
    obs.eq(len(c), len(objs), what + ': length')
    obs.eq([[c[i][j] for j in range(len(atts))] for i in range(len(objs))], rows, what + ': values by position')
    obs.eq([typed(r) for r in c], [typed(r) for r in rows], what + ': values of iterated rows')


def subcontexts(rng, obs, mv, objs, atts, rows):
    n, m = len(objs), len(atts)
    pick = [rng.choice(atts) for _ in range(0)]
    pick = gen.subset(rng, atts)
    rng.shuffle(pick)
    idx = [atts.index(a) for a in pick]
    same_mv(obs, obs.call('ManyValuedContext.extract_subcontext', mv.extract_subcontext, list(pick)),
            objs, pick, [[r[j] for j in idx] for r in rows], 'subcontext of attributes')
    if m:
        obs.refuse('ManyValuedContext.extract_subcontext!', Exception, mv.extract_subcontext, pick + ['no such one'])
    keep = set(gen.subset(rng, range(n)))
    same_mv(obs, obs.call('ManyValuedContext.extract_subcontext_by_condition', mv.extract_subcontext_by_condition,
                          rng.choice([lambda k: k in keep, lambda k: numpy.bool_(k in keep)])),
            [o for k, o in enumerate(objs) if k in keep], atts, [r for k, r in enumerate(rows) if k in keep],
            'subcontext by row condition')
    if n and m:
        base = rng.choice(rows)
        vals = {a: (base[atts.index(a)] if rng.random() < .8 else rng.choice(rows)[atts.index(a)])
                for a in rng.sample(atts, rng.randint(0, min(3, m)))}
        vals = {a: v for a, v in vals.items() if v == v}
        ok = [k for k in range(n) if all(rows[k][atts.index(a)] == v for a, v in vals.items())]
        same_mv(obs, obs.call('ManyValuedContext.extract_subcontext_by_attribute_values',
                              mv.extract_subcontext_by_attribute_values, dict(vals)),
                [objs[k] for k in ok], atts, [rows[k] for k in ok], 'subcontext by attribute values')
        obs.state('sub', len(ok), n, sorted(map(repr, vals)), [str(v) for v in vals.values()])


def case(rng, obs, i):
    n, m = gen.size(rng, 8), gen.size(rng, 5)
    if i % 300 == 77:
        n, m = rng.choice([(70, 3), (257, 2), (300, 3), (1001, 1), (1100, 2), (3, 70), (2, 260), (1, 300)])
        obs.tag('large')
    objs = gen.names(rng, n, rng.choice(gen.ANY_KINDS), 'o')
    atts = gen.names(rng, m, rng.choice(gen.STR_KINDS + gen.ANY_KINDS), 'a')
    cols = [column(rng, n) for _ in range(m)]
    rows = [[cols[j][1][k] for j in range(m)] for k in range(n)]
    obs.sample = {'objects': [repr(o) for o in objs[:99]], 'attributes': [repr(a) for a in atts[:99]],
                  'rows': [[repr(v) for v in r[:99]] for r in rows[:99]]}
    given = [list(r) for r in rows]
    mv = obs.call('ManyValuedContext', ManyValuedContext, given, list(objs), list(atts))
    same_mv(obs, mv, objs, atts, rows, 'construction')
    subcontexts(rng, obs, mv, objs, atts, rows)
    same_mv(obs, mv, objs, atts, rows, 'after extracting subcontexts')
    # scales
    scales, want, names = [], [], []
    for j in range(m):
        kind, vals = cols[j]
        seen = [as_seen(v) for v in vals]
        r = rng.random()
        if r < .35:
            # an attribute may be given by name or position
            arg = atts[j] if rng.random() < .5 and isinstance(atts[j], str) else j
            s = obs.call('NominalScale', NominalScale, arg, mv)
            obs.eq(len(s.attributes), len(set(map(token, seen))), 'a nominal scale has one attribute per value')
            obs.eq(sorted(map(repr, map(named, s.attributes))), sorted(set(map(repr, map(named_by, seen)))),
                   'the attributes of a nominal scale do not name the values', attributes=list(s.attributes), column=vals)
            scales.append(s)
            want.append(('nominal', list(map(token, seen))))
        elif r < .6:
            lo = rng.randint(-5, 6)
            hi = lo + rng.randint(0, 7)
            mode = rng.choice(['leq', 'geq', None])
            s = obs.call('OrdinalScale', *((OrdinalScale, lo, hi) + (() if mode is None else (mode,))))
            mode = mode or 'leq'
            ts = list(range(lo + 1, hi + 1)) if mode == 'geq' else list(range(lo, hi))
            obs.eq(list(s.attributes), ['%s %d' % ('>=' if mode == 'geq' else '<=', t) for t in ts],
                   'thresholds of an ordinal scale')
            scales.append(s)
            inr = [finite(v) and v == int(v) and lo <= v <= hi for v in seen]
            want.append(('table', [[ok and (v >= t if mode == 'geq' else v <= t) for t in ts]
                                   for v, ok in zip(seen, inr)]))
            obs.tag('ordinal ' + mode)
        else:
            conds = {}
            for _ in range(rng.randint(0, 4)):
                a, b = bank(rng)
                conds.setdefault(a, b)
            k = rng.randint(0, 4)
            if i % 300 == 78 or i % 300 == 77 and rng.random() < .1:      # a great many conditions
                for t in rng.sample(range(-5, 300), rng.choice([33, 65, 70, 130, 258])):
                    conds.setdefault('value == %d' % t, lambda v, t=t: type(v) is float and v == t)
                order = list(conds)
                rng.shuffle(order)
                conds = {t: conds[t] for t in order}
                obs.tag('many conditions')
            sr = gen.table(rng, len(conds), k)
            snames = gen.names(rng, k, rng.choice(gen.STR_KINDS + gen.ANY_KINDS), 'a')
            base = Context([[bool(x >> y & 1) for y in range(k)] for x in sr], list(conds), snames)
            s = obs.call('Scale', Scale, base)
            obs.eq((list(s.objects), list(s.attributes), boolrows(s.table)),
                   (list(conds), snames, boolrows(base.table)), 'a scale made of a context differs from it')
            obs.eq(list(s.objects), list(conds), 'the conditions of a scale changed')
            scales.append(s)
            fs = list(conds.values())
            want.append(('table', [[any(f(v) and x >> y & 1 for f, x in zip(fs, sr)) for y in range(k)] for v in seen]))
            obs.tag('user-made scale')
    names = [str(a) + ':' + str(b) for a, s in zip(atts, scales) for b in s.attributes]
    if len(set(names)) < len(names):
        obs.tag('derived names collide (not judged)')
        return
    ssnap = [snapshot(s) for s in scales]
    msnap = mv_view(mv)
    d = obs.call('scale_mvcontext', scale_mvcontext, mv, scales)
    obs.eq(typed(d.objects), typed(objs), 'objects of the scaled context')
    obs.eq(list(d.attributes), names, 'derived attributes')
    T = boolrows(d.table)
    obs.eq(boolrows(d.cross_table), T, 'the tables of the scaled context differ')
    p = 0
    for j in range(m):
        k = len(scales[j].attributes)
        got = [r[p:p + k] for r in T]
        p += k
        kind, w = want[j]
        if kind == 'nominal':
            obs.check(all(sum(r) == 1 for r in got), 'nominal scaling: an object has not exactly one value attribute',
                      column=cols[j][1], got=got)
            for r, v in zip(got, cols[j][1]):
                a = scales[j].attributes[r.index(True)]
                obs.eq(repr(named(a)), repr(named_by(as_seen(v))), 'nominal scaling: the attribute of an object does not name its value',
                       value=v, attribute=a)
            for a in range(n) if n < 400 else [rng.randrange(n) for _ in range(150)]:
                for b in range(a):
                    obs.check((got[a] == got[b]) == (w[a] == w[b]), 'nominal scaling: shared attribute but unequal values, or reverse',
                              values=(w[a], w[b]), got=(got[a], got[b]))
        else:
            obs.eq(got, w, 'derived crosses differ from what the scale prescribes', column=cols[j][1],
                   conditions=list(scales[j].objects), attributes=list(scales[j].attributes))
        obs.state(kind, [repr(v) for v in cols[j][1]], list(scales[j].objects), got)
    obs.eq(msnap, mv_view(mv), 'scaling changed the many-valued context')
    obs.eq(ssnap, [snapshot(s) for s in scales], 'scaling changed a scale')
    obs.eq(given, rows, 'the given table was modified')
