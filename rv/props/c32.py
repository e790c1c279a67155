import copy
import pickle

import gen
from fca import Context, ManyValuedContext
from fca.algorithms.scaling import scale_mvcontext
from fca.scale import NominalScale
from lib import boolrows, typed
from props.c21 import as_seen, column, mv_view, same_mv, token

CASES = {'quick': 9000, 'thorough': 300000}
STEPS = 30_000_000
RULE = ('many-valued tables of 0-7 x 0-5, rarely up to 1100 objects or 300 attributes, of integers, fractions, texts, truth values, missing '
        'values, sequences and mixtures; sessions of 1-14 edits: rows and columns added (of another type than the ones there, too), '
        'deleted (one or several), renamed, deep copies continued in place of the original, subcontexts continued in '
        'place of the original, refused edits; after every edit table, rows, cells, values by name, sizes and '
        'names are compared with an own list-of-lists replay, every copy and subcontext made on the way is compared again '
        'at the end, and now and then a column is scaled nominally and the context compared with equal and differing ones. Non-trivial: a distinct (edits, table).')


def replay_eq(obs, mv, objs, atts, rows, what, rng):
    same_mv(obs, mv, objs, atts, rows, what)
    for _ in range(min(4, len(objs) * len(atts))):
        a, b = rng.randrange(len(objs)), rng.randrange(len(atts))
        v = obs.call('ManyValuedContext.get_value', mv.get_value, objs[a], atts[b])
        obs.check(typed([v]) == typed([rows[a][b]]), what + ': a value asked for by names', got=v, want=rows[a][b],
                  object=objs[a], attribute=atts[b])


def grown(obs, c, mv):
    """a value of the copy that can be modified is modified and put back: the original must not see it"""
    for x, y in zip(c.table, mv.table):
        for v, w in zip(x, y):
            if type(v) is list:
                old = list(w)
                v.append('grown')
                got = list(w)
                v.pop()
                obs.eq(got, old, 'a value of a deep copy is that of its original')
                obs.tag('modifiable value copied')


def scaled(rng, obs, mv, objs, atts, rows):
    j = rng.randrange(len(atts))
    scales = []
    for k in range(len(atts)):
        scales.append(obs.call('NominalScale', NominalScale, atts[k], mv) if k == j else Context([], [], []))
    d = obs.call('scale_mvcontext', scale_mvcontext, mv, scales)
    seen = [token(as_seen(r[j])) for r in rows]
    got = boolrows(d.table)
    obs.eq(typed(d.objects), typed(objs), 'objects of the scaled context')
    obs.check(all(sum(r) == 1 for r in got), 'an object has not exactly one value attribute', column=seen, got=got)
    for a in range(min(len(objs), 60)):
        for b in range(a):
            obs.check((got[a] == got[b]) == (seen[a] == seen[b]), 'scaled after the edits: shared attribute but unequal values, or reverse',
                      values=(seen[a], seen[b]))


def compared(rng, obs, mv, objs, atts, rows):
    """equality with the same table, in another order, and with one that differs in a value or name"""
    if not all(v == v for r in rows for v in r):
        return                                      # NaN differs from itself
    eq = lambda x, y: (bool(obs.call('ManyValuedContext.__eq__', lambda: x == y)), bool(obs.call('ManyValuedContext.__ne__', lambda: x != y)))
    po, pa = rng.sample(range(len(objs)), len(objs)), rng.sample(range(len(atts)), len(atts))
    make = lambda O, A, R: ManyValuedContext([[R[i][j] for j in pa] for i in po], [O[i] for i in po], [A[j] for j in pa])
    same = make(objs, atts, rows)
    for x, y in ((mv, same), (same, mv), (mv, mv), (mv, copy.deepcopy(mv))):
        obs.eq(eq(x, y), (True, False), 'equal many-valued contexts are said to differ')
    O, A, R = list(objs), list(atts), [list(r) for r in rows]
    alike = {0: [0.0, False, -0.0], 1: [1.0, True, 1 + 0j], 2: [2.0], 7: [7.0], 3: [3.0]}      # equal values of other types
    E = [[rng.choice(alike[v]) if type(v) in (int, float, bool) and v in alike and rng.random() < .6 else v for v in r] for r in rows]
    other = make(O, A, E)
    if typed(sum(E, [])) != typed(sum(R, [])):
        obs.tag('equal values of other types')
    for x, y in ((mv, other), (other, mv)):
        obs.eq(eq(x, y), (True, False), 'many-valued contexts with equal values are said to differ', other=E)
    k = rng.randrange(3)
    if k == 0 and objs and atts:
        a, b = rng.randrange(len(objs)), rng.randrange(len(atts))
        new = rng.choice([0, 1, 'x', '', None, .5, 7])
        if new == R[a][b]:
            return
        R[a][b] = new
    elif k == 1 and objs:
        O[rng.randrange(len(objs))] = 'no such name'
    elif k == 2 and atts:
        A[rng.randrange(len(atts))] = 'no such name'
    else:
        return
    other = make(O, A, R)
    for x, y in ((mv, other), (other, mv)):
        obs.eq(eq(x, y), (False, True), 'different many-valued contexts are said to be equal', changed=k, other=(O, A, R))
    obs.tag('compared')


def case(rng, obs, i):
    n, m = gen.size(rng, 7), gen.size(rng, 5)
    steps = rng.randint(1, 14)
    if i % 250 == 61:
        n, m = rng.choice([(70, 3), (257, 2), (300, 3), (1001, 1), (1100, 2), (3, 70), (2, 260), (1, 300)])
        steps = rng.randint(1, 4)
        obs.tag('large')
    pool_o = gen.names(rng, n + 16, rng.choice(gen.ANY_KINDS), 'o')
    pool_a = gen.names(rng, m + 16, rng.choice(gen.STR_KINDS + gen.ANY_KINDS), 'a')
    objs, atts = list(pool_o[:n]), list(pool_a[:m])
    free_o, free_a = list(pool_o[n:]), list(pool_a[m:])
    cols = [column(rng, n)[1] for _ in range(m)]
    rows = [[c[k] for c in cols] for k in range(n)]
    mv = obs.call('ManyValuedContext', ManyValuedContext, [list(r) for r in rows], list(objs), list(atts))
    replay_eq(obs, mv, objs, atts, rows, 'construction', rng)
    if n * m > 150:                                 # all parts of a large one: the last rows and columns as well
        stay = {0, n - 1} | set(rng.sample(range(n), n // 2))
        d = obs.call('ManyValuedContext.extract_subcontext_by_condition', mv.extract_subcontext_by_condition, lambda k: k in stay)
        idx = sorted(stay)
        replay_eq(obs, d, [objs[k] for k in idx], list(atts), [list(rows[k]) for k in idx], 'large: by condition', rng)
        a, k = rng.randrange(m), rng.choice([n - 1, rng.randrange(n)])
        v = rows[k][a]
        if v == v:
            d = obs.call('ManyValuedContext.extract_subcontext_by_attribute_values',
                         mv.extract_subcontext_by_attribute_values, {atts[a]: v})
            idx = [k for k in range(n) if rows[k][a] == v]
            replay_eq(obs, d, [objs[k] for k in idx], list(atts), [list(rows[k]) for k in idx], 'large: by value', rng)
        pick = rng.sample(range(m), (m + 1) // 2)
        d = obs.call('ManyValuedContext.extract_subcontext', mv.extract_subcontext, [atts[j] for j in pick])
        replay_eq(obs, d, list(objs), [atts[j] for j in pick], [[r[j] for j in pick] for r in rows], 'large: part of the attributes', rng)
    kept = []                                       # contexts that later edits must not reach
    done = []
    obs.sample = {'objects': [repr(o) for o in objs[:99]], 'attributes': atts[:99],
                  'rows': [[repr(v) for v in r[:99]] for r in rows[:99]], 'edits': done}

    def keep(c):
        if len(kept) < 6:
            kept.append((c, list(objs), list(atts), [list(r) for r in rows]))

    for _ in range(steps):
        n, m = len(objs), len(atts)
        ops = []
        if free_a:
            ops += ['add_attribute'] * 3
        if free_o and (m or n):
            ops += ['add_object'] * 3
        if n:
            ops += ['delete_object', 'rename_object', 'condition']
        if m:
            ops += ['delete_attribute', 'rename_attribute', 'delete_attributes', 'extract']
        ops += ['deepcopy']
        if n and m:
            ops += ['refused', 'scale', 'values']
        op = rng.choice(ops)
        done.append(op)
        if op == 'add_attribute':
            a = free_a.pop()
            col = column(rng, n)[1]
            given = list(col)
            obs.call('ManyValuedContext.add_attribute', mv.add_attribute, given, a)
            obs.eq(typed(given), typed(col), 'the given column was modified')
            rows = [r + [v] for r, v in zip(rows, col)]
            atts.append(a)
        elif op == 'add_object':
            o = free_o.pop()
            row = column(rng, m)[1]
            given = list(row)
            obs.call('ManyValuedContext.add_object', mv.add_object, given, o)
            obs.eq(typed(given), typed(row), 'the given row was modified')
            rows = rows + [list(row)]
            objs.append(o)
        elif op == 'delete_object':
            k = rng.randrange(n)
            obs.call('ManyValuedContext.delete_object', mv.delete_object, objs[k])
            free_o.append(objs[k])
            del objs[k], rows[k]
        elif op == 'delete_attribute':
            k = rng.randrange(m)
            obs.call('ManyValuedContext.delete_attribute', mv.delete_attribute, atts[k])
            free_a.append(atts[k])
            del atts[k]
            rows = [r[:k] + r[k + 1:] for r in rows]
        elif op == 'delete_attributes':
            gone = gen.subset(rng, atts)
            rng.shuffle(gone)
            obs.call('ManyValuedContext.delete_attributes', mv.delete_attributes, list(gone) + rng.sample(gone, rng.choice([0, 0, 0, 1]) if gone else 0))
            left = [j for j, a in enumerate(atts) if a not in gone]
            rows = [[r[j] for j in left] for r in rows]
            atts = [atts[j] for j in left]
            free_a += gone
        elif op == 'rename_object' and free_o:
            k = rng.randrange(n)
            o = free_o.pop()
            obs.call('ManyValuedContext.rename_object', mv.rename_object, objs[k], o)
            free_o.insert(0, objs[k])
            objs[k] = o
        elif op == 'rename_attribute' and free_a:
            k = rng.randrange(m)
            a = free_a.pop()
            obs.call('ManyValuedContext.rename_attribute', mv.rename_attribute, atts[k], a)
            free_a.insert(0, atts[k])
            atts[k] = a
        elif op == 'deepcopy':
            if rng.random() < .6 or 'nan' in repr(rows).lower():    # NaN is only known by identity
                c = obs.call('copy.deepcopy', copy.deepcopy, mv)
            else:
                c = obs.call('pickle', lambda: pickle.loads(pickle.dumps(mv)))
            obs.check(c is not mv and c.table is not mv.table and type(c) is ManyValuedContext, 'a deep copy shares the table')
            grown(obs, c, mv)
            keep(mv)
            mv = c                                  # later edits go to the copy
        elif op == 'extract':
            pick = gen.subset(rng, atts)
            rng.shuffle(pick)
            keep(mv)
            mv = obs.call('ManyValuedContext.extract_subcontext', mv.extract_subcontext, list(pick))
            idx = [atts.index(a) for a in pick]
            rows = [[r[j] for j in idx] for r in rows]
            free_a += [a for a in atts if a not in pick]
            atts = pick
        elif op == 'condition':
            stay = set(gen.subset(rng, range(n)))
            keep(mv)
            mv = obs.call('ManyValuedContext.extract_subcontext_by_condition', mv.extract_subcontext_by_condition,
                          lambda k: k in stay)
            free_o += [o for k, o in enumerate(objs) if k not in stay]
            objs = [o for k, o in enumerate(objs) if k in stay]
            rows = [r for k, r in enumerate(rows) if k in stay]
        elif op == 'values':
            a, k = rng.randrange(m), rng.randrange(n)
            v = rows[k][a]
            if v == v:
                keep(mv)
                mv = obs.call('ManyValuedContext.extract_subcontext_by_attribute_values',
                              mv.extract_subcontext_by_attribute_values, {atts[a]: v})
                stay = [k for k in range(n) if rows[k][a] == v]
                free_o += [o for k, o in enumerate(objs) if k not in stay]
                objs, rows = [objs[k] for k in stay], [rows[k] for k in stay]
        elif op == 'refused':
            r = rng.randrange(3)
            if r == 0:
                obs.refuse('ManyValuedContext.add_object!', Exception, mv.add_object, [0] * (m + rng.choice([1, 2])), 'no such one')
            elif r == 1:
                obs.refuse('ManyValuedContext.add_attribute!', Exception, mv.add_attribute, [0] * (n + rng.choice([1, 2])), 'no such one')
            else:
                obs.refuse('ManyValuedContext.get_value!', Exception, mv.get_value, objs[0], 'no such one')
        elif op == 'scale' and n < 80 and m < 20 and all(type(a) is str for a in atts):
            scaled(rng, obs, mv, objs, atts, rows)
        obs.tag(op)
        if rng.random() < .2 and len(objs) < 80 and len(atts) < 20:
            compared(rng, obs, mv, objs, atts, rows)
        replay_eq(obs, mv, objs, atts, rows, 'after ' + op, rng)
        obs.state(op, [repr(o) for o in objs[:40]], atts[:40], [[repr(v) for v in r[:40]] for r in rows[:40]])
    if kept and rng.random() < .5:                  # the rows of the last one, written to directly
        for r in mv.table:
            for j in range(len(r)):
                r[j] = 'overwritten'
    for c, o, a, r in kept:
        replay_eq(obs, c, o, a, r, 'a context edited only through its copy or subcontext', rng)
