import fca
import gen
from fca.scale import Scale
from model import Ref
from lib import Editor, check_views, sortable, suffix_ok

CASES = {'quick': 1600, 'thorough': 30000}
STEPS = 10_000_000
RULE = ('random histories of 4-40 public edits (about one in eight meant to be refused) from an initial '
        'context of 0-10 objects/attributes or beyond 64 columns, all name kinds, colliding names, built in '
        '16 ways, with read queries in between; after every step all views are compared with an abstract '
        'table replaying the same edits. Non-trivial: a distinct (operation, resulting table shape, collision) '
        'state with at least one object or attribute.')


def case(rng, obs, i):
    if i % 40 == 13:
        ref = gen.limit_spec(rng, transposed=i % 80 == 13)
        big = dict(max_n=600, max_m=600)
    elif i % 10 == 9:
        ref = gen.wide_spec(rng, transposed=i % 20 == 19)
        big = dict(max_n=150, max_m=150)
    else:
        ref = gen.spec(rng, 8, 8, gen.ALL_KINDS)
        big = {}
    if i % 4 == 1:                                 # constructed with repeated names
        O, A = list(ref.objs), list(ref.atts)
        for L in (O, A):
            for _ in range(rng.randint(0, 3)):
                if len(L) > 1:
                    L[rng.randrange(len(L))] = rng.choice(L)
        if i % 8 == 1:                             # and with names that are made for repeated ones
            pool = rng.choice([['a', 'a_0', 'a_1', 'a_2', 'a_3', 'a_1_1', 'a_0_2'], ['a', 'a', 'a_1', 'a_2', 'b', 'b_1', 'b_3'],
                               [1, '1', '1_0', '1_1', '1_2', '1_3', 2], ['', '_1', '_2', '_3', '_0', '_1_1']])
            O, A = ([rng.choice(pool) for _ in L] for L in (O, A))
        obs.sample = dict(gen.show(ref), asked=[O, A])
        c = obs.call('Context', fca.Context, ref.table(), list(O), list(A))
        suffix_ok(obs, list(c.objects), O, 'construction')
        suffix_ok(obs, list(c.attributes), A, 'construction')
        ref = Ref(list(c.objects), list(c.attributes), ref.rows)
    elif ref.n == 0 and rng.random() < .5:         # what is left out is empty
        obs.sample = gen.show(ref)
        kw = {k: v for k, v in (('cross_table', []), ('objects', []), ('attributes', list(ref.atts))) if v or rng.random() < .3}
        c = obs.call('Context (parts left out)', fca.Context, **kw)
        obs.tag('parts left out')
    else:
        c = gen.build(fca, ref, rng)
        obs.sample = gen.show(ref)
    if i % 13 == 5:                                 # a scale is a context too
        c = obs.call('Scale', Scale, c)
        obs.tag('scale')
    check_views(obs, c, ref, 'after construction')
    ed = Editor(rng, obs, c, ref, collide=rng.choice([0, .05, .4]), **big)
    obs.sample['history'] = ed.history
    n = rng.randint(4, 12) if i % 10 == 9 else rng.randint(4, 40)
    if i % 40 == 13:
        n = 1
    for k in range(n):
        if rng.random() < .13:
            ed.refused()
            op = 'refused'
        else:
            op = ed.step('remove_empty_objects' if i % 40 == 13 or i % 10 == 9 and k == n - 1 else None)
        check_views(obs, c, ed.ref, 'step %d, %s' % (k, op))
        if ed.ref.n or ed.ref.m:
            obs.state(op, ed.ref.n, ed.ref.m, sorted(ed.ref.rows))
        if rng.random() < .15:
            q = rng.randrange(5)
            if q == 0:
                obs.call('Context.transpose', c.transpose)
            elif q == 1 and ed.ref.m <= 6 and sortable(ed.ref.atts):
                obs.call('Context.get_attribute_canonical_basis', c.get_attribute_canonical_basis)
            elif q == 2 and ed.ref.n <= 6:
                obs.call('Context.concepts', c.get_concepts)
            elif q == 3:
                obs.call('Context.object_attribute_pairs', c.get_object_attribute_pairs)
            else:
                obs.call('Context.aclosure', c.aclosure, gen.subset(rng, ed.ref.atts))
            check_views(obs, c, ed.ref, 'after a query at step %d' % k)
