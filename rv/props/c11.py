import fca
import gen
from lib import boolrows, check_views, modified, pick_ref, typed
from model import Ref

CASES = {'quick': 8000, 'thorough': 200000}
STEPS = 20_000_000
RULE = ('contexts of every shape and name kind, one in six wider than 30 columns (31-140) or as tall, rows differing '
        'only beyond position 60; clarified, object- and attribute-reduced results compared with their definition on '
        'bit masks. Non-trivial: a distinct incidence with at least two rows.')


def kept(obs, c, ref, what):
    """result as a list of (position, mask) of the source's objects, rows unchanged"""
    obs.eq(typed(c.attributes), typed(ref.atts), what + ': attributes changed')
    obs.eq(len(set(c.objects)), len(c.objects), what + ': an object is listed twice')
    got = []
    for o, row in zip(c.objects, boolrows(c.table)):
        obs.check(o in ref.oi, what + ': an object that the context does not have', object=o)
        k = ref.oi[o]
        m = sum(1 << j for j, x in enumerate(row) if x)
        obs.eq(m, ref.rows[k], what + ': the row of a kept object changed', object=o)
        got.append((k, m))
    obs.eq(boolrows(c.table), boolrows(c.cross_table), what + ': table views')
    return got


def reduced(obs, got, ref, what):
    rows = [m for _, m in got]
    new = Ref([k for k, _ in got], ref.atts, rows)
    obs.check(new.intents() == ref.intents(), what + ': the intents changed', kept=got, context=gen.show(ref))
    for k, m in enumerate(rows):
        if m == ref.M:
            continue
        meet = ref.M
        for j, x in enumerate(rows):
            if j != k and x & m == m:
                meet &= x
        obs.check(meet != m, what + ': a kept row is the intersection of other kept rows', row=ref.an(m), kept=got,
                  context=gen.show(ref))
    obs.tag('%s dropped %s' % (what, 'some' if len(rows) < ref.n else 'none'))


def case(rng, obs, i):
    if i % 6 == 5:
        ref = gen.wide_spec(rng, transposed=rng.random() < .35)
    else:
        ref = pick_ref(rng, i, small=(11, 8), kinds=gen.ALL_KINDS, wide=0, data=70, dmax=400, big=200)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    if ref.n > 1:
        obs.state(ref.rows, ref.m)
    x = obs.call('Context.clarify_objects', c.clarify_objects)
    got = kept(obs, x, ref, 'clarify_objects')
    modified(rng, obs, x, c, ref, 'clarify_objects')
    obs.eq(sorted(m for _, m in got), sorted(set(ref.rows)), 'clarify_objects: not one object per distinct row')
    check_views(obs, c, ref, 'source after clarify_objects')
    x = obs.call('Context.reduce_objects', c.reduce_objects)
    got = kept(obs, x, ref, 'reduce_objects')
    modified(rng, obs, x, c, ref, 'reduce_objects')
    reduced(obs, got, ref, 'reduce_objects')
    check_views(obs, c, ref, 'source after reduce_objects')
    d = obs.call('Context.reduce_attributes', c.reduce_attributes)
    obs.eq(typed(d.objects), typed(ref.objs), 'reduce_attributes: objects changed')
    t = ref.transpose()
    got = kept(obs, fca.Context([[bool(x) for x in col] for col in zip(*boolrows(d.table))] if ref.n else [[] for _ in d.attributes],
                                list(d.attributes), list(d.objects)), t, 'reduce_attributes')
    reduced(obs, got, t, 'reduce_attributes')
    modified(rng, obs, d, c, ref, 'reduce_attributes')
    check_views(obs, c, ref, 'source after reduce_attributes')
