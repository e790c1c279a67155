import fca
import gen
from fca.algorithms import closure_operators as co
from fca.algorithms import dg_basis
from lib import imasks, isnap, random_imp, check_views
from model import mask_close

CASES = {'quick': 6000, 'thorough': 150000}
RULE = ('contexts of every shape (0-9 objects, 0-7 attributes) with random lists of 0-7 confirmed implications valid '
        'in them (unit ones, repeated, trivial, with empty premises), five relative-basis entry points with both '
        'closure procedures, with and without a condition on premises; soundness, completeness (every attribute set) '
        'and leanness decided on bit masks. Non-trivial: a distinct (incidence, confirmed list) with at least one '
        'confirmed implication.')
STEPS = 10_000_000


def conds(rng, ref):
    x = set(gen.subset(rng, ref.atts))
    k = rng.randint(0, ref.m)
    return rng.choice([lambda a: len(a) <= k, lambda a: len(a) >= k, lambda a: not x <= a, lambda a: bool(a & x),
                       lambda a: a <= x, lambda a: False, lambda a: len(a) % 2 == 0])


def case(rng, obs, i):
    ref = gen.spec(rng, 9, 7)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    bg = [random_imp(rng, ref) for _ in range(rng.randint(0, 7))]
    for _ in range(rng.randint(0, 2)):
        if bg:
            x = rng.choice(bg)
            bg.insert(rng.randint(0, len(bg)),
                      x if rng.random() < .5 else fca.Implication(x.premise, x.premise | x.conclusion))
    if i % 40 == 7:                                # a long list, mostly repetitions and weaker ones
        tail = [random_imp(rng, ref) for _ in range(rng.randint(1, 3))]
        for _ in range(rng.choice([30, 61, 64, 100, 127, 130, 260])):
            x = rng.choice(bg or tail[:1])
            bg.append(fca.Implication(x.premise, x.premise | set(gen.subset(rng, sorted(x.conclusion, key=str)))))
        bg += tail
        obs.tag('many confirmed')
    bm = imasks(ref, bg)
    obs.sample['confirmed'] = [repr(b) for b in bg]
    if bg:
        obs.state(ref.rows, ref.m, sorted(bm))
    entries = [
        ('compute_dg_basis', lambda b, **k: fca.compute_dg_basis(c, imp_basis=b, **k)),
        ('compute_dg_basis(simple)', lambda b, **k: fca.compute_dg_basis(c, close=co.simple_closure, imp_basis=b, **k)),
        ('compute_dg_basis_simple', lambda b, **k: fca.compute_dg_basis_simple(c, imp_basis=b, **k)),
        ('dg_basis_iter_simple', lambda b, **k: list(dg_basis.dg_basis_iter_simple(c, imp_basis=b, **k))),
        ('dg_basis_iter_simple(lin)',
         lambda b, **k: list(dg_basis.dg_basis_iter_simple(c, close=co.lin_closure, imp_basis=b, **k))),
        ('Context.get_attribute_implications', lambda b, **k: c.get_attribute_implications(confirmed=b, **k)),
        ('Context.get_attribute_implications(simple)',
         lambda b, **k: c.get_attribute_implications(basis=fca.compute_dg_basis_simple, confirmed=b, **k)),
    ]
    snap, ids = isnap(bg), list(map(id, bg))
    for name, f in rng.sample(entries, 4):
        rel = obs.call(name, f, bg)
        obs.check(isnap(bg) == snap and list(map(id, bg)) == ids, name + ': the confirmed implications were modified',
                  before=snap, after=isnap(bg))
        rm = imasks(ref, rel)
        for imp, (p, q) in zip(rel, rm):
            obs.check(ref.holds(p, q), name + ': an implication that does not hold in the context', imp=imp)
        al = rm + bm
        for s in range(1 << ref.m):
            obs.eq(mask_close(s, al), ref.ac(s), name + ': with the confirmed ones it does not entail all implications',
                   attribute_set=ref.an(s), basis=rel)
        for k, (p, q) in enumerate(rm):
            obs.check(mask_close(p, rm[:k] + rm[k + 1:] + bm) & q != q,
                      name + ': an implication follows from the others and the confirmed ones', imp=rel[k], basis=rel)
        if rng.random() < .6:
            cond = conds(rng, ref)
            rel = obs.call(name + ' with condition', f, bg, cond=cond)
            obs.check(isnap(bg) == snap and list(map(id, bg)) == ids,
                      name + ': the confirmed implications were modified', before=snap, after=isnap(bg))
            for imp, (p, q) in zip(rel, imasks(ref, rel)):
                obs.check(cond(set(imp.premise)), name + ': a premise that does not meet the condition', imp=imp)
                obs.check(ref.holds(p, q), name + ': with a condition, an implication that does not hold', imp=imp)
            obs.tag('with condition')
    if rng.random() < .3:
        # confirmed implications on the object side
        t = ref.transpose()
        if t.m <= 7:
            ob = [random_imp(rng, t) for _ in range(rng.randint(0, 4))]
            om = imasks(t, ob)
            snap = isnap(ob)
            rel = obs.call('Context.get_object_implications', c.get_object_implications, confirmed=ob)
            obs.eq(isnap(ob), snap, 'object implications: the confirmed implications were modified')
            rm = imasks(t, rel)
            obs.check(all(t.holds(p, q) for p, q in rm), 'object implication that does not hold', basis=rel)
            for s in range(1 << t.m):
                obs.eq(mask_close(s, rm + om), t.ac(s), 'object implications do not entail all', basis=rel)
            for k, (p, q) in enumerate(rm):
                obs.check(mask_close(p, rm[:k] + rm[k + 1:] + om) & q != q, 'object implication follows from the rest',
                          imp=rel[k], basis=rel)
    check_views(obs, c, ref, 'after computing relative bases')
