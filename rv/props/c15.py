import fca
import gen
from fca.algorithms import factors
from lib import check_views, pick_ref
from model import Ref
from props.c14 import reached

CASES = {'quick': 4000, 'thorough': 100000}
RULE = ('contexts of every shape and name kind with ties, fidelities 0-1, minimum sizes 0-4 and, over larger tables, 5-13, all four combinations of '
        'the flags, positional and keyword arguments, defaults included; each production consumed to its end under the '
        'step monitor and every factor judged. Non-trivial: a distinct (incidence, parameters) with at least one '
        'factor.')
STEPS = 20_000_000
EPS = 1e-9


def fits(ref, k, ge):
    """every concept with a cross has k objects and k attributes (and as many objects as attributes)"""
    if k <= 1 and not ge:
        return True
    if ref.n * ref.m > 400 or not ref.m:
        return False
    ext = {(1 << ref.n) - 1}
    for col in ref.cols():
        ext |= {e & col for e in ext}
        if len(ext) > 600:
            return False
    for e in ext:
        i = ref.up(ref.down(ref.up(e)))
        ne, ni = bin(e).count('1'), bin(i).count('1')
        if ne and ni and (ne < k or ni < k or ge and ne < ni):
            return False
    return True


def one(rng, obs, c, ref, fid, rep, k, ge):
    P = dict(fidelity=fid, allow_repeatitions=rep, min_atts_and_objs=k, objs_ge_atts=ge)
    if (rep, k, ge) == (True, 3, False) and rng.random() < .7:
        it = obs.call('algorithm2_w_condition', factors.algorithm2_w_condition, c, fid)
    elif rng.random() < .5:
        it = obs.call('algorithm2_w_condition', factors.algorithm2_w_condition, c, fid, rep, k, ge)
    else:
        it = obs.call('algorithm2_w_condition', factors.algorithm2_w_condition, c, **P)
    seen, last, out = 0, 0, []
    total = len(ref.pairs())
    covered, gone = set(), set()
    crosses = ref.pairs()
    end = object()
    while True:
        x = obs.call('next(algorithm2_w_condition)', next, it, end)
        if x is end:
            break
        cpt, new, share = x
        e, i = ref.om(cpt.extent), ref.am(cpt.intent)
        obs.check(ref.up(e) == i and ref.down(i) == e, 'a factor that is no formal concept', factor=cpt, parameters=P)
        ne, ni = len(cpt.extent), len(cpt.intent)
        obs.check(ne >= k and ni >= k, 'a factor smaller than asked for', factor=cpt, parameters=P)
        obs.check(not ge or ne >= ni, 'a factor with more attributes than objects', factor=cpt, parameters=P)
        obs.check(-EPS <= share <= 1 + EPS, 'the covered share is not between 0 and 1', share=share)
        fresh = set(cpt.pairs()) - covered
        if not rep:                                # everything in its rows and columns counts as covered
            fresh = {p for p in crosses if p[0] in cpt.extent or p[1] in cpt.intent} - gone
            gone |= fresh
        obs.check(EPS < new <= len(fresh) / total + EPS, 'the share newly covered by a factor is not positive, or more than it can be',
                  share=new, crosses=total, at_most=len(fresh), factor=cpt, parameters=P)
        obs.check(new <= share - last + EPS, 'the covered share grew by less than the share newly covered', new=new, share=share,
                  before=last, parameters=P)
        if rep and k <= 1 and not ge:              # nothing is ever given up
            obs.check(abs(new - len(fresh) / total) < EPS and abs(share - last - new) < EPS,
                      'the reported shares are not those of the new crosses', new=new, share=share, before=last,
                      crosses=(len(fresh), total), factor=cpt)
        obs.check(share >= last - EPS, 'the covered share decreased', share=share, before=last)
        if out:
            obs.check(not reached(round(last * total), total, fid), 'a factor after the requested fidelity was reported', share=last, parameters=P)
        if not rep:
            obs.check(i & ~seen, 'without repetitions, a factor with no new attribute', factor=cpt, parameters=P)
        seen |= i
        last = share
        out.append(cpt)
        covered |= set(cpt.pairs())
        obs.check(len(out) <= 4 * (len(ref.pairs()) + 4), 'the production does not end', parameters=P)
    if rep and fid == 1 and fits(ref, k, ge):
        # the constraints exclude no concept with a cross
        obs.eq(covered, set(ref.pairs()), 'at full fidelity some crosses are not covered though every concept meets the constraints',
               parameters=P)
        obs.tag('full cover')
        if k > 1 or ge:
            obs.tag('full cover under constraints that every concept meets')
    if not ref.pairs():
        obs.eq(out, [], 'factors without crosses')
    if out:
        obs.state(ref.rows, ref.m, fid, rep, k, ge)
    obs.tag('%s factors' % (len(out) if len(out) < 4 else '4+'))


def case(rng, obs, i):
    ref = pick_ref(rng, i, small=(9, 8), wide=0, data=200, dmax=250, big=500, tall=False)
    if i % 250 == 100:
        ref = gen.wide_spec(rng, m=rng.choice([63, 64, 65, 127, 128, 129]))
    if i % 3 == 0:
        ref = gen.spec(rng, 10, 8, mix='oa', shape=rng.choice(['contra', 'dups', 'dupcols', 'blocks', 'random', 'full']))
    if i % 3 == 1 and i % 2:                        # rows and columns repeated: large concepts only
        b = gen.spec(rng, 4, 3)
        kr, kc = (rng.choice([1, 2, 3, 4]), rng.choice([1, 2, 3])) if i % 60 != 1 else (rng.randint(4, 12), rng.randint(4, 12))
        rows = [sum(1 << (j * kc + z) for j in range(b.m) if r >> j & 1 for z in range(kc)) for r in b.rows for _ in range(kr)]
        ref = Ref(['g%d' % x for x in range(b.n * kr)], ['m%d' % x for x in range(b.m * kc)], rows)
    obs.sample = gen.show(ref)
    c = gen.build(fca, ref, rng)
    obs.budget(5_000_000 + 12_000 * ref.n * ref.m + 600 * ref.m ** 2)
    for _ in range(3):
        one(rng, obs, c, ref, rng.choice([1, 1, 1, .5, .8, 0, rng.random()]), rng.random() < .5,
            rng.choice([0, 1, 1, 2, 2, 3, 4] if i % 60 != 1 else [5, 8, 9, 10, 11, 12, 13]), rng.random() < .4)
    one(rng, obs, c, ref, 1, True, 1, False)
    tight = [(k, ge) for k in (3, 2, 1) for ge in (True, False) if (k, ge) != (1, False) and fits(ref, k, ge)]
    if tight and ref.pairs():
        one(rng, obs, c, ref, 1, True, *rng.choice(tight))
    check_views(obs, c, ref, 'after factorisation')
