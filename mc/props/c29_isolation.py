"""C29: seeded learners are deterministic and instances are isolated."""
import itertools
import random

import numpy as np

from mc.core import canon
from mc.learners import registry, block

ID = 'C29'
TECHNIQUE = 'exhaustive interleaving of the calls of two (three) instances and of global-generator perturbations, each compared with the instance run alone'
LEVEL_NOTE = (
    'every learner; all interleavings of the calls of an instance with those of a same-class instance on other data, a learner of another class beside it, and every placement of reseeding or drawing '
    'from the global numpy and Python generators'
)
BOUNDS = {'quick': 'about 80 learner settings; all 20 (35) interleavings of 3+3 (4+3) calls for 3 data assignments x 2 perturbation patterns; all 16 placements of global reseeding in 4 calls',
          'thorough': 'all 70 interleavings of 4+4 calls, with a third instance of every other class'}
ASSUMPTIONS = ['learners that own no seed (drift-aware kNN, trees without randomness, ...) must be deterministic as well',
               'a default argument object (detector, base learner) shared by two instances counts as leaking if it changes any answer']


def shards(tier):
    return [(l.name, {}) for l in registry()]


def calls(l, m, plan):
    """the calls of one instance: batches of training rows, then a query; returned as thunks collecting answers"""
    out = []
    log = []
    for part in plan:
        out.append(lambda part=part: (l.fit(m, part), log.append(canon(l.answers(m)))))
    return out, log


PLANS = {'ab': ['a', 'b', 'a'], 'cB': ['c', 'B', 'c'], 'Aa': ['A', 'C', 'b']}


def plan(l, key, n):
    return [block(l.task, x) for x in (PLANS[key] + ['c'])[:n]]


def solo(l, key, n):
    random.seed(1)
    np.random.seed(1)
    m = l.make()
    c, log = calls(l, m, plan(l, key, n))
    for f in c:
        f()
    return log


def perturb(k):
    np.random.seed(k)
    random.seed(k)
    np.random.rand(k % 5)


def run(name, p, ctx):
    R = registry()
    l = [x for x in R if x.name == name][0]
    i0 = [x.name for x in R].index(name)
    quick = ctx.tier == 'quick'
    na, nb = (3, 2) if quick else (4, 3)
    others = [l, R[(i0 + 1) % len(R)]] if quick else [l] + R[(i0 % 5)::5]
    for ka in PLANS:
        want = solo(l, ka, na)
        ctx.state(ka, canon(want))
        ctx.sample({'learner': name, 'plan': ka, 'answers': want})
        # every placement of global perturbations
        for mask in itertools.product((0, 1), repeat=na + 1):
            ctx.case(name, ka, 'global', mask)
            ctx.trace()
            perturb(99)
            if mask[0]:
                perturb(5)
            m = l.make()
            c, log = calls(l, m, plan(l, ka, na))
            for k, f in zip(mask[1:], c):
                if k:
                    perturb(12345)
                f()
            if not ctx.eq(log, want, name + '/global', 'global generators reseeded at %s' % (mask,)):
                return
        # every interleaving with another instance
        for o in others:
            kb = [x for x in PLANS if x != ka][0] if o is l else 'ab'
            for order in set(itertools.permutations('A' * na + 'B' * nb)):
                for first in ('AB', 'BA') if o is l else ('BA',):
                    ctx.case(name, ka, 'beside', o.name, ''.join(order), first)
                    ctx.trace()
                    ctx.step(len(order))
                    np.random.seed(4)
                    mk = {}
                    for w in first:
                        mk[w] = l.make() if w == 'A' else o.make()
                    ca, log = calls(l, mk['A'], plan(l, ka, na))
                    cb, _ = calls(o, mk['B'], plan(o, kb, nb))
                    it = {'A': iter(ca), 'B': iter(cb)}
                    for w in order:
                        next(it[w])()
                    if not ctx.eq(log, want, name + '/beside', 'beside %s (%s, created %s)' % (o.name, ''.join(order), first)):
                        return
        # an instance used before must not matter
        m = l.make()
        for f in calls(l, m, plan(l, 'cB', na))[0]:
            f()
        ctx.eq(solo(l, ka, na), want, name + '/before', 'after another instance was used')
