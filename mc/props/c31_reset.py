"""C31: resetting a learner makes it indistinguishable from a new one."""
import numpy as np

from mc.core import canon
from mc.learners import registry, block, train, words

ID = 'C31'
TECHNIQUE = 'differential exploration: every (history, continuation) pair in the bound, reset in between, run beside a newly built learner on the continuation alone'
LEVEL_NOTE = (
    'every learner with a reset; all pairs of bounded histories and continuations, a second reset, batch and single-sample training, compared through all answers during the continuation'
)
BOUNDS = {'quick': 'about 80 learner settings; 17 histories (0-2 blocks and 4 long ones) x 6 continuations, 4 long pairs with a change of error rate, single samples and one batch',
          'thorough': '44 histories x 16 continuations'}
ASSUMPTIONS = ['the perceptron wrapper resets to an sklearn model with the same parameters', 'before any training a learner may refuse to answer: then the reset learner must refuse as well']

# error rates that differ greatly before and after the reset: a change detector that survives it would fire
EXTRA = [('AAA', 'ab' * 15), ('ab' * 8, 'AA'), ('AA', 'CC'), ('BBB', 'aaabbbaaabbbab')]


def shards(tier):
    t = tier == 'thorough'
    return [(l.name, {'h': words(3 if t else 2, ('A', 'AB', 'BAC', 'CAB')), 'c': words(2, ('AB', 'BA', 'C')) if t else ['', 'a', 'b', 'cb', 'AB', 'BC']})
            for l in registry() if hasattr(l.make(), 'reset')]


def ask(l, m):
    if 'q' in l:
        np.random.seed(3)
    try:
        return l.answers(m)
    except Exception as e:
        return 'refuses'


def follow(l, m, cont):
    np.random.seed(5)
    log = [ask(l, m)]
    for k, b in enumerate(cont):
        rows = block(l.task, b)
        if k % 2:
            l.fit(m, rows)
            log.append(ask(l, m))
        else:
            for i, r in enumerate(rows):
                l.fit(m, [r])
                if i % 2 or i + 1 == len(rows):
                    log.append(ask(l, m))
    return log


def run(name, p, ctx):
    l = [x for x in registry() if x.name == name][0]
    fresh = {c: follow(l, l.make(), c) for c in p['c']}
    for c in fresh:
        ctx.state(c, canon(fresh[c]))
    ctx.sample({'learner': name, 'continuation': p['c'][2], 'answers': fresh[p['c'][2]]})
    pairs = [(h, j, c) for h in p['h'] for j, c in enumerate(p['c'])] + [(h, 1, c) for h, c in EXTRA]
    for h, c in EXTRA:
        fresh[c] = fresh.get(c) or follow(l, l.make(), c)
    for h, j, c in pairs:
        m = l.make()
        np.random.seed(9)
        train(l, m, block(l.task, h))
        ask(l, m)
        m.reset()
        if j % 3 == 2:
            train(l, m, block(l.task, 'c'))
            m.reset()
        ctx.case(name, h, 'reset', c)
        ctx.trace()
        ctx.step(len(h) + len(c))
        if not ctx.eq(follow(l, m, c), fresh[c], name + '/reset', 'history %r, reset, continuation %r' % (h, c)):
            return
