"""C28: cutting a training sequence into batches differently changes nothing."""
import numpy as np

from mc.core import canon, compositions
from mc.learners import registry, block, train

ID = 'C28'
TECHNIQUE = 'differential exploration: every way of cutting bounded training sequences into batches, with and without weights, run beside one-sample-at-a-time training'
LEVEL_NOTE = (
    'every instance-incremental learner; all 32 compositions of 6-sample sequences after each bounded prefix and a fixed set of coarse cuts of the long sequences, compared through all later answers'
)
BOUNDS = {'quick': 'about 75 learner settings; 3 blocks x 4 prefixes x 32 cuts (+ the same with weights 2,1,3,.. where weights are accepted); 7 cuts of 5 long sequences',
          'thorough': '9 two-block sequences x prefixes x the 2048 cuts of 12 samples (3-4 prefixes), all weights patterns'}
ASSUMPTIONS = ['the perceptron wrapper (its update rule works on whole batches), the drift-aware kNN (trims its window per batch) and Learn++ (chunks are calls) are batch learners and are excluded',
               'the prototype learner initialises a class from the batch it is first seen in; it is compared after a common first batch only']

BATCHWISE = ('PerceptronMask', 'KNNADWINClassifier', 'LearnPPClassifier')


def ls():
    return [l for l in registry() if l.name not in BATCHWISE]


def shards(tier):
    return [(l.name, {}) for l in ls()]


def cut(rows, comp):
    i = 0
    for k in comp:
        yield rows[i:i + k], i
        i += k


def final(l, pre, rows, comp, W):
    m = l.make()
    np.random.seed(0)
    for part in pre:
        l.fit(m, part)
    for part, i in cut(rows, comp):
        l.fit(m, part, None if W is None else W[i:i + len(part)])
    np.random.seed(1)
    return [l.answers(m)] if 'q' not in l else [[np.asarray(x.predict(np.array([[0., 0.]]))).shape for x in [m]]]


def run(name, p, ctx):
    l = [x for x in registry() if x.name == name][0]
    proto = name.startswith('Robust')
    whole = 'MonteCarlo' in name
    quick = ctx.tier == 'quick'
    pats = [None]
    if 'w' in l or 'W' in l:
        pats += [[2., 1., 3., 1., 2., 2.] * 40] + ([] if quick else [[1., 0., 2., 0., 1., 3.] * 40])
    seqs = 'abc' if quick else [x + y for x in 'abc' for y in 'abc']
    for pre in (['', 'a', 'bc', 'AB'] if not proto else ['c', 'bc', 'AB']):
        prow = block(l.task, pre)
        prep = [prow] if proto else [[r] for r in prow]
        if proto:
            prep = [block(l.task, 'c' + pre)]
        for s in seqs:
            rows = block(l.task, s)
            for W in pats:
                want = final(l, prep, rows, (1,) * len(rows), W)
                ctx.state(pre, s, W is None, canon(want))
                ctx.sample({'learner': name, 'prefix': pre, 'sequence': rows, 'weights': W and W[:len(rows)], 'answers': want})
                comps = list(compositions(len(rows)))
                if quick and len(pre) == 2 and pre.isupper():
                    comps = [c for c in comps if len(c) <= 2]
                if not quick and pre:
                    comps = [c for c in comps if len(c) <= 4]
                for comp in comps:
                    ctx.case(name, pre, s, comp, W and W[:len(rows)])
                    ctx.trace()
                    ctx.step(len(comp))
                    if not ctx.eq(final(l, prep, rows, comp, W), want, '%s/%s' % (name, 'plain' if W is None else 'weights'),
                                  'after %r, %r cut as %s (weights %s) against one by one' % (pre, s, comp, W and W[:len(rows)])):
                        return
    if proto:
        return
    for s in ['AB', 'abcabc', 'BAC', 'cA', 'aCb']:
        rows = block(l.task, s)
        for W in pats:
            want = final(l, [], rows, (1,) * len(rows), W)
            for size in (2, 3, 5, 7, 10, 17, len(rows)):
                comp = (size,) * (len(rows) // size) + ((len(rows) % size,) if len(rows) % size else ())
                ctx.case(name, s, size, W is not None)
                ctx.trace()
                ctx.step(len(comp))
                if not ctx.eq(final(l, [], rows, comp, W), want, '%s/%s' % (name, 'plain' if W is None else 'weights'), '%r in batches of %d (weights %s)' % (s, size, W is not None)):
                    return
