"""C40: a sample of weight k counts as k repetitions and weight zero counts as absent."""
import itertools

import numpy as np

from mc.core import canon
from mc.learners import registry, block, L, agree
from skmultiflow.bayes import NaiveBayes
from skmultiflow.rules import VeryFastDecisionRulesClassifier
from skmultiflow.trees import (HoeffdingTreeClassifier, HoeffdingAdaptiveTreeClassifier, ExtremelyFastDecisionTreeClassifier,
                               LabelCombinationHoeffdingTreeClassifier, HoeffdingTreeRegressor, HoeffdingAdaptiveTreeRegressor, iSOUPTreeRegressor)

ID = 'C40'
TECHNIQUE = 'exhaustive enumeration of integer weight assignments over bounded training sequences, each run beside the sequence with the repetitions written out and the one with the zero-weight samples removed'
LEVEL_NOTE = (
    'all 1024 assignments of weights 0-3 to 5 samples for every weight-supporting learner whose statistics are order-free, without splits and with one split decided on the last sample; '
    'weight zero additionally in splitting configurations and after trained prefixes'
)
BOUNDS = {'quick': '17 settings x 2 sequences x 1024 weight assignments (with splitting: all assignments of 1-3 to 5 samples); zero-weight subsets (2^6) after 3 prefixes for 25 further settings',
          'thorough': '3 sequences, 5 prefixes'}
ASSUMPTIONS = ['"order-free" excludes adaptive leaves, perceptron leaves, bootstrapped and drift-monitored learners: for those only weight zero is compared, and only where no random draw is spent on the sample',
               'split points are equalised by making the grace period end on the last sample, whose weight is one']


def order_free(g):
    big = dict(grace_period=g, split_confidence=0.6, tie_threshold=0.9)
    out = [L('NaiveBayes', 'clf', lambda: NaiveBayes(nominal_attributes=[1]), 'p'),
           L('NaiveBayes-numeric', 'clf', lambda: NaiveBayes(), 'p')]
    for lp in ('mc', 'nb'):
        for nom in (None, [1], [0, 1]):
            out.append(L('HT-%s-%s' % (lp, nom), 'clf', lambda lp=lp, nom=nom: HoeffdingTreeClassifier(leaf_prediction=lp, nominal_attributes=nom, **big), 'p'))
        out.append(L('HT-binary-%s' % lp, 'clf', lambda lp=lp: HoeffdingTreeClassifier(leaf_prediction=lp, nominal_attributes=[1], binary_split=True, split_criterion='gini', **big), 'p'))
        out.append(L('EFDT-' + lp, 'clf', lambda lp=lp: ExtremelyFastDecisionTreeClassifier(leaf_prediction=lp, min_samples_reevaluate=10 ** 6, **big), 'p'))
        out.append(L('LCHT-' + lp, 'ml', lambda lp=lp: LabelCombinationHoeffdingTreeClassifier(n_labels=2, leaf_prediction=lp, **big), ''))
    for nom in (None, [1]):
        out.append(L('HTR-%s' % nom, 'reg', lambda nom=nom: HoeffdingTreeRegressor(leaf_prediction='mean', nominal_attributes=nom, random_state=1, **big), ''))
        out.append(L('iSOUP-%s' % nom, 'mt', lambda nom=nom: iSOUPTreeRegressor(leaf_prediction='mean', nominal_attributes=nom, random_state=1, **big), ''))
    if g > 1000:
        for od in (True, False):
            out.append(L('VFDR-%s' % od, 'clf', lambda od=od: VeryFastDecisionRulesClassifier(
                ordered_rules=od, rule_prediction='first_hit' if od else 'weighted_sum', grace_period=g, nominal_attributes=[1]), 'p'))
    return out


ZERO = ('NaiveBayes', 'HoeffdingTreeClassifier', 'HoeffdingAdaptiveTreeClassifier', 'ExtremelyFastDecisionTreeClassifier', 'LabelCombinationHoeffdingTreeClassifier',
        'HoeffdingTreeRegressor', 'HoeffdingAdaptiveTreeRegressor', 'iSOUPTreeRegressor', 'StackedSingleTargetHoeffdingTreeRegressor',
        'AdaptiveRandomForestClassifier', 'VeryFastDecisionRulesClassifier')


def shards(tier):
    t = tier == 'thorough'
    out = [('free:' + l.name, {'seqs': 'abc' if t else 'ac'}) for l in order_free(10 ** 6)]
    out += [('split:' + l.name, {'seqs': 'abc' if t else 'ac'}) for l in order_free(6) if not l.name.startswith('NaiveBayes')]
    out += [('zero:' + l.name, {'pre': ['', 'a', 'bc'] + (['AB', 'CA'] if t else [])}) for l in registry() if l.name.split('-')[0] in ZERO]
    return out


def run(name, p, ctx):
    kind, n = name.split(':')
    globals()[kind](n, p, ctx)


def find(ls, n):
    return [l for l in ls if l.name == n][0]


def free(n, p, ctx):
    l = find(order_free(10 ** 6), n)
    for s in p['seqs']:
        rows = block(l.task, s)[:5]
        for W in itertools.product((0, 1, 2, 3), repeat=5):
            if sum(W) == 0:
                continue
            ctx.case(n, s, W)
            ctx.trace()
            ctx.step(5)
            m, r = l.make(), l.make()
            l.fit(m, rows, W)
            for x, w in zip(rows, W):
                for _ in range(w):
                    l.fit(r, [x], [1])
            want = l.answers(r)
            ctx.state(canon(want))
            if not ctx.check(agree(l.answers(m), want), n + '/repeat', lambda: 'weights %s on %s against repetitions: got %s, want %s' % (W, rows, l.answers(m), want)):
                return
    ctx.sample({'learner': n, 'sequence': rows, 'weights': W, 'answers': want})


def split(n, p, ctx):
    for s in p['seqs']:
        task = find(order_free(6), n).task
        rows = block(task, s)
        for W in itertools.product((1, 2, 3), repeat=5):
            l = find(order_free(sum(W) + 1), n)
            ctx.case(n, s, W)
            ctx.trace()
            ctx.step(6)
            m, r = l.make(), l.make()
            l.fit(m, rows, W + (1,))
            for x, w in zip(rows, W + (1,)):
                for _ in range(w):
                    l.fit(r, [x])
            want, got = l.answers(r), l.answers(m)
            ctx.state(canon(want))
            if not ctx.check(agree(got, want) and shape(m) == shape(r), n + '/split',
                             lambda: 'weights %s on %s against repetitions, split decided on the last sample: got %s %s, want %s %s' % (W, rows, got, shape(m), want, shape(r))):
                return
    ctx.sample({'learner': n, 'sequence': rows, 'weights': W, 'answers': want})


def shape(m):
    return [v for v in (m.get_model_measurements if not callable(m.get_model_measurements) else m.get_model_measurements()).values() if isinstance(v, int)][:4] \
        if hasattr(m, 'get_model_measurements') else []


def zero(n, p, ctx):
    l = find(registry(), n)
    junk = block(l.task, 'c')
    for pre in p['pre']:
        for s in 'ab':
            rows = block(l.task, s)
            for mask in itertools.product((0, 1), repeat=len(rows)):
                ctx.case(n, pre, s, mask)
                ctx.trace()
                m, r = l.make(), l.make()
                for x in block(l.task, pre):
                    l.fit(m, [x], [1])
                    l.fit(r, [x], [1])
                for i, x in enumerate(rows):
                    if mask[i]:
                        l.fit(m, [junk[i]], [0])
                        if i % 2:
                            l.fit(m, [junk[i - 1], junk[i]], [0, 0])
                    w = 1 + i % 3
                    l.fit(m, [x], [w])
                    l.fit(r, [x], [w])
                want = l.answers(r)
                ctx.state(pre, canon(want))
                if not ctx.eq(l.answers(m), want, n + '/zero', 'zero-weight samples before %s in %s after %r' % (mask, s, pre)):
                    return
