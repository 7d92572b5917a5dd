"""C30: predictions stay inside the label space and probabilities are probabilities."""
import itertools

import numpy as np

from mc.core import canon
from mc.learners import registry, block, words, BLOCKS, L
from skmultiflow.meta import LearnPPClassifier
from sklearn.tree import DecisionTreeClassifier

ID = 'C30'
TECHNIQUE = 'exhaustive enumeration of label sequences over several label sets (unordered, non-contiguous, declared or not), checking every answer after every training step'
LEVEL_NOTE = (
    'every classifier; all label sequences of length 4 over 8 label-set/declaration settings, then an eventful continuation; every query answered after each step'
)
BOUNDS = {'quick': 'about 55 classifier settings x 8 label settings x all 16-81 label sequences of length 4, answers to 4 queries after each of 4 + 24 samples; all bounded block histories with labels 0..2',
          'thorough': 'label sequences of length 6'}
ASSUMPTIONS = ['where no class has a positive score (an untrained learner, a numerically zero likelihood, a chunk learner before its first chunk) all probabilities are zero and the answer is the library\'s default 0',
               'Learn++, the prototype learner (documented), code-matrix leveraging bagging and the binary learners take labels 0..n-1 and are explored with those only',
               'chain and multi-output learners are covered by C32']

XS = [(0., 0.), (3., 1.), (1., 1.), (2., 2.), (0., 2.), (3., 0.)]
SETS = [((0, 1), (0, 1)), ((0, 1), (1, 0)), ((0, 1, 2), (2, 0, 1)), ((0, 1), (0, 1, 2, 3)),
        ((0, 1, 2), None), ((1, 3), None), ((0, 200), None), ((2, 5), (2, 5)), ((3, 1), (3, 1))]
ZERO_BASED = ('LearnPPClassifier', 'RobustSoftLearningVectorQuantization', 'LeveragingBaggingClassifier-matrix')
STRICT = ('SAMKNNClassifier', 'HoeffdingTreeClassifier-mc', 'HoeffdingAdaptiveTreeClassifier-mc', 'ExtremelyFastDecisionTreeClassifier-mc',
          'HoeffdingTreeClassifier-hellinger', 'PerceptronMask', 'RobustSoftLearningVectorQuantization')
DECLARE = ('c',)


def ls():
    out = [l for l in registry() if l.task in ('clf', 'bin') and l.name != 'LearnPPClassifier']
    out.append(L('LearnPPClassifier', 'bin', lambda: LearnPPClassifier(DecisionTreeClassifier(max_depth=3, random_state=0), n_estimators=2, n_ensembles=2, window_size=6, random_state=1), 'spmc'))
    return out


def needs_classes(l):
    return 'c' in l or l.name.startswith(('Online', 'LearnPP', 'Perceptron', 'Robust'))


def shards(tier):
    return [(l.name, {'n': 4 if tier == 'quick' else 6}) for l in ls()]


def run(name, p, ctx):
    l = [x for x in ls() if x.name == name][0]
    for seen, decl in SETS:
        if l.task == 'bin' and (len(seen) > 2 or decl is not None and len(decl) > 2):
            continue
        if (l.task == 'bin' or name.startswith(ZERO_BASED)) and max(seen) > 2:
            continue
        if decl is None and needs_classes(l):
            continue
        for lab in itertools.product(seen, repeat=p['n']):
            tail = [(XS[(i * 5 + 2) % 6], seen[(i // 6 + i) % len(seen)]) for i in range(24 if lab == seen * 2 or lab[:2] == seen[:2] else 6)]
            rows = list(zip(XS, lab)) + tail
            explore(l, rows, decl, ctx, (seen, decl, lab))
    for h in words(2):
        explore(l, block(l.task, h), tuple(l.classes()), ctx, h)
        if not needs_classes(l):
            explore(l, block(l.task, h), None, ctx, h)


def explore(l, rows, decl, ctx, what):
    m = l.make()
    ctx.trace()
    seen = set()
    for i, r in enumerate(rows):
        try:
            l.fit(m, [r], classes=list(decl) if decl is not None else False)
        except RuntimeError as e:
            if l.name == 'LearnPPClassifier' and 'too weak' in str(e):
                return
            raise
        seen.add(r[1])
        if i >= 6 and i % 5:
            continue
        ctx.case(l.name, what, i)
        ctx.step()
        judge(l, m, set(decl) if decl is not None else set(seen), decl, ctx)


def judge(l, m, known, decl, ctx):
    key = l.name
    a = l.answers(m)
    pred = a[0]
    ctx.state(canon(a))
    ctx.sample({'learner': key, 'known': sorted(known), 'answers': a})
    ctx.check(len(pred) == 4, key + '/shape', lambda: 'predictions %r' % (pred,))
    P = None
    if 'p' in l:
        P = a[1]
        if not ctx.check(all(isinstance(r, list) for r in P) and len({len(r) for r in P}) == 1 and len(P) == 4, key + '/rectangular', lambda: 'probabilities %r' % (P,)):
            return
        P = np.array(P, dtype=float)
        n = P.shape[1]
        if P.any():
            if decl is not None:
                ctx.check(n in (len(decl), int(max(decl)) + 1), key + '/columns', lambda: '%d columns for declared classes %s' % (n, decl))
            else:
                ctx.check(n <= max(known) + 1, key + '/columns', lambda: '%d columns, observed classes %s' % (n, known))
        ctx.check((P >= -1e-12).all(), key.split('-')[0] + '/negative', lambda: 'probabilities %r' % (a[1],))
        for row in P:
            ctx.check(not row.any() or abs(row.sum() - 1) < 1e-9 or (row < -1e-12).any(), key + '/sum', lambda: 'probabilities %r' % (a[1],))
            if n == max(known) + 1 and n > len(known):
                ctx.check(all(row[c] == 0 for c in range(n) if c not in known), key + '/mass', lambda: 'mass on unknown classes: %r, known %s' % (a[1], known))
    strict = key.startswith(STRICT)
    for i, c in enumerate(pred):
        ok = c in known
        if not ok and c == 0 and not strict:
            ok = P is None or not P[i].any()
        ctx.check(ok, key + '/label', lambda: 'predicted %r, known classes %s, probabilities %r' % (pred, known, a[1:]))
        if P is not None and 'm' in l and P[i].any() and (P[i] >= 0).all():
            j = sorted(decl).index(c) if decl is not None and P.shape[1] == len(decl) and P.shape[1] != max(decl) + 1 and c in decl else int(c)
            ctx.check(j < P.shape[1] and P[i][j] >= P[i].max() - 1e-9, key + '/argmax', lambda: 'predicted %r with probabilities %r' % (pred, a[1]))
