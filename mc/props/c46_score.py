"""C46: score() is the documented metric of the learner's own predictions."""
import copy
import itertools
import math

import numpy as np

from mc import learners as reg
from skmultiflow.core import RegressorMixin

ID = 'C46'
TECHNIQUE = 'exhaustive enumeration of true-label vectors and weight vectors for every learner at every cut of its bounded histories; comparison with the metric computed from predict'
LEVEL_NOTE = 'all label vectors over four query rows (three for two-output learners) and three weight vectors, at three training states of every registered learner'
BOUNDS = {'quick': 'about 75 learners x 3 training states x all label vectors (up to 81) x 3 weightings', 'thorough': '7 training states'}
ASSUMPTIONS = ['regressors score R2 with outputs weighted by their variance; constant targets score 1 when predicted exactly and 0 otherwise',
               'for multi-label learners a row counts when all its labels agree']

SKIP = {'MultiOutputLearner-reg': 'inherits the classifiers\' accuracy, which is undefined for real targets'}
ROWS = {'clf': ((0, 1, 2), 4), 'bin': ((0, 1), 4), 'anom': ((0, 1), 4), 'ml': (((0, 0), (0, 1), (1, 0), (1, 1)), 3), 'reg': ((0., 1.5, -2.), 4),
        'mt': (((0., 0.), (1., -1.), (1., 2.)), 3)}
WEIGHTS = (None, (1., 2., 0., .5), (3., 0., 1., 1.))


def r2(y, p, w):
    y, p = np.asarray(y, float).reshape(len(y), -1), np.asarray(p, float).reshape(len(y), -1)
    res, tot = [], []
    for j in range(y.shape[1]):
        m = math.fsum(a * b for a, b in zip(w, y[:, j])) / math.fsum(w)
        res.append(math.fsum(a * (b - c) ** 2 for a, b, c in zip(w, y[:, j], p[:, j])))
        t = math.fsum(a * (b - m) ** 2 for a, b in zip(w, y[:, j]))
        tot.append(t if t > 1e-20 else 0.)
    if not any(tot):
        return None if any(r > 0 for r in res) and max(res) < 1e-15 else (0. if any(r > 0 for r in res) else 1.)
    return 1. - math.fsum(r for r, t in zip(res, tot) if t) / math.fsum(tot)


def accuracy(y, p, w):
    y, p = np.asarray(y).reshape(len(y), -1), np.asarray(p, float).reshape(len(y), -1)
    hit = [a for a, u, v in zip(w, y, p) if all(u == v)]
    return math.fsum(hit) / math.fsum(w)


def run(name, params, ctx):
    lname, words = params
    l = next(x for x in reg.registry() if x.name == lname)
    vals, n = ROWS[l.task]
    Q = np.array(reg.QUERY[:n], dtype=float)
    for word in words:
        ctx.case(lname, word)
        m = reg.trained(l, word)
        fresh = (lambda: copy.deepcopy(m)) if 'q' in l else (lambda: m)
        np.random.seed(5)
        try:
            pred = np.asarray(fresh().predict(Q.copy()))
        except Exception:
            if word:
                raise
            ctx.step()                   # this learner cannot answer before training
            continue
        if l.task in ('mt', 'ml') and pred.shape != (n, 2):
            ctx.step()
            continue                     # an untrained learner cannot know how many outputs there are
        for y in itertools.product(vals, repeat=n):
            for w in WEIGHTS:
                ctx.case(lname, word, y, w)
                wt = [1.] * n if w is None else list(w[:n])
                want = (r2 if l.task in ('reg', 'mt') else accuracy)(y, pred, wt)
                np.random.seed(5)
                kw = {} if w is None else dict(sample_weight=np.array(wt))
                got = fresh().score(Q.copy(), np.array(y), **kw)
                ctx.step()
                if want is not None and not abs(float(got) - want) <= 1e-9 * max(1., abs(want)):
                    ctx.fail('score', 'score %r, metric of the predictions %s is %r' % (got, pred.tolist(), want))
                    return
            ctx.trace()
        ctx.state(lname, word, str(pred.tolist()))
    ctx.sample(ctx.cur)


def shards(tier):
    words = ('', 'ab', 'AcB') if tier == 'quick' else ('', 'a', 'ab', 'abc', 'AcB', 'BAC', 'ccA')
    return [(l.name, (l.name, words)) for l in reg.registry() if l.name not in SKIP]
