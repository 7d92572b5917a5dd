"""C23: naive Bayes equals Bayes' rule over the weighted training history."""
import itertools

import numpy as np

from mc.core import same, chunk, compositions
from mc.bayesref import scores
from skmultiflow.bayes import NaiveBayes

ID = 'C23'
TECHNIQUE = 'explicit enumeration of all weighted training histories on a grid against Bayes\' rule computed from the whole history'
LEVEL_NOTE = (
    'exhaustive over histories of up to 5 (quick) / 6 (thorough) weighted samples of two attributes, all nominal/numeric settings and declared-class settings'
)
BOUNDS = {'quick': '2 attributes (all four nominal/numeric settings), 6-symbol alphabets of (row, label, weight), depth 5, 12 queries, 3 class declarations',
          'thorough': '8-symbol alphabets, depth 6'}
ASSUMPTIONS = ['a numeric attribute with zero spread has likelihood 1 at its mean and 0 elsewhere (as implemented and as in MOA)',
               'the Laplace correction counts the values seen for that class']

# rows, labels (non-contiguous, any order), weights
SYM = [((0., 1.), 0, 1.), ((1., 1.), 2, 1.), ((3., 0.), 0, 2.), ((1., 2.), 2, .5), ((0., 0.), 1, 1.), ((2., 1.), 1, 0.),
       ((3., 2.), 2, 3.), ((1., 0.), 0, 1.)]
QUERY = [(a, b) for a in (0., 1., 2.5, 3.) for b in (0., 1., 2.)]
# a long skewed history to continue from
PRE = {'none': [], 'skewed': [((0., 1.), 0, 1.), ((1., 1.), 0, 1.), ((3., 2.), 2, 2.), ((2., 0.), 2, 1.), ((0., 2.), 0, 1.)]}


def check(ctx, nb, hist, nominal, declared):
    X = np.array(QUERY)
    P = np.asarray(nb.predict_proba(X))
    Y = nb.predict(X)
    ctx.step(len(QUERY))
    eff = [s for s in hist if s[2] != 0]
    prior = {}
    for x, y, w in eff:
        prior[y] = prior.get(y, 0.) + w
    if not prior:
        ctx.check(P.shape[0] == len(QUERY) and not P.any() and same(Y, [0] * len(QUERY)), 'untrained', 'no information: zero scores, label 0')
        return
    ncol = (max(declared) if declared is not None else max(prior)) + 1
    ctx.check(P.shape == (len(QUERY), ncol), 'shape', lambda: (P.shape, ncol))
    for i, q in enumerate(QUERY):
        s = scores(prior, eff, q, nominal)
        tot = sum(s.values())
        want = [(s.get(c, 0.) / tot if tot > 0 else 0.) for c in range(ncol)]
        ctx.check(same(P[i], want, 1e-8), 'proba', lambda: 'query %s: %s, Bayes\' rule gives %s' % (q, P[i].tolist(), want))
        ctx.check(want[int(Y[i])] >= max(want) - 1e-8, 'predict', lambda: 'query %s: label %s, scores %s' % (q, Y[i], want))


def run(name, params, ctx):
    nominal, declared, pre, first, nsym, depth = params
    cuts = list(compositions(depth))
    for n, rest in enumerate(itertools.product(range(nsym), repeat=depth - 1)):
        hist = [SYM[first]] + [SYM[i] for i in rest]
        cut = cuts[n % len(cuts)]
        ctx.case('NaiveBayes', dict(nominal=nominal, declared=declared, preamble=pre), hist, cut)
        nb = NaiveBayes(nominal_attributes=list(nominal) or None)
        done = []
        if PRE[pre]:
            nb.partial_fit(np.array([x for x, _, _ in PRE[pre]]), np.array([y for _, y, _ in PRE[pre]]), classes=declared,
                           sample_weight=np.array([w for _, _, w in PRE[pre]]))
            done += PRE[pre]
        i = 0
        for k in cut:
            b = hist[i:i + k]
            i += k
            X, y, w = np.array([s[0] for s in b]), np.array([s[1] for s in b]), np.array([s[2] for s in b])
            if all(v == 1. for v in w) and n % 2:
                nb.partial_fit(X, y, classes=declared)
            else:
                nb.partial_fit(X, y, classes=None if declared is None else np.array(declared), sample_weight=w)
            X[...] = 50.
            done += b
        check(ctx, nb, done, nominal, declared)
        ctx.state(nominal, pre, tuple(sorted(done)))
        ctx.trace()
    ctx.sample(ctx.cur)


def shards(tier):
    q = tier == 'quick'
    nsym, depth = (6, 5) if q else (8, 6)
    out = []
    for i, nominal in enumerate(((), (0,), (1,), (0, 1))):
        for j, pre in enumerate(PRE):
            for f in range(nsym):
                declared = (None, [0, 1, 2], [2, 0, 1, 4])[(i + j + f) % 3]
                out.append(('n%d-%s-%d' % (i, pre, f), (nominal, declared, pre, f, nsym, depth)))
    return out
