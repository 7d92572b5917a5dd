"""C47: members of random-subspace ensembles see random feature subsets of the documented size."""
import itertools
import math

import numpy as np

from mc.fakes import Rec
from skmultiflow.meta import AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor, StreamingRandomPatchesClassifier

ID = 'C47'
TECHNIQUE = 'exhaustive enumeration of subset-size options x feature counts x ensemble sizes x seeds on the real ensembles, subsets observed through what each member receives or is able to split on'
LEVEL_NOTE = (
    'patches: members log the columns they receive in training and prediction; forests: for every seed the same tree is grown once per feature with only that feature informative, '
    'the number of features on which it can split is the size of its subset'
)
BOUNDS = {'quick': '4 modes x 13 sizes x 2 methods x 9 feature counts (1-6, 21, 25, 26) x ensembles of 1, 3 and 7 x 2 seeds; 2 forests x 21 max_features settings x 1-6 features x 3 seeds x all informative features',
          'thorough': '20 sizes, 12 feature counts, 4 seeds; 10 forest seeds, up to 8 features'}
ASSUMPTIONS = ['a subspace of one feature is widened to two when there are more than two features, a percentage below two features gains one, and no restriction applies when the size is 0 or not smaller than the number of features (as implemented)',
               'sizes are rounded as Python rounds; max_features is at least 1 and at most the number of features',
               'subspace sizes below minus the number of features are outside the documented domain']


class Cols(Rec):
    log = []
    made = 0

    def __init__(self, tag=0):
        super().__init__(tag)
        Cols.made += 1
        self.me = Cols.made

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        Cols.log.append(('fit', self.me, tuple(int(v) for v in X[0])))
        return self

    def predict(self, X):
        Cols.log.append(('predict', self.me, tuple(int(v) for v in X[0])))
        return np.zeros(len(X), dtype=int)

    def predict_proba(self, X):
        Cols.log.append(('proba', self.me, tuple(int(v) for v in X[0])))
        return np.array([[.5, .5]] * len(X))


def patch_size(mode, size, d):
    """documented number of features of a member, None = all"""
    root = int(round(math.sqrt(d))) + 1
    if mode == 'm':
        k = size
    elif mode == 'sqrtM1':
        k = root
    elif mode == 'MsqrtM1':
        k = d - root
    else:
        k = int(round(d * (((100. + size) / 100.) if size < 0 else size / 100.)))
        if k < 2:
            k += 1
    if k < 0:
        k += d
    if k == 0 or k >= d:
        return None
    return 2 if k == 1 and d > 2 else k


def run_patches(params, ctx):
    mode, method, sizes, dims, seeds = params
    for size, d, n, seed in itertools.product(sizes, dims, (1, 3, 7), range(seeds)):
        if mode == 'm' and size < -d or mode == 'percentage' and size < -100 or mode == 'MsqrtM1' and d - int(round(math.sqrt(d))) - 1 < 0:
            continue
        ctx.case(mode, method, size, d, n, seed)
        k = patch_size(mode, size, d)
        Cols.log, Cols.made = [], 0
        f = StreamingRandomPatchesClassifier(base_estimator=Cols(), n_estimators=n, subspace_mode=mode, subspace_size=size, training_method=method,
                                             lam=8., disable_drift_detection=True, random_state=seed)
        X = np.arange(d, dtype=float).reshape(1, -1)
        subs = {}
        for _ in range(3):
            f.partial_fit(X, np.array([0]), classes=[0, 1])
            f.predict_proba(X)
            ctx.step(2)
        for what, me, cols in Cols.log:
            subs.setdefault(me, set()).add(cols)
        ctx.check(len(subs) == n, 'srp/members', lambda: '%d members answered, %d were asked for' % (len(subs), n))
        for me, s in subs.items():
            ctx.check(len(s) == 1, 'srp/one-subset', lambda: 'one member received the columns %s without any drift' % sorted(s))
            for cols in s:
                want = d if k is None else k
                ctx.check(len(cols) == want == len(set(cols)) and set(cols) <= set(range(d)), 'srp/size', lambda: 'a member works on features %s of %d, should be %d' % (cols, d, want))
                if k is None:
                    ctx.check(cols == tuple(range(d)), 'srp/all', lambda: 'columns %s' % (cols,))
        if k is not None and (d <= 20 or k < 2) and n <= math.comb(d, k):
            got = [tuple(sorted(c)) for s in subs.values() for c in s]
            ctx.check(len(set(got)) == len(got), 'srp/distinct', lambda: 'members share a subset: %s' % (got,))
        ctx.state(mode, method, size, d, n, sorted(map(sorted, subs.values())))
        ctx.trace()
    ctx.sample(ctx.cur)


# ---------------------------------------------------------------- adaptive forests

def forest_size(opt, d):
    if opt in ('auto', 'sqrt'):
        k = int(round(math.sqrt(d)))
    elif opt == 'log2':
        k = int(round(math.log2(d)))
    elif opt is None:
        k = d
    elif isinstance(opt, int):
        k = opt
    else:
        k = int(opt * d)
    if k < 0:
        k += d
    return min(d, max(1, k))


def grown(kind, opt, d, j, seed, rounds):
    """can the single tree of a forest use feature j?  at each of `rounds` points in time"""
    f = forest(kind, opt, seed, 1)
    out = []
    for r in range(rounds):
        lo, hi = feed(f, kind, d, j, 1)
        a, b = (f.predict(lo), f.predict(hi)) if kind == 'reg' else (f.predict_proba(lo), f.predict_proba(hi))
        out.append(not np.allclose(a, b))
    return out


def forest(kind, opt, seed, n):
    kw = dict(n_estimators=n, max_features=opt, lambda_value=40, drift_detection_method=None, warning_detection_method=None, random_state=seed,
              grace_period=300, split_confidence=.05, tie_threshold=0.)
    if kind == 'reg':
        f = AdaptiveRandomForestRegressor(leaf_prediction='mean', **kw)
    elif kind == 'nb':
        f = AdaptiveRandomForestClassifier(leaf_prediction='nb', **dict(kw, grace_period=10 ** 8))
    else:
        f = AdaptiveRandomForestClassifier(leaf_prediction='mc', **kw)
    return f


def feed(f, kind, d, j, rounds):
    lo, hi = np.ones((1, d)), np.ones((1, d))
    lo[0, j], hi[0, j] = 0., 3.
    for i in range(16 * rounds):
        x = (lo, hi)[i % 2].copy()
        x[0] += .5 * (i // 2 % 2)
        if kind == 'reg':
            f.partial_fit(x, np.array([float(i % 2)]))
        else:
            f.partial_fit(x, np.array([i % 2]), classes=[0, 1])
    return lo, hi


def run_forest(params, ctx):
    kind, opts, dims, seeds = params
    for d in dims:
        if d == 0:
            continue
        reach = {}
        for opt in opts:
            k, R = forest_size(opt, d), 2 if kind == "nb" else 1
            for seed in range(seeds):
                ctx.case(kind, opt, d, seed)
                use = [grown(kind, opt, d, j, seed, R) for j in range(d)]
                ctx.step(64 * d)
                for r in range(R):
                    got = [j for j in range(d) if use[j][r]]
                    ctx.check(len(got) == k, 'arf-%s/size' % kind, lambda: 'the tree can use features %s of %d, documented number is %d (round %d)' % (got, d, k, r))
                reach.setdefault(k, set()).update(j for j in range(d) if use[j][0])
                ctx.state(kind, d, k, seed, [u[0] for u in use])
                ctx.trace()
    ctx.sample(ctx.cur)


def run_spread(kind, dims, seeds, ctx):
    """over the seeds every feature is some tree's feature"""
    for d in dims:
        ctx.case(kind, 'spread', d)
        seen = set()
        for seed in range(seeds):
            seen.update(j for j in range(d) if j not in seen and grown(kind, 1, d, j, seed, 1)[0])
            ctx.step(32 * d)
            if len(seen) == d:
                break
        ctx.check(len(seen) == d, 'arf-%s/spread' % kind, lambda: 'features %s of %d were chosen within %d seeds' % (sorted(seen), d, seeds))
        ctx.state(kind, d, len(seen))
        ctx.trace()


def run_alike(kind, seeds, ctx):
    """members of one forest have different features for some seed"""
    d, n, per_seed = 4, 4, []
    for seed in range(seeds):
        ctx.case(kind, 'members', seed)
        feats = [set() for _ in range(n)]
        for j in range(d):
            f = forest(kind, 1, seed, n)
            lo, hi = feed(f, kind, d, j, 1)
            for i, m in enumerate(f.ensemble):
                t = m.estimator if kind == 'reg' else m.classifier
                a, b = (t.predict(lo), t.predict(hi)) if kind == 'reg' else (t.predict_proba(lo), t.predict_proba(hi))
                if not np.allclose(a, b):
                    feats[i].add(j)
            ctx.step(32)
        per_seed.append(feats)
        ctx.state(kind, 'members', [sorted(x) for x in feats])
        ctx.trace()
    ctx.check(any(len(set(map(tuple, map(sorted, fs)))) > 1 for fs in per_seed), 'arf-%s/members-alike' % kind,
              lambda: 'for every one of %d seeds all %d members have the same features: %s' % (seeds, n, [[sorted(x) for x in fs] for fs in per_seed[:3]]))


def run(name, params, ctx):
    if params[0] == 'alike':
        run_alike(params[1], params[2], ctx)
    elif params[0] == 'srp':
        run_patches(params[1:], ctx)
    elif params[0] == 'spread':
        run_spread(params[1], params[2], params[3], ctx)
    else:
        run_forest(params[1:], ctx)


def shards(tier):
    t = tier != 'quick'
    sizes = (0, 1, 2, 3, 5, 25, -1, -2, -4, 10, 50, 60, 100, -40) + ((4, 20, 80, 33, -60, -10, -100) if t else ())
    dims = (1, 2, 3, 4, 5, 6, 21, 25, 26) + ((7, 9, 16) if t else ())
    out = []
    for mode in ('m', 'sqrtM1', 'MsqrtM1', 'percentage'):
        for method in ('randompatches', 'randomsubspaces'):
            sz = [s for s in sizes if abs(s) <= 25] if mode == 'm' else (sizes if mode == 'percentage' else (2,))
            for i, d in enumerate(dims):
                out.append(('srp-%s-%s-%d' % (mode, method, d), ('srp', mode, method, sz, (d,), 4 if t else 2)))
    opts = ('auto', 'sqrt', 'log2', None, 1, 2, 3, 4, 6, 9, 0, -1, -2, -3, -9, .2, .34, .5, .6, .75, 1.)
    for kind in ('mc', 'nb', 'reg'):
        for d in range(1, 9 if t else 7):
            for i in range(0, len(opts), 7):
                out.append(('arf-%s-%d-%d' % (kind, d, i), ('arf', kind, opts[i:i + 7], (d,), 10 if t else 3)))
        if kind != 'mc':
            out.append(('alike-' + kind, ('alike', kind, 20 if t else 8)))
        out.append(('spread-' + kind, ('spread', kind, (2, 3, 5), 60)))
    return out
