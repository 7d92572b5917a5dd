"""C22: the nearest-neighbour learners answer as brute force over the retained window does."""
import itertools
import math

import numpy as np

from mc.core import same, chunk, compositions
from skmultiflow.lazy import KNNClassifier, KNNRegressor, KNNADWINClassifier
from skmultiflow.drift_detection import ADWIN

ID = 'C22'
TECHNIQUE = 'explicit enumeration of all training histories on a grid against a brute-force window model (all tie resolutions allowed)'
LEVEL_NOTE = (
    'exhaustive over histories of up to 5 (quick) / 6 (thorough) samples on a 4-point grid, all k/window/leaf/metric settings in the grid; '
    'the drift-aware variant over long runs with an exhaustive tail, against an independent ADWIN'
)
BOUNDS = {'quick': '4 grid points x 2-3 labels, histories to depth 3 with resets and 5 without (3 points), windows 1-4, k 1-3, leaf sizes 1/2/30, 3 metrics, 7 queries',
          'thorough': 'histories to depth 6, windows 1-5, k 1-4, 4 metrics'}
ASSUMPTIONS = ['equally distant neighbours may be chosen in any way', 'the reference for the drift-aware variant reads the detector class itself (its own behaviour is C16)']

PTS = [(0., 0.), (1., 0.), (0., 2.), (3., 1.)]
QS = [(0., 0.), (1., 0.), (0., 2.), (3., 1.), (.5, .5), (2., -1.), (10., 10.)]
LAB = [0, 2, 1]
TGT = [0., 3., -1.5]


def dist(metric, a, b):
    d = [abs(x - y) for x, y in zip(a, b)]
    if metric == 'manhattan':
        return sum(d)
    if metric == 'chebyshev':
        return max(d)
    return math.sqrt(sum(x * x for x in d))


def split(window, q, k, metric):
    """samples certainly among the k nearest, candidates tied at the k-th distance, number still to take"""
    ds = sorted((dist(metric, x, q), i) for i, (x, _) in enumerate(window))
    kd = ds[k - 1][0]
    sure = [window[i][1] for d, i in ds if d < kd - 1e-9]
    tied = [window[i][1] for d, i in ds if abs(d - kd) <= 1e-9]
    return sure, tied, k - len(sure)


def options(window, q, k, metric):
    sure, tied, n = split(window, q, k, metric)
    return {tuple(sorted(sure + list(c))) for c in itertools.combinations(tied, n)}


def check_clf(ctx, clf, window, k, metric, classes):
    X = np.array(QS)
    P = clf.predict_proba(X)
    Y = clf.predict(X)
    ctx.step(len(QS))
    if len(window) < k:
        ctx.check(np.asarray(P).shape[0] == len(QS) and not np.any(P), 'short', 'fewer samples than neighbours: zero probabilities')
        ctx.eq(Y, [0] * len(QS), 'short', 'fewer samples than neighbours')
        return
    P = np.asarray(P)
    ncol = max(classes) + 1
    ctx.check(P.shape == (len(QS), ncol), 'shape', lambda: 'probability shape %s, classes seen %s' % (P.shape, sorted(classes)))
    for i, q in enumerate(QS):
        opts = options(window, q, k, metric)
        ok = any(same(P[i], [o.count(c) / k for c in range(ncol)]) for o in opts)
        ctx.check(ok, 'proba', lambda: 'query %s: %s, neighbour labels could be %s' % (q, P[i].tolist(), sorted(opts)))
        ctx.check(P[i][int(Y[i])] >= max(P[i]) - 1e-9, 'predict', lambda: 'query %s: label %s of %s' % (q, Y[i], P[i].tolist()))
    # other rows and row order do not matter
    r = clf.predict_proba(X[::-1])
    ctx.eq(np.asarray(r)[::-1], P, 'rows', 'the same rows in reverse order')


def check_reg(ctx, reg, window, k, metric, agg):
    X = np.array(QS)
    Y = np.asarray(reg.predict(X))
    ctx.step(len(QS))
    ctx.check(Y.shape == (len(QS),), 'reg.shape', lambda: Y.shape)
    if len(window) < k:
        ctx.eq(Y, [0.] * len(QS), 'short', 'fewer samples than neighbours')
        return
    for i, q in enumerate(QS):
        opts = options(window, q, k, metric)
        vals = []
        for o in opts:
            o = sorted(o)
            vals.append(math.fsum(o) / k if agg == 'mean' else (o[k // 2] + o[(k - 1) // 2]) / 2)
        ctx.check(any(same(Y[i], v) for v in vals), 'reg', lambda: 'query %s: %s, could be %s' % (q, Y[i], vals))
    one = [reg.predict(X[i:i + 1])[0] for i in range(len(QS))]
    ctx.eq(one, Y, 'rows', 'row by row')


def run_hist(ctx, kind, k, w, leaf, metric, agg, depth, resets, nlab, npts, firsts):
    """Every history of samples (and resets); the answers are checked after each complete history, with leaf size 1
    also after every training call."""
    alpha = [(p, l) for p in range(npts) for l in range(nlab)] + (['reset'] if resets else [])
    tgt = LAB if kind == 'clf' else TGT
    for first in firsts:
        for rest in itertools.product(range(len(alpha)), repeat=depth - 1):
            hist = [alpha[first]] + [alpha[i] for i in rest]
            ctx.case(kind, dict(k=k, window=w, leaf=leaf, metric=metric, agg=agg), hist)
            if kind == 'clf':
                m = KNNClassifier(n_neighbors=k, max_window_size=w, leaf_size=leaf, metric=metric)
            else:
                m = KNNRegressor(n_neighbors=k, max_window_size=w, leaf_size=leaf, metric=metric, aggregation_method=agg)
            win, classes = [], set()
            pend = []

            def check(win):
                if kind == 'clf':
                    check_clf(ctx, m, win, k, metric, classes)
                else:
                    check_reg(ctx, m, win, k, metric, agg)

            def flush():
                if pend:
                    X, y = np.array([p for p, _ in pend]), np.array([t for _, t in pend])
                    m.partial_fit(X, y)
                    X[...] = 99.
                    y[...] = 1
                    pend.clear()
                    if leaf == 1 and n < len(hist) - 1:
                        check(win)
            for n, a in enumerate(hist):
                if a == 'reset':
                    flush()
                    m.reset()
                    win, classes = [], set()
                else:
                    pend.append((PTS[a[0]], tgt[a[1]]))
                    win = (win + [(PTS[a[0]], tgt[a[1]])])[-w:]
                    classes.add(tgt[a[1]])
                    if (n + first) % 2:         # alternate between single rows and larger batches
                        flush()
            n += 1
            flush()
            check(win)
            ctx.state(kind, k, w, tuple(win))
            ctx.trace()
    ctx.sample(ctx.cur)


def run_adwin(ctx, k, w, pre, tails, depth):
    """A long run (concept A then flipped labels) followed by every tail; batches of one."""
    for tail in tails:
        ctx.case('KNNADWINClassifier', dict(k=k, window=w), 'preamble', pre, 'tail', tail)
        m = KNNADWINClassifier(n_neighbors=k, max_window_size=w, leaf_size=30)
        ad = ADWIN()
        win, classes = [], set()
        a, b = pre
        seq = [(PTS[i % 4], i % 4 % 2) for i in range(a)] + [(PTS[i % 4], 1 - i % 4 % 2) for i in range(b)] + [(PTS[p], l) for p, l in tail]
        for n, (x, y) in enumerate(seq):
            x = (x[0], x[1] + n * 1e-3)         # distinct positions: no ties among equal grid points
            m.partial_fit(np.array([x]), np.array([y]))
            win = (win + [(x, y)])[-w:]
            classes.add(y)
            if len(win) >= k:
                # the answer on the row just learned; ties follow the implementation's own answer
                opts = options(win, x, k, 'euclidean')
                hits = {max(range(2), key=lambda c: (o.count(c), -c)) == y for o in opts}
                if len(hits) > 1:
                    return ctx.fail('harness', 'ambiguous tie in the reference run')
                ad.add_element(1 if hits.pop() else 0)
                if ad.detected_change() and ad.width < len(win):
                    win = win[-ad.width:]
            else:
                ad.add_element(0)
            ctx.step()
            if n >= a + b - 1 or n % 16 == 0:
                check_clf(ctx, m, win, k, 'euclidean', classes)
        ctx.state('adwin', k, w, a, b, len(win), tuple(win[-3:]))
        ctx.trace()
    ctx.sample(ctx.cur)


def shards(tier):
    q = tier == 'quick'
    out = []
    wins = (1, 2, 3, 4) if q else (1, 2, 3, 4, 5)
    ks = (1, 2, 3) if q else (1, 2, 3, 4)
    metrics = ('euclidean', 'manhattan', 'chebyshev') if q else ('euclidean', 'manhattan', 'chebyshev', 'minkowski')
    for kind in ('clf', 'reg'):
        for k in ks:
            for w in wins:
                for i, metric in enumerate(metrics):
                    # leaf size and aggregation rotate over the grid; each is met with each metric
                    for j, agg in enumerate(('mean', 'median') if kind == 'reg' else ('-',)):
                        leaf = (1, 2, 30)[(i + w + j + k) % 3]
                        out.append(('%s-k%d-w%d-%s-%s' % (kind, k, w, metric, agg), (kind, k, w, leaf, metric, agg, 3 if q else 4, True, 3 if (w == 3 and k == 2) or not q else 2, 4, None)))
            for leaf in (1, 30):
                w = 4
                for p in range(2 if q else 8):
                    out.append(('%s-k%d-deep-l%d-%d' % (kind, k, leaf, p),
                                (kind, k, w, leaf, 'euclidean', 'mean' if leaf == 1 else 'median', 5 if q else 6, False, 2, 3, (p, 2 if q else 8))))
    for k in (3,):
        for w in (60, 100):
            for a, b in ((64, 32), (40, 40), (96, 20), (30, 0)):
                out.append(('adwin-k%d-w%d-%d-%d' % (k, w, a, b), ('adwin', k, w, (a, b))))
    return out


def run(name, params, ctx):
    q = ctx.tier == 'quick'
    if params[0] == 'adwin':
        _, k, w, pre = params
        al = [(p, l) for p in (0, 3) for l in range(2)]
        tails = list(itertools.product(al, repeat=2 if q else 4))
        run_adwin(ctx, k, w, pre, tails, 2)
        return
    kind, k, w, leaf, metric, agg, depth, resets, nlab, npts, part = params
    nal = npts * nlab + (1 if resets else 0)
    firsts = range(nal) if part is None else range(part[0], nal, part[1])
    run_hist(ctx, kind, k, w, leaf, metric, agg, depth, resets, nlab, npts, firsts)
