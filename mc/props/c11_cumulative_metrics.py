"""C11: cumulative classification metrics = definition over the whole history."""
import itertools

import numpy as np

from mc.core import same
from mc.metrics_ref import SingleLabelModel, MultiLabelModel, OldSingleModel
from skmultiflow.metrics import (ClassificationPerformanceEvaluator, MultiLabelClassificationPerformanceEvaluator,
                                 ClassificationMeasurements, MultiTargetClassificationMeasurements, hamming_score,
                                 exact_match, j_index)

ID = 'C11'
TECHNIQUE = 'explicit enumeration of all result histories on the real metric objects against a list-based reference'
LEVEL_NOTE = (
    'exhaustive over all (true, predicted) sequences over 2-4 classes, weights from {0, 0.5, 1, 2}, label vectors of 2-3 labels, with '
    'resets at every position, up to the stated depths; longer histories are not covered'
)
BOUNDS = {'quick': '2 classes depth 6 (3 for 4 classes), weighted depth 3-4, multi-label L=2 depth 3, L=3 depth 2, resets at every position',
          'thorough': '2 classes depth 8, 3 classes depth 5, weighted depth 5, L=2 depth 4, L=3 depth 3'}
ASSUMPTIONS = ['before the first result the no-change baseline predicts class 0 (current evaluators) or nothing (deprecated ones)',
               'an empty union contributes 0 to the Jaccard sum (evaluators) or 1 (deprecated ones), as documented']
SINGLE = ['accuracy_score', 'kappa_score', 'kappa_t_score', 'kappa_m_score', 'precision_score', 'recall_score', 'f1_score',
          'geometric_mean_score', 'majority_class']


def check_single(ctx, e, m, full=True):
    want = m.scores()
    for name in SINGLE:
        ctx.eq(getattr(e, name)(), want[name], name, name)
    if full:
        for name in ('precision_score', 'recall_score', 'f1_score'):
            for c in sorted(m.classes):
                ctx.eq(getattr(e, name)(c), want[name, c], name + '(class)', '%s(%d)' % (name, c))
        cm = e.confusion_matrix
        for k, v in want['matrix'].items():
            ctx.eq(cm[k], v, 'confusion_matrix', 'entry %s' % (k,))
        ctx.eq(e.get_last(), m.last, 'get_last', 'get_last')
        ctx.eq(e.n_samples, len(m.hist), 'n_samples', 'n_samples')
        ctx.eq(e.total_weight_observed, sum(w for _, _, w in m.hist), 'total_weight_observed', 'total_weight_observed')
        ctx.eq(cm.n_classes, len(m.classes), 'n_classes', 'n_classes')


def run_single(ctx, make, n0, alphabet, depth, first, window=None):
    for hist in itertools.product(alphabet, repeat=depth - 1):
        hist = (first,) + hist
        ctx.case('single', n0, window, hist)
        e, m = make(), SingleLabelModel(n0, window)
        for op in hist:
            if op == 'reset':
                e.reset()
                m.reset()
            else:
                e.add_result(*op)
                m.add(*op)
            ctx.step()
            check_single(ctx, e, m, op is hist[-1])
        check_single(ctx, e, m)      # reading twice changes nothing
        ctx.state(n0, window, tuple(m.hist), m.last, tuple(sorted(m.classes)))
        ctx.trace()
    ctx.sample({'n_classes': n0, 'window': window, 'history': hist})


def run_multi(ctx, make, L, depth, first, window=None):
    vecs = list(itertools.product((0, 1), repeat=L))
    alphabet = list(itertools.product(vecs, vecs))
    if L == 3 and depth > 2:
        alphabet = [(t, p) for t, p in alphabet if sum(t) in (0, 2, 3) and sum(p) in (0, 1, 3)]
    for rest in itertools.product(alphabet + ['reset'], repeat=depth - 1):
        hist = (first,) + rest
        ctx.case('multi', L, window, hist)
        e, m = make(), MultiLabelModel(window)
        for op in hist:
            if op == 'reset':
                e.reset()
                m.reset()
            else:
                t, p = np.array(op[0]), np.array(op[1])
                e.add_result(t, p)
                m.add(*op)
            ctx.step()
            if not m.hist:
                for k in ('hamming_score', 'exact_match_score', 'jaccard_score', 'n_samples'):
                    v = getattr(e, k)
                    ctx.eq(v() if callable(v) else v, 0.0, k, k + ' of an empty evaluator')
            if m.hist:
                w = m.scores()
                for k in ('hamming_score', 'hamming_loss_score', 'exact_match_score', 'jaccard_score'):
                    ctx.eq(getattr(e, k)(), w[k], k, k)
                ctx.eq(e.n_samples, w['n'], 'n_samples', 'n_samples')
                if op is hist[-1] and op != 'reset':
                    ctx.eq(e.get_last(), (np.array(op[0]), np.array(op[1])), 'get_last', 'get_last')
                    cm = e.confusion_matrix
                    for l in range(L):
                        for a in (0, 1):
                            for b in (0, 1):
                                ctx.eq(cm[(l, a, b)], sum(1 for t, p in m.hist if (t[l], p[l]) == (a, b)),
                                       'confusion_matrix', 'entry %s' % ((l, a, b),))
        ctx.state(L, window, tuple(m.hist))
        ctx.trace()
    ctx.sample({'labels': L, 'window': window, 'history': hist})


def run_old(ctx, make, targets, alphabet, depth, window=None):
    for hist in itertools.product(alphabet, repeat=depth):
        ctx.case('deprecated single', targets, window, hist)
        e, m = make(), OldSingleModel(targets if targets is not None else [0, 1], window)
        for op in hist:
            if op == 'reset':
                e.reset()
                m.reset()
            else:
                e.add_result(*op)
                m.add(*op)
            ctx.step()
            if m.hist:
                for k, v in m.scores().items():
                    ctx.eq(getattr(e, k)(), v, 'old.' + k, k)
                ctx.eq(e.get_last(), m.last, 'old.get_last', 'get_last')
                ctx.eq(e.sample_count, len(m.hist), 'old.sample_count', 'sample_count')
        ctx.state('old', window, tuple(m.hist), m.last)
        ctx.trace()


def run_old_multi(ctx, make, L, depth, window=None):
    vecs = list(itertools.product((0, 1), repeat=L))
    alphabet = list(itertools.product(vecs, vecs)) + ['reset']
    for hist in itertools.product(alphabet, repeat=depth):
        ctx.case('deprecated multi', L, window, hist)
        e, m = make(), MultiLabelModel(window)
        for op in hist:
            if op == 'reset':
                e.reset()
                m.reset()
            else:
                e.add_result(np.array(op[0]), np.array(op[1]))
                m.add(*op)
            ctx.step()
            if m.hist:
                w = m.scores(jaccard_empty=1.0)
                for k, kk in (('get_hamming_score', 'hamming_score'), ('get_hamming_loss', 'hamming_loss_score'),
                              ('get_exact_match', 'exact_match_score'), ('get_j_index', 'jaccard_score')):
                    ctx.eq(getattr(e, k)(), w[kk], 'old.' + k, k)
                ctx.eq(e.sample_count, w['n'], 'old.sample_count', 'sample_count')
                if window is None and op is hist[-1]:
                    T, P = np.array([t for t, _ in m.hist]), np.array([p for _, p in m.hist])
                    ctx.eq(hamming_score(T, P), w['hamming_score'], 'fn.hamming_score', 'hamming_score()')
                    ctx.eq(exact_match(T, P), w['exact_match_score'], 'fn.exact_match', 'exact_match()')
                    ctx.eq(j_index(T, P), w['jaccard_score'], 'fn.j_index', 'j_index()')
        ctx.state('oldm', window, tuple(m.hist))
        ctx.trace()


def pairs(labels, w=None):
    ps = list(itertools.product(labels, labels))
    if w is None:
        return [(a, b) for a, b in ps]
    return [(a, b, x) for a, b in ps for x in w]


def shards(tier):
    q = tier == 'quick'
    out = []
    for n0, labels, w, depth in ((2, (0, 1), None, 6 if q else 8), (2, (0, 1, 2), None, 3 if q else 5),
                                 (3, (0, 2), None, 5 if q else 6), (2, (3, 1), None, 4 if q else 6),
                                 (4, (0, 1, 3), None, 3 if q else 4), (2, (0, 1), (0.0, 0.5, 2.0), 3 if q else 4),
                                 (2, (0, 2), (1.0, 3.0), 4 if q else 5), (2, (0, 2), (0.0, 1.0), 4)):
        alpha = pairs(labels, w)
        for i, f in enumerate(alpha):
            out.append(('single-n%d-%s-w%s-%d' % (n0, ''.join(map(str, labels)), bool(w), i), ('single', n0, alpha + ['reset'], depth, f)))
    for L, depth in ((2, 3 if q else 4), (3, 2)):
        vecs = list(itertools.product((0, 1), repeat=L))
        for i, f in enumerate(itertools.product(vecs, vecs)):
            out.append(('multi-L%d-%d' % (L, i), ('multi', L, depth, f)))
    for i, (targets, labels, depth) in enumerate((([0, 1], (0, 1), 5 if q else 6), (None, (0, 1), 4), ([0, 1, 2], (0, 1, 2), 3 if q else 4),
                                                  ([0, 1], (0, 3), 4 if q else 5))):
        out.append(('deprecated-%d' % i, ('old', targets, pairs(labels) + ['reset'], depth)))
    out.append(('deprecated-multi-2', ('oldm', 2, 3 if q else 4)))
    return group(out)


def group(items, n=40):
    """Bundle the small parts into n shards."""
    return [('part-%02d' % i, items[i::n]) for i in range(n) if items[i::n]]


def run(name, parts, ctx):
    for _, params in parts:
        kind = params[0]
        if kind == 'single':
            _, n0, alpha, depth, f = params
            run_single(ctx, lambda: ClassificationPerformanceEvaluator(n_classes=n0), n0, alpha, depth, f)
        elif kind == 'multi':
            _, L, depth, f = params
            run_multi(ctx, lambda: MultiLabelClassificationPerformanceEvaluator(n_labels=L), L, depth, f)
        elif kind == 'old':
            _, targets, alpha, depth = params
            run_old(ctx, lambda: ClassificationMeasurements(targets=None if targets is None else list(targets)), targets, alpha, depth)
        else:
            _, L, depth = params
            run_old_multi(ctx, lambda: MultiTargetClassificationMeasurements(), L, depth)
