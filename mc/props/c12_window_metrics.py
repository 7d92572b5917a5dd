"""C12: windowed metrics = metric of exactly the last w results."""
import itertools

import numpy as np

from mc.metrics_ref import RegressionModel
from mc.props import c11_cumulative_metrics as c11
from skmultiflow.metrics import (WindowClassificationPerformanceEvaluator, WindowMultiLabelClassificationPerformanceEvaluator,
                                 WindowClassificationMeasurements, WindowMultiTargetClassificationMeasurements,
                                 WindowRegressionMeasurements, WindowMultiTargetRegressionMeasurements)

ID = 'C12'
TECHNIQUE = 'explicit enumeration of all result histories (past the window length) on the real window metric objects against a list-based reference'
LEVEL_NOTE = (
    'exhaustive over window sizes 1-4 and all result sequences to a depth of at least twice the window for 2 classes; '
    'larger windows and longer histories are not covered'
)
BOUNDS = {'quick': 'windows 1..4; 2 classes depth 6, 3 classes/weights depth 4, multi-label depth 3, regression depth 5 over 5 value pairs',
          'thorough': 'windows 1..4; 2 classes depth 8, weights depth 5, multi-label depth 4, regression depth 7'}
ASSUMPTIONS = ['a class seen earlier stays in the class list after leaving the window (macro averages count it as 0)',
               'majority and no-change baselines are judged when a result arrives (their predecessor may already have left the window)']

RVALS = [(0.0, 0.0), (1.5, -2.0), (-3.0, 1.0), (2.0, 2.5), (100.0, 99.0)]


def run_reg(ctx, window, depth):
    for hist in itertools.product(RVALS + ['reset'], repeat=depth):
        ctx.case('regression', window, hist)
        e, m = WindowRegressionMeasurements(window_size=window), RegressionModel(window)
        for op in hist:
            if op == 'reset':
                e.reset()
                m.reset()
            else:
                e.add_result(*op)
                m.add(*op)
            ctx.step()
            ctx.eq(e.get_mean_square_error(), m.mse(), 'mse', 'mse')
            ctx.eq(e.get_average_error(), m.mae(), 'mae', 'mae')
            ctx.eq(e.sample_count, len(m.hist), 'sample_count', 'sample_count')
        if hist[-1] != 'reset':
            ctx.eq(e.get_last(), hist[-1], 'get_last', 'get_last')
        ctx.state('reg', window, [(float(a), float(b)) for a, b in m.hist])
        ctx.trace()


MT = [((0., 0.), (0., 0.)), ((1.5, -1.), (-2., 3.)), ((2., 2.), (2., 5.)), ((-3., 10.), (1., 10.))]


def run_mtreg(ctx, window, depth):
    for hist in itertools.product(MT + ['reset'], repeat=depth):
        ctx.case('multi-target regression', window, hist)
        e, m = WindowMultiTargetRegressionMeasurements(window_size=window), RegressionModel(window)
        for op in hist:
            if op == 'reset':
                e.reset()
                m.reset()
            else:
                e.add_result(np.array(op[0]), np.array(op[1]))
                m.add(*op)
            ctx.step()
            ctx.eq(e.get_average_mean_square_error(), np.mean(m.mse()), 'amse', 'amse')
            ctx.eq(e.get_average_absolute_error(), np.mean(m.mae()), 'amae', 'amae')
            # tolerance: the incremental sums leave rounding residue, amplified by the root
            ctx.eq(e.get_average_root_mean_square_error(), np.mean(np.sqrt(m.mse())), 'armse', 'armse', tol=1e-6)
        if hist[-1] != 'reset':
            ctx.eq(e.get_last(), (np.array(hist[-1][0]), np.array(hist[-1][1])), 'get_last', 'get_last')
        ctx.state('mtreg', window, repr(m.hist))
        ctx.trace()


def shards(tier):
    q = tier == 'quick'
    out = []
    for win in (1, 2, 3, 4):
        for n0, labels, w, depth in ((2, (0, 1), None, 6 if q else 8), (3, (0, 2), None, 5 if q else 6), (2, (3, 1), None, 4 if q else 6),
                                     (2, (0, 1, 2), None, 3 if q else 4), (2, (0, 1), (0.0, 0.5, 2.0), 3 if q else 4),
                                     (2, (0, 1), (1.0, 3.0), 4 if q else 5), (2, (0, 2), (0.0, 1.0), 3 if q else 4)):
            alpha = c11.pairs(labels, w)
            if win > 2 and depth > 5 and q:
                depth = 5 if win == 3 else 6
            for i, f in enumerate(alpha):
                out.append(('s-w%d-n%d-%s-%s-%d' % (win, n0, labels, bool(w), i), ('single', win, n0, alpha + ['reset'], depth, f)))
        vecs = list(itertools.product((0, 1), repeat=2))
        for i, f in enumerate(itertools.product(vecs, vecs)):
            if win < 4:
                out.append(('m-w%d-%d' % (win, i), ('multi', win, 2, 3 if q else 4, f)))
        for i, f in enumerate(((0, 1, 1), (1, 0, 0), (0, 0, 0), (1, 1, 1))):
            if win < 3:
                out.append(('m3-w%d-%d' % (win, i), ('multi', win, 3, 3, (f, (1, 0, 1)))))
        out.append(('old-w%d' % win, ('old', win, [0, 1], c11.pairs((0, 1)) + ['reset'], 5 if q else 6)))
        out.append(('old3-w%d' % win, ('old', win, [0, 1, 2], c11.pairs((0, 1, 2)), 3 if q else 4)))
        out.append(('oldg-w%d' % win, ('old', win, [0, 1], c11.pairs((0, 3)), 4 if q else 5)))
        if win < 3:
            out.append(('oldm-w%d' % win, ('oldm', win, 2, 3)))
        out.append(('reg-w%d' % win, ('reg', win, 5 if q else 7)))
        out.append(('mtreg-w%d' % win, ('mtreg', win, 5 if q else 6)))
    return c11.group(out)


def run(name, parts, ctx):
    for _, p in parts:
        kind, win = p[0], p[1]
        if kind == 'single':
            _, _, n0, alpha, depth, f = p
            c11.run_single(ctx, lambda: WindowClassificationPerformanceEvaluator(n_classes=n0, window_size=win), n0, alpha, depth, f, win)
        elif kind == 'multi':
            _, _, L, depth, f = p
            c11.run_multi(ctx, lambda: WindowMultiLabelClassificationPerformanceEvaluator(n_labels=L, window_size=win), L, depth, f, win)
        elif kind == 'old':
            _, _, targets, alpha, depth = p
            c11.run_old(ctx, lambda: WindowClassificationMeasurements(targets=list(targets), window_size=win), targets, alpha, depth, win)
        elif kind == 'oldm':
            c11.run_old_multi(ctx, lambda: WindowMultiTargetClassificationMeasurements(window_size=win), p[2], p[3], win)
        elif kind == 'reg':
            run_reg(ctx, win, p[2])
        else:
            run_mtreg(ctx, win, p[2])
