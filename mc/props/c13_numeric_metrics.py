"""C13: regression metrics and running statistics equal their definitions."""
import itertools
import math

import numpy as np

from mc.metrics_ref import RegressionModel
from mc.props.c11_cumulative_metrics import group
from mc.props.c12_window_metrics import RVALS, MT
from skmultiflow.metrics import RegressionMeasurements, MultiTargetRegressionMeasurements
from skmultiflow.trees.gaussian_estimator import GaussianEstimator
from skmultiflow.utils.statistics import normal_probability

ID = 'C13'
TECHNIQUE = 'explicit enumeration of all value histories on the real objects against list-based definitions'
LEVEL_NOTE = (
    'exhaustive over all sequences of a 5-pair value alphabet to depth 5/7 with resets, and of weighted observations to depth 4/6; '
    'the normal distribution helper is compared on a dense grid only'
)
BOUNDS = {'quick': 'regression depth 5, multi-target depth 5 (1-3 targets), Gaussian estimator depth 5 over 5 values x 2 weights (depth 4 with 3 weights)',
          'thorough': 'regression depth 7, multi-target depth 6, Gaussian estimator depth 6'}


def run_reg(ctx, first, depth):
    for rest in itertools.product(RVALS + ['reset'], repeat=depth - 1):
        hist = (first,) + rest
        ctx.case('regression', hist)
        e, m = RegressionMeasurements(), RegressionModel()
        for op in hist:
            if op == 'reset':
                e.reset()
                m.reset()
            else:
                e.add_result(*op)
                m.add(*op)
            ctx.step()
            ctx.eq(e.get_mean_square_error(), m.mse(), 'mse', 'mse')
            ctx.eq(e.get_average_error(), m.mae(), 'mae', 'mae')
            ctx.eq(e.sample_count, len(m.hist), 'sample_count', 'sample_count')
        ctx.eq(e.get_last(), hist[-1] if hist[-1] != 'reset' else (None, None), 'get_last', 'get_last')
        ctx.state('reg', repr(m.hist))
        ctx.trace()
    ctx.sample({'regression history': hist})


def run_mtreg(ctx, first, depth):
    for rest in itertools.product(MT + ['reset'], repeat=depth - 1):
        hist = (first,) + rest
        for n in (1, 2, 3):
            ctx.case('multi-target regression', n, hist)
            e, m = MultiTargetRegressionMeasurements(), RegressionModel()
            for op in hist:
                if op == 'reset':
                    e.reset()
                    m.reset()
                else:
                    t, p = (op[0] + (4.0,))[:n], (op[1] + (-1.0,))[:n]
                    e.add_result(np.array(t), np.array(p))
                    m.add(t, p)
                ctx.step()
                ctx.eq(e.get_average_mean_square_error(), np.mean(m.mse()), 'amse', 'amse')
                ctx.eq(e.get_average_absolute_error(), np.mean(m.mae()), 'amae', 'amae')
                ctx.eq(e.get_average_root_mean_square_error(), np.mean(np.sqrt(m.mse())), 'armse', 'armse')
                ctx.eq(e.sample_count, len(m.hist), 'sample_count', 'sample_count')
            ctx.state('mtreg', repr(m.hist))
            ctx.trace()


VALS = [0.0, 1.0, -2.5, 7.0, 0.25]


def run_gauss(ctx, first, weights, depth):
    alpha = list(itertools.product(VALS, weights))
    for rest in itertools.product(alpha, repeat=depth - 1):
        hist = (first,) + rest
        ctx.case('gaussian', hist)
        g = GaussianEstimator()
        for n, (v, w) in enumerate(hist):
            g.add_observation(v, w)
            ctx.step()
            seen = hist[:n + 1]
            W = sum(w for _, w in seen)
            mean = sum(v * w for v, w in seen) / W
            ss = sum(w * (v - mean) ** 2 for v, w in seen)
            var = ss / (W - 1) if W > 1 else 0.0
            ctx.eq(g.get_total_weight_observed(), W, 'weight', 'weight')
            ctx.eq(g.get_mean(), mean, 'mean', 'mean')
            ctx.eq(g.get_variance(), var, 'variance', 'variance')
            ctx.eq(g.get_std_dev(), math.sqrt(var), 'std', 'std', tol=1e-7)
        if var > 1e-9:
            sd = math.sqrt(var)
            for x in (-2.5, 0.0, 0.6, 9.0):
                dens = math.exp(-((x - mean) ** 2) / (2 * var)) / (math.sqrt(2 * math.pi) * sd)
                ctx.eq(g.probability_density(x), dens, 'density', 'density(%r)' % x)
                lt = 0.5 * math.erfc(-(x - mean) / sd / math.sqrt(2)) * W - dens * W
                got = g.estimated_weight_lessthan_equalto_greaterthan_value(x)
                ctx.eq(got, [lt, dens * W, max(0.0, W - dens * W - lt)], 'split weights', 'weights at %r' % x, tol=1e-7)
        elif len({v for v, _ in seen}) == 1:
            ctx.eq(g.probability_density(seen[0][0]), 1.0, 'density', 'density of a constant')
            ctx.eq(g.probability_density(seen[0][0] + 1), 0.0, 'density', 'density off a constant')
        if var == 0.0:                      # all the mass lies at the mean
            for x, want in ((mean - 1, [0., 0., W]), (mean, [0., W, 0.]), (mean + 1, [W, 0., 0.])):
                if x != mean or g.get_mean() == mean:
                    ctx.eq(g.estimated_weight_lessthan_equalto_greaterthan_value(x), want, 'split weights of a constant', 'weights at %r' % x)
        ctx.state('gauss', repr(sorted(hist)))
        ctx.trace()
    ctx.sample({'gaussian history': hist})


def run_normal(ctx):
    for i in range(-8000, 8001):
        a = i / 400.0
        ctx.case('normal', a)
        ctx.eq(normal_probability(a), 0.5 * math.erfc(-a / math.sqrt(2)), 'normal_probability', 'Phi(%r)' % a, tol=1e-9)
        ctx.step()
        ctx.state('normal', i)
    for a in (-60.0, -38.0, 38.0, 60.0):
        ctx.eq(normal_probability(a), 0.0 if a < 0 else 1.0, 'normal_probability', 'Phi(%r)' % a)
    ctx.trace()


def shards(tier):
    q = tier == 'quick'
    out = [('normal', ('normal',))]
    for f in RVALS:
        out.append(('reg', ('reg', f, 5 if q else 7)))
    for f in MT:
        out.append(('mt', ('mt', f, 4 if q else 6)))
    for f in itertools.product(VALS, (1.0, 2.0)):
        out.append(('g', ('g', f, (1.0, 2.0), 4 if q else 5)))
    for f in itertools.product(VALS, (0.5, 1.0, 3.0)):
        out.append(('g', ('g', f, (0.5, 1.0, 3.0), 3 if q else 4)))
    return group(out, 24)


def run(name, parts, ctx):
    for _, p in parts:
        {'normal': lambda: run_normal(ctx), 'reg': lambda: run_reg(ctx, *p[1:]), 'mt': lambda: run_mtreg(ctx, *p[1:]),
         'g': lambda: run_gauss(ctx, *p[1:])}[p[0]]()
