"""C01: finite sources deliver each record once, in order, aligned."""
import copy
import functools
import itertools
import os
import shutil
import tempfile

import numpy as np
import pandas as pd

from mc.core import chunk, same, canon
from skmultiflow.data import DataStream, FileStream

ID = 'C01'
TECHNIQUE = 'stateless model checking of the real stream classes: every call history up to a depth against a list-cursor model'
LEVEL_NOTE = (
    'exhaustive over all histories of {next_sample(1..3), restart} (with metadata reads after every call, and without) up to '
    'depth 3 (quick; 5 on core shapes) / 5 (thorough; 7) for every table shape and target placement in the grid; says nothing about larger tables'
)
BOUNDS = {'quick': 'rows 1..5, features 1..3, targets 1..3, every contiguous target placement (positive and negative index), '
                   'int/float targets, 6 source kinds; histories of length 3 over next(1|2|3), restart; length 5 on the core shapes',
          'thorough': 'as quick with length 5 everywhere, length 7 on the core shapes'}
ASSUMPTIONS = ['cell values are distinct markers, so any misalignment is visible']

KINDS = ['array', 'frame', 'array_xy', 'frame_xy', 'array_x_y1d', 'csv']


@functools.lru_cache(None)
def table(rows, feats, targs, classification):
    X = np.array([[r * 100 + c + 1 for c in range(feats)] for r in range(rows)], dtype=float).reshape(rows, feats)
    if classification:
        Y = np.array([[(r * 7 + 3 * t) % 3 + t for t in range(targs)] for r in range(rows)]).reshape(rows, targs)
    else:
        Y = np.array([[-(r * 100 + t) - 0.5 for t in range(targs)] for r in range(rows)]).reshape(rows, targs)
    X.flags.writeable = Y.flags.writeable = False
    return X, Y


def configs(tier):
    out = []
    for kind in KINDS:
        for rows in (1, 2, 3, 5):
            for feats in (1, 2, 3):
                for targs in (1, 2, 3):
                    if kind == 'array_x_y1d' and targs > 1:
                        continue
                    for cls in (True, False):
                        cols = feats + targs
                        if kind in ('array', 'frame', 'csv'):
                            places = [(p, p) for p in range(0, feats + 1)] + [(p - cols, p) for p in range(0, feats + 1)]
                            places.append(('default', feats))
                        else:
                            places = [(None, None)]
                        for tidx, pos in places:
                            if rows in (1, 2) and (feats, targs) not in ((1, 1), (2, 2)):
                                continue
                            out.append((kind, rows, feats, targs, cls, tidx, pos))
    return out


@functools.lru_cache(None)
def layout(cfg):
    kind, rows, feats, targs, cls, tidx, pos = cfg
    X, Y = table(rows, feats, targs, cls)
    fn = ['f%d' % i for i in range(feats)]
    tn = ['t%d' % i for i in range(targs)]
    if pos is None:
        return X, Y, fn, tn, None, None
    names = fn[:pos] + tn + fn[pos:]
    cols = {n: X[:, i] for i, n in enumerate(fn)}
    cols.update({n: Y[:, i] for i, n in enumerate(tn)})
    return X, Y, fn, tn, names, pd.DataFrame(cols, columns=names)


def build(cfg, d):
    kind, rows, feats, targs, cls, tidx, pos = cfg
    X, Y, fn, tn, names, df = layout(cfg)
    kw = {}
    if tidx is not None:
        kw['n_targets'] = targs
        if tidx != 'default':
            kw['target_idx'] = tidx
    if feats > 1:
        kw['cat_features'] = [feats - 1]
    if kind == 'array':
        if cls:
            arr = df.values.astype(int)
        else:
            arr = df.values
        return DataStream(arr, **kw)
    if kind == 'frame':
        return DataStream(df.copy(), **kw)
    if kind == 'array_xy':
        return DataStream(X.copy(), Y.copy(), **kw)
    if kind == 'array_x_y1d':
        return DataStream(X.copy(), Y[:, 0].copy(), **kw)
    if kind == 'frame_xy':
        return DataStream(pd.DataFrame(X, columns=fn), pd.DataFrame(Y, columns=tn), **kw)
    p = os.path.join(d, 'c_%s.csv' % abs(hash(cfg)))
    if not os.path.exists(p):
        df.to_csv(p, index=False)
    return FileStream(p, **kw)


class Model:
    def __init__(self, X, Y, targs):
        self.X, self.Y, self.targs, self.i, self.last = X, Y, targs, 0, (None, None)

    def next(self, k):
        a, b = self.i, min(self.i + k, len(self.X))
        self.i = b
        x, y = self.X[a:b], self.Y[a:b]
        self.last = (x, y.ravel() if self.targs == 1 else y)
        return self.last

    def restart(self):
        self.i, self.last = 0, (None, None)


OPS = [1, 2, 3, 'r']


def empty(v):
    return v is None or np.asarray(v).size == 0


def agree(ctx, got, want, what):
    """(x, y) pairs; at the end of the data None and an empty array both mean `nothing`."""
    for g, w, n in zip(got, want, ('X', 'y')):
        if empty(w):
            ctx.check(empty(g), what, '%s.%s: expected nothing, got %r' % (what, n, g))
        else:
            ok = isinstance(g, np.ndarray) and g.shape == np.shape(w) and same(g, w)
            ctx.check(ok, what, '%s.%s: got %r want %r' % (what, n, g, w))


def meta(ctx, s, cfg, how='metadata'):
    kind, rows, feats, targs, cls, tidx, pos = cfg
    X, Y, fn, tn, names, df = layout(cfg)
    ctx.eq(s.n_features, feats, how, 'n_features')
    ctx.eq(s.n_targets, targs, how, 'n_targets')
    ctx.eq(s.n_samples, rows, how, 'n_samples')
    ncat = 1 if feats > 1 else 0
    ctx.eq(s.n_cat_features, ncat, how, 'n_cat_features')
    ctx.eq(s.n_num_features, feats - ncat, how, 'n_num_features')
    if kind in ('frame', 'frame_xy', 'csv'):
        ctx.eq(list(s.feature_names), fn, how, 'feature_names')
        ctx.eq(list(s.target_names), tn, how, 'target_names')
    ctx.eq(len(s.feature_names), feats, how, 'feature_names')
    ctx.eq(len(s.target_names), targs, how, 'target_names')
    if cls:
        tv = [sorted(set(Y[:, t].tolist())) for t in range(targs)]
        if targs == 1:
            tv = tv[0]
            ctx.eq(s.n_classes, len(tv), how, 'n_classes')
        ctx.eq(s.target_values, tv, how, 'target_values')
    else:
        ctx.eq(len(s.target_values), targs, how, 'target_values length')


_cache = {}


def fresh(cfg, d):
    """A never-used stream: a deep copy of one that was only constructed."""
    if cfg not in _cache:
        _cache[cfg] = build(cfg, d)
    return copy.deepcopy(_cache[cfg])


def run_history(ctx, cfg, hist, d, reads):
    kind, rows, feats, targs, cls, tidx, pos = cfg
    X, Y = table(rows, feats, targs, cls)
    ctx.case(cfg, hist, 'reads' if reads else 'no reads')
    s = fresh(cfg, d)
    m = Model(X, Y, targs)
    seen = []
    for n, op in enumerate(hist):
        if op == 'r':
            s.restart()
            m.restart()
        else:
            got, want = s.next_sample(op), m.next(op)
            agree(ctx, got, want, 'next_sample')
        ctx.step()
        if reads or n == len(hist) - 1:
            ctx.check(bool(s.has_more_samples()) == (m.i < rows), 'has_more_samples', 'at %d of %d' % (m.i, rows))
            ctx.eq(s.n_remaining_samples(), rows - m.i, 'n_remaining_samples', 'n_remaining_samples')
            agree(ctx, s.last_sample(), m.last, 'last_sample')
            if n == len(hist) - 1:
                meta(ctx, s, cfg)
        ctx.state(cfg, m.i, None if m.last[0] is None else len(m.last[0]))
    ctx.trace()


def drain(ctx, cfg, d):
    """`while has_more: next` delivers the table, for every batch size."""
    kind, rows, feats, targs, cls, tidx, pos = cfg
    X, Y = table(rows, feats, targs, cls)
    for k in range(1, rows + 3):
        ctx.case(cfg, 'drain', k)
        s = build(cfg, d)
        for rnd in range(2):
            xs, ys, n = [], [], 0
            while s.has_more_samples() and n < rows + 3:
                x, y = s.next_sample(k)
                xs.append(x)
                ys.append(y)
                n += 1
                ctx.step()
            gx, gy = np.concatenate(xs), np.concatenate(ys)
            ctx.check(same(gx, X) and same(gy.reshape(-1, targs), Y), 'drain', 'batches of %d: %r / %r' % (k, gx, gy))
            s.restart()
        if kind == 'csv':
            ax, ay = s.get_all_samples()
            ctx.check(same(ax, X) and same(np.asarray(ay).reshape(-1, targs), Y), 'get_all_samples', repr(ax))
        ctx.trace()


def shards(tier):
    cs = configs(tier)
    out = [('cfg-%d' % i, ('all', c)) for i, c in enumerate(chunk(cs, 24))]
    core = [c for c in cs if c[1] == 5 and (c[2], c[3]) in ((2, 1), (1, 2)) and c[4] and c[5] in (None, 'default', 0)]
    out += [('deep-%d' % i, ('deep', c)) for i, c in enumerate(chunk(core, 8))]
    return out


def run(name, params, ctx):
    mode, cfgs = params
    d = tempfile.mkdtemp(prefix='mc_c01_')
    try:
        depth = {'quick': {'all': 3, 'deep': 5}, 'thorough': {'all': 5, 'deep': 7}}[ctx.tier][mode]
        for cfg in cfgs:
            ctx.case(cfg, 'construct')
            if mode == 'all':
                drain(ctx, cfg, d)
                meta(ctx, build(cfg, d), cfg)
            for hist in itertools.product(OPS, repeat=depth):
                run_history(ctx, cfg, hist, d, True)
                if mode == 'all' and hist[0] != 'r' and hist[1] != 'r':
                    run_history(ctx, cfg, hist, d, False)
            ctx.sample({'config': cfg, 'last history': hist})
    finally:
        shutil.rmtree(d, ignore_errors=True)
