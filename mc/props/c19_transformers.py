"""C19: the streaming transformers compute their documented function of the window."""
import itertools
import math

import numpy as np

from mc.core import same, compositions, chunk
from skmultiflow.transform import (MissingValuesCleaner, WindowedMinmaxScaler, WindowedStandardScaler,
                                   OneHotToCategorical)

ID = 'C19'
TECHNIQUE = 'explicit enumeration of all row histories, batch cuts and call kinds on the real transformers against a window model'
LEVEL_NOTE = (
    'exhaustive over a five-row alphabet of two columns, all batch cuts and call sequences to depth 3-4 (quick) / 4-5 (thorough); '
    'wider rows and longer windows are not covered'
)
BOUNDS = {'quick': 'rows from a 5-row alphabet (2 columns, NaN and marker values), histories of 3 rows with every cut and call kind, '
                   '4 rows with every cut, windows 1-3, all strategies, 4 marker sets; the same for the scalers over a 4-row alphabet of narrow and far-off columns; one-hot: all group layouts of 5 columns, all binary rows',
          'thorough': 'histories of 4 rows with every cut and call kind, 5 rows with every cut, windows 1-4'}
ASSUMPTIONS = ['transform also counts the transformed row into the window (implemented and test-locked for the scalers)',
               'a mode tie may be resolved to any of the tied values',
               'the min-max scaler maps back to the original range (test-locked, see known findings); its model is that formula']

NAN = float('nan')
ROWS = [(0., 2.), (1., NAN), (NAN, -9.), (3., 1.), (-9., NAN)]
PLAIN = [(0., 2.), (1., 2.), (3., -1.), (5., 2.), (-2., 0.)]
# the same difference structure at unusual magnitudes: a narrow column, a far-off one, values whose mean is not exact
FINE = [(.1, 1e6), (.1003, 1e6), (.1, 1e6 + 2.), (.7, 1e6)]
MISSING = [NAN, -9., [-9., NAN], [-9., 3.]]
JUNK = 777.


def isnan(v):
    return v != v


class CleanerRef:
    def __init__(self, missing, strategy, window, new):
        self.m = missing if isinstance(missing, list) else [missing]
        self.s, self.w, self.new, self.win = strategy, window, new, []

    def miss(self, v):
        return isnan(v) or v in self.m

    def fit(self, rows):
        for r in rows:
            self.win = (self.win + [r])[-self.w:]

    def transform(self, rows):
        """per row, per column: the set of acceptable values"""
        out = []
        for r in rows:
            self.fit([r])
            o = []
            for j, v in enumerate(r):
                if not self.miss(v):
                    o.append([v])
                    continue
                obs = sorted(x[j] for x in self.win if not self.miss(x[j]))
                if self.s == 'zero':
                    o.append([0])
                elif self.s == 'custom' or not obs:
                    o.append([self.new])
                elif self.s == 'mean':
                    o.append([math.fsum(obs) / len(obs)])
                elif self.s == 'median':
                    n = len(obs)
                    o.append([(obs[n // 2] + obs[(n - 1) // 2]) / 2])
                else:
                    top = max(obs.count(x) for x in obs)
                    o.append(sorted({x for x in obs if obs.count(x) == top}))
            out.append(o)
        return out


class ScalerRef:
    def __init__(self, kind, window):
        self.k, self.w, self.win = kind, window, []

    def fit(self, rows):
        for r in rows:
            self.win = (self.win + [r])[-self.w:]

    def transform(self, rows):
        out = []
        for r in rows:
            o = []
            for j, v in enumerate(r):
                col = [x[j] for x in self.win]
                if self.k == 'std':
                    m = math.fsum(col) / len(col) if col else 0.
                    s = math.sqrt(math.fsum((x - m) ** 2 for x in col) / len(col)) if col else 1.
                    o.append([(v - m) / (s if s > 1e-12 else 1.)])
                else:
                    o.append([0.] if col and min(col) == max(col) else [v])
            out.append(o)
            self.fit([r])
        return out


def drive(ctx, make, ref, rows, cut, ops, as_type):
    """ops[i]: 't' transform, 'p' partial_fit_transform, 'f' partial_fit"""
    t = make()
    i = 0
    for k, op in zip(cut, ops):
        batch = rows[i:i + k]
        i += k
        X = np.array(batch) if as_type == 'a' else ([list(r) for r in batch] if as_type == 'l' else np.array(batch).astype(int))
        before = np.array(X, dtype=float)
        if op == 'f':
            got = t.partial_fit(X)
            ctx.check(got is t, 'self', 'partial_fit returns the transformer')
            ref.fit(batch)
            out = None
        else:
            out = t.transform(X) if op == 't' else t.partial_fit_transform(X)
            want = ref.transform(batch)
            got = np.asarray(out, dtype=float)
            ok = got.shape == (k, len(batch[0])) and all(
                any(same(got[a, b], w) for w in want[a][b]) for a in range(k) for b in range(len(batch[0])))
            ctx.check(ok, 'value', lambda: '%s(%s) gave %s, acceptable %s' % (op, batch, got.tolist(), want))
        ctx.step(k)
        ctx.check(same(np.array(X, dtype=float), before), 'input', lambda: 'the caller\'s data was changed to %s' % (X,))
        # nothing the caller later does to its own data may reach the transformer
        if isinstance(X, np.ndarray):
            X[...] = JUNK
        else:
            for r in X:
                r[:] = [JUNK] * len(r)
        if isinstance(out, np.ndarray) and out.flags.writeable:
            out[...] = JUNK
    ctx.state(as_type, repr(getattr(ref, 'win', None)))
    ctx.trace()


def cases(rows, depth_all, depth_cut, part, nparts):
    n = 0
    for d in range(1, depth_all + 1):
        for hist in itertools.product(rows, repeat=d):
            n += 1
            if n % nparts != part:
                continue
            for cut in compositions(d):
                for ops in itertools.product('tpf', repeat=len(cut)):
                    yield hist, cut, ops
    for d in range(depth_all + 1, depth_cut + 1):
        for hist in itertools.product(rows, repeat=d):
            n += 1
            if n % nparts != part:
                continue
            for cut in compositions(d):
                for op in 'tp':
                    yield hist, cut, op * len(cut)


def run_onehot(ctx, layout, ncol):
    groups = [list(g) for g in layout]
    t = OneHotToCategorical([list(g) for g in groups])
    firsts = {min(g): g for g in groups}
    member = {i for g in groups for i in g}

    def want(row):
        out = []
        for i, v in enumerate(row):
            if i in firsts:
                g = firsts[i]
                pos = [n for n, j in enumerate(g) if row[j] == 1]
                out.append(pos[0] if pos else len(g))
            elif i not in member:
                out.append(v)
        return out
    plain = [i for i in range(ncol) if i not in member]
    rows = []
    for bits in itertools.product((0., 1.), repeat=ncol - len(plain)):
        row = [0.] * ncol
        it = iter(bits)
        for i in range(ncol):
            row[i] = (2.5 + i) if i in plain else next(it)
        rows.append(row)
    for dtype in (float, int):
        A = np.array(rows)
        if dtype is int:
            A = A.astype(int)
        W = [want(r) for r in A.tolist()]
        for X, w in [(A, W)] + [(A[i:i + 1], [W[i]]) for i in range(len(W))] + [(A[i:i + 2][::-1], W[i:i + 2][::-1]) for i in range(len(W) - 1)]:
            ctx.case('OneHotToCategorical', groups, X.tolist())
            for call in (t.transform, t.partial_fit_transform, lambda Z: t.partial_fit(Z).transform(Z), lambda Z: t.fit(Z, None).transform(Z)):
                keep = X.copy()
                got = call(X)
                ctx.eq(got, w, 'onehot', 'recoded rows')
                ctx.check(np.array_equal(X, keep), 'onehot.input', 'input changed')
                ctx.step(len(w))
            ctx.trace()
        ctx.state('onehot', layout, dtype.__name__)


def layouts(ncol):
    """all ways to pick one or two disjoint contiguous groups of >=2 columns, in both list orders, plus two non-contiguous ones"""
    seg = [tuple(range(a, b)) for a in range(ncol) for b in range(a + 2, ncol + 1)]
    out = [(s,) for s in seg]
    for s, u in itertools.permutations(seg, 2):
        if not set(s) & set(u):
            out.append((s, u))
    return out + [((0, 2),), ((1, 3), (0, 2)), ((2, 1),)]


def shards(tier):
    q = tier == 'quick'
    out = []
    wins = (1, 2, 3) if q else (1, 2, 3, 4)
    for s in ('zero', 'mean', 'median', 'mode', 'custom'):
        for mi in range(len(MISSING)):
            for w in (wins if s in ('mean', 'median', 'mode') else (1,)):
                n = 1 if q else 3
                for p in range(n):
                    out.append(('clean-%s-%d-w%d-%d' % (s, mi, w, p), ('c', s, mi, w, p, n)))
    for k in ('std', 'minmax'):
        for w in wins:
            n = 2 if q else 8
            for p in range(n):
                out.append(('%s-w%d-%d' % (k, w, p), ('s', k, w, p, n)))
        for w in wins[1:] + (wins[-1] + 1,):
            out.append(('%s-fine-w%d' % (k, w), ('m', k, w)))
    for i, ls in enumerate(chunk(layouts(5 if q else 6), 8)):
        out.append(('onehot-%d' % i, ('o', ls, 5 if q else 6)))
    out.append(('minmax-range', ('k',)))
    return out


def run(name, params, ctx):
    q = ctx.tier == 'quick'
    da, dc = (3, 4) if q else (4, 5)
    if params[0] == 'c':
        _, s, mi, w, p, n = params
        miss = MISSING[mi]
        for hist, cut, ops in cases(ROWS, da, dc, p, n):
            # list input (one type per history keeps the product small; every history sees both)
            for ty in (('a', 'l') if len(hist) <= da - 1 else (('a',) if len(cut) % 2 else ('l',))):
                ctx.case('MissingValuesCleaner', repr(miss), s, w, hist, cut, ops, ty)
                drive(ctx, lambda: MissingValuesCleaner(list(miss) if isinstance(miss, list) else miss, s, w, new_value=7),
                      CleanerRef(miss, s, w, 7), hist, cut, ops, ty)
        ctx.sample(ctx.cur)
    elif params[0] == 's':
        _, k, w, p, n = params
        cls = WindowedStandardScaler if k == 'std' else WindowedMinmaxScaler
        for hist, cut, ops in cases(PLAIN, da, dc, p, n):
            for ty in (('a', 'l', 'i') if len(hist) <= da - 1 else (('a',) if len(cut) % 2 else ('i',))):
                ctx.case(cls.__name__, w, hist, cut, ops, ty)
                drive(ctx, lambda: cls(w), ScalerRef(k, w), hist, cut, ops, ty)
        ctx.sample(ctx.cur)
    elif params[0] == 'm':
        _, k, w = params
        cls = WindowedStandardScaler if k == 'std' else WindowedMinmaxScaler
        for hist, cut, ops in cases(FINE, da, dc + 1, 0, 1):
            if len(hist) > dc and len(set(hist)) > 2:
                continue
            ctx.case(cls.__name__, w, hist, cut, ops)
            drive(ctx, lambda: cls(w), ScalerRef(k, w), hist, cut, ops, 'a' if len(cut) % 2 else 'l')
        ctx.sample(ctx.cur)
    elif params[0] == 'o':
        for layout in params[1]:
            run_onehot(ctx, layout, params[2])
        ctx.sample(ctx.cur)
    else:
        # the documented purpose: scale to the range [0, 1] over the window
        ctx.case('WindowedMinmaxScaler', 'window [0],[10], then transform [5]')
        t = WindowedMinmaxScaler(10)
        t.partial_fit(np.array([[0.], [10.]]))
        ctx.eq(t.transform(np.array([[5.]])), [[0.5]], 'minmax-not-scaled', 'value 5 in the window range [0, 10]')
        ctx.step(); ctx.trace(); ctx.state('range')
