"""C05: a concept-drift stream is an order-preserving merge of its two streams."""
import itertools
import math
import warnings

import numpy as np

from mc.core import same, compositions, chunk
from mc.genkit import ScriptedRandom
from skmultiflow.data import ConceptDriftStream, DataStream, SEAGenerator

ID = 'C05'
TECHNIQUE = 'the merge\'s random draws are enumerated around the sigmoid at every position (scripted RandomState) over numbered source streams; all batch cuts and restarts'
LEVEL_NOTE = (
    'all sequences of draw classes (below / at / above the sigmoid, extremes) over 5 (quick) / 6 (thorough) positions for a grid of drift '
    'positions, widths and angles; far positions by direct jumps'
)
BOUNDS = {'quick': '5 positions x 5 draw classes x 24 (position, width/alpha) settings x all batch cuts; 200-sample seeded runs',
          'thorough': '6 positions'}
ASSUMPTIONS = ['both sources still have samples (the stream itself reports no more samples as soon as one source is exhausted)',
               'a draw within 1e-12 of the sigmoid may go either way']



def source(tag, n, nf=2, nt=1):
    X = np.array([[tag * 1000.0 + i] + [i + tag * 0.5] * (nf - 1) for i in range(n)])
    y = np.array([[(i + tag + 3 * k) % (4 + k) for k in range(nt)] for i in range(n)])
    return DataStream(X, y if nt > 1 else y.ravel(), name='numbered')


def truth(src, n, nt):
    s = src
    out = []
    s.restart()
    for _ in range(n):
        X, y = s.next_sample()
        out.append((tuple(X[0].tolist()), tuple(np.ravel(y).tolist())))
    s.restart()
    return out


def sigmoid(t, p, w):
    x = -4.0 * (t - p) / w
    if x > 700:
        return 0.0
    return 1.0 / (1.0 + math.exp(x))


def rows(X, y):
    X, y = np.asarray(X), np.asarray(y)
    if len(X) != len(y):
        return 'X %r y %r' % (X.shape, y.shape)
    return [(tuple(a.tolist()), tuple(np.ravel(b).tolist())) for a, b in zip(X, y)]


def expected(draws, pos, width, A, B):
    """Reference merge: list of (row); None where the draw is within rounding of the sigmoid."""
    out, a, b = [], 0, 0
    for i, d in enumerate(draws):
        p = sigmoid(i + 1, pos, width)
        if d <= p:
            out.append(B[b])
            b += 1
        else:
            out.append(A[a])
            a += 1
    return out


SETTINGS = [(p, dict(width=w)) for p in (0, 2, 3, 50) for w in (1, 2, 7, 1000)] + \
           [(2, dict(alpha=a)) for a in (90.0, 60.0, 45.0, 44.0, 20.0, 5.0, 0.5)] + [(2, dict(alpha=30.0, width=99))]


def eff_width(kw):
    if kw.get('alpha') is not None:
        w = int(1 / np.tan(kw['alpha'] * np.pi / 180))
        return w if w > 0 else 1
    return kw['width']


def explore(ctx, pos, kw, T, nt):
    width = eff_width(kw)
    N = T + 2
    SA, SB = source(1, N, 2, nt), source(2, N, 2, nt)
    A, B = truth(SA, N, nt), truth(SB, N, nt)
    cuts = list(compositions(T))
    for cls in itertools.product(('lo', 'below', 'above', 'hi', 'zero'), repeat=T):
        draws = []
        for i, c in enumerate(cls):
            p = sigmoid(i + 1, pos, width)
            d = {'lo': p * 0.5, 'below': p * (1 - 1e-6), 'above': p + (1 - p) * 1e-6 + 1e-15, 'hi': p + (1 - p) * 0.9, 'zero': 0.0}[c]
            draws.append(min(max(d, 0.0), 0.9999999999999999))
        want = expected(draws, pos, width, A, B)
        if any(abs(d - sigmoid(i + 1, pos, width)) < 1e-12 * max(1e-300, sigmoid(i + 1, pos, width)) and d for i, d in enumerate(draws)):
            continue
        for cut in (cuts if nt == 1 and cls[0] in ('lo', 'hi') else cuts[:1] + cuts[-1:]):
            ctx.case('merge', pos, kw, cls, cut)
            SA.restart()
            SB.restart()
            rs = ScriptedRandom(draws)
            g = ConceptDriftStream(SA, SB, position=pos, random_state=rs, **kw)
            got = []
            for k in cut:
                X, y = g.next_sample(k)
                ctx.check(np.asarray(y).shape == ((k,) if nt == 1 else (k, nt)) and np.asarray(X).shape == (k, 2), 'shape', 'X %r y %r for %d samples' % (np.shape(X), np.shape(y), k))
                got += rows(X, y)
                ctx.check(rows(*g.last_sample()) == got[-k:], 'last_sample', lambda: 'last_sample %r, delivered %r' % (rows(*g.last_sample()), got[-k:]))
                ctx.step()
            ctx.check(got == want, 'merge', lambda: 'draws %r around the sigmoid: got %r want %r' % (draws, got, want))
            # restart at the end: the same merge from the start of both sources
            g.restart()
            rs.i = 0
            ctx.check(g.last_sample()[0] is None, 'restart', 'last sample survives a restart')
            again = rows(*g.next_sample(T))
            ctx.check(again == want, 'restart', lambda: 'after a restart: got %r want %r' % (again, want))
            ctx.step()
            ctx.trace()
        ctx.state(pos, repr(kw), cls, nt)
    ctx.sample({'position': pos, 'setting': kw, 'draws': draws, 'merged': want})


def seeded(ctx):
    """Seeded long runs: alphas, widths, far positions; draws recomputed with the same seed; two instances and restarts."""
    for pos, kw in [(100, dict(width=1)), (100, dict(width=50)), (1, dict(width=10)), (190, dict(alpha=1.0)), (0, dict(width=1)), (60, dict(alpha=89.0)), (1000, dict(width=300))]:
        width = eff_width(kw)
        for seed in (0, 3):
            ctx.case('seeded', pos, kw, seed)
            draws = np.random.RandomState(seed).rand(200)
            SA, SB = source(1, 220), source(2, 220)
            A, B = truth(SA, 220, 1), truth(SB, 220, 1)
            want = expected(draws, pos, width, A, B)
            g = ConceptDriftStream(SA, SB, position=pos, random_state=seed, **kw)
            ctx.eq(g.width, width, 'width', 'transition width')
            for at in (200, 0, 1, 77):
                ctx.case('seeded', pos, kw, seed, 'restart after', at)
                if at:
                    got = rows(*g.next_sample(at))
                    ctx.check(got == want[:at], 'seeded', 'the merge differs from the sigmoid rule')
                np.random.rand(3)
                g.restart()
                ctx.step(2)
            ctx.check(g.has_more_samples() and g.is_restartable(), 'flags', 'has_more/is_restartable')
            ctx.trace()
    # the default streams: instances are independent
    ctx.case('defaults')
    a, b = ConceptDriftStream(random_state=1), ConceptDriftStream(random_state=1)
    ra = rows(*a.next_sample(5))
    rb = rows(*b.next_sample(5))
    ctx.check(ra == rb, 'defaults', 'two default-built instances influence each other')
    ctx.eq(a.n_remaining_samples(), -1, 'remaining', 'remaining count of an infinite merge')
    # metadata comes from the first stream
    for nt in (1, 2):
        s, d = source(1, 5, 3, nt), source(2, 5, 3, nt)
        g = ConceptDriftStream(s, d, position=2, width=1, random_state=1)
        for at in ('n_features', 'n_targets', 'n_classes', 'feature_names', 'target_names', 'target_values', 'n_num_features', 'n_cat_features'):
            ctx.eq(getattr(g, at), getattr(s, at), 'metadata', at)
        for i in range(5):
            ctx.eq(g.n_remaining_samples(), 10 - i, 'remaining', 'remaining after %d' % i)
            ctx.check(g.has_more_samples() == (s.has_more_samples() and d.has_more_samples()), 'flags', 'has_more')
            g.next_sample()
            ctx.step()
    for bad in (-1, 91, 180.0):
        ctx.raises(lambda: ConceptDriftStream(alpha=bad), 'alpha', 'alpha=%r' % bad)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ctx.eq(ConceptDriftStream(alpha=0, width=123).width, 123, 'alpha', 'alpha=0 means unset')


def shards(tier):
    T = 5 if tier == 'quick' else 6
    out = [('seeded', ('seeded',))]
    for i, (p, kw) in enumerate(SETTINGS):
        out.append(('merge-%02d' % i, ('merge', p, kw, T, 1)))
        if i % 4 == 0:
            out.append(('merge-mt-%02d' % i, ('merge', p, kw, T - 1, 2)))
    return out


def run(name, p, ctx):
    if p[0] == 'seeded':
        seeded(ctx)
    else:
        explore(ctx, *p[1:])
