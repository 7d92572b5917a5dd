"""C41: the KS-window detector tests exactly its own sliding window."""
import itertools

import numpy as np
from scipy import stats

from mc.core import same
from skmultiflow.drift_detection import KSWIN

ID = 'C41'
TECHNIQUE = 'explicit enumeration of all bounded input sequences, resets and (seeded) sample draws on the real detector against a list model with an exact two-sample test'
LEVEL_NOTE = (
    'all sequences over 2-3 values to length 9-10 (quick) / 11-12 (thorough) for small windows, several significance levels, global seeds and initial windows; larger '
    'windows only through block histories'
)
BOUNDS = {'quick': 'window sizes 4-8, statistic sizes 2-3, alpha {0, .1, .4, .7, 1}, all 2-valued sequences of length 10 and 3-valued of length 7, 2 global seeds; block histories for window 100/30',
          'thorough': 'lengths 12 and 9, 4 seeds'}
ASSUMPTIONS = ['the test is applied when an input arrives at a full window: the oldest item leaves, the remaining items are tested, then the input is appended',
               'the sample of the older part is drawn with the global NumPy generator, which the harness seeds before every input']

CACHE = {}


def ks(a, b):
    k = (tuple(sorted(a)), tuple(sorted(b)))
    if k not in CACHE:
        xs = sorted(set(a) | set(b))
        d = max(abs(sum(v <= x for v in a) / len(a) - sum(v <= x for v in b) / len(b)) for x in xs)
        CACHE[k] = (d, stats.ks_2samp(np.array(a), np.array(b), mode='exact')[1])
    return CACHE[k]


class Ref:
    def __init__(self, alpha, window_size, stat_size, data=None):
        self.a, self.w, self.s = alpha, window_size, stat_size
        self.win = list(data) if data is not None else []
        self.change = False

    def add(self, x, seed):
        self.change, amb = False, False
        if len(self.win) >= self.w:
            self.win = self.win[1:]
            drawn = np.random.RandomState(seed).choice(np.array(self.win[:-self.s]), self.s)
            d, p = ks([float(v) for v in drawn], [float(v) for v in self.win[-self.s:]])
            amb = abs(p - self.a) < 1e-12 and p != self.a
            if p <= self.a and d > 0.1:
                self.change = True
                self.win = self.win[-self.s:]
        self.win.append(x)
        return amb


def drive(ctx, cfg, seq, gseed, data=None, reset_at=None):
    alpha, w, s = cfg
    init = np.array(data, dtype=float) if data is not None else None
    d = KSWIN(alpha=alpha, window_size=w, stat_size=s, data=init)
    r = Ref(alpha, w, s, data)
    for i, x in enumerate(seq):
        if reset_at == i:
            d.reset()
            r = Ref(alpha, w, s)
            ctx.check(not d.detected_change() and len(d.window) == 0, 'reset', 'window or flag survive a reset')
        np.random.seed(gseed + i)
        d.add_element(x)
        if r.add(x, gseed + i):
            return
        ctx.step()
        if bool(d.detected_change()) != r.change:
            ctx.fail('change', 'input %d of %r: change=%r, the documented test gives %r' % (i, list(seq), d.detected_change(), r.change))
            return
        if not same([float(v) for v in d.window], r.win):
            ctx.fail('window', 'input %d of %r: window %r, want %r' % (i, list(seq), list(d.window), r.win))
            return
    if init is not None:
        ctx.check(same(init, list(data)), 'data', 'the initial data of the caller was changed')
    ctx.state(cfg, tuple(r.win), r.change)
    ctx.trace()


CFGS = [(a, w, s) for w, s in ((4, 2), (6, 3), (7, 2), (8, 3)) for a in (0.0, .1, .4, .7, 1.0)]


def shards(tier):
    out = []
    for i, c in enumerate(CFGS):
        out.append(('seq-%d' % i, ('seq', c)))
    out.append(('blocks', ('blocks',)))
    out.append(('reset', ('reset',)))
    return out


def run(name, p, ctx):
    q = ctx.tier == 'quick'
    if p[0] == 'seq':
        c = p[1]
        for gs in (1, 500) if q else (1, 500, 900, 4000):
            for seq in itertools.product((0.0, 1.0), repeat=10 if q else 12):
                ctx.case(c, 'seed', gs, seq)
                drive(ctx, c, seq, gs)
            for seq in itertools.product((0.0, 1.0, 2.5), repeat=7 if q else 9):
                ctx.case(c, 'seed', gs, seq)
                drive(ctx, c, seq, gs)
        ctx.sample({'alpha, window, stat': c, 'inputs': seq})
    elif p[0] == 'reset':
        for c in CFGS:
            for seq in itertools.product((0.0, 1.0), repeat=8):
                for at in (1, 4, 5, 7):
                    ctx.case(c, seq, 'reset before', at)
                    drive(ctx, c, seq, 3, reset_at=at)
                if seq[:3] == (0.0, 1.0, 0.0):
                    for n in (1, c[1] - 1, c[1], c[1] + 2):
                        ctx.case(c, seq, 'initial data', n)
                        drive(ctx, c, seq, 3, data=[float((i * 3) % 4) for i in range(n)])
        for bad in (dict(alpha=-.1), dict(alpha=1.1), dict(window_size=-1), dict(window_size=5, stat_size=6)):
            ctx.raises(lambda: KSWIN(**bad), 'refused', 'KSWIN(%r)' % bad)
    else:
        blocks = [tuple((i * 7919 % 100) / 100 for i in range(70)), tuple(3 + (i * 104729 % 100) / 100 for i in range(40)), (0.5,) * 35, tuple((i % 2) for i in range(40))]
        for h in itertools.product(range(4), repeat=3 if q else 4):
            ctx.case('default', h)
            drive(ctx, (.005, 100, 30), tuple(float(x) for j in h for x in blocks[j]), 11)
