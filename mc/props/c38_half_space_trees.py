"""C38: half-space-tree scores reflect only the reference window's mass."""
import itertools

import numpy as np

from mc.core import canon, compositions
from mc.genkit import ScriptedRandom
from skmultiflow.anomaly_detection import HalfSpaceTrees

ID = 'C38'
TECHNIQUE = 'explicit enumeration of all bounded training histories, batch cuts and random draws of the real detector against trees rebuilt from the recorded draws and masses recounted from the raw history'
LEVEL_NOTE = (
    'the reference rebuilds every tree from the recorded random draws and recounts masses from the raw samples of the last completed window; scores of 6 query rows are compared after every sample, '
    'jointly and one by one'
)
BOUNDS = {'quick': 'windows 1-4, depths 1-4, 1-3 trees, 2-3 features, size limits 0-2, 4 thresholds; all histories over 2-3 rows to 4 windows (up to 3^8), all cuts of 9 samples, all first-draw scripts of length 3',
          'thorough': 'histories up to 3^9, draw scripts of length 5, all cuts of 11 samples'}
ASSUMPTIONS = ['sample 0 belongs to no window: window k holds samples (k-1)w+1..kw, and the profile of window k is in force from sample kw on',
               'until the first window has been seen completely the answer is 0.5/0.5']

G = [(0.3, 0.3, 0.3), (-0.4, 0.7, 1.2), (1.3, 0.2, -0.6)]
Q = [(0.3, 0.3, 0.3), (-0.4, 0.7, 1.2), (1.3, 0.2, -0.6), (0.9, 1.4, 0.1), (-0.8, -0.8, 0.5), (0.55, -0.1, 0.6)]


class Rng(ScriptedRandom):
    def randint(self, low, high=None, size=None, dtype=int):
        v = super().randint(low, high, size, dtype)
        self.log[-1] = ('int', v, (0, low) if high is None else (low, high))
        return v

    def __reduce__(self):
        return (Rng, (self.script,))


def build(draws, n_feat, depth, restore):
    """One tree from its draws: nested (feature, cut, left, right) or None for a leaf."""
    lo, hi = [], []
    for _ in range(n_feat):
        s = draws.pop(0)
        assert s[0] == 'rand'
        half = 2 * max(s[1], 1 - s[1])
        lo.append(s[1] - half)
        hi.append(s[1] + half)

    def node(lo, hi, d):
        if d == depth:
            return None
        s = draws.pop(0)
        assert s[0] == 'int'
        f = s[1]
        cut = (lo[f] + hi[f]) / 2
        hi2 = list(hi)
        hi2[f] = cut
        left = node(list(lo), hi2, d + 1) if restore else node(lo, hi2, d + 1)
        if restore:
            lo = list(lo)
        lo[f] = cut
        return (f, cut, left, node(lo, hi, d + 1))
    return node(lo, hi, 1)


def path(t, x):
    """The nodes row x falls into, as strings of turns."""
    out, name = [''], ''
    while t is not None:
        right = x[t[0]] > t[1]
        name += 'R' if right else 'L'
        out.append(name)
        t = t[3] if right else t[2]
    return out


class Ref:
    def __init__(self, log, n_feat, trees, depth, limit, window, restore):
        draws = list(log)
        self.trees = [build(draws, n_feat, depth, restore) for _ in range(trees)]
        self.left = len(draws)
        self.depth, self.limit, self.w = depth, limit, window
        self.paths = {}

    def path(self, i, x):
        k = (i, tuple(x))
        if k not in self.paths:
            self.paths[k] = path(self.trees[i], x)
        return self.paths[k]

    def score(self, x, win):
        tot = 0.0
        for i in range(len(self.trees)):
            mass = {}
            for s in win:
                for n in self.path(i, s):
                    mass[n] = mass.get(n, 0) + 1
            p = self.path(i, x)
            for n in p:
                if mass.get(n, 0) <= self.limit or n == p[-1]:
                    tot += 1 - mass.get(n, 0) * 2.0 ** (len(n) + 1) / (self.w * 2.0 ** self.depth)
                    break
        return tot / len(self.trees)


def window(hist, w):
    """Samples of the last completed window."""
    n = len(hist)
    k = (n - 1) // w
    return hist[(k - 1) * w + 1:k * w + 1]


CFG = {
    # name: (window, depth, trees, features, limit, threshold, rows, length quick/thorough)
    'w1': (1, 3, 2, 3, 0, 0.5, 3, 5, 6),
    'w2': (2, 3, 2, 3, 0, 0.6, 3, 8, 9),
    'w2-limit': (2, 4, 2, 2, 1, 0.9, 3, 7, 8),
    'w3': (3, 4, 1, 3, 1, 0.75, 2, 11, 12),
    'w3-limit2': (3, 3, 3, 2, 2, 0.5, 2, 10, 12),
    'w4': (4, 3, 2, 3, 1, 0.3, 2, 12, 13),
    'leaf': (2, 1, 2, 3, 0, 0.2, 2, 8, 9),
    'deep': (2, 5, 1, 2, 0, 0.99, 3, 7, 8),
}


def shards(tier):
    s = []
    for k, c in CFG.items():
        for r in range(c[6]):
            s.append(('hist-%s-%d' % (k, r), {'kind': 'hist', 'cfg': k, 'first': r, 'n': c[7] if tier == 'quick' else c[8]}))
    for k in ('w2', 'w3'):
        s.append(('cuts-' + k, {'kind': 'cuts', 'cfg': k, 'n': 9 if tier == 'quick' else 11}))
    for d in range(4):
        s.append(('draws-%d' % d, {'kind': 'draws', 'first': d, 'n': 3 if tier == 'quick' else 5}))
    s.append(('features', {'kind': 'features'}))
    return s


def make(c, script, nf=None):
    w, depth, trees, nfeat, limit, thr = c[:6]
    rng = Rng(script)
    return HalfSpaceTrees(window_size=w, depth=depth, n_estimators=trees, size_limit=limit, anomaly_threshold=thr, random_state=rng), rng


def judge(ctx, m, refs, c, hist, memo):
    """Scores after the samples of hist."""
    w, depth, trees, nf, limit, thr = c[:6]
    Xq = np.array([q[:nf] for q in Q])
    got = np.asarray(m.predict_proba(Xq), dtype=float)
    n = len(hist)
    ctx.state(canon(got), n % w)
    if n <= w + 1:
        want = [0.5] * len(Q)
        if not ctx.eq(got[:, 1], want, 'score/warm-up', 'scores before the first window was seen'):
            return False
    else:
        ok = False
        wins = [tuple(window(hist, w))]
        if n <= 2 * w:
            wins.append(tuple(hist[:w]))            # any reading of "the first window" is accepted
        for r, ref in enumerate(refs):
            for win in wins:
                k = (r, win)
                if k not in memo:
                    memo[k] = [ref.score(x, win) for x in Xq]
                if np.allclose(got[:, 1], memo[k], rtol=0, atol=1e-9):
                    if r == 1:
                        ctx.fail('build/range-not-restored', 'splits below a right branch do not halve the range of their node')
                    ok = True
                    break
            if ok:
                break
        if not ok and n <= 2 * w:
            for r, ref in enumerate(refs):
                if np.allclose(got[:, 1], [ref.score(x, [hist[w]]) for x in Xq], rtol=0, atol=1e-9):
                    ctx.fail('score/first-window', 'scores %s come from the mass of sample %d alone, not from the first window' % (got[:, 1], w))
                    ok = True
                    break
        if not ctx.check(ok, 'score/window', lambda: 'scores %s, masses of the last completed window give %s' % (got[:, 1], memo[(0, wins[0])])):
            return False
    if not ctx.eq(got.sum(axis=1), [1.0] * len(Q), 'score/sum', 'row sums'):
        return False
    lab = [int(v) for v in m.predict(Xq)]
    if any(abs(v - thr) < 1e-9 and v != thr for v in got[:, 1]):
        return True
    return ctx.eq(lab, [int(v > thr) for v in got[:, 1]], 'label', 'predicted anomalies at threshold %s' % thr)


def run(name, p, ctx):
    {'hist': hist, 'cuts': cuts, 'draws': draws, 'features': features}[p['kind']](p, ctx)


def mkrefs(c, rng):
    w, depth, trees, nf, limit, thr = c[:6]
    return [Ref(rng.log, nf, trees, depth, limit, w, True), Ref(rng.log, nf, trees, depth, limit, w, False)]


def hist(p, ctx):
    c = CFG[p['cfg']]
    w, nf = c[0], c[3]
    pts = [g[:nf] for g in G[:c[6]]]
    memo = {}
    refs = None
    for tail in itertools.product(range(len(pts)), repeat=p['n'] - 1):
        h = [pts[p['first']]] + [pts[t] for t in tail]
        m, rng = make(c, (0.37, 0.62, 0.81))
        ctx.trace()
        for i, x in enumerate(h):
            m.partial_fit(np.array([x]))
            if refs is None:
                refs = mkrefs(c, rng)
            ctx.step()
            if i + 1 < p['n'] - w and i + 1 < len(h) and any(t != 0 for t in tail[i:]):
                continue                    # this prefix is judged when the remaining samples are all row 0
            ctx.case(p['cfg'], h[:i + 1])
            if not judge(ctx, m, refs, c, h[:i + 1], memo):
                return
        ctx.check(len(rng.log) == refs_len(c), 'draws', 'number of random draws')
    ctx.sample({'cfg': p['cfg'], 'history': h, 'scores': m.predict_proba(np.array([q[:nf] for q in Q]))[:, 1]})


def refs_len(c):
    return c[2] * (c[3] + 2 ** (c[1] - 1) - 1)


def cuts(p, ctx):
    c = CFG[p['cfg']]
    nf = c[3]
    for code in range(8):
        h = [G[(i * (code + 1) + i // 3 + code) % 3][:nf] for i in range(p['n'])]
        memo = {}
        for comp in compositions(p['n']):
            m, rng = make(c, (0.2, 0.7, 0.4))
            i = 0
            refs = None
            ctx.trace()
            for k in comp:
                m.partial_fit(np.array(h[i:i + k]))
                i += k
                ctx.step()
                if refs is None:
                    refs = mkrefs(c, rng)
                ctx.case(p['cfg'], 'cuts', comp, h[:i])
                if not judge(ctx, m, refs, c, h[:i], memo):
                    return
            one = np.array([m.predict_proba(np.array([q[:nf]]))[0] for q in Q])
            ctx.eq(one, m.predict_proba(np.array([q[:nf] for q in Q])), 'score/rows', 'rows queried one by one')


def draws(p, ctx):
    c = CFG['w2']
    vals = (0.03, 0.34, 0.66, 0.97)
    for script in itertools.product(vals, repeat=p['n']):
        script = (vals[p['first']],) + script
        m, rng = make(c, script)
        memo, h, refs = {}, [], None
        ctx.trace()
        for i in range(7):
            x = G[(i * 2 + i // 3) % 3]
            h.append(x)
            m.partial_fit(np.array([x]))
            ctx.step()
            if refs is None:
                refs = mkrefs(c, rng)
            ctx.case('draws', script, i)
            if not judge(ctx, m, refs, c, h, memo):
                return


def features(p, ctx):
    """Every feature can be chosen for a split, whatever their number."""
    for nf in range(1, 5):
        for depth in (2, 3):
            m, rng = make((2, depth, 2, nf, 0, 0.5), ())
            ctx.case('features', nf, depth)
            ctx.step()
            try:
                for i in range(6):
                    m.partial_fit(np.full((1, nf), 0.1 * i))
            except ValueError as e:
                ctx.fail('features/one', 'a stream of %d feature(s) raises %r' % (nf, e))
                continue
            rngs = {v[2] for v in rng.log if v[0] == 'int'}
            ctx.state(nf, depth)
            ctx.check(rngs == {(0, nf)}, 'features/last', lambda: '%d features, split features drawn from %s' % (nf, rngs))
