"""C33: online ensembles train members by the drawn counts and vote over all of them."""
import itertools
import math

import numpy as np

from mc.core import canon
from mc.fakes import Rec, Draws, row
from skmultiflow.drift_detection import ADWIN
from skmultiflow.meta import (OzaBaggingClassifier, OzaBaggingADWINClassifier, LeveragingBaggingClassifier, OnlineBoostingClassifier,
                              OnlineAdaC2Classifier, OnlineCSB2Classifier, OnlineRUSBoostClassifier, OnlineUnderOverBaggingClassifier,
                              OnlineSMOTEBaggingClassifier)

ID = 'C33'
TECHNIQUE = 'exhaustive enumeration of random-draw scripts, label sequences and drift points with history-digesting members against a reference of each update rule'
LEVEL_NOTE = (
    'a scripted random generator answers every draw from an enumerated script (Poisson by its quantile, so a wrong rate shows); members answer with a digest of their training, '
    'so one presentation too many, a wrong label, weight or class list changes the ensemble answer; change detection is explored by histories whose error regime changes at every position in the bound'
)
BOUNDS = {'quick': '18 ensemble settings (1-3 members, 2-3 classes): all 3^5 draw scripts x label sequences of length 3-4; drift: 24 regime-change positions x 3 scripts over up to 200 samples',
          'thorough': 'all 3^7 draw scripts, drift: 48 positions x 6 scripts'}
ASSUMPTIONS = ['members share the number of probability columns', 'the cost-sensitive update rules are those of Wang and Pineau as implemented at the pinned commit; where a rule could not be confirmed from the documentation it is mirrored (DESIGN.md)',
               'the change detector itself is decided by C16']

U = (0.05, 0.5, 0.93)
QS = np.array([(0.0, 0.0, 0.0), (1.0, 0.0, 1.0), (0.5, 1.0, 1.0)])


class Member(Rec):
    """Correct in regime 0 (x[1] == 0), mostly wrong in regime 1, as decided by its history; x[2] is the true label."""

    def __init__(self, tag=0, k=2, rate=0.92):
        super().__init__(tag)
        self.k, self.rate = k, rate

    def predict(self, X):
        out = []
        for x in np.asarray(X, dtype=float):
            v = self.value('y', row(x))
            if x[1] == 0:
                bad = v < 0.02
            else:
                bad = v < self.rate
            out.append((int(x[2]) + 1) % self.k if bad else int(x[2]))
        return np.array(out)

    def predict_proba(self, X):
        P = np.array([[self.value('p', row(x), c) for c in range(self.k)] for x in np.asarray(X, dtype=float)])
        return P / P.sum(axis=1, keepdims=True)


def make(name, k):
    return lambda: Member(3, k)


K = {  # name: (class, kwargs, rule, number of classes)
    'oza-2': (OzaBaggingClassifier, dict(n_estimators=2), 'oza', 2),
    'oza-1-3c': (OzaBaggingClassifier, dict(n_estimators=1), 'oza', 3),
    'oza-adwin-3': (OzaBaggingADWINClassifier, dict(n_estimators=3), 'oza', 2),
    'oza-adwin-1': (OzaBaggingADWINClassifier, dict(n_estimators=1), 'oza', 2),
    'lev-bag': (LeveragingBaggingClassifier, dict(n_estimators=3, w=2, delta=0.05), 'bag', 2),
    'lev-me': (LeveragingBaggingClassifier, dict(n_estimators=2, leverage_algorithm='leveraging_bag_me'), 'me', 2),
    'lev-half': (LeveragingBaggingClassifier, dict(n_estimators=2, leverage_algorithm='leveraging_bag_half'), 'half', 3),
    'lev-wt': (LeveragingBaggingClassifier, dict(n_estimators=2, leverage_algorithm='leveraging_bag_wt'), 'wt', 2),
    'lev-subag': (LeveragingBaggingClassifier, dict(n_estimators=2, leverage_algorithm='leveraging_subag'), 'subag', 2),
    'boost-3': (OnlineBoostingClassifier, dict(n_estimators=3), 'boost', 2),
    'boost-1': (OnlineBoostingClassifier, dict(n_estimators=1, drift_detection=False), 'boost', 3),
    'adac2-3': (OnlineAdaC2Classifier, dict(n_estimators=3, cost_positive=1, cost_negative=0.4), 'adac2', 2),
    'adac2-1': (OnlineAdaC2Classifier, dict(n_estimators=1, drift_detection=False), 'adac2', 2),
    'csb2-3': (OnlineCSB2Classifier, dict(n_estimators=3, cost_positive=1, cost_negative=0.9), 'csb2', 2),
    'rus1-2': (OnlineRUSBoostClassifier, dict(n_estimators=2, sampling_rate=2, algorithm=1), 'rus1', 2),
    'rus2-2': (OnlineRUSBoostClassifier, dict(n_estimators=2, sampling_rate=2, algorithm=2), 'rus2', 2),
    'rus3-3': (OnlineRUSBoostClassifier, dict(n_estimators=3, sampling_rate=3, algorithm=3), 'rus3', 2),
    'underover-3': (OnlineUnderOverBaggingClassifier, dict(n_estimators=3, sampling_rate=2), 'uo', 2),
    'smote-2': (OnlineSMOTEBaggingClassifier, dict(n_estimators=2, sampling_rate=2), 'smote', 2),
}
NODRIFT = ('oza-2', 'oza-1-3c', 'boost-1', 'adac2-1')


class Ref:
    """The update rules, one sample at a time."""

    def __init__(self, name, rng):
        cls, kw, self.rule, self.k = K[name]
        self.kw, self.rng, self.name = kw, rng, name
        n = kw['n_estimators']
        if not name.startswith('lev'):
            n = max(n, self.k)
        self.E = [Member(3, self.k) for _ in range(n)]
        self.delta = kw.get('delta', 0.002)
        self.A = [self.adwin() for _ in range(n)]
        z = lambda: [0.0] * n
        self.sc, self.sw, self.eps = z(), z(), z()
        self.tp, self.fn, self.tn, self.fp, self.sum, self.wacc, self.werr = z(), z(), z(), z(), z(), z(), z()
        self.pos, self.neg = z(), z()
        self.npos = self.nneg = 0
        self.seen = []
        self.classes = list(range(self.k))
        self.resets = []
        # these two track accuracy instead of error (known finding), checked against their own behaviour otherwise
        self.flip = self.rule in ('csb2', 'rus1', 'rus2', 'rus3')

    def adwin(self):
        return ADWIN(self.delta) if self.name.startswith('lev') else ADWIN()

    def train(self, i, x, y, k, w):
        for _ in range(int(k)):
            self.E[i].partial_fit([x], [y], self.classes, w)

    def fit(self, x, y, w, t):
        n, r, rng, kw = len(self.E), self.rule, self.rng, self.kw
        lam = 1.0
        change = False
        if r == 'smote' and y == 1:
            self.seen.append(np.array(x))
        if self.name.startswith('lev'):
            w = None
        for i in range(n):
            e = self.E[i]
            ok = lambda: int(e.predict([x])[0]) == y
            if r == 'oza':
                self.train(i, x, y, rng.poisson(), w)
            elif r == 'bag':
                self.train(i, x, y, rng.poisson(kw['w']), w)
            elif r == 'me':
                err = self.A[i].estimation
                if not ok():
                    k = 1
                elif err != 1.0 and rng.rand() < err / (1.0 - err):
                    k = 1
                else:
                    k = 0
                self.train(i, x, y, k, w)
            elif r == 'half':
                self.train(i, x, y, 0 if rng.randint(2) == 1 else 1, w)
            elif r == 'wt':
                self.train(i, x, y, 1 + rng.poisson(1.0), w)
            elif r == 'subag':
                self.train(i, x, y, 1 if rng.poisson(1) > 0 else 0, w)
            elif r == 'boost':
                k = rng.poisson(lam)
                self.train(i, x, y, k, w)
                if k:
                    if ok():
                        self.sc[i] += lam
                        self.eps[i] = self.sw[i] / (self.sw[i] + self.sc[i])
                        if self.eps[i] != 0:
                            lam /= 2 * (1 - self.eps[i])
                    else:
                        self.sw[i] += lam
                        self.eps[i] = self.sw[i] / (self.sw[i] + self.sc[i])
                        if self.eps[i] != 0:
                            lam /= 2 * self.eps[i]
            elif r == 'adac2':
                cp, cn = kw.get('cost_positive', 1), kw.get('cost_negative', 0.1)
                self.sum[i] += lam
                k = rng.poisson(lam)
                self.train(i, x, y, k, w)
                if k:
                    good = ok()
                    c = cp if y == 1 else cn
                    box = (self.tp if y == 1 else self.tn) if good else (self.fn if y == 1 else self.fp)
                    box[i] += c * lam
                    self.wacc[i] = (self.tp[i] + self.tn[i]) / self.sum[i]
                    self.werr[i] = (self.fp[i] + self.fn[i]) / self.sum[i]
                    lam = c * lam / (2 * (self.wacc[i] if good else self.werr[i]))
            elif r == 'csb2':
                cp, cn = kw['cost_positive'], kw['cost_negative']
                self.sum[i] += lam
                k = rng.poisson(lam)
                self.train(i, x, y, k, w)
                if k:
                    good = ok()
                    if not good:
                        self.fp[i] += cp * lam
                        self.sw[i] += lam
                    self.eps[i] = self.sw[i] / self.sum[i]
                    self.werr[i] = self.fp[i] / self.sum[i]
                    if good:
                        if self.eps[i] + self.werr[i] != 0 and self.eps[i] != 1:
                            lam = self.eps[i] / ((1 - self.eps[i]) * (self.eps[i] + self.werr[i]))
                    else:
                        lam = (cp if y == 1 else cn) * lam / (self.eps[i] + self.werr[i])
            elif r.startswith('rus'):
                R = kw['sampling_rate']
                if y == 1:
                    self.pos[i] += lam
                    self.npos += 1
                else:
                    self.neg[i] += lam
                    self.nneg += 1
                P, N, p, q = self.pos[i], self.neg[i], self.npos, self.nneg
                l2 = 1.0
                if r == 'rus1':
                    if y == 1 and q:
                        l2 = lam * ((P + N) / (P + N * (R * (p / q)))) * ((R + 1) * p / (p + q))
                    elif y != 1 and p:
                        l2 = lam * ((P + N) / (P + N * (q / (p * R)))) * ((R + 1) * p / (p + q))
                elif r == 'rus2':
                    if y == 1:
                        l2 = lam * (p / (p + q)) / (P / (P + N))
                    else:
                        l2 = lam * (R * p / (p + q)) / (N / (P + N))
                else:
                    l2 = lam if y == 1 else lam / R
                self.train(i, x, y, rng.poisson(l2), w)
                if ok():
                    self.sc[i] += lam
                    self.eps[i] = self.sw[i] / (self.sc[i] + self.sw[i])
                    if self.eps[i] != 1:
                        lam /= 2 * (1 - self.eps[i])
                else:
                    self.sw[i] += lam
                    self.eps[i] = self.sw[i] / (self.sc[i] + self.sw[i])
                    if self.eps[i] != 0:
                        lam /= 2 * self.eps[i]
            elif r == 'uo':
                a = (i + 1) / n
                self.train(i, x, y, rng.poisson(a * kw['sampling_rate'] if y == 1 else a), w)
            elif r == 'smote':
                a = (i + 1) / n
                if y == 1:
                    self.train(i, x, y, rng.poisson(a * kw['sampling_rate']), w)
                    for _ in range(rng.poisson((1 - a) * kw['sampling_rate'])):
                        self.train(i, self.smote(), y, 1, w)
                else:
                    self.train(i, x, y, rng.poisson(1), w)
            if kw.get('drift_detection', True) and self.name not in ('oza-2', 'oza-1-3c'):
                before = self.A[i].estimation
                bad = int(not ok())
                self.A[i].add_element(1 - bad if self.flip else bad)
                if self.A[i].detected_change() and self.A[i].estimation > before:
                    change = True
        if change:
            top, worst = 0.0, None
            for i in range(n):
                if self.A[i].estimation > top:
                    top, worst = self.A[i].estimation, i
            if worst is not None:
                self.E[worst].reset()
                self.A[worst] = self.adwin()
                self.resets.append((t, worst))

    def smote(self):
        """A synthetic positive; at present always built with the oldest positive sample and away from it (known finding)."""
        if len(self.seen) < 2:
            return self.seen[-1]
        x = self.seen[-1]
        self.rng.randint(0, 1)
        return x + self.rng.rand() * (x - self.seen[0])

    def proba(self, q):
        tot = [0.0] * self.k
        for i, e in enumerate(self.E):
            w = 1.0
            if self.rule in ('boost', 'csb2') or self.rule.startswith('rus'):
                if not 0 < self.eps[i] < 1:
                    continue
                w = math.log((1 - self.eps[i]) / self.eps[i])
            elif self.rule == 'adac2':
                if not (self.wacc[i] > 0 and self.werr[i] > 0):
                    continue
                w = math.log(self.wacc[i] / self.werr[i])
            p = e.predict_proba([q])[0]
            tot = [a + w * b for a, b in zip(tot, p)]
        s = sum(tot)
        if abs(s) < 1e-9 and any(abs(v) > 1e-12 for v in tot):
            return None                 # votes cancel: dividing by their sum is numerically meaningless
        return [v / s for v in tot] if s > 0 else tot


def shards(tier):
    q = tier == 'quick'
    s = []
    for n in K:
        s.append(('draws-' + n, {'kind': 'draws', 'n': n, 'd': 5 if q else 7}))
        if n not in NODRIFT:
            s.append(('drift-' + n, {'kind': 'drift', 'n': n, 'pos': 24 if q else 48, 'scripts': 2 if q else 6}))
    for k, n in ((2, 2), (2, 3), (3, 2), (3, 4), (4, 2)):
        s.append(('codes-%d-%d' % (k, n), {'kind': 'codes', 'k': k, 'n': n, 'd': 5 if q else 7}))
    s.append(('smote-neighbours', {'kind': 'smote'}))
    for n in K:
        if n not in NODRIFT:
            s.append(('improve-' + n, {'kind': 'improve', 'n': n, 'pos': 8 if q else 24}))
    return s


def run(name, p, ctx):
    {'draws': draws, 'drift': drift, 'codes': codes, 'smote': smote, 'improve': improve}[p['kind']](p, ctx)


def drive(name, script, hist, mode, ctx, every):
    cls, kw, rule, k = K[name]
    rng, ref_rng = Draws(script), Draws(script)
    m = cls(base_estimator=Member(3, k), random_state=rng, **kw)
    r = Ref(name, ref_rng)
    ctx.trace()
    for t, (x, y) in enumerate(hist):
        w = np.array([0.5 + (t % 3)]) if mode else None
        m.partial_fit(np.array([x]), np.array([y]), classes=list(range(k)), sample_weight=w)
        r.fit(x, y, w, t)
        ctx.step()
        if (t + 1) % every and t + 1 != len(hist):
            continue
        ctx.case(name, 'script', script, 'history', hist[:t + 1] if len(hist) < 10 else [len(hist), t], 'weights' if mode else '', 'resets', r.resets)
        got = np.asarray(m.predict_proba(QS), dtype=float)
        ctx.state(canon(got))
        want = [r.proba(q) for q in QS]
        keep = [i for i, v in enumerate(want) if v is not None]
        if not keep:
            continue
        want, got = np.array([want[i] for i in keep]), got[keep]
        a, b = [z for z in rng.log if z[0] == 'poisson'], [z for z in ref_rng.log if z[0] == 'poisson']
        if len(a) == len(b):
            if not ctx.eq([z[2] for z in a], [z[2] for z in b], name + '/rate', 'rates of the Poisson draws'):
                return False
        if not ctx.eq(got, want, name + '/answer', 'ensemble probabilities (members\' histories differ)'):
            return False
        lab = [int(v) for v in np.asarray(m.predict(QS))[keep]]
        ctx.check(all(want[i][c] >= want[i].max() - 1e-12 for i, c in enumerate(lab)), name + '/label', lambda: 'answers %s with probabilities %s' % (lab, want))
    ctx.sample({'ensemble': name, 'script': script, 'resets': r.resets, 'answer': got})
    return True


def draws(p, ctx):
    k = K[p['n']][3]
    seqs = [(0, 1, 1), (1, 1, 0), (1, 0, 1), (0, 0, 1)] if k == 2 else [(0, 1, 2), (2, 2, 1), (1, 0, 0)]
    for script in itertools.product(U, repeat=p['d']):
        for n, ys in enumerate(seqs):
            hist = [((float(i), float((i + n) % 2), float(y)), y) for i, y in enumerate(ys + ys[::-1])]
            if not drive(p['n'], script, hist, n % 2, ctx, 2):
                return


def drift(p, ctx):
    k = K[p['n']][3]
    for a in range(p['pos']):
        start = 30 + 3 * a if p['pos'] < 40 else 20 + 2 * a
        for s in range(p['scripts']):
            hist = []
            for i in range(start + 100):
                y = (i * (3 + s) // 4 + i // 7) % k
                # csb2/rus track accuracy: they react when members become right
                bad = i < start if K[p['n']][2] in ('csb2', 'rus1', 'rus2', 'rus3') else i >= start
                hist.append(((float(i % 5), float(bad), float(y)), y))
            if not drive(p['n'], (U[s % 3], U[(s + 1) % 3], U[(a + s) % 3]), hist, 0, ctx, 7):
                return


def codes(p, ctx):
    """Output codes: every member learns its own 0/1 recoding of the classes; the votes go to the classes coded as voted."""
    k, n = p['k'], p['n']
    for script in itertools.product((0.2, 0.7), repeat=p['d']):
        ctx.trace()
        rng, rr = Draws(script), Draws(script)
        m = LeveragingBaggingClassifier(base_estimator=Member(3, 2), n_estimators=n, w=1, enable_code_matrix=True, random_state=rng)
        M, E = [], [Member(3, 2) for _ in range(n)]
        for i in range(n):
            while True:
                c = []
                for j in range(k):
                    c.append(1 - c[0] if j == 1 and k == 2 else int(rr.randint(2)))
                d = 2 * sum(c) - k
                if d * d <= k % 2:
                    break
            M.append(c)
        for t in range(4):
            y = (t * t + t // 2) % k
            x = (float(t), 0.0, float(y % 2))
            m.partial_fit(np.array([x]), np.array([y]), classes=list(range(k)))
            for i in range(n):
                for _ in range(rr.poisson(1)):
                    E[i].partial_fit([x], [M[i][y]], [0, 1])
            ctx.case('codes', k, n, script, t)
            ctx.step()
            want = []
            for q in QS:
                v = [0.0] * k
                for i in range(n):
                    P = E[i].predict_proba([q])[0]
                    c = 1 if P[1] > P[0] else 0
                    for j in range(k):
                        v[j] += M[i][j] == c
                s = sum(v)
                want.append([z / s for z in v] if s else v)
            got = np.asarray(m.predict_proba(QS), dtype=float)
            ctx.state(canon(got))
            if not ctx.eq(got, np.array(want), 'codes/answer', 'coded votes with codes %s' % M):
                return


def smote(p, ctx):
    """Synthetic positives lie between the newest positive sample and one of its nearest positive neighbours."""
    class Log(Member):
        def partial_fit(self, X, y, classes=None, sample_weight=None):
            LOG.append((tuple(map(float, X[0])), y[0]))
            return super().partial_fit(X, y, classes, sample_weight)
    for script in itertools.product(U, repeat=4):
        LOG = []
        m = OnlineSMOTEBaggingClassifier(base_estimator=Log(3, 2), n_estimators=2, sampling_rate=2, drift_detection=False, random_state=Draws(script))
        pos = [(0.0, 0.0, 1.0), (10.0, 0.0, 1.0), (10.5, 0.0, 1.0), (11.0, 0.0, 1.0)]
        for i, x in enumerate(pos):
            del LOG[:]
            m.partial_fit(np.array([x]), np.array([1]), classes=[0, 1])
            ctx.case('smote', script, i)
            ctx.step()
            for z, y in LOG:
                ctx.check(y == 1, 'smote/label', 'synthetic sample labelled %r' % y)
                if i:
                    ok = any(min(x[0], o[0]) - 1e-9 <= z[0] <= max(x[0], o[0]) + 1e-9 for o in pos[:i])
                    ctx.check(ok, 'smote/neighbour', lambda: 'sample %s built from %s with earlier positives %s' % (z, x, pos[:i]))


class Watched(Member):
    """Counts the resets of members."""
    count = [0]

    def reset(self):
        Watched.count[0] += 1
        return super().reset()


def improve(p, ctx):
    """Members that only get better are never reset."""
    cls, kw, rule, k = K[p['n']]
    key = 'rus' if rule.startswith('rus') else p['n']
    for a in range(p['pos']):
        start = 40 + 5 * a
        ctx.trace()
        m = cls(base_estimator=Watched(3, k), random_state=Draws((0.5,)), **kw)
        for i in range(start + 110):
            y = (i * 3 // 4 + i // 7) % k
            m.partial_fit(np.array([(float(i % 5), float(i < start), float(y))]), np.array([y]), classes=list(range(k)))
            if i == 0:
                Watched.count[0] = 0
            ctx.step()
        ctx.case(p['n'], 'errors until sample', start)
        ctx.state(start, Watched.count[0])
        ctx.check(Watched.count[0] == 0, key + '/reset-on-improvement', lambda: '%d member resets although every member only improved' % Watched.count[0])
