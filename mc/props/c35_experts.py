"""C35: expert ensembles update weights, prune and add experts as documented."""
import itertools

import numpy as np

from mc.core import canon
from mc.fakes import Rec
from skmultiflow.meta import DynamicWeightedMajorityClassifier, AdditiveExpertEnsembleClassifier

ID = 'C35'
TECHNIQUE = 'exhaustive enumeration of label sequences with history-digesting experts against an explicit reference of the expert-weight protocol'
LEVEL_NOTE = (
    'all label sequences of the bounded length for every setting of size, period, beta, theta, gamma, pruning; after every sample the experts\' answers '
    '(which identify their training history) and the ensemble\'s weighted-majority answers to 40 queries are compared with the reference protocol'
)
BOUNDS = {'quick': 'all 2^8 / 3^5 label sequences x (24 DWM + 12 AddExp settings)', 'thorough': 'all 2^11 / 3^7 label sequences x the same settings'}
ASSUMPTIONS = ['exact ties of the vote are broken as at present (the larger label when predicting, the smaller one when training)',
               'experts only answer with labels declared or seen (3-class histories declare them)',
               'a label sequence is left when two votes or weights differ by less than 1e-9 without being equal']

CACHE = {}
QUERIES = np.array([(float(i), 0.5) for i in range(40)])


class Expert(Rec):
    """Labels below `k`, decided by the history; tends to learn the majority label so that experts differ in quality."""

    def __init__(self, tag=0, k=2):
        super().__init__(tag)
        self.k = k

    def predict(self, X):
        if X is QUERIES:
            k = (self.digest, self.tag, self.k)
            if k not in CACHE:
                if len(CACHE) > 20000:
                    CACHE.clear()
                CACHE[k] = self.predict(list(X))
            return CACHE[k].copy()
        return np.array([min(int(self.value('y', tuple(map(float, x))) * self.k), self.k - 1) for x in np.asarray(X)])


def shards(tier):
    q = tier == 'quick'
    s = []
    for n, period, beta, theta in itertools.product((1, 2, 3), (1, 2), (0.5, 0.8), (0.01, 0.45)):
        if theta == 0.45 and beta == 0.5:
            theta = 0.25                                  # an expert can sit exactly at the threshold
        s.append(('dwm-%d-%d-%s-%s' % (n, period, beta, theta), {'kind': 'dwm', 'kw': dict(n_estimators=n, period=period, beta=beta, theta=theta), 'q': q}))
    for n, beta, gamma, pr in itertools.product((1, 2, 3), (0.5, 0.8), (0.1, 0.6), ('weakest', 'oldest')):
        s.append(('addexp-%d-%s-%s-%s' % (n, beta, gamma, pr), {'kind': 'add', 'kw': dict(n_estimators=n, beta=beta, gamma=gamma, pruning=pr), 'q': q}))
    return s


def close(a, b):
    return a != b and abs(a - b) < 1e-9


class Tie(Exception):
    pass


def vote(preds, weights, larger):
    tot = {}
    for p, w in zip(preds, weights):
        tot[p] = tot.get(p, 0.0) + w
    m = max(tot.values())
    if any(close(v, m) for v in tot.values()):
        raise Tie()
    c = [p for p, v in tot.items() if v == m]
    return max(c) if larger else min(c)


class RefDWM:
    def __init__(self, base, n_estimators, period, beta, theta):
        self.base, self.n, self.period, self.beta, self.theta = base, n_estimators, period, beta, theta
        self.E = [[base(), 1.0]]
        self.t = 0

    def fit(self, x, y, c, w):
        self.t += 1
        upd = self.t % self.period == 0
        preds = [int(e.predict([x])[0]) for e, _ in self.E]
        if upd:
            for e, p in zip(self.E, preds):
                if p != y:
                    e[1] *= self.beta
        ans = vote(preds, [e[1] for e in self.E], False)
        if upd:
            low = min(e[1] for e in self.E)
            if any(close(e[1], low) for e in self.E):
                raise Tie()
            weakest = next(e for e in self.E if e[1] == low)
            top = max(e[1] for e in self.E)
            for e in self.E:
                e[1] /= top
            # exact when beta and theta are powers of two
            if any(e[1] != self.theta and close(e[1], self.theta) for e in self.E):
                raise Tie()
            self.E = [e for e in self.E if e[1] >= self.theta]
            if ans != y:
                if len(self.E) == self.n:
                    self.E = [e for e in self.E if e is not weakest]
                self.E.append([self.base(), 1.0])
        for e in self.E:
            e[0].partial_fit([x], [y], c, w)


class RefAdd:
    def __init__(self, base, n_estimators, beta, gamma, pruning):
        self.base, self.n, self.beta, self.gamma, self.pruning = base, n_estimators, beta, gamma, pruning
        self.E = [[base(), 1.0]]

    def fit(self, x, y, c, w):
        preds = [int(e.predict([x])[0]) for e, _ in self.E]
        ans = vote(preds, [e[1] for e in self.E], False)
        for e, p in zip(self.E, preds):
            if p != y:
                e[1] *= self.beta
        if ans != y:
            new = [self.base(), self.gamma * sum(e[1] for e in self.E)]
            if len(self.E) == self.n:
                if self.pruning == 'weakest':
                    low = min(e[1] for e in self.E)
                    if any(close(e[1], low) or (e[1] == low and sum(f[1] == low for f in self.E) > 1) for e in self.E):
                        raise Tie()
                    victim = next(e for e in self.E if e[1] == low)
                else:
                    victim = self.E[0]
                self.E = [e for e in self.E if e is not victim]
            self.E.append(new)
        for e in self.E:
            e[0].partial_fit([x], [y], c, w)
        tot = sum(e[1] for e in self.E)
        for e in self.E:
            e[1] /= tot


def run(name, p, ctx):
    kw = p['kw']
    for k, n in ((2, 8 if p['q'] else 11), (3, 5 if p['q'] else 7)):
        for labels in itertools.product(range(k), repeat=n):
            for mode in ((1,) if k > 2 else (0,) if labels[0] else (0, 1)):
                explore(p['kind'], kw, k, labels, mode, ctx)


def explore(kind, kw, k, labels, mode, ctx):
    if kind == 'dwm':
        m = DynamicWeightedMajorityClassifier(base_estimator=Expert(3, k), **kw)
        r = RefDWM(lambda: Expert(3, k), **kw)
    else:
        m = AdditiveExpertEnsembleClassifier(base_estimator=Expert(5, k), **kw)
        r = RefAdd(lambda: Expert(5, k), **kw)
    ctx.trace()
    for i, y in enumerate(labels):
        x = (float(i % 3), float(i))
        c = list(range(k)) if mode else None
        w = np.array([0.5 + i]) if mode else None
        ctx.case(kind, kw, 'labels', labels[:i + 1], 'classes and weights' if mode else '')
        m.partial_fit(np.array([x]), np.array([y]), classes=c, sample_weight=w)
        ctx.step()
        try:
            r.fit(x, y, c, w)
            if any(labels[i + 1:]):
                continue                # this prefix is looked at with the all-zero continuation
            cols = [e.predict(QUERIES) for e, _ in r.E]
            want = [vote([int(col[q]) for col in cols], [e[1] for e in r.E], True) for q in range(len(QUERIES))]
        except Tie:
            return
        got = sorted(tuple(int(v) for v in col) for col in m.get_expert_predictions(QUERIES))
        exp = sorted(tuple(int(v) for v in e.predict(QUERIES)) for e, _ in r.E)
        ctx.state(canon(got))
        ctx.sample({'ensemble': kind, 'setting': kw, 'labels': labels[:i + 1], 'experts': len(got)})
        ctx.check(len(got) <= kw['n_estimators'], kind + '/size', lambda: '%d experts' % len(got))
        if not ctx.eq(got, exp, kind + '/experts', 'answers of the experts (their histories differ)'):
            return
        ans = [int(v) for v in m.predict(QUERIES)]
        if not ctx.eq(ans, want, kind + '/majority', 'weighted majority of experts with weights %s' % [round(e[1], 6) for e in r.E]):
            return
