"""C42: linear and prototype learners apply their update rule to every sample."""
import itertools
import math

import numpy as np
from sklearn.linear_model import Perceptron

from mc.core import canon, compositions
from mc.genkit import ScriptedRandom
from skmultiflow.neural_networks import PerceptronMask
from skmultiflow.prototype import RobustSoftLearningVectorQuantization

ID = 'C42'
TECHNIQUE = 'exhaustive enumeration of training histories, batch cuts and options against a reference prototype model and a directly driven perceptron'
LEVEL_NOTE = (
    'all sample sequences over a point/label alphabet and all batch cuts; the reference keeps prototypes by the documented rule from the raw history, '
    'the perceptron is compared with the wrapped update rule driven by the same history, weights and classes'
)
BOUNDS = {'quick': 'prototypes: all 6^4 histories of single samples (2 classes) and all cuts of 60 4-sample histories x 8 settings, 3-class histories; perceptron: all 6^3 histories x cuts x classes/weights x 12 settings',
          'thorough': 'all 8^4 histories of single samples, all cuts of 240 5-sample histories; perceptron 6^4'}
ASSUMPTIONS = ['only the nearest prototype of the sample\'s class and the nearest one of another class move, and only if the latter is strictly nearer (robust soft LVQ as implemented and documented here)',
               'ties between prototypes within 1e-9 may be answered either way']

PTS = [(0.0, 0.0), (1.0, 0.5), (2.0, -1.0), (0.5, 2.0)]
QS = [(0.1, 0.2), (1.5, 0.0), (0.4, 1.1), (3.0, -2.0)]
W = [1.0, 0.5, 3.0, 2.0, 1.0, 0.25]


class Ref:
    def __init__(self, ppc=1, init=None, sigma=1.0, rule='vanilla', gamma=0.9, rng=None):
        self.ppc, self.init, self.sigma, self.rule, self.gamma, self.rng = ppc, init, sigma, rule, gamma, rng
        self.classes = None
        self.P = []           # [class, vector, mean squared gradient, mean squared step]
        self.known = set()

    def fit(self, X, y, classes=None):
        first = self.classes is None
        if first:
            self.classes = list(classes) if classes is not None else sorted(set(y))
            if self.init is not None:
                for r in self.init:
                    v = np.array(r[:-1], dtype=float)
                    self.P.append([r[-1], v, 0 * v, 0 * v])
                self.known = set(self.classes)
        if self.init is None:
            for c in self.classes:
                n = self.ppc
                if c in self.known or c not in set(y):
                    continue
                mean = np.mean([x for x, l in zip(X, y) if l == c], axis=0)
                if self.ppc == 1:
                    new = [mean.copy()]
                else:
                    new = list(mean + (self.rng.rand(n, len(mean)) * 2 - 1))
                self.known.add(c)
                self.P += [[c, np.array(v), 0 * mean, 0 * mean] for v in new]
            self.P.sort(key=lambda p: self.classes.index(p[0]))
        for x, c in zip(X, y):
            self.one(np.asarray(x, dtype=float), c)

    def f(self, x, p):
        return -float(np.sum((x - p[1]) ** 2)) / (2 * self.sigma)

    def prob(self, x, p, among):
        m = max(self.f(x, q) for q in among)
        return math.exp(self.f(x, p) - m) / sum(math.exp(self.f(x, q) - m) for q in among)

    def one(self, x, c):
        good = [p for p in self.P if p[0] == c]
        bad = [p for p in self.P if p[0] != c]
        if not bad:
            return
        d = lambda p: math.sqrt(float(np.sum((x - p[1]) ** 2)))
        g, b = min(good, key=d), min(bad, key=d)
        self.near = min(getattr(self, 'near', 1.0), abs(d(b) - d(g)), *(abs(d(q) - d(g)) for q in good if q is not g), *(abs(d(q) - d(b)) for q in bad if q is not b), 1.0)
        if not d(b) < d(g):
            return
        for p in (g, b):
            diff = x - p[1]
            if p[0] == c:
                grad = (self.prob(x, p, good) - self.prob(x, p, self.P)) * diff
            else:
                grad = -self.prob(x, p, self.P) * diff
            if self.rule == 'vanilla':
                p[1] = p[1] + grad / self.sigma
            else:
                p[2] = self.gamma * p[2] + (1 - self.gamma) * grad * grad
                step = np.sqrt((p[3] + 1e-8) / (p[2] + 1e-8)) * grad
                p[3] = self.gamma * p[3] + (1 - self.gamma) * step * step
                p[1] = p[1] + step

    def nearest(self, x):
        d = [float(np.sum((np.asarray(x) - p[1]) ** 2)) for p in self.P]
        return {self.P[i][0] for i in range(len(d)) if d[i] <= min(d) + 1e-9}


SETTINGS = [dict(), dict(rule='adadelta'), dict(sigma=0.5), dict(ppc=2), dict(ppc=2, rule='adadelta', gamma=0.5),
            dict(sigma=3.0, ppc=3), dict(init=[[0.2, 0.1, 0], [1.2, -0.2, 1]]), dict(init=[[0.2, 0.1, 0], [0.6, -0.9, 0], [1.2, -0.2, 1], [0.9, 1.0, 1]], ppc=2, rule='adadelta')]


def shards(tier):
    q = tier == 'quick'
    s = []
    for i in range(len(SETTINGS)):
        for part in range(2 if q else 4):
            s.append(('rslvq-%d-%d' % (i, part), {'kind': 'seq', 'set': i, 'part': part, 'parts': 2 if q else 4, 'pts': 3 if q else 4, 'n': 4}))
        s.append(('rslvq-cuts-%d' % i, {'kind': 'cuts', 'set': i, 'k': 60 if q else 240, 'n': 4 if q else 5}))
    for i in (0, 1, 2, 3):
        s.append(('rslvq-3class-%d' % i, {'kind': 'three', 'set': i, 'n': 3 if q else 4}))
    for i in range(len(PSET)):
        s.append(('perceptron-%d' % i, {'kind': 'perc', 'set': i, 'n': 3 if q else 4}))
    return s


PSET = [dict(), dict(penalty='l2', alpha=0.05), dict(penalty='l1', alpha=0.1), dict(fit_intercept=False), dict(shuffle=False), dict(eta0=0.3), dict(random_state=5),
        dict(class_weight={0: 1.0, 1: 3.0}), dict(max_iter=1, tol=None), dict(warm_start=True), dict(max_iter=40, tol=0.5, n_iter_no_change=1), dict(penalty='elasticnet', alpha=0.02)]


def run(name, p, ctx):
    k = p['kind']
    if k == 'perc':
        return perc(p, ctx)
    st = SETTINGS[p['set']]
    if k == 'seq':
        alpha = [(x, c) for x in PTS[:p['pts']] for c in (0, 1)]
        for n in range(1, p['n'] + 1):
            for i, h in enumerate(itertools.product(range(len(alpha)), repeat=n)):
                if i % p['parts'] == p['part']:
                    one(st, [alpha[a] for a in h], (1,) * n, (0, 1), ctx)
    elif k == 'cuts':
        alpha = [(x, c) for x in PTS for c in (0, 1)]
        hs = [[alpha[(i * 7 + j * (3 + i % 5) + (i // 8) * j * j) % 8] for j in range(p['n'])] for i in range(p['k'])]
        for h in hs:
            for comp in compositions(p['n']):
                one(st, h, comp, (0, 1), ctx)
                if comp[0] > 1 and len({c for _, c in h[:comp[0]]}) == 2:
                    one(st, h, comp, None, ctx)
    else:
        alpha = [(x, c) for x in PTS[:2] for c in (0, 1, 2)]
        for h in itertools.product(range(6), repeat=p['n']):
            one(st, [alpha[a] for a in h], (1,) * p['n'], (0, 1, 2), ctx)
            one(st, [alpha[a] for a in h], (1,) * p['n'], (2, 0, 1), ctx)


def one(st, h, comp, classes, ctx):
    rule = st.get('rule', 'vanilla')
    m = RobustSoftLearningVectorQuantization(prototypes_per_class=st.get('ppc', 1), initial_prototypes=st.get('init'), sigma=st.get('sigma', 1.0),
                                             random_state=ScriptedRandom([0.3, 0.8, 0.1]), gradient_descent=rule, gamma=st.get('gamma', 0.9))
    r = Ref(st.get('ppc', 1), st.get('init'), st.get('sigma', 1.0), rule, st.get('gamma', 0.9), ScriptedRandom([0.3, 0.8, 0.1]))
    ctx.trace()
    i = 0
    for k, c in enumerate(comp):
        b = h[i:i + c]
        i += c
        X, y = np.array([x for x, _ in b]), np.array([l for _, l in b])
        kw = {'classes': list(classes)} if classes is not None and k == 0 else {}
        m.partial_fit(X, y, **kw)
        r.fit([x for x, _ in b], [l for _, l in b], classes)
        ctx.case(st, h, comp, 'batch', k)
        ctx.step()
        got = [[float(c0), list(map(float, v))] for c0, v in zip(m.prototypes_classes, m.prototypes)]
        want = [[float(q[0]), list(map(float, q[1]))] for q in r.P]
        ctx.state(canon(got))
        ctx.sample({'setting': st, 'history': h, 'prototypes': got})
        if 1e-15 < getattr(r, 'near', 1.0) < 1e-9:
            return                      # an undecidable numerical tie: the two may differ from here on
        if not ctx.eq(got, want, 'rslvq/prototypes', 'prototypes [class, vector]'):
            return
        for x, a in zip(QS, m.predict(np.array(QS))):
            ctx.check(float(a) in {float(v) for v in r.nearest(x)}, 'rslvq/nearest', lambda: 'query %s answered %r, nearest prototype has class %s' % (x, a, r.nearest(x)))


def perc(p, ctx):
    st = PSET[p['set']]
    X = np.array([(0.0, 1.0), (1.0, -0.5), (-1.0, 0.25)])
    alpha = [(i, c) for i in range(3) for c in (0, 1)]
    XQ = np.array(QS)
    for n in range(1, p['n'] + 1):
        for h in itertools.product(range(6), repeat=n):
            xs, ys = X[[alpha[a][0] for a in h]], np.array([alpha[a][1] for a in h])
            for comp in compositions(n):
                for weights in ((False, True) if 'class_weight' not in st else (False,)):
                    ctx.case(st, [alpha[a] for a in h], comp, weights)
                    ctx.trace()
                    m = PerceptronMask(**st)
                    r = Perceptron(**dict(dict(random_state=0), **st))
                    i = 0
                    for k, c in enumerate(comp):
                        w = np.array(W[i:i + c]) if weights else None
                        kw = {'sample_weight': w} if weights else {}
                        cl = {'classes': np.array([0, 1])} if k == 0 else {}
                        ret = m.partial_fit(xs[i:i + c], ys[i:i + c], **cl, **kw)
                        r.partial_fit(xs[i:i + c], ys[i:i + c], **cl, **kw)
                        i += c
                        ctx.step()
                        ctx.check(ret is m, 'perceptron/returns-self', 'partial_fit returned %r' % (ret,))
                        ctx.eq(np.asarray(m.predict(XQ)), r.predict(XQ), 'perceptron/predict', 'labels')
                        g = np.asarray(m.predict_proba(XQ))
                        ctx.state(canon(g))
                        ctx.sample({'perceptron': st, 'history': h, 'proba': g})
                        ctx.eq(g, r._predict_proba_lr(XQ), 'perceptron/proba', 'probabilities')
            if n == p['n'] and len(set(ys)) == 2:
                for weights in (None, np.array(W[:n])):
                    m, r = PerceptronMask(**st), Perceptron(**dict(dict(random_state=0), **st))
                    with np.errstate(all='ignore'):
                        m.fit(xs, ys, sample_weight=weights)
                        r.fit(xs, ys, sample_weight=weights)
                    ctx.step()
                    ctx.case(st, 'fit', [alpha[a] for a in h], weights)
                    ctx.eq(np.asarray(m.predict_proba(XQ)), r._predict_proba_lr(XQ), 'perceptron/fit', 'probabilities after fit')
