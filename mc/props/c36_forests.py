"""C36: drift-aware forests replace a member only by its own background learner."""
import itertools
import math
import warnings

import numpy as np

from mc.core import canon
from mc.fakes import Rec, row
from mc.genkit import ScriptedRandom
from mc.metrics_ref import SingleLabelModel
from mc.treeref import HTRef
from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector
from skmultiflow.meta import AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor, StreamingRandomPatchesClassifier

ID = 'C36'
TECHNIQUE = 'exhaustive enumeration of detector alarm schedules, replica-draw scripts and label histories against a reference forest'
LEVEL_NOTE = (
    'alarms come from counting/summing detectors whose alarm positions are enumerated, replica counts from an enumerated script; the streaming random patches get members that digest their training, '
    'the adaptive forests majority, naive-Bayes (nominal features) or mean leaves that do not split, so every missed, doubled or misplaced presentation, replacement or vote weight changes the answers'
)
BOUNDS = {'quick': '3 forests x 8-10 settings (1-3 members): all 64 alarm schedules within 3 elements (warning x drift) x a third of the 3^3 + 2^5 replica scripts, and all histories of 4+2 samples over 3 symbols x 8 schedules',
          'thorough': 'all 256 alarm schedules within 4 elements x all replica scripts; all histories of 4+2 samples over 4 symbols x 8 schedules x 4 scripts'}
ASSUMPTIONS = ['the trees themselves are decided by C24 and C25; leaves do not split here and every feature is available to every tree of the adaptive forests',
               'sample weights only weigh the member accuracy; the replica count is the training weight (as implemented)',
               'a replaced member starts with the detectors of its background learner; without one only the drift detector restarts (as implemented)',
               'histories in which a member\'s label is a numerical tie are skipped']


class Ambiguous(Exception):
    pass


class Alarm(BaseDriftDetector):
    """Alarm at the elements whose number is in `at`, and whenever the sum of the elements reaches `over`."""

    def __init__(self, at=(), over=None):
        super().__init__()
        self.at, self.over = at, over
        self.reset()

    def reset(self):
        super().reset()
        self.n, self.total = 0, 0.

    def add_element(self, input_value):
        self.n += 1
        self.total += float(input_value)
        self.in_concept_change = self.n in self.at or (self.over is not None and self.total >= self.over)


class Sim:
    def __init__(self, spec):
        self.spec, self.n, self.s = spec, 0, 0.

    def hit(self, v):
        at, over = self.spec
        self.n += 1
        self.s += v
        if over is not None and abs(self.s - over) < 1e-9 and self.s != over:
            raise Ambiguous
        return self.n in at or (over is not None and self.s >= over)

    def fresh(self):
        return Sim(self.spec)


class Env(ScriptedRandom):
    """Replica counts from `ks` (repeated), subsets and shuffles from a fixed sequence; everything logged."""

    def __init__(self, ks=(1,)):
        super().__init__(())
        self.ks, self.drawn = list(ks), 0

    def poisson(self, lam=1.0, size=None):
        def one():
            k = self.ks[self.drawn % len(self.ks)]
            self.drawn += 1
            self.log.append(('poisson', k, float(lam)))
            return k
        return self._many(one, size)

    def _order(self, n):
        left, out = list(range(n)), []
        while left:
            out.append(left.pop(int(self._u() * len(left))))
        return out

    def shuffle(self, x):
        p = self._order(len(x))
        x[:] = np.asarray(x)[p]
        self.log.append(('shuffle', tuple(p)))

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.isscalar(a) else np.asarray(a)
        v = a[self._order(len(a))[:1 if size is None else size]]
        self.log.append(('choice', tuple(int(i) for i in v)))
        return v[0] if size is None else v

    def __reduce__(self):
        return (Env, (self.ks,))


# ---------------------------------------------------------------- reference members

TREE = dict(grace_period=10 ** 9, split_criterion='info_gain', split_confidence=.01, tie_threshold=.05, binary_split=False,
            stop_mem_management=False, remove_poor_atts=False, no_preprune=False, leaf_prediction='nb', nb_threshold=0, nominal_attributes=[0, 1])


class Leafy:
    """A classification tree that never splits."""

    def __init__(self, lp):
        self.lp = lp
        self.t = HTRef(dict(TREE, leaf_prediction=lp), [], None)

    def fresh(self):
        return Leafy(self.lp)

    def learn(self, x, y, k):
        r = self.t.learn(x, y, k)
        if len(r) > 1:
            raise Ambiguous
        self.t = r[0]

    def votes(self, x):
        return dict(self.t.votes(x))

    def label(self, x):
        return top(self.votes(x))


def top(v):
    """label of the largest vote, labels without a vote counting zero"""
    if not v or max(v.values()) <= 0:
        return 0
    m = max(v.values())
    best = [c for c in v if v[c] > m - 1e-9 * m]
    if len(best) > 1 and any(v[c] != m for c in best):
        raise Ambiguous
    return min(best)


class Mean:
    def __init__(self):
        self.w = self.s = 0.

    fresh = staticmethod(lambda: Mean())

    def learn(self, x, y, k):
        self.w += k
        self.s += k * y

    def value(self):
        return self.s / self.w if self.w else 0.


class ClfMember:
    def __init__(self, learner, wspec, dspec):
        self.fg, self.bg = learner, None
        self.w, self.d = (Sim(s) if s is not None else None for s in (wspec, dspec))
        self.ev = []

    def feed(self, x, y, k):
        self.fg.learn(x, y, k)
        if self.bg is not None:
            self.bg.learn(x, y, k)
        if self.d is None:
            return
        err = 0. if self.fg.label(x) == y else 1.
        if self.w is not None:
            if self.w.hit(err):
                self.bg = self.fg.fresh()
                self.w = self.w.fresh()
        if self.d.hit(err):
            self.d = self.d.fresh()
            if self.bg is not None:
                self.fg, self.bg = self.bg, None
                self.w = self.w.fresh()
            else:
                self.fg = self.fg.fresh()
            self.ev = []

    def perf(self, metric):
        m = SingleLabelModel(2)
        for t, p, w in self.ev:
            m.add(t, p, w)
        return m.scores()['accuracy_score' if metric == 'acc' else 'kappa_score']


class RegMember:
    def __init__(self, wspec, dspec, criterion):
        self.fg, self.bg = Mean(), None
        self.w, self.d = (Sim(s) if s is not None else None for s in (wspec, dspec))
        self.ev, self.bg_ev, self.crit, self.inputs = [], [], criterion, []

    def feed(self, x, y, k):
        p = self.fg.value()
        self.ev.append(y - p)
        self.fg.learn(x, y, k)
        if self.bg is not None:
            self.bg_ev.append(y - self.bg.value())
            self.bg.learn(x, y, k)
        if self.d is None:
            return
        self.inputs.append({'mse': (y - p) ** 2, 'mae': abs(y - p), 'predictions': p}[self.crit])
        n = len(self.inputs)
        v = 0.
        if n > 1:
            m = math.fsum(self.inputs) / n
            sd = math.sqrt(math.fsum((i - m) ** 2 for i in self.inputs) / (n - 1))
            if 0 < sd < 1e-6:
                raise Ambiguous
            v = (((self.inputs[-1] - m) / sd if sd > 0 else 0.) + 3.) / 6.
        if self.w is not None:
            if self.w.hit(v):
                self.bg, self.bg_ev = Mean(), []
                self.w = self.w.fresh()
        if self.d.hit(v):
            self.d = self.d.fresh()
            if self.bg is not None:
                self.fg, self.bg, self.ev = self.bg, None, self.bg_ev
                self.w = self.w.fresh()
            else:
                self.fg, self.ev = Mean(), []
            self.inputs = []

    def error(self, metric):
        if not self.ev:
            return 0.
        return math.fsum(e * e if metric != 'mae' else abs(e) for e in self.ev) / len(self.ev)


class RecNom(Rec):
    """Digests its nominal attributes with every sample and answers with labels 0..2."""

    def __init__(self, tag=0, nominal_attributes=None):
        super().__init__(tag)
        self.nominal_attributes = nominal_attributes

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        self.learn('nominal', None if not self.nominal_attributes else tuple(int(i) for i in self.nominal_attributes))
        return Rec.partial_fit(self, X, y, classes, sample_weight)

    def predict_proba(self, X):
        if self.n == 0:
            return np.zeros((len(X), 1))
        k = 2 if self.n < 4 else 3
        P = np.array([[self.value('p', row(x), c) for c in range(k)] for x in np.asarray(X, dtype=float)])
        return P / P.sum(axis=1, keepdims=True)

    def predict(self, X):
        return np.argmax(self.predict_proba(X), axis=1)


class PatchMember:
    def __init__(self, sub, nominal, wspec, dspec):
        self.fg, self.fg_sub = self.fresh(), sub
        self.bg = self.bg_sub = None
        self.nominal = nominal
        self.w, self.d = (Sim(s) if s is not None else None for s in (wspec, dspec))
        self.ev = []

    @staticmethod
    def fresh():
        return RecNom(5)

    def part(self, x, sub):
        return np.array([x if sub is None else [x[i] for i in sub]])

    def teach(self, learner, sub, x, y, classes, k):
        learner.nominal_attributes = None
        if sub is not None and self.nominal:
            learner.nominal_attributes = [i for i, j in enumerate(sub) if j in self.nominal] or None
        learner.partial_fit(self.part(x, sub), np.array([y]), classes=classes, sample_weight=np.array([k]))

    def proba(self, x):
        return self.fg.predict_proba(self.part(x, self.fg_sub))[0]

    def feed(self, x, y, classes, k, redraw):
        self.teach(self.fg, self.fg_sub, x, y, classes, k)
        err = 0. if int(np.argmax(self.proba(x))) == y else 1.
        if self.bg is not None:
            self.teach(self.bg, self.bg_sub, x, y, classes, k)
        if self.d is None:
            return
        if self.w is not None and self.w.hit(err):
            self.bg, self.bg_sub = self.fresh(), (None if self.fg_sub is None else redraw())
            self.w = self.w.fresh()
        if self.d.hit(err):
            self.d = self.d.fresh()
            if self.bg is not None:
                self.fg, self.fg_sub, self.bg = self.bg, self.bg_sub, None
                self.w = self.w.fresh()
            else:
                self.fg, self.fg_sub = self.fresh(), (None if self.fg_sub is None else redraw())
            self.ev = []

    def acc(self):
        t = math.fsum(w for _, w in self.ev)
        return math.fsum(w for ok, w in self.ev if ok) / t if t > 0 else 0.


# ---------------------------------------------------------------- drivers

SYM = [((0., 1.), 0), ((1., 0.), 1), ((2., 1.), 2), ((0., 0.), 1)]
Q2 = [(0., 0.), (1., 1.), (2., 0.)]
RSYM = [((0.1, 1.9), 1.), ((1.2, 0.3), 4.5), ((0.8, 2.7), -2.), ((0.3, 2.2), 1.75)]
PSYM = [((.1, 1.9, .5, 3.), 0), ((1.2, .3, .25, 2.), 1), ((.8, 2.7, .75, 1.), 2), ((.3, 2.2, .1, 0.), 1)]
PQ = [(.1, 2., .4, 1.), (1., .5, .6, 3.)]


def alarm(spec):
    return None if spec is None else Alarm(*spec)


def loose(P, want, tol=1e-9):
    P = np.asarray(P, dtype=float)
    return P.shape == np.shape(want) and np.allclose(P, want, rtol=tol, atol=tol)


def draws(rng, n, lam, ctx, extra=0):
    got = [e for e in rng.log if e[0] == 'poisson']
    ctx.check(len(got) == n and all(abs(e[2] - lam) < 1e-12 for e in got), 'draws', lambda: 'expected %d draws at rate %s, saw %s' % (n, lam, got))


def run_clf(cfg, hist, ks, wspec, dspec, ctx):
    n, weighted, metric, lp, classes, wts = cfg
    rng = Env(ks)
    f = AdaptiveRandomForestClassifier(n_estimators=n, max_features=None, disable_weighted_vote=not weighted, lambda_value=4, performance_metric=metric,
                                       drift_detection_method=alarm(dspec), warning_detection_method=alarm(wspec), grace_period=10 ** 9, leaf_prediction=lp, nominal_attributes=[0, 1], random_state=rng)
    members = [ClfMember(Leafy(lp), wspec, dspec) for _ in range(n)]
    used = 0
    for j, s in enumerate(hist):
        x, y = SYM[s]
        w = 1. if wts is None else wts[j % len(wts)]
        kw = {} if wts is None else dict(sample_weight=[w])
        f.partial_fit(np.array([x]), np.array([y]), classes=classes, **kw)
        if w != 0:
            for m in members:
                m.ev.append((y, m.fg.label(x), w))
                k = ks[used % len(ks)]
                used += 1
                if k > 0:
                    m.feed(x, y, k)
        ctx.step()
        rows = []
        for q in Q2:
            tot = {}
            for m in members:
                v = m.fg.votes(q)
                t = math.fsum(v.values())
                if not v or t <= 0:
                    continue
                g = 1.
                if weighted:
                    p = m.perf(metric)
                    if abs(p) < 1e-9 and p != 0:
                        raise Ambiguous
                    g = p if p > 0 else 1.
                for c in v:
                    tot[c] = tot.get(c, 0.) + v[c] / t * g
            t = math.fsum(tot.values())
            rows.append({c: a / t for c, a in tot.items()} if t else tot)
        width = max(classes) + 1 if classes else max([max(r) + 1 if r else 1 for r in rows])
        want = np.array([[r.get(c, 0.) for c in range(width)] for r in rows])
        P = f.predict_proba(np.array(Q2))
        ctx.check(loose(P, want), 'arf-clf', lambda: 'after sample %d: predict_proba %s, reference %s' % (j, np.asarray(P).tolist(), want.tolist()))
        Y = f.predict(np.array(Q2))
        for i, r in enumerate(rows):
            ctx.check(want[i][int(Y[i])] >= want[i].max() - 1e-9, 'arf-clf/label', lambda: 'label %s for %s' % (Y[i], want[i]))
        ctx.state('clf', canon(want, 9))
    draws(rng, used, 4, ctx)


def run_reg(cfg, hist, ks, wspec, dspec, ctx):
    n, agg, strategy, crit = cfg
    rng = Env(ks)
    f = AdaptiveRandomForestRegressor(n_estimators=n, max_features=None, aggregation_method=agg, weighted_vote_strategy=strategy, lambda_value=4,
                                      drift_detection_method=alarm(dspec), warning_detection_method=alarm(wspec), drift_detection_criteria=crit, grace_period=10 ** 9,
                                      leaf_prediction='mean', random_state=rng)
    members = [RegMember(wspec, dspec, crit) for _ in range(n)]
    used = 0
    for j, s in enumerate(hist):
        x, y = RSYM[s]
        f.partial_fit(np.array([x]), np.array([y]))
        for m in members:
            k = ks[used % len(ks)]
            used += 1
            if k > 0:
                m.feed(x, y, k)
        ctx.step()
        v = [m.fg.value() for m in members]
        if agg == 'median':
            want = float(np.median(v))
        else:
            g = [1.] * n
            if strategy:
                e = [m.error(strategy) for m in members]
                if sum(e) > 0 and n > 1:
                    g = [sum(e) - i for i in e]
            want = math.fsum(a * b for a, b in zip(g, v)) / math.fsum(g)
        with warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            P = f.predict(np.array(Q2))
        ctx.check(loose(P, [want] * len(Q2)), 'arf-reg', lambda: 'after sample %d: predict %s, reference %s (members %s)' % (j, np.asarray(P).tolist(), want, v))
        ctx.state('reg', canon(want, 9))
    draws(rng, used, 4, ctx)


def subspace(mode, size, method, d):
    if method == 'resampling':
        return None
    k = size
    if mode == 'sqrtM1':
        k = int(round(math.sqrt(d))) + 1
    elif mode == 'MsqrtM1':
        k = d - (int(round(math.sqrt(d))) + 1)
    elif mode == 'percentage':
        frac = (100. + size) / 100. if size < 0 else size / 100.
        k = int(round(d * frac))
        k = k + 1 if k < 2 else k
    if k < 0:
        k += d
    if k == 0 or k >= d:
        return None
    return 2 if k == 1 and d > 2 else k


def run_srp(cfg, hist, ks, wspec, dspec, ctx):
    n, mode, size, method, weighted, nominal, classes, wts, flags = cfg
    rng = Env(ks)
    f = StreamingRandomPatchesClassifier(base_estimator=RecNom(5), n_estimators=n, subspace_mode=mode, subspace_size=size, training_method=method, lam=4.,
                                         drift_detection_method=alarm(dspec), warning_detection_method=alarm(wspec), disable_weighted_vote=not weighted,
                                         disable_drift_detection='d' in flags, disable_background_learner='b' in flags, nominal_attributes=nominal, random_state=rng)
    if 'd' in flags:
        dspec = None
    if 'b' in flags:
        wspec = None
    d = len(PSYM[0][0])
    k_sub = subspace(mode, size, method, d)
    members, used, chosen = None, 0, 0
    for j, s in enumerate(hist):
        x, y = PSYM[s]
        w = 1. if wts is None else wts[j % len(wts)]
        f.partial_fit(np.array([x]), np.array([y]), classes=classes, **({} if wts is None else dict(sample_weight=[w])))
        if members is None:
            subs = [None] * n
            if k_sub:
                comb = list(itertools.combinations(range(d), k_sub))
                order = [e[1] for e in rng.log if e[0] == 'shuffle'][0]
                subs = [comb[order[i] % len(comb)] for i in range(n)]
            members = [PatchMember(c, nominal, wspec, dspec) for c in subs]

        def redraw():
            nonlocal chosen
            log = [e[1] for e in rng.log if e[0] == 'choice']
            if chosen >= len(log):
                ctx.fail('srp/subset', 'after sample %d: a member should have drawn a new feature subset' % j)
                return members[0].fg_sub
            chosen += 1
            ctx.check(len(log[chosen - 1]) == k_sub and len(set(log[chosen - 1])) == k_sub, 'srp/subset-size', lambda: 'drew %s, subspaces have %d of %d features' % (log[chosen - 1], k_sub, d))
            return log[chosen - 1]
        for m in members:
            m.ev.append((int(np.argmax(m.proba(x))) == y, w))
            if method == 'randomsubspaces' and k_sub:
                m.feed(x, y, classes, 1., redraw)
                continue
            k = ks[used % len(ks)]
            used += 1
            if k > 0:
                m.feed(x, y, classes, k, redraw)
        ctx.step()
        rows = []
        for q in PQ:
            tot = np.zeros(3)
            for m in members:
                p = m.proba(q)
                if p.sum() <= 0:
                    continue
                a = m.acc()
                tot[:len(p)] += p / p.sum() * (a if weighted and a > 0 else 1.)
            rows.append(tot / tot.sum() if tot.sum() > 0 else tot)
        P = np.asarray(f.predict_proba(np.array(PQ)), dtype=float)
        ok = len(P) == len(rows) and all(np.allclose(np.pad(p, (0, 3 - len(p))), r, rtol=1e-9, atol=1e-9) for p, r in zip(P, rows))
        ctx.check(ok, 'srp', lambda: 'after sample %d: predict_proba %s, reference %s' % (j, P.tolist(), [r.tolist() for r in rows]))
        Y = f.predict(np.array(PQ))
        for i, r in enumerate(rows):
            ctx.check(r[int(Y[i])] >= r.max() - 1e-9, 'srp/label', lambda: 'label %s for %s' % (Y[i], r))
        ctx.state('srp', canon(np.array(rows), 9))
    draws(rng, used, 4., ctx)


RUN = {'clf': run_clf, 'reg': run_reg, 'srp': run_srp}
CFG = {
    'clf-2': ('clf', (2, True, 'acc', 'nb', [0, 1, 2], None)),
    'clf-3': ('clf', (3, True, 'kappa', 'nb', None, None)),
    'clf-2-plain': ('clf', (2, False, 'acc', 'mc', None, None)),
    'clf-1': ('clf', (1, True, 'acc', 'nba', [0, 1, 2], (1., 2.))),
    'clf-2-w': ('clf', (2, True, 'kappa', 'mc', [2, 0, 1], (1., .5, 0., 3.))),
    'reg-2-median': ('reg', (2, 'median', None, 'mse')),
    'reg-3-median': ('reg', (3, 'median', 'mae', 'mae')),
    'reg-2-mean': ('reg', (2, 'mean', None, 'predictions')),
    'reg-2-mse': ('reg', (2, 'mean', 'mse', 'mse')),
    'reg-3-mae': ('reg', (3, 'mean', 'mae', 'mae')),
    'reg-1-mse': ('reg', (1, 'mean', 'mse', 'mse')),
    'srp-2-patches': ('srp', (2, 'm', 2, 'randompatches', True, None, None, None, '')),
    'srp-2-nominal': ('srp', (2, 'm', 2, 'randompatches', True, [0, 3], [0, 1, 2], None, '')),
    'srp-3-subspaces': ('srp', (3, 'sqrtM1', 2, 'randomsubspaces', True, [1], None, (1., 2.), '')),
    'srp-2-resampling': ('srp', (2, 'm', 2, 'resampling', True, [1], [0, 1, 2], None, '')),
    'srp-2-percent': ('srp', (2, 'percentage', 60, 'randompatches', False, None, None, None, '')),
    'srp-2-neg': ('srp', (2, 'm', -1, 'randompatches', True, [2], None, (1., .5), '')),
    'srp-1-inv': ('srp', (1, 'MsqrtM1', 0, 'randomsubspaces', True, None, None, None, '')),
    'srp-2-full': ('srp', (2, 'm', 4, 'randompatches', True, None, None, None, '')),
    'srp-7': ('srp', (7, 'm', 2, 'randompatches', True, None, None, None, '')),
    'srp-2-nobg': ('srp', (2, 'm', 2, 'randompatches', True, [0], None, None, 'b')),
    'srp-2-nodrift': ('srp', (2, 'm', 3, 'randompatches', True, None, None, None, 'd')),
}


def one(kind, cfg, hist, ks, wspec, dspec, ctx):
    ctx.case(kind, cfg, [int(h) for h in hist], list(ks), wspec, dspec)
    try:
        RUN[kind](cfg, hist, ks, wspec, dspec, ctx)
    except Ambiguous:
        pass
    ctx.trace()


def subsets(n):
    return [c for r in range(n + 1) for c in itertools.combinations(range(1, n + 1), r)]


def run(name, params, ctx):
    key, mode, arg, thorough = params
    kind, cfg = CFG[key]
    n = cfg[0]
    if mode == 'schedule':              # all alarm schedules x all small replica scripts
        hists = ((0, 1, 0, 2, 1), (1, 1, 0, 3, 2))
        for i, (w, d) in enumerate(itertools.product(subsets(4 if thorough else 3), repeat=2)):
            if i % 8 != arg:
                continue
            scripts = list(itertools.product((0, 1, 3), repeat=3)) + list(itertools.product((0, 2), repeat=5))
            for j, ks in enumerate(scripts):
                if any(ks) and (thorough or (i // 8 + j) % 3 == 0):
                    one(kind, cfg, hists[(i + j) % 2], ks, (w, None), (d, None), ctx)
    else:                               # all histories, alarms on error or by position
        specs = [(((), 1.), ((), 2.)), (((1,), None), ((), 1.)), (((), .9), ((3,), None)), (((2,), None), ((2, 3), 2.)),
                 (None, ((), 1.)), (None, ((2,), None)), (None, None), (((2,), None), None)]
        for h in itertools.product(range(len(SYM) if thorough else 3), repeat=4):
            for i, (w, d) in enumerate(specs):
                if kind == 'srp' and (w is None or d is None):
                    continue
                for j, ks in enumerate(((1,), (1, 2), (2, 0, 1), (0, 1, 1, 3, 1))):
                    if sum(h) % 2 == arg and (thorough or (sum(h) // 2 + i) % 4 == j):
                        one(kind, cfg, h + h[:2], ks, w, d, ctx)
    ctx.sample(ctx.cur)


def shards(tier):
    t = tier != 'quick'
    return [('%s-%s-%d' % (k, m, a), (k, m, a, t)) for k in CFG for m, q in (('schedule', 8), ('history', 2)) for a in range(q)
            if t or k != 'srp-7' or a == 0]
