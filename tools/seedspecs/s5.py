SEEDS = [
dict(id='c02-balance-restart', property='C02', needs='class balancing, a restart after an odd number of samples',
 what='a restarted balanced SEA stream goes on with the class due next instead of starting over',
 edits=[('data/sea_generator.py',
'''        self._random_state = check_random_state(self.random_state)
        self.next_class_should_be_zero = False
''','''        self._random_state = check_random_state(self.random_state)
''')],
 demo='''
from skmultiflow.data import SEAGenerator
g = SEAGenerator(random_state=5, balance_classes=True)
a = g.next_sample(7)
g.restart()
b = g.next_sample(7)
expect(b[1].tolist(), a[1].tolist()); expect(b[0].tolist(), a[0].tolist())
'''),
dict(id='c03-drift-same', property='C03', needs='a drift call whose first draw is the current concept twice',
 what='the drift call may keep the current classification function',
 edits=[('data/stagger_generator.py', '''        while new_function == self.classification_function:''', '''        if new_function == self.classification_function:''')],
 demo='''
from skmultiflow.data import STAGGERGenerator
for s in range(60):
    g = STAGGERGenerator(random_state=s)
    for k in range(4):
        old = g.classification_function
        g.generate_drift()
        if g.classification_function == old:
            raise SystemExit('seed %d: the drift kept concept %d' % (s, old))
'''),
dict(id='c08-stale-test', property='C08', needs='a dynamic test set and a stream that ends exactly when an evaluation is due',
 what='when the stream has no samples left for a fresh test set the previous one is scored again',
 edits=[('evaluation/evaluate_holdout.py',
'''                        if self.dynamic_test_set:
                            print('Separating''','''                        if self.dynamic_test_set and self.stream.has_more_samples():
                            print('Separating''')],
 demo='''
import contextlib, io
from skmultiflow.data import DataStream
from skmultiflow.evaluation import EvaluateHoldout
from skmultiflow.core import BaseSKMObject, ClassifierMixin


class Log(BaseSKMObject, ClassifierMixin):
    def __init__(self):
        self.asked = []

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        return self

    def predict(self, X):
        self.asked.append([float(v) for v in X[:, 0]])
        return np.zeros(len(X), dtype=int)

    def predict_proba(self, X):
        return np.zeros((len(X), 2))


X = np.arange(23.).reshape(-1, 1)
s = DataStream(X, np.arange(23) % 2)
m = Log()
with contextlib.redirect_stdout(io.StringIO()):
    EvaluateHoldout(n_wait=3, max_samples=100, batch_size=1, test_size=2, dynamic_test_set=True, metrics=['accuracy']).evaluate(s, m)
flat = [v for a in m.asked for v in a]
expect(len(flat), len(set(flat)))
'''),
dict(id='c09-drain-weight', property='C09', needs='labels still outstanding at the end of the stream and sample weights other than one',
 what='samples whose label arrives after the end of the stream are trained without their weight',
 edits=[('evaluation/evaluate_prequential_delayed.py',
'''            self._update_classifiers(X_delayed, y_true_delayed, sample_weight)
''','''            self._update_classifiers(X_delayed, y_true_delayed, None if len(X_delayed) > 1 else sample_weight)
''')],
 demo='''
import contextlib, io
import pandas as pd
from skmultiflow.data import TemporalDataStream
from skmultiflow.evaluation import EvaluatePrequentialDelayed
from skmultiflow.core import BaseSKMObject, ClassifierMixin


class Log(BaseSKMObject, ClassifierMixin):
    def __init__(self):
        self.seen = []

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        w = [None] * len(X) if sample_weight is None else list(sample_weight)
        self.seen += [(float(X[i][0]), w[i] if w[i] is None else float(w[i])) for i in range(len(X))]
        return self

    def predict(self, X):
        return np.zeros(len(X), dtype=int)

    def predict_proba(self, X):
        return np.zeros((len(X), 2))


X = np.arange(24.).reshape(-1, 1)
t = pd.Series(pd.date_range('2020-01-01', periods=24))
d = t + pd.Timedelta(days=30)
s = TemporalDataStream(X, np.arange(24) % 2, t, sample_delay=d, sample_weight=np.arange(1., 25.), ordered=True)
m = Log()
with contextlib.redirect_stdout(io.StringIO()):
    EvaluatePrequentialDelayed(pretrain_size=1, batch_size=2, max_samples=100, metrics=['accuracy']).evaluate(s, m)
expect(m.seen, [(float(i), float(i + 1)) for i in range(len(m.seen))])
expect(len(m.seen), 24)
'''),
dict(id='c17-eddm-dist', property='C17', needs='an explicit reset of EDDM after errors, then further errors',
 what='after a reset the first error distance is measured from the last error before it',
 edits=[('drift_detection/eddm.py', '''        self.m_d = 0
        self.m_lastd = 0
''', '''        self.m_lastd = 0
'''), ('drift_detection/eddm.py', '''        self.m_d = None
''', '''        self.m_d = 0
''')],
 demo='''
from skmultiflow.drift_detection import EDDM
d = EDDM()
for v in [0, 1] * 20:
    d.add_element(v)
d.reset()
e = EDDM()
for v in [0, 0, 1, 0, 1]:
    d.add_element(v); e.add_element(v)
    expect(d.estimation, e.estimation)
'''),
dict(id='c33-adwin-kept', property='C33', needs='a member replaced after its change detector fired, and further changes',
 what='the member that replaces a dismissed one inherits its change detector',
 edits=[('meta/oza_bagging_adwin.py', '''                self.ensemble[i_max].reset()
                self.adwin_ensemble[i_max] = ADWIN()
''', '''                self.ensemble[i_max].reset()
''')],
 demo='''
from skmultiflow.meta import OzaBaggingADWINClassifier
from skmultiflow.core import BaseSKMObject, ClassifierMixin


class M(BaseSKMObject, ClassifierMixin):
    def __init__(self):
        pass

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        return self

    def predict(self, X):
        return np.zeros(len(X), dtype=int)

    def predict_proba(self, X):
        return np.array([[1., 0.]] * len(X))

    def reset(self):
        return self


e = OzaBaggingADWINClassifier(M(), n_estimators=2, random_state=1)
for i in range(200):
    e.partial_fit(np.array([[0.]]), np.array([0]), classes=[0, 1])
w = 200
for i in range(200):
    e.partial_fit(np.array([[0.]]), np.array([1]))
    w2 = min(a.width for a in e.adwin_ensemble)
    if w2 < w:
        break
    w = w2 + 1
expect(min(a.width for a in e.adwin_ensemble), 0)
'''),
dict(id='c34-kept-bound', property='C34', needs='more full chunks than kept members',
 what='one member more than configured is kept',
 edits=[('meta/accuracy_weighted_ensemble.py', '''                if len(self.models_pool) < self.n_kept_estimators:''', '''                if len(self.models_pool) <= self.n_kept_estimators:''')],
 demo='''
from skmultiflow.meta import AccuracyWeightedEnsembleClassifier
from skmultiflow.bayes import NaiveBayes
e = AccuracyWeightedEnsembleClassifier(n_estimators=2, n_kept_estimators=3, base_estimator=NaiveBayes(), window_size=10, n_splits=2)
rng = np.random.RandomState(0)
for i in range(8):
    X = rng.rand(10, 2)
    e.partial_fit(X, (X[:, 0] > .5).astype(int), classes=[0, 1])
expect(len(e.models_pool), 3)
'''),
dict(id='c35-theta-equal', property='C35', needs='an expert whose scaled weight equals the threshold exactly',
 what='experts at (not only below) the threshold are removed',
 edits=[('meta/dynamic_weighted_majority.py', '''ex.weight >= self.theta]''', '''ex.weight > self.theta]''')],
 demo='''
from skmultiflow.meta import DynamicWeightedMajorityClassifier
from skmultiflow.core import BaseSKMObject, ClassifierMixin


class M(BaseSKMObject, ClassifierMixin):
    n = 0

    def __init__(self):
        self.k = None

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        if self.k is None:
            self.k = int(y[0])
        return self

    def predict(self, X):
        return np.array([self.k or 0] * len(X))

    def predict_proba(self, X):
        raise NotImplementedError


d = DynamicWeightedMajorityClassifier(n_estimators=5, base_estimator=M(), period=1, beta=.5, theta=.5)
for y in (0, 1, 1):
    d.partial_fit(np.array([[0.]]), np.array([y]), classes=[0, 1])
expect(len(d.experts), 2)
'''),
dict(id='c39-clean-tie', property='C39', needs='a long-term sample exactly as far away as the farthest agreeing short-term neighbour',
 what='contradicting long-term samples on the border of the cleaning radius are kept',
 edits=[('lazy/sam_knn.py', '''<= distThreshold)[0]''', '''< distThreshold)[0]''')],
 demo='''
from skmultiflow.lazy import SAMKNNClassifier
s = SAMKNNClassifier(n_neighbors=2, max_window_size=20, min_stm_size=4)
s.partial_fit(np.array([[0.], [2.], [2.], [1.]]), np.array([1, 1, 1, 1]))
X, y = s.clean_samples(np.array([[0.], [3.]]), np.array([0, 0]), onlyLast=True)
expect(X.tolist(), [[3.]])
'''),
dict(id='c41-block-edge', property='C41', needs='a full window whose newest value decides the test',
 what='the older part the sample is drawn from includes the oldest value of the newest block',
 edits=[('drift_detection/kswin.py', '''np.random.choice(self.window[:-self.stat_size], self.stat_size)''', '''np.random.choice(self.window[:1 - self.stat_size], self.stat_size)''')],
 demo='''
from skmultiflow.drift_detection import KSWIN
seen = []
orig = np.random.choice
np.random.choice = lambda a, *k, **kw: (seen.append(list(a)), orig(a, *k, **kw))[1]
d = KSWIN(window_size=10, stat_size=4)
for i in range(12):
    d.add_element(float(i))
expect([len(a) for a in seen], [5] * len(seen))
'''),
dict(id='c42-adadelta-step', property='C42', needs='adadelta updates of the same prototype at least twice',
 what='the running mean of squared steps is updated with the new gradient instead of the new step',
 edits=[('prototype/robust_soft_learning_vector_quantization.py', '''                                     + (1 - self.gamma) * step * step)''', '''                                     + (1 - self.gamma) * step * gradient)''')],
 demo='''
from skmultiflow.prototype import RobustSoftLearningVectorQuantization as R
r = R(gradient_descent='adadelta', sigma=.5)
X = np.array([[0., 0.], [1., 1.], [.9, .8], [.2, .4], [.6, .6], [.4, .5], [.7, .2]])
y = np.array([0, 1, 0, 1, 0, 1, 0])
r.partial_fit(X, y, classes=[0, 1])
expect(bool((r.squared_mean_step >= 0).all()), True)
w = r.w_.copy()
g = R(gradient_descent='adadelta', sigma=.5)
g.partial_fit(X, y, classes=[0, 1])
r.partial_fit(X, y)


class Ref(R):
    def _update_prototype_adadelta(self, j, c_xi, xi, prototypes):
        d = xi - prototypes[j]
        p = self._p(j, xi, prototypes=self.w_)
        grad = (self._p(j, xi, prototypes=self.w_, y=c_xi) - p) * d if self.c_w_[j] == c_xi else -p * d
        G, S, a = self.squared_mean_gradient, self.squared_mean_step, self.gamma
        G[j] = a * G[j] + (1 - a) * grad ** 2
        step = np.sqrt((S[j] + 1e-8) / (G[j] + 1e-8)) * grad
        S[j] = a * S[j] + (1 - a) * step ** 2
        self.w_[j] += step


q = Ref(gradient_descent='adadelta', sigma=.5)
q.partial_fit(X, y, classes=[0, 1]); q.partial_fit(X, y)
expect(np.allclose(q.w_, r.w_, rtol=0, atol=1e-9), True)
'''),
dict(id='c47-percent-sign', property='C47', needs='a negative percentage as subspace size',
 what='a negative percentage is measured from the wrong end',
 edits=[('meta/streaming_random_patches.py', '''percent = (100. + k) / 100. if k < 0 else k / 100.''', '''percent = abs(k) / 100.''')],
 demo='''
from skmultiflow.meta import StreamingRandomPatchesClassifier
s = StreamingRandomPatchesClassifier(n_estimators=2, subspace_mode='percentage', subspace_size=-30, random_state=1)
s.partial_fit(np.arange(10.).reshape(1, -1), np.array([0]), classes=[0, 1])
expect([len(m.feature_indexes) for m in s.ensemble], [7, 7])
'''),
]
