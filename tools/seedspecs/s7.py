SEEDS = [
dict(id='c32-rc-order', property='C32', needs='a regressor chain in a random order of three or more targets that is not its own inverse',
 what='predictions are permuted back with the wrong permutation',
 edits=[('meta/regressor_chains.py', '''        return Y[:, np.argsort(self.chain)]''', '''        return Y[:, self.chain]''')],
 demo='''
from skmultiflow.meta import RegressorChain
from skmultiflow.core import BaseSKMObject, RegressorMixin


class Const(BaseSKMObject, RegressorMixin):
    def __init__(self):
        self.v = 0.

    def fit(self, X, y, sample_weight=None):
        return self.partial_fit(X, y)

    def partial_fit(self, X, y, sample_weight=None):
        self.v = float(y[0])
        return self

    def predict(self, X):
        return np.full(len(X), self.v)

    def predict_proba(self, X):
        raise NotImplementedError


for s in range(20):
    m = RegressorChain(Const(), order='random', random_state=s)
    for _ in range(2):
        m.partial_fit(np.zeros((1, 2)), np.array([[10., 20., 30.]]))
    expect(m.predict(np.zeros((1, 2))).tolist(), [[10., 20., 30.]], s)
'''),
dict(id='c48-kill-observers', property='C48', needs='an inner node none of whose candidate splits is worth keeping any more',
 what='the leaf that replaces a removed subtree has lost the attribute statistics',
 edits=[('trees/extremely_fast_decision_tree.py', '''        leaf.attribute_observers = node.attribute_observers
''', '''        leaf.attribute_observers.clear()
''')],
 demo='''
from skmultiflow.trees import ExtremelyFastDecisionTreeClassifier
t = ExtremelyFastDecisionTreeClassifier(grace_period=2, min_samples_reevaluate=2, split_confidence=.9, leaf_prediction='nb')
sizes = []
for x, y, w in (((0., 0.), 0, 1.), ((3., 0.), 1, 1.), ((0., 0.), 0, 1.), ((3., 0.), 1, 1.), ((0., 0.), 0, 400.), ((0., 0.), 1, 450.)):
    t.partial_fit(np.array([x]), np.array([y]), classes=[0, 1], sample_weight=np.array([w]))
    sizes.append(int(t.model_measurements['Tree size (nodes)']))
expect(sizes, [1, 3, 3, 3, 1, 3])
'''),
dict(id='c10-delay-model', property='C10', needs='delayed evaluation of two models with labels that arrive in groups',
 what='the current (windowed) results of all models collect the predictions of the first one',
 edits=[('evaluation/evaluate_prequential_delayed.py', '''                    self.current_eval_measurements[j].add_result(y_true_delayed[i],
                                                                 y_pred_delayed[j][i])''', '''                    self.current_eval_measurements[j].add_result(y_true_delayed[i],
                                                                 y_pred_delayed[0][i])''')],
 demo='''
import contextlib, io
from skmultiflow.data import TemporalDataStream
from skmultiflow.evaluation import EvaluatePrequentialDelayed
from skmultiflow.core import BaseSKMObject, ClassifierMixin


class Always(BaseSKMObject, ClassifierMixin):
    def __init__(self, k):
        self.k = k

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        return self

    def predict(self, X):
        return np.full(len(X), self.k)

    def predict_proba(self, X):
        raise NotImplementedError


s = TemporalDataStream(np.arange(40.).reshape(-1, 1), np.array([0, 0, 0, 1] * 10), sample_delay=3)
e = EvaluatePrequentialDelayed(n_wait=4, pretrain_size=4, max_samples=40, metrics=['accuracy'])
with contextlib.redirect_stdout(io.StringIO()):
    e.evaluate(s, [Always(0), Always(1)])
expect([round(e.get_current_measurements(i).accuracy_score(), 6) for i in (0, 1)], [.75, .25])
'''),
]
