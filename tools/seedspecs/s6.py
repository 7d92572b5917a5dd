SEEDS = [
dict(id='c21-clone-list', property='C21', needs='a parameter that is a list, changed after cloning',
 what='a clone shares list-valued parameters with the original',
 edits=[('core/base.py', '''        new_object_params[name] = clone(param, safe=False)
''', '''        new_object_params[name] = param if isinstance(param, list) else clone(param, safe=False)
''')],
 demo='''
from skmultiflow.core import clone
from skmultiflow.trees import HoeffdingTreeClassifier
a = HoeffdingTreeClassifier(nominal_attributes=[0, 1])
b = clone(a)
b.nominal_attributes.append(2)
expect(a.nominal_attributes, [0, 1])
'''),
dict(id='c24-new-branch-weight', property='C24', needs='a multiway nominal split, then a sample with a value unseen so far and a weight other than one',
 what='the first sample of a new nominal branch counts with weight one',
 edits=[('trees/hoeffding_tree.py', '''            self._active_leaf_node_cnt += 1
            leaf_node.learn_one(X, y, weight=sample_weight, tree=self)
''', '''            self._active_leaf_node_cnt += 1
            leaf_node.learn_one(X, y, weight=min(1.0, sample_weight), tree=self)
''')],
 demo='''
from skmultiflow.trees import HoeffdingTreeClassifier
t = HoeffdingTreeClassifier(grace_period=6, split_confidence=0.9, tie_threshold=2., nominal_attributes=[0], leaf_prediction='mc')
X = np.array([[0.], [1.], [2.], [0.], [1.], [2.]])
t.partial_fit(X, np.array([0, 1, 2, 0, 1, 2]), classes=[0, 1, 2])
q = np.array([[7.]])
t.partial_fit(q, np.array([1]), sample_weight=np.array([3.]))
t.partial_fit(q, np.array([2]), sample_weight=np.array([2.]))
expect(t.predict_proba(q)[0], [0., .6, .4])
'''),
dict(id='c25-drop-walk', property='C25', needs='a leaf that is checked without splitting, with a left subtree of poor split points below another node',
 what='the walk that drops poor split points forgets to take back a sum of targets',
 edits=[('trees/_attribute_observer/numeric_attribute_regression_observer.py', '''                is_bad = self._remove_bad_split_nodes(current_node._right, current_node, False)

                self._aux_sum_weight -= current_node.sum_weight
                self._aux_sum -= current_node.sum_target
''', '''                is_bad = self._remove_bad_split_nodes(current_node._right, current_node, False)

                self._aux_sum_weight -= current_node.sum_weight
''')],
 demo='''
from skmultiflow.trees._attribute_observer import NumericAttributeRegressionObserver


class Low:
    seen = []

    def get_merit_of_split(self, pre, post):
        self.seen.append((float(post[0][0]), float(post[0][1])))
        return -1.


o = NumericAttributeRegressionObserver()
for v in (4., 2., 6., 3., 1., 7., 5.):
    o.update(v, 1., 1.)
o.remove_bad_splits(Low(), 1., 1., 0., {0: 7., 1: 7., 2: 7.})
expect([a for a, b in Low.seen], [b for a, b in Low.seen])
'''),
dict(id='c26-pcc-best', property='C26', needs='a batch of at least two rows for a probabilistic classifier chain',
 what='the best payoff is not started over for each row of a batch',
 edits=[('meta/classifier_chains.py', '''        for n in range(N):
            w_max = 0.
            # for each and every''', '''        w_max = 0.
        for n in range(N):
            # for each and every''')],
 demo='''
from skmultiflow.meta import ProbabilisticClassifierChain
from skmultiflow.bayes import NaiveBayes
m = ProbabilisticClassifierChain(base_estimator=NaiveBayes())
X = np.array([[0.], [1.], [2.], [3.], [4.], [5.], [2.5], [3.5]])
Y = np.array([[0, 0], [0, 0], [0, 1], [1, 1], [1, 1], [1, 1], [1, 0], [1, 0]])
m.partial_fit(X, Y)
q = np.array([[5.], [0.], [2.6], [4.]])
expect(m.predict(q), np.vstack([m.predict(r.reshape(1, -1)) for r in q]))
'''),
dict(id='c27-norm-votes', property='C27', needs='a member whose leaf answers by its class counts, and a query between training calls',
 what='asking an adaptive random forest for probabilities normalises the stored class counts of its leaves',
 edits=[('meta/adaptive_random_forests.py', '''vote = deepcopy(self.ensemble[i]._get_votes_for_instance(X))''', '''vote = self.ensemble[i]._get_votes_for_instance(X)''')],
 demo='''
from skmultiflow.meta import AdaptiveRandomForestClassifier


def run(ask):
    r = np.random.RandomState(0)
    X = r.rand(60, 2); y = (X[:, 0] > .5).astype(int)
    m = AdaptiveRandomForestClassifier(2, leaf_prediction='mc', random_state=1)
    for i in range(60):
        m.partial_fit(X[i:i + 1], y[i:i + 1], classes=[0, 1])
        if ask:
            m.predict_proba(X[:3])
    return m.predict_proba(X)


expect(run(True), run(False))
'''),
dict(id='c28-lam-batch', property='C28', needs='a batch of more than one row for online boosting',
 what='the boosting weight of a sample goes on from the sample before it in the same batch',
 edits=[('meta/online_boosting.py', '''        r, _ = get_dimensions(X)
        for j in range(r):
            weight = None''', '''        r, _ = get_dimensions(X)
        lam = 1
        for j in range(r):
            weight = None'''), ('meta/online_boosting.py', '''            change_detected = False
            lam = 1
''', '''            change_detected = False
''')],
 demo='''
from skmultiflow.meta import OnlineBoostingClassifier
from skmultiflow.bayes import NaiveBayes
r = np.random.RandomState(0)
X = r.rand(60, 2); y = (X[:, 0] + .3 * r.rand(60) > .6).astype(int)
a = OnlineBoostingClassifier(NaiveBayes(), 3, random_state=1); b = OnlineBoostingClassifier(NaiveBayes(), 3, random_state=1)
a.partial_fit(X, y, classes=[0, 1])
for i in range(60):
    b.partial_fit(X[i:i + 1], y[i:i + 1], classes=[0, 1])
expect(a.predict_proba(X), b.predict_proba(X))
'''),
dict(id='c29-global-subset', property='C29', needs='a streaming-random-patches member that drifts, and other use of the global random generator',
 what='a new feature subset after a drift is drawn from the global random generator',
 edits=[('meta/streaming_random_patches.py', '''feature_indexes = random_state.choice(range(n_features), k, replace=False)''', '''feature_indexes = np.random.choice(range(n_features), k, replace=False)''')],
 demo='''
from skmultiflow.meta import StreamingRandomPatchesClassifier
from skmultiflow.drift_detection import DDM
from skmultiflow.bayes import NaiveBayes
from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector


class Every(BaseDriftDetector):
    def __init__(self, n=5):
        super().__init__()
        self.n = n
        self.seen = 0

    def add_element(self, v):
        self.seen += 1
        self.in_concept_change = self.seen % self.n == 0


def run(seed):
    r = np.random.RandomState(0)
    m = StreamingRandomPatchesClassifier(NaiveBayes(), 3, subspace_mode='m', subspace_size=2, drift_detection_method=Every(5),
                                         warning_detection_method=Every(3), random_state=1)
    X = r.rand(40, 6); y = (X[:, 0] > .5).astype(int)
    np.random.seed(seed)
    m.partial_fit(X, y, classes=[0, 1])
    return [list(map(int, e.feature_indexes)) for e in m.ensemble]


expect(run(1), run(2))
'''),
dict(id='c31-adwin-kept', property='C31', needs='a reset after a long history whose errors differ from those after it',
 what='a reset of OzaBaggingADWIN keeps the change detectors',
 edits=[('meta/oza_bagging_adwin.py', '''        super().reset()
        self.__configure()
''', '''        super().reset()
''')],
 demo='''
from skmultiflow.meta import OzaBaggingADWINClassifier
from skmultiflow.bayes import NaiveBayes
m = OzaBaggingADWINClassifier(NaiveBayes(), 2, random_state=1)
r = np.random.RandomState(0)
X = r.rand(50, 2); y = r.randint(0, 2, 50)
m.partial_fit(X, y, classes=[0, 1])
m.reset()
expect([int(a.width) for a in m.adwin_ensemble], [0, 0])
'''),
dict(id='c32-chain-order', property='C32', needs='a random chain order of at least three targets that is not its own inverse',
 what='predictions of a regressor chain come back in the chain order applied twice',
 edits=[('meta/regressor_chains.py', '''        return Y[:, np.argsort(self.chain)]''', '''        return Y[:, self.chain]''')],
 demo='''
from skmultiflow.meta import RegressorChain
from sklearn.base import BaseEstimator


class Const(BaseEstimator):
    def fit(self, X, y):
        self.v = y[0]

    def partial_fit(self, X, y):
        self.v = y[0]

    def predict(self, X):
        return np.full(len(X), self.v)


for s in range(10):
    m = RegressorChain(Const(), order='random', random_state=s)
    m.partial_fit(np.zeros((1, 2)), np.array([[10., 20., 30.]]))
    expect(m.predict(np.zeros((1, 2))), [[10., 20., 30.]], s)
'''),
dict(id='c36-warning-detector', property='C36', needs='a warning that starts a background learner, then more samples before the next warning',
 what='the warning detector is not restarted after its warning',
 edits=[('meta/adaptive_random_forests.py', '''                    # was still a background learner).
                    self.warning_detection.reset()
''', '''                    # was still a background learner).
''')],
 demo='''
from skmultiflow.meta import AdaptiveRandomForestClassifier
from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector


class After(BaseDriftDetector):
    def __init__(self, n=5):
        super().__init__()
        self.n = n
        self.seen = 0

    def reset(self):
        super().reset()
        self.seen = 0

    def add_element(self, v):
        self.seen += 1
        self.in_concept_change = self.seen >= self.n


m = AdaptiveRandomForestClassifier(1, warning_detection_method=After(5), drift_detection_method=After(10**6), random_state=1)
X = np.random.RandomState(0).rand(40, 2); y = (X[:, 0] > .5).astype(int)
n = 0
for i in range(40):
    m.partial_fit(X[i:i + 1], y[i:i + 1], classes=[0, 1])
e = m.ensemble[0]
expect(e.nb_warnings_detected <= 8, True)
'''),
dict(id='c37-drift-break', property='C37', needs='unordered rules with a drift detector: a rule is removed while later rules also cover the sample',
 what='a sample that removes a drifted rule is not learned by the other rules that cover it',
 edits=[('rules/very_fast_decision_rules.py', '''                            continue
                    rule.learn_from_instance(''', '''                            break
                    rule.learn_from_instance(''')],
 demo='''
from skmultiflow.rules import VeryFastDecisionRulesClassifier
from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector


class Fire(BaseDriftDetector):
    def __init__(self, on=True):
        super().__init__()
        self.on = on

    def add_element(self, v):
        self.in_concept_change = self.on


m = VeryFastDecisionRulesClassifier(ordered_rules=False, rule_prediction='weighted_sum', drift_detector=Fire(), min_weight=100)
a = m.new_rule({0: 200.}, Fire(True), None); b = m.new_rule({0: 200.}, Fire(False), None)
m.rule_set = [a, b]
m.partial_fit(np.array([[1.]]), np.array([1]))
expect([r is b for r in m.rule_set], [True])
expect(float(b.get_weight_seen()), 201.)
'''),
dict(id='c38-limit-equal', property='C38', needs='a node whose mass equals the size limit exactly',
 what='the descent goes on below a node whose mass is exactly the size limit',
 edits=[('anomaly_detection/half_space_trees.py', '''node.right_mass <= self.size_limit''', '''node.right_mass < self.size_limit''')],
 demo='''
from skmultiflow.anomaly_detection import HalfSpaceTrees


def score(tree, x, node=None):
    node = node or tree.root
    if not node.internal_node or node.right_mass <= 2:
        return node.right_mass * 2. ** node.depth
    return score(tree, x, node.right if x[node.split_attribute] > node.split_value else node.left)


r = np.random.RandomState(2)
m = HalfSpaceTrees(window_size=6, depth=4, n_estimators=1, size_limit=2, random_state=1)
m.partial_fit(r.rand(13, 2), np.zeros(13))
Q = r.rand(40, 2)
t = m.ensemble[0]
expect([float(t.anomaly_score(q)) for q in Q], [float(score(t, q)) for q in Q])
'''),
dict(id='c40-nominal-weight', property='C40', needs='a nominal feature value first seen for its class with a weight other than one',
 what='the first weight of a nominal value for a class is not counted in full',
 edits=[('trees/_attribute_observer/nominal_attribute_class_observer.py', '''                self._att_val_dist_per_class[class_val][att_val] = weight
''', '''                self._att_val_dist_per_class[class_val][att_val] = 1.0
''')],
 demo='''
from skmultiflow.bayes import NaiveBayes
X = np.array([[0.], [1.], [1.], [2.]]); y = np.array([0, 0, 1, 1])
a = NaiveBayes(nominal_attributes=[0]); b = NaiveBayes(nominal_attributes=[0])
w = np.array([1, 3, 1, 2])
a.partial_fit(X, y, classes=[0, 1], sample_weight=w)
b.partial_fit(np.repeat(X, w, axis=0), np.repeat(y, w), classes=[0, 1])
expect(np.allclose(a.predict_proba(X), b.predict_proba(X)), True)
'''),
dict(id='c45-old-decay', property='C45', needs='the deprecated name, with different learning rate and decay',
 what='the old name of the regression tree passes the learning rate as its decay',
 edits=[('trees/hoeffding_tree_regressor.py', '''                                  learning_ratio_decay=learning_ratio_decay,''', '''                                  learning_ratio_decay=learning_ratio_perceptron,''')],
 demo='''
from skmultiflow.trees import RegressionHoeffdingTree
expect(RegressionHoeffdingTree(learning_ratio_perceptron=.1, learning_ratio_decay=.3).learning_ratio_decay, .3)
'''),
dict(id='c46-score-weight', property='C46', needs='a score with sample weights that are not all equal',
 what='the score of a regressor ignores the sample weights',
 edits=[('core/base.py', '''        return r2_score(y, y_pred, sample_weight=sample_weight,
                        multioutput='variance_weighted')
''', '''        return r2_score(y, y_pred, multioutput='variance_weighted')
''')],
 demo='''
from skmultiflow.lazy import KNNRegressor
from sklearn.metrics import r2_score
m = KNNRegressor(n_neighbors=2)
X = np.arange(8.).reshape(-1, 1); y = np.array([0., 1., 4., 2., 8., 3., 1., 0.])
m.partial_fit(X, y)
w = np.array([1., 2., 3., 4., 1., 0., 5., 1.])
expect(round(m.score(X, y, w), 9), round(r2_score(y, m.predict(X), sample_weight=w), 9))
'''),
]
