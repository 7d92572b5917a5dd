"""Registry of every learner of the library with small, eventful settings, and the bounded training material."""
import numpy as np

from skmultiflow.lazy import KNNClassifier, KNNADWINClassifier, SAMKNNClassifier, KNNRegressor
from skmultiflow.bayes import NaiveBayes
from skmultiflow.trees import (HoeffdingTreeClassifier, HoeffdingAdaptiveTreeClassifier, ExtremelyFastDecisionTreeClassifier,
                               LabelCombinationHoeffdingTreeClassifier, HoeffdingTreeRegressor, HoeffdingAdaptiveTreeRegressor,
                               iSOUPTreeRegressor, StackedSingleTargetHoeffdingTreeRegressor)
from skmultiflow.meta import (AdaptiveRandomForestClassifier, AdaptiveRandomForestRegressor, BatchIncrementalClassifier,
                              LeveragingBaggingClassifier, OzaBaggingClassifier, OzaBaggingADWINClassifier, ClassifierChain,
                              ProbabilisticClassifierChain, MonteCarloClassifierChain, RegressorChain, MultiOutputLearner,
                              LearnPPClassifier, LearnPPNSEClassifier, AccuracyWeightedEnsembleClassifier,
                              DynamicWeightedMajorityClassifier, AdditiveExpertEnsembleClassifier, OnlineSMOTEBaggingClassifier,
                              OnlineRUSBoostClassifier, OnlineCSB2Classifier, OnlineAdaC2Classifier,
                              OnlineUnderOverBaggingClassifier, OnlineBoostingClassifier, StreamingRandomPatchesClassifier)
from skmultiflow.rules import VeryFastDecisionRulesClassifier
from skmultiflow.neural_networks import PerceptronMask
from skmultiflow.prototype import RobustSoftLearningVectorQuantization
from skmultiflow.anomaly_detection import HalfSpaceTrees
from skmultiflow.drift_detection import ADWIN, DDM, PageHinkley
from sklearn.tree import DecisionTreeClassifier
from sklearn.linear_model import SGDClassifier, SGDRegressor, Perceptron

HT = dict(grace_period=3, split_confidence=0.6, tie_threshold=0.9)


def ht(**k):
    return HoeffdingTreeClassifier(**dict(HT, **k))


def htr(**k):
    return HoeffdingTreeRegressor(**dict(HT, leaf_prediction='mean', random_state=7, **k))


class L:
    """task: clf (classes 0-2), bin (classes 0-1), ml (2 binary labels), reg, mt (2 targets), anom (clf interface)
    traits: s = seeded random, i = instance-incremental, w = weights honoured, W = weights accepted, p = predict_proba available,
            q = predict draws random numbers, m = probability-based (predict = argmax of predict_proba), c = classes must be declared first, r = own reset"""

    def __init__(self, name, task, make, traits):
        self.name, self.task, self.make, self.traits = name, task, make, traits

    def __contains__(self, t):
        return t in self.traits

    # -- calls
    def fit(self, m, rows, weights=None, classes=True):
        X = np.array([x for x, _ in rows], dtype=float)
        y = np.array([t for _, t in rows])
        kw = {}
        if weights is not None:
            kw['sample_weight'] = np.array(weights, dtype=float)
        if self.task in ('clf', 'bin', 'anom') and classes:
            kw['classes'] = self.classes() if classes is True else classes
        elif self.task == 'ml' and classes:
            kw['classes'] = [0, 1] if self.name != 'MultiOutputLearner' else [0, 1]
        return m.partial_fit(X, y, **kw)

    def classes(self):
        return {'clf': [0, 1, 2], 'bin': [0, 1], 'anom': [0, 1]}[self.task]

    def answers(self, m, Q=None, proba=True):
        Q = np.array(QUERY if Q is None else Q, dtype=float)
        out = [np.asarray(m.predict(Q.copy())).tolist()]
        if proba and 'p' in self.traits:
            P = m.predict_proba(Q.copy())
            out.append(_plain(P))
        return out


def _plain(P):
    if isinstance(P, np.ndarray) and P.dtype != object:
        return P.tolist()
    return [_plain(p) if isinstance(p, (list, tuple, np.ndarray)) else p for p in P]


QUERY = [(0., 0.), (1., 2.), (3., 1.), (2., 0.)]

# blocks of samples: (x, class)
CLF = {
    'a': [((0., 0.), 0), ((3., 1.), 1), ((1., 1.), 0), ((2., 2.), 1), ((0., 2.), 0), ((3., 0.), 1)],
    'b': [((0., 0.), 1), ((3., 1.), 0), ((1., 2.), 1), ((2., 0.), 0), ((0., 1.), 1), ((3., 2.), 0)],
    'c': [((0., 1.), 2), ((1., 0.), 0), ((2., 1.), 2), ((3., 2.), 1), ((1., 2.), 2), ((2., 2.), 0)],
}
BIN = {
    'a': CLF['a'], 'b': CLF['b'],
    'c': [((0., 1.), 1), ((1., 0.), 0), ((2., 1.), 1), ((3., 2.), 1), ((1., 2.), 1), ((2., 2.), 0)],
}


def _ml(v):
    return {k: [(x, (t % 2, 1 - (t // 2) % 2 if i % 3 else t % 2)) for i, (x, t) in enumerate(b)] for k, b in v.items()}


def _reg(v):
    return {k: [(x, round(x[0] * 2 - x[1] + 3 * t + .25 * i, 3)) for i, (x, t) in enumerate(b)] for k, b in v.items()}


def _mt(v):
    return {k: [(x, (round(x[0] * 2 - x[1] + 3 * t, 3), round(x[1] * 3 + .5 * i - t, 3))) for i, (x, t) in enumerate(b)] for k, b in v.items()}


BLOCKS = {'clf': CLF, 'bin': BIN, 'ml': _ml(CLF), 'reg': _reg(CLF), 'mt': _mt(CLF), 'anom': BIN}


def block(task, names):
    """'aab' -> rows;  upper case = the block six times"""
    out = []
    for n in names:
        out += BLOCKS[task][n.lower()] * (6 if n.isupper() else 1)
    return out


def registry():
    R = []

    def add(name, task, make, traits):
        R.append(L(name, task, make, traits))
    add('KNNClassifier', 'clf', lambda: KNNClassifier(n_neighbors=2, max_window_size=7), 'ipmr')
    add('KNNADWINClassifier', 'clf', lambda: KNNADWINClassifier(n_neighbors=2, max_window_size=40), 'pmr')
    add('SAMKNNClassifier', 'clf', lambda: SAMKNNClassifier(n_neighbors=2, max_window_size=20, min_stm_size=4), 'ir')
    add('KNNRegressor', 'reg', lambda: KNNRegressor(n_neighbors=2, max_window_size=7), 'ir')
    add('NaiveBayes', 'clf', lambda: NaiveBayes(nominal_attributes=[1]), 'iwpmr')
    for lp in ('mc', 'nb', 'nba'):
        add('HoeffdingTreeClassifier-' + lp, 'clf', lambda lp=lp: ht(leaf_prediction=lp, nominal_attributes=[1]), 'iwpmr')
        add('HoeffdingAdaptiveTreeClassifier-' + lp, 'clf',
            lambda lp=lp: HoeffdingAdaptiveTreeClassifier(leaf_prediction=lp, random_state=3, **HT), 'isWpmr')
        add('ExtremelyFastDecisionTreeClassifier-' + lp, 'clf',
            lambda lp=lp: ExtremelyFastDecisionTreeClassifier(leaf_prediction=lp, min_samples_reevaluate=4, nominal_attributes=[1], **HT), 'iwpmr')
        add('LabelCombinationHoeffdingTreeClassifier-' + lp, 'ml',
            lambda lp=lp: LabelCombinationHoeffdingTreeClassifier(n_labels=2, leaf_prediction=lp, **HT), 'iwr')
    add('HoeffdingTreeClassifier-binary', 'clf', lambda: ht(leaf_prediction='nba', nominal_attributes=[0, 1], binary_split=True, split_criterion='gini'), 'iwpmr')
    add('HoeffdingTreeClassifier-hellinger', 'bin', lambda: ht(leaf_prediction='mc', split_criterion='hellinger'), 'iwpmr')
    add('HoeffdingTreeClassifier-poor', 'clf', lambda: ht(leaf_prediction='nb', remove_poor_atts=True, no_preprune=True), 'iwpmr')
    add('HoeffdingTreeClassifier-memory', 'clf', lambda: ht(leaf_prediction='nba', max_byte_size=30000, memory_estimate_period=5), 'iwpmr')
    add('HoeffdingTreeClassifier-stopmem', 'clf', lambda: ht(leaf_prediction='nba', max_byte_size=12000, memory_estimate_period=5, stop_mem_management=True), 'iwpmr')
    add('HoeffdingAdaptiveTreeClassifier-nominal', 'clf',
        lambda: HoeffdingAdaptiveTreeClassifier(leaf_prediction='nba', random_state=3, nominal_attributes=[0, 1], bootstrap_sampling=False, **HT), 'isWpmr')
    add('ExtremelyFastDecisionTreeClassifier-numeric', 'clf',
        lambda: ExtremelyFastDecisionTreeClassifier(leaf_prediction='nba', min_samples_reevaluate=3, **HT), 'iwpmr')
    for lp in ('mean', 'perceptron'):
        add('HoeffdingTreeRegressor-' + lp, 'reg', lambda lp=lp: HoeffdingTreeRegressor(leaf_prediction=lp, random_state=5, **HT), 'iswr')
        add('HoeffdingAdaptiveTreeRegressor-' + lp, 'reg',
            lambda lp=lp: HoeffdingAdaptiveTreeRegressor(leaf_prediction=lp, random_state=5, **HT), 'isWr')
        add('iSOUPTreeRegressor-' + lp, 'mt', lambda lp=lp: iSOUPTreeRegressor(leaf_prediction=lp, random_state=5, **HT), 'iswr')
    add('HoeffdingTreeRegressor-nominal', 'reg', lambda: HoeffdingTreeRegressor(leaf_prediction='mean', nominal_attributes=[1], random_state=5, **HT), 'iswr')
    add('HoeffdingTreeRegressor-binary', 'reg',
        lambda: HoeffdingTreeRegressor(leaf_prediction='perceptron', nominal_attributes=[0, 1], binary_split=True, learning_ratio_const=False, random_state=5, **HT), 'iswr')
    add('iSOUPTreeRegressor-adaptive', 'mt', lambda: iSOUPTreeRegressor(leaf_prediction='adaptive', random_state=5, **HT), 'iswr')
    for lp in ('perceptron', 'adaptive'):
        add('StackedSingleTargetHoeffdingTreeRegressor-' + lp, 'mt',
            lambda lp=lp: StackedSingleTargetHoeffdingTreeRegressor(leaf_prediction=lp, random_state=5, **HT), 'isWr')
    for od in (True, False):
        add('VeryFastDecisionRulesClassifier-' + ('ordered' if od else 'unordered'), 'clf',
            lambda od=od: VeryFastDecisionRulesClassifier(ordered_rules=od, rule_prediction='first_hit' if od else 'weighted_sum', grace_period=4,
                                                          expand_confidence=.6, tie_threshold=.9, min_weight=2, nominal_attributes=[1]), 'iwpmr')
    add('VeryFastDecisionRulesClassifier-drift', 'clf',
        lambda: VeryFastDecisionRulesClassifier(grace_period=4, expand_confidence=.6, tie_threshold=.9, min_weight=2, drift_detector=DDM(min_num_instances=5)), 'iwpmr')
    # ensembles
    add('OzaBaggingClassifier', 'clf', lambda: OzaBaggingClassifier(NaiveBayes(), n_estimators=3, random_state=1), 'isWpmcr')
    add('OzaBaggingADWINClassifier', 'clf', lambda: OzaBaggingADWINClassifier(NaiveBayes(), n_estimators=3, random_state=1), 'isWpmcr')
    for alg in ('leveraging_bag', 'leveraging_bag_me', 'leveraging_bag_half', 'leveraging_bag_wt', 'leveraging_subag'):
        add('LeveragingBaggingClassifier-' + alg, 'clf',
            lambda alg=alg: LeveragingBaggingClassifier(NaiveBayes(), n_estimators=3, leverage_algorithm=alg, random_state=1), 'isWpmcr')
    add('LeveragingBaggingClassifier-matrix', 'clf',
        lambda: LeveragingBaggingClassifier(ht(), n_estimators=3, enable_code_matrix=True, random_state=1), 'isWpcr')
    add('OnlineBoostingClassifier', 'clf', lambda: OnlineBoostingClassifier(NaiveBayes(), n_estimators=3, random_state=1), 'isWpmcr')
    add('OnlineAdaC2Classifier', 'bin', lambda: OnlineAdaC2Classifier(NaiveBayes(), n_estimators=3, random_state=1), 'isWpmcr')
    add('OnlineCSB2Classifier', 'bin', lambda: OnlineCSB2Classifier(NaiveBayes(), n_estimators=3, random_state=1), 'isWpmcr')
    for alg in (1, 2, 3):
        add('OnlineRUSBoostClassifier-%d' % alg, 'bin', lambda alg=alg: OnlineRUSBoostClassifier(NaiveBayes(), n_estimators=3, algorithm=alg, random_state=1), 'isWpmcr')
    add('OnlineSMOTEBaggingClassifier', 'bin', lambda: OnlineSMOTEBaggingClassifier(NaiveBayes(), n_estimators=3, random_state=1), 'isWpmcr')
    add('OnlineUnderOverBaggingClassifier', 'bin', lambda: OnlineUnderOverBaggingClassifier(NaiveBayes(), n_estimators=3, random_state=1), 'isWpmcr')
    add('AdaptiveRandomForestClassifier', 'clf',
        lambda: AdaptiveRandomForestClassifier(n_estimators=2, random_state=1, grace_period=5, split_confidence=.6, lambda_value=2), 'isWpmr')
    add('AdaptiveRandomForestClassifier-drift', 'clf',
        lambda: AdaptiveRandomForestClassifier(n_estimators=2, random_state=1, grace_period=5, split_confidence=.6, lambda_value=2, max_features=None, performance_metric='kappa',
                                               warning_detection_method=DDM(min_num_instances=4, warning_level=.5, out_control_level=.8),
                                               drift_detection_method=DDM(min_num_instances=6, warning_level=.8, out_control_level=1.2)), 'isWpmr')
    add('AdaptiveRandomForestClassifier-plain', 'clf',
        lambda: AdaptiveRandomForestClassifier(n_estimators=3, random_state=1, grace_period=5, split_confidence=.6, lambda_value=1, leaf_prediction='mc',
                                               disable_weighted_vote=True, warning_detection_method=None, drift_detection_method=None, nominal_attributes=[1]), 'isWpmr')
    add('AdaptiveRandomForestRegressor-mean', 'reg',
        lambda: AdaptiveRandomForestRegressor(n_estimators=3, random_state=1, grace_period=5, split_confidence=.6, lambda_value=2, max_features=2, aggregation_method='mean',
                                              weighted_vote_strategy='mse', leaf_prediction='mean', drift_detection_criteria='mae',
                                              warning_detection_method=ADWIN(.9), drift_detection_method=ADWIN(.5)), 'isWr')
    add('AdaptiveRandomForestRegressor', 'reg',
        lambda: AdaptiveRandomForestRegressor(n_estimators=2, random_state=1, grace_period=5, split_confidence=.6, lambda_value=2), 'isWr')
    for tm in ('randompatches', 'randomsubspaces', 'resampling'):
        add('StreamingRandomPatchesClassifier-' + tm, 'clf',
            lambda tm=tm: StreamingRandomPatchesClassifier(NaiveBayes(), n_estimators=2, training_method=tm, lam=2., random_state=1), 'isWpmr')
    add('StreamingRandomPatchesClassifier-drift', 'clf',
        lambda: StreamingRandomPatchesClassifier(ht(leaf_prediction='mc'), n_estimators=2, subspace_mode='m', subspace_size=1, lam=2., random_state=1, nominal_attributes=[1],
                                                 warning_detection_method=PageHinkley(min_instances=4, threshold=.5, alpha=.9),
                                                 drift_detection_method=PageHinkley(min_instances=6, threshold=1., alpha=.9)), 'isWpmr')
    add('BatchIncrementalClassifier', 'bin', lambda: BatchIncrementalClassifier(DecisionTreeClassifier(random_state=0), window_size=4, n_estimators=3), 'ir')
    add('LearnPPClassifier', 'clf', lambda: LearnPPClassifier(DecisionTreeClassifier(random_state=0), n_estimators=2, n_ensembles=2, window_size=6, error_threshold=.95, random_state=1), 'sr')
    add('LearnPPNSEClassifier', 'clf', lambda: LearnPPNSEClassifier(DecisionTreeClassifier(random_state=0), window_size=4, n_estimators=3), 'ipr')
    add('AccuracyWeightedEnsembleClassifier', 'clf', lambda: AccuracyWeightedEnsembleClassifier(n_estimators=2, n_kept_estimators=3, window_size=6, n_splits=2), 'ir')
    add('DynamicWeightedMajorityClassifier', 'clf', lambda: DynamicWeightedMajorityClassifier(n_estimators=3, period=2), 'ir')
    for pr in ('weakest', 'oldest'):
        add('AdditiveExpertEnsembleClassifier-' + pr, 'clf', lambda pr=pr: AdditiveExpertEnsembleClassifier(n_estimators=3, pruning=pr), 'ir')
    # multi-output
    add('MultiOutputLearner', 'ml', lambda: MultiOutputLearner(NaiveBayes()), 'ipr')
    add('MultiOutputLearner-reg', 'mt', lambda: MultiOutputLearner(htr()), 'ir')
    add('ClassifierChain', 'ml', lambda: ClassifierChain(ht(leaf_prediction='mc'), order='random', random_state=2), 'ipsr')
    add('ProbabilisticClassifierChain', 'ml', lambda: ProbabilisticClassifierChain(NaiveBayes(), order=None), 'ir')
    add('MonteCarloClassifierChain', 'ml', lambda: MonteCarloClassifierChain(ht(leaf_prediction='mc'), M=3, random_state=1), 'isqr')
    add('RegressorChain', 'mt', lambda: RegressorChain(htr(), order='random', random_state=2), 'isr')
    # others
    add('PerceptronMask', 'clf', lambda: PerceptronMask(random_state=0), 'iW')
    for gd in ('vanilla', 'adadelta'):
        add('RobustSoftLearningVectorQuantization-' + gd, 'clf',
            lambda gd=gd: RobustSoftLearningVectorQuantization(prototypes_per_class=2, gradient_descent=gd, random_state=1), 'isr')
    add('HalfSpaceTrees', 'anom', lambda: HalfSpaceTrees(window_size=5, depth=3, n_estimators=3, size_limit=1, random_state=1), 'isp')
    return R


# ---------------------------------------------------------------- bounded training material

def words(depth, extra=('AB', 'ABc', 'BAC')):
    """every sequence of up to `depth` blocks, plus long runs that make detectors and trees change their mind"""
    import itertools
    out = [''.join(w) for n in range(depth + 1) for w in itertools.product('abc', repeat=n)]
    return out + [e for e in extra if e not in out]


def train(l, m, rows, **k):
    for r in rows:
        l.fit(m, [r], **k)
    return m


def trained(l, names, **k):
    np.random.seed(0)
    return train(l, l.make(), block(l.task, names), **k)


def trim(P):
    """class probabilities without trailing zero columns (their number may differ between batches while classes are undeclared)"""
    out = []
    for row in P:
        row = list(row) if isinstance(row, (list, tuple)) else row
        if isinstance(row, list) and row and not isinstance(row[0], list):
            while row and row[-1] == 0:
                row = row[:-1]
        out.append(row)
    return out


def norm(ans):
    return [ans[0]] + [trim(a) for a in ans[1:]]


def agree(got, want, tol=1e-9):
    """answers equal, except that a predicted class may differ where the reported probabilities tie within rounding"""
    from mc.core import same
    if len(want) < 2:
        return same(got, want, tol)
    if not same(got[1:], want[1:], tol) or len(got[0]) != len(want[0]):
        return False
    for a, b, P in zip(got[0], want[0], want[1]):
        if not same(a, b, tol):
            try:
                top = max(P)
                if abs(P[int(a)] - top) > tol or abs(P[int(b)] - top) > tol:
                    return False
            except (TypeError, IndexError, ValueError):
                return False
    return True
