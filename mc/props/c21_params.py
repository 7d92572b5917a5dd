"""C21: parameters survive get/set/clone and cloning shares nothing."""
import copy
import inspect
import itertools
import os
import tempfile
import warnings

import numpy as np
import pandas as pd

from mc.core import same, canon
from mc import learners as reg
from skmultiflow import data as D
from skmultiflow import drift_detection as DD
from skmultiflow import lazy, bayes, trees, meta, rules, neural_networks, prototype, anomaly_detection, transform
from skmultiflow.core import clone
from skmultiflow.core.pipeline import Pipeline
from skmultiflow.trees.arf_hoeffding_tree import ARFHoeffdingTreeClassifier
from skmultiflow.trees.arf_hoeffding_tree_regressor import ARFHoeffdingTreeRegressor

ID = 'C21'
TECHNIQUE = 'exhaustive enumeration of public classes x parameter variations x set/clone/use operation orders on the real objects'
LEVEL_NOTE = (
    'every public estimator, stream, detector and transformer class; every constructor parameter varied singly over the listed values; for behaviour and sharing, every order of '
    'use/clone/set operations up to length 3 (4 thorough) on two live objects, compared with independently constructed objects after the same uses'
)
BOUNDS = {'quick': '69 classes, every parameter with 2-4 values, constructor / set_params / clone read-back; all operation orders of length 3 for every registered learner, generator, detector and transformer',
          'thorough': 'operation orders of length 4'}
ASSUMPTIONS = ['an object parameter (estimator, detector, stream) reads back as the object given; a clone holds an equal but separate object',
               'parameters documented to be completed by the constructor when None is given (default streams, list-valued missing values) may read back completed',
               'objects are seeded; evaluators (which own windows and files) are not cloned']

NB, HT = bayes.NaiveBayes, trees.HoeffdingTreeClassifier

# class: required/base arguments
BASE = {
    D.AGRAWALGenerator: {}, D.AnomalySineGenerator: {}, D.ConceptDriftStream: {}, D.HyperplaneGenerator: {}, D.LEDGenerator: {}, D.LEDGeneratorDrift: {},
    D.MIXEDGenerator: {}, D.MultilabelGenerator: dict(n_samples=20), D.RandomRBFGenerator: {}, D.RandomRBFGeneratorDrift: {}, D.RandomTreeGenerator: {}, D.RegressionGenerator: dict(n_samples=20),
    D.SEAGenerator: {}, D.SineGenerator: {}, D.STAGGERGenerator: {}, D.WaveformGenerator: {},
    DD.ADWIN: {}, DD.DDM: {}, DD.EDDM: {}, DD.HDDM_A: {}, DD.HDDM_W: {}, DD.KSWIN: {}, DD.PageHinkley: {},
    lazy.KNNClassifier: {}, lazy.KNNADWINClassifier: {}, lazy.KNNRegressor: {}, lazy.SAMKNNClassifier: {}, bayes.NaiveBayes: {},
    trees.HoeffdingTreeClassifier: {}, trees.HoeffdingAdaptiveTreeClassifier: {}, trees.ExtremelyFastDecisionTreeClassifier: {},
    trees.LabelCombinationHoeffdingTreeClassifier: dict(n_labels=2), trees.HoeffdingTreeRegressor: {}, trees.HoeffdingAdaptiveTreeRegressor: {},
    trees.iSOUPTreeRegressor: {}, trees.StackedSingleTargetHoeffdingTreeRegressor: {}, ARFHoeffdingTreeClassifier: {}, ARFHoeffdingTreeRegressor: {},
    meta.AdaptiveRandomForestClassifier: {}, meta.AdaptiveRandomForestRegressor: {}, meta.BatchIncrementalClassifier: {}, meta.LeveragingBaggingClassifier: {},
    meta.OzaBaggingClassifier: {}, meta.OzaBaggingADWINClassifier: {}, meta.ClassifierChain: {}, meta.ProbabilisticClassifierChain: {}, meta.MonteCarloClassifierChain: {},
    meta.RegressorChain: {}, meta.MultiOutputLearner: {}, meta.LearnPPClassifier: {}, meta.LearnPPNSEClassifier: {}, meta.AccuracyWeightedEnsembleClassifier: {},
    meta.DynamicWeightedMajorityClassifier: {}, meta.AdditiveExpertEnsembleClassifier: {}, meta.OnlineSMOTEBaggingClassifier: {}, meta.OnlineRUSBoostClassifier: {},
    meta.OnlineCSB2Classifier: {}, meta.OnlineAdaC2Classifier: {}, meta.OnlineUnderOverBaggingClassifier: {}, meta.OnlineBoostingClassifier: {},
    meta.StreamingRandomPatchesClassifier: {}, rules.VeryFastDecisionRulesClassifier: {}, neural_networks.PerceptronMask: {},
    prototype.RobustSoftLearningVectorQuantization: {}, anomaly_detection.HalfSpaceTrees: {},
    transform.MissingValuesCleaner: {}, transform.OneHotToCategorical: dict(categorical_list=[[0, 1], [2, 3]]), transform.WindowedMinmaxScaler: {}, transform.WindowedStandardScaler: {},
}

TREE_LP = ('mc', 'nb', 'nba')
OPTIONS = {  # values for parameters whose type alone does not tell
    'random_state': (None, 3, 11), 'sample_random_state': (None, 3), 'model_random_state': (None, 3), 'tree_random_state': (None, 3),
    'nominal_attributes': (None, [0], [0, 2]), 'split_criterion': {None: ('info_gain', 'gini', 'hellinger')},
    'leaf_prediction': {None: TREE_LP}, 'metric': ('euclidean', 'manhattan'), 'performance_metric': ('acc', 'kappa'),
    'max_features': ('auto', 'sqrt', 'log2', 2, 0.5, None), 'classification_function': (0, 1, 2), 'order': (None, 'random', [1, 0]),
    'aggregation_method': ('mean', 'median'), 'weighted_vote_strategy': (None, 'mse', 'mae'), 'drift_detection_criteria': ('mse', 'mae', 'predictions'),
    'subspace_mode': ('m', 'sqrtM1', 'MsqrtM1', 'percentage'), 'training_method': ('randomsubspaces', 'resampling', 'randompatches'),
    'leverage_algorithm': ('leveraging_bag', 'leveraging_bag_me', 'leveraging_bag_half', 'leveraging_bag_wt', 'leveraging_subag'),
    'pruning': ('weakest', 'oldest'), 'rule_prediction': ('first_hit', 'weighted_max', 'weighted_sum'), 'expand_criterion': ('info_gain', 'hellinger', 'foil_gain'),
    'gradient_descent': ('vanilla', 'adadelta'), 'strategy': ('zero', 'mean', 'median', 'mode', 'custom'), 'missing_value': ([np.nan], [0, -1]), 'new_value': (1, 7),
    'stm_size_option': ('maxACC', 'maxACCApprox'), 'weighting': ('distance', 'uniform'),
    'drift_detection_method': {None: lambda: (DD.ADWIN(0.02), DD.PageHinkley(min_instances=5), None)}, 'warning_detection_method': {None: lambda: (DD.ADWIN(0.03), DD.PageHinkley(min_instances=4), None)},
    'stream': lambda: (D.SEAGenerator(random_state=1),), 'drift_stream': lambda: (D.SEAGenerator(random_state=2, classification_function=1),),
    'alpha': (0.1, 0.2), 'data': (None,), 'initial_prototypes': (None,), 'prototypes_per_class': (1, 2), 'categorical_list': ([[0, 1]], [[1, 2], [3, 4]]),
    'loss': (), 'solver': (), 'estimator': lambda: (NB(),), 'n_labels': (2, 3), 'algorithm': (1, 2, 3), 'penalty': (None, 'l2'), 'noise_percentage': (0., .2),
    'drift_detector': lambda: (None, DD.ADWIN(0.02)), 'class_weight': (None, 'balanced'), 'n_values': (None,),
    'ccp': (), 'weights': (), 'contextual': (False, True), 'replace': (True, False), 'min_leaf_depth': (2,), 'width': (10, 500), 'position': (4, 100),
}
SPECIFIC = {
    ('HoeffdingTreeRegressor', 'leaf_prediction'): ('mean', 'perceptron'), ('HoeffdingAdaptiveTreeRegressor', 'leaf_prediction'): ('mean', 'perceptron'),
    ('ARFHoeffdingTreeRegressor', 'leaf_prediction'): ('mean', 'perceptron'), ('AdaptiveRandomForestRegressor', 'leaf_prediction'): ('mean', 'perceptron'),
    ('iSOUPTreeRegressor', 'leaf_prediction'): ('mean', 'perceptron', 'adaptive'), ('StackedSingleTargetHoeffdingTreeRegressor', 'leaf_prediction'): ('perceptron', 'adaptive'),
    ('HoeffdingTreeRegressor', 'split_criterion'): (), ('ConceptDriftStream', 'alpha'): (None, 20.), ('StreamingRandomPatchesClassifier', 'drift_detection_method'): lambda: (DD.ADWIN(0.02), DD.PageHinkley(min_instances=5)),
    ('StreamingRandomPatchesClassifier', 'warning_detection_method'): lambda: (DD.ADWIN(0.02),), ('PerceptronMask', 'alpha'): (0.0001, 0.01), ('PerceptronMask', 'random_state'): (0, 4),
    ('MIXEDGenerator', 'classification_function'): (0, 1), ('LeveragingBaggingClassifier', 'order'): (), ('HDDM_W', 'lambda_option'): (0.05, 0.2),
    ('OnlineBoostingClassifier', 'drift_detection'): (True, False), ('NaiveBayes', 'nominal_attributes'): (None, [0], [1, 2]),
    ('AccuracyWeightedEnsembleClassifier', 'base_estimator'): lambda: (NB(), HT(grace_period=7)),
    ('RegressorChain', 'base_estimator'): lambda: (trees.HoeffdingTreeRegressor(grace_period=9), lazy.KNNRegressor(n_neighbors=2)),
    ('ConceptDriftStream', 'width'): (10, 500), ('SAMKNNClassifier', 'max_window_size'): (200, 5000), ('RandomTreeGenerator', 'max_tree_depth'): (4, 5),
    ('KSWIN', 'window_size'): (100, 60), ('KSWIN', 'stat_size'): (30, 20), ('HyperplaneGenerator', 'sigma_percentage'): (0.1, 0.3),
    ('AnomalySineGenerator', 'n_samples'): (10000, 500), ('AnomalySineGenerator', 'n_anomalies'): (2500, 20), ('LEDGeneratorDrift', 'n_drift_features'): (0, 3),
    ('VeryFastDecisionRulesClassifier', 'drift_detector'): lambda: (None, DD.ADWIN(0.02)),
    ('DDM', 'min_num_instances'): (30, 5),
}


def values(cls, p):
    for key in ((cls.__name__, p.name), p.name):
        v = SPECIFIC.get(key) if isinstance(key, tuple) else OPTIONS.get(key)
        if v is not None:
            if isinstance(v, dict):
                v = v[None]
            return tuple(v()) if callable(v) else v
    d = BASE[cls].get(p.name, p.default)
    if p.name == 'base_estimator':
        return (NB(), HT(grace_period=17), lazy.KNNClassifier(n_neighbors=3))
    if isinstance(d, bool):
        return (False, True)
    if isinstance(d, int):
        return (d, d + 1, max(1, d // 2))
    if isinstance(d, float):
        return (d, d * .5, d * .5 + .001)
    return () if d is inspect._empty else (d,)


def equal(got, want):
    if got is want:
        return True
    if hasattr(want, 'get_params'):
        return type(got) is type(want) and all(equal(got.get_params(False).get(k), v) for k, v in want.get_params(False).items())
    try:
        return bool(same(got, want))
    except Exception:
        return False


def default_ok(cls, name, got, want, kw):
    """documented completions of None"""
    if cls is D.ConceptDriftStream and name in ('stream', 'drift_stream') and want is None:
        return isinstance(got, D.AGRAWALGenerator)
    if cls is D.ConceptDriftStream and name == 'width':
        return kw.get('alpha') is not None
    if cls is transform.MissingValuesCleaner and name == 'missing_value':
        return list(np.ravel(got)) == list(np.ravel(want)) or same(list(np.ravel(got)), list(np.ravel(want)))
    if cls is rules.VeryFastDecisionRulesClassifier:
        # "if empty, all attributes are numerical"; an ordered rule set announces that it uses the first hit
        return (name == 'nominal_attributes' and want is None and list(got) == []) or \
            (name == 'rule_prediction' and got == 'first_hit' and kw.get('ordered_rules', True))
    return False


def quiet(f, *a, **k):
    import contextlib
    import io
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        return f(*a, **k)


def signature(cls):
    return [p for p in list(inspect.signature(cls.__init__).parameters.values())[1:] if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]


def run_read(cls, ctx):
    name = cls.__name__
    sig = signature(cls)
    want0 = {p.name: BASE[cls].get(p.name, p.default) for p in sig}
    plans = [({}, None)]
    for p in sig:
        for v in values(cls, p):
            plans.append(({p.name: v}, p.name))
    for kw, varied in plans:
        kw = dict(BASE[cls], **kw)
        ctx.case('construct', name, {k: repr(v)[:80] for k, v in kw.items()})
        try:
            o = quiet(cls, **kw)
        except ValueError:
            continue                    # rejected by the constructor's own validation
        ctx.step()
        ctx.trace()
        ctx.state(name, sorted((k, repr(v)[:80]) for k, v in kw.items()))
        got = o.get_params(deep=False)
        want = dict(want0, **kw)
        ctx.check(set(got) == set(want), 'names/' + name, lambda: 'parameters %s, constructor takes %s' % (sorted(got), sorted(want)))
        for k in want:
            if k in got and not equal(got[k], want[k]) and not default_ok(cls, k, got[k], want[k], kw):
                ctx.fail('read/%s.%s' % (name, k), '%s(%s): %s reads back as %r, not %r' % (name, kw, k, got[k], want[k]))
            elif hasattr(want[k], 'get_params') and k in kw:
                deep = o.get_params(deep=True)
                for s, v in want[k].get_params(deep=False).items():
                    ctx.check(equal(deep.get('%s__%s' % (k, s)), v), 'deep/%s.%s' % (name, k), lambda: '%s__%s reads %r, not %r' % (k, s, deep.get('%s__%s' % (k, s)), v))
        # clone of the unfitted object
        try:
            c = quiet(clone, o)
        except Exception as e:
            ctx.fail('clone/%s: %s' % (name, str(e)[:70]), 'clone(%s(%s)) raises %s' % (name, kw, repr(e)[:200]))
            continue
        ctx.check(type(c) is cls, 'clone-type/' + name, lambda: 'clone is a %s' % type(c).__name__)
        cp = c.get_params(deep=False)
        for k in got:
            ctx.check(equal(cp.get(k), got[k]), 'clone-param/%s.%s' % (name, k), lambda: '%s: clone has %r, original %r' % (k, cp.get(k), got[k]))
            if hasattr(got[k], 'get_params') or isinstance(got[k], (list, dict, set, np.ndarray)):
                ctx.check(cp.get(k) is not got[k], 'clone-shares/%s.%s' % (name, k), lambda: 'the clone holds the original\'s %s object' % k)
        # set on a default object, read back, other parameters untouched, and clone it
        if varied and not (cls is D.ConceptDriftStream and varied == 'alpha'):      # alpha is documented to replace the width
            t = quiet(cls, **BASE[cls])
            before = t.get_params(deep=False)
            r = t.set_params(**{varied: kw[varied]})
            ctx.check(r is t, 'set-returns/' + name, lambda: 'set_params returns %r' % (r,))
            after = t.get_params(deep=False)
            ctx.check(equal(after[varied], kw[varied]) or default_ok(cls, varied, after[varied], kw[varied], dict(BASE[cls])), 'set/%s.%s' % (name, varied), lambda: 'set %s=%r, reads back %r' % (varied, kw[varied], after[varied]))
            for k in after:
                if k != varied:
                    ctx.check(equal(after[k], before[k]), 'set-other/%s.%s' % (name, varied), lambda: 'setting %s changed %s from %r to %r' % (varied, k, before[k], after[k]))
            if equal(got[varied], kw[varied]):
                try:
                    c2 = quiet(clone, t)
                except Exception as e:
                    ctx.fail('clone/%s: %s' % (name, str(e)[:70]), 'clone after set_params(%s=%r) raises %s' % (varied, kw[varied], repr(e)[:200]))
                    continue
                ctx.check(equal(c2.get_params(False)[varied], kw[varied]), 'set-clone/%s.%s' % (name, varied),
                          lambda: 'set %s=%r, the clone has %r' % (varied, kw[varied], c2.get_params(False)[varied]))
            if hasattr(kw[varied], 'get_params') and kw[varied].get_params(False):
                s, v = sorted(kw[varied].get_params(False).items())[0]
                inner = copy.deepcopy(kw[varied])
                t.set_params(**{varied: inner})
                t.set_params(**{'%s__%s' % (varied, s): v})
                ctx.check(equal(t.get_params(True)['%s__%s' % (varied, s)], v), 'set-nested/%s' % name, lambda: 'nested %s__%s' % (varied, s))
        for bad in ('no_such_parameter',):
            ok = False
            try:
                o.set_params(**{bad: 1})
            except ValueError:
                ok = True
            ctx.check(ok, 'set-unknown/' + name, lambda: 'an unknown parameter was accepted')


# ---------------------------------------------------------------- behaviour and sharing of clones

class Subject:
    """uses: list of callables(obj) -> observation; probe(obj) -> observation that does not change obj"""

    def __init__(self, make, uses, probe):
        self.make, self.uses, self.probe = make, uses, probe


def learner_subject(l):
    rows = reg.material(l) if hasattr(reg, 'material') else None
    return l


def subjects():
    out = {}
    for l in reg.registry():
        if l.name == 'OnlineSMOTEBaggingClassifier':
            continue                    # known finding: its seed does not survive, so a clone is not seeded at all
        A, B = use_rows(l)
        out['learner:' + l.name] = Subject(l.make, [lambda o, l=l, r=A: l.fit(o, r) and None, lambda o, l=l, r=B: l.fit(o, r) and None],
                                           lambda o, l=l: answer(l, o))
    from mc.genkit import configs
    for name, build in configs('quick'):
        if name.endswith('seed1'):
            out['stream:' + name] = Subject(build, [lambda o: canon(o.next_sample(3), 9), lambda o: canon(o.next_sample(1), 9), lambda o: (o.restart(), None)[1]],
                                            lambda o: canon(copy.deepcopy(o).next_sample(2), 9) if o.has_more_samples() and o.n_remaining_samples() not in (0, 1) else None)
    for name, make in (('ADWIN', lambda: DD.ADWIN(.3)), ('DDM', lambda: DD.DDM(3)), ('EDDM', lambda: DD.EDDM()), ('HDDM_A', lambda: DD.HDDM_A(.2, .3)),
                       ('HDDM_W', lambda: DD.HDDM_W(.2, .3)), ('PageHinkley', lambda: DD.PageHinkley(3, 0, 1.)), ('KSWIN', lambda: DD.KSWIN(.1, 8, 3, data=None))):
        def feed(vals):
            def f(o):
                np.random.seed(4)
                r = []
                for v in vals:
                    o.add_element(v)
                    r.append((bool(o.detected_change()), bool(o.detected_warning_zone())))
                return tuple(r)
            return f
        long0, long1 = [0] * 12 + [1] * 9, [1, 0, 1, 1] * 3
        out['detector:' + name] = Subject(make, [feed(long0), feed(long1)], lambda o, f=feed([1, 1, 0, 1, 0, 0]): f(copy.deepcopy(o)))
    X1, X2 = np.array([[1., 2.], [3., np.nan]]), np.array([[5., -1.], [0., 4.]])
    for name, make in (('MissingValuesCleaner', lambda: transform.MissingValuesCleaner(np.nan, 'mean', 3)), ('WindowedMinmaxScaler', lambda: transform.WindowedMinmaxScaler(4)),
                       ('WindowedStandardScaler', lambda: transform.WindowedStandardScaler(4))):
        Xa = X1 if name.startswith('Missing') else np.nan_to_num(X1)
        out['transform:' + name] = Subject(make, [lambda o, X=Xa: canon(quiet(o.partial_fit_transform, X.copy()), 9), lambda o: canon(quiet(o.partial_fit_transform, X2.copy()), 9)],
                                           lambda o, X=Xa: canon(quiet(copy.deepcopy(o).partial_fit_transform, X.copy()), 9))
    return out


def answer(l, o):
    try:
        return canon(np.asarray(quiet(copy.deepcopy(o).predict, QX(l)), dtype=float), 9)
    except Exception as e:              # several learners refuse to predict before training; both objects must then do so
        return 'raises ' + type(e).__name__


def use_rows(l):
    if l.task in ('clf', 'bin', 'anom'):
        k = 3 if l.task == 'clf' else 2
        pts = [((0., 0.), 0), ((1., 1.), 1), ((2., 0.), 2 % k), ((3., 1.), 1), ((0., 1.), 0), ((2., 2.), 1), ((1., 0.), 0), ((3., 2.), 2 % k)]
    elif l.task == 'ml':
        pts = [((0., 0.), (0, 1)), ((1., 1.), (1, 1)), ((2., 0.), (0, 0)), ((3., 1.), (1, 0)), ((0., 1.), (0, 1)), ((2., 2.), (1, 1))]
    elif l.task == 'reg':
        pts = [((0., 0.), 1.), ((1., 1.), 4.), ((2., 0.), -2.), ((3., 1.), .5), ((0., 1.), 2.), ((2., 2.), 3.)]
    else:
        pts = [((0., 0.), (1., 2.)), ((1., 1.), (4., 0.)), ((2., 0.), (-2., 1.)), ((3., 1.), (.5, 5.)), ((0., 1.), (2., 2.)), ((2., 2.), (3., 1.))]
    return pts, list(reversed(pts))[:5] + pts[:1]


def QX(l):
    return np.array([(0., 0.), (1., 1.), (2.5, 0.), (.5, 2.)])


def run_orders(key, depth, ctx):
    s = subjects()[key]
    ops = ['u%d.%s' % (i, w) for i in range(len(s.uses)) for w in 'ab'] + ['clone', 'set.a']
    for word in itertools.product(ops, repeat=depth):
        if 'clone' not in word:
            continue
        ctx.case(key, word)
        # hist: uses since construction/cloning, for objects a (original) and b (latest clone)
        a, b = quiet(s.make), None
        ha, hb = [], None
        legal = True
        for op in word:
            if op == 'clone':
                try:
                    b, hb = quiet(clone, a), []
                except Exception as e:
                    ctx.fail('clone/%s: %s' % (type(a).__name__, str(e)[:70]), '%s: clone raises %s' % (key, repr(e)[:250]))
                    legal = False
                    break
            elif op == 'set.a':
                p = a.get_params(deep=False)
                quiet(a.set_params, **{k: v for k, v in p.items() if type(v) in (int, float, bool, str)})
                q = a.get_params(deep=False)
                if set(p) != set(q) or not all(equal(q[k], p[k]) for k in p):
                    ctx.fail('set-same/%s' % key, 'writing the read parameters back changed them')
            else:
                i, w = int(op[1]), op[-1]
                o, h = (a, ha) if w == 'a' else (b, hb)
                if o is None:
                    legal = False
                    break
                try:
                    quiet(s.uses[i], o)
                except Exception as e:
                    ctx.fail('use/%s: %s' % (key, e), '%s: using the %s raises %s' % (key, 'original' if w == 'a' else 'clone', repr(e)[:250]))
                    legal = False
                    break
                h.append(i)
            ctx.step()
        if not legal:
            continue
        for who, o, h in (('original', a, ha), ('clone', b, hb)):
            f, f0 = quiet(s.make), quiet(s.make)
            for i in h:
                quiet(s.uses[i], f)
            try:
                x = quiet(s.probe, o)
            except Exception as e:
                ctx.fail('use/%s: %s' % (key, e), '%s: using the %s raises %s' % (key, who, repr(e)[:250]))
                break
            y = quiet(s.probe, f)
            pf = f0.get_params(False)
            for k, v in o.get_params(False).items():
                ctx.check(equal(v, pf[k]), 'drifted/%s.%s' % (type(o).__name__, k), lambda: 'after uses %s the %s reports %s=%r, it was constructed with %r' % (h, who, k, v, pf[k]))
            ctx.check(x == y, 'behave/%s' % key, lambda: 'the %s after uses %s answers %s, a new object after the same uses %s' % (who, h, x, y))
            ctx.state(key, who, tuple(h), x)
        ctx.trace()
    ctx.sample(ctx.cur)


def run(name, params, ctx):
    if params[0] == 'read':
        cls = {c.__name__: c for c in BASE}[params[1]]
        run_read(cls, ctx)
        ctx.sample(ctx.cur)
    else:
        run_orders(params[1], params[2], ctx)


def shards(tier):
    d = 3 if tier == 'quick' else 4
    return [('read-' + c.__name__, ('read', c.__name__)) for c in BASE] + [('orders-' + k, ('orders', k, d)) for k in subjects()]
