"""C45: every deprecated name builds exactly the object its replacement builds from the same arguments."""
import importlib
import inspect
import itertools
import pkgutil
import warnings

import skmultiflow
from mc.props import c21_params as P
from skmultiflow.utils import SlidingWindow
from skmultiflow.utils.data_structures import InstanceWindow

ID = 'C45'
TECHNIQUE = 'exhaustive enumeration of deprecated names x parameters x pairs of parameter values, compared with the directly built replacement'
LEVEL_NOTE = 'all deprecated constructor names still shipped; single parameters and all pairs of parameters over 2-4 values each; behaviour follows from C21 once class and parameters agree'
BOUNDS = {'quick': '27 names, every parameter alone by keyword and by position, every pair of parameters over two values', 'thorough': 'every pair over all values'}
ASSUMPTIONS = ['a deprecated name keeps the parameter names and the defaults of its replacement wherever it has the parameter; the replacement of InstanceWindow only keeps the size']

NAMES = {
    'trees': {'HoeffdingTree': 'HoeffdingTreeClassifier', 'HAT': 'HoeffdingAdaptiveTreeClassifier', 'HATT': 'ExtremelyFastDecisionTreeClassifier',
              'LCHT': 'LabelCombinationHoeffdingTreeClassifier', 'RegressionHoeffdingTree': 'HoeffdingTreeRegressor', 'RegressionHAT': 'HoeffdingAdaptiveTreeRegressor',
              'MultiTargetRegressionHoeffdingTree': 'iSOUPTreeRegressor'},
    'lazy': {'KNN': 'KNNClassifier', 'KNNAdwin': 'KNNADWINClassifier', 'SAMKNN': 'SAMKNNClassifier'},
    'rules': {'VFDR': 'VeryFastDecisionRulesClassifier'},
    'meta': {'AccuracyWeightedEnsemble': 'AccuracyWeightedEnsembleClassifier', 'AdaptiveRandomForest': 'AdaptiveRandomForestClassifier', 'AdditiveExpertEnsemble': 'AdditiveExpertEnsembleClassifier',
             'BatchIncremental': 'BatchIncrementalClassifier', 'DynamicWeightedMajority': 'DynamicWeightedMajorityClassifier', 'LearnNSE': 'LearnPPNSEClassifier', 'LearnPP': 'LearnPPClassifier',
             'LeverageBagging': 'LeveragingBaggingClassifier', 'OnlineAdaC2': 'OnlineAdaC2Classifier', 'OnlineBoosting': 'OnlineBoostingClassifier', 'OnlineCSB2': 'OnlineCSB2Classifier',
             'OnlineRUSBoost': 'OnlineRUSBoostClassifier', 'OnlineSMOTEBagging': 'OnlineSMOTEBaggingClassifier', 'OnlineUnderOverBagging': 'OnlineUnderOverBaggingClassifier',
             'OzaBagging': 'OzaBaggingClassifier', 'OzaBaggingAdwin': 'OzaBaggingADWINClassifier'},
}


def find(pkg, name):
    m = importlib.import_module('skmultiflow.' + pkg)
    if hasattr(m, name):
        return getattr(m, name)
    for i in pkgutil.iter_modules(m.__path__):
        sub = importlib.import_module(m.__name__ + '.' + i.name)
        if hasattr(sub, name):
            return getattr(sub, name)
    raise LookupError(name)


def build(f, *a, **k):
    try:
        return P.quiet(f, *a, **k)
    except Exception as e:
        return 'raises ' + type(e).__name__


def agree(ctx, old, new, what):
    ctx.step()
    if isinstance(old, str) or isinstance(new, str):
        ctx.check(isinstance(old, str) and isinstance(new, str), 'build', lambda: '%s: old name gives %r, new name %r' % (what, old, new))
        return
    if type(old) is not type(new):
        ctx.fail('class', '%s: old name builds a %s, new name a %s' % (what, type(old).__name__, type(new).__name__))
        return
    a, b = old.get_params(deep=False), new.get_params(deep=False)
    for k in b:
        if not P.equal(a.get(k), b[k]):
            ctx.fail('parameter', '%s: parameter %s is %r, with the new name %r' % (what, k, a.get(k), b[k]))


def run(name, params, ctx):
    tier, pkg, n = params
    if n == 'InstanceWindow':
        for size in range(1, 8):
            ctx.case('InstanceWindow', size)
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                a = InstanceWindow(None, max_size=size)
            ctx.check(type(a) is SlidingWindow and a.window_size == size, 'class', lambda: 'got %r' % a)
            ctx.check(any(issubclass(x.category, FutureWarning) for x in w), 'warning', 'no FutureWarning')
            ctx.step()
            ctx.trace()
        return
    f, cls = find(pkg, n), getattr(importlib.import_module('skmultiflow.' + pkg), NAMES[pkg][n])
    old = [p for p in inspect.signature(f).parameters.values()]
    new = {p.name: p for p in P.signature(cls)}
    req = dict(P.BASE[cls])
    ctx.case(n, 'defaults')
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        f(**req)
    ctx.check(any(issubclass(x.category, FutureWarning) for x in w), 'warning', 'no FutureWarning')
    agree(ctx, build(f, **req), build(cls, **req), 'defaults')
    ctx.trace()
    vals = {}
    for p in old:
        if p.name not in new:
            ctx.fail('signature', 'the replacement has no parameter %r' % p.name)
            continue
        vals[p.name] = P.values(cls, new[p.name])
    for i, p in enumerate(old):
        for v in vals.get(p.name, ()):
            ctx.case(n, p.name, v)
            kw = dict(req, **{p.name: v})
            agree(ctx, build(f, **kw), build(cls, **kw), '%s=%r' % (p.name, v))
            lead = [req.get(q.name, q.default) for q in old[:i]]
            if inspect._empty not in lead:
                kw = dict(req, **dict(zip([q.name for q in old[:i]], lead)), **{p.name: v}) if p.name not in req else dict(req, **{p.name: v})
                rest = {k: x for k, x in req.items() if k not in [q.name for q in old[:i + 1]]}
                agree(ctx, build(f, *lead, v, **rest), build(cls, **kw), 'position %d %r' % (i, v))
            ctx.state(n, p.name, repr(v))
            ctx.trace()
    two = (lambda vs: vs[-2:]) if tier == 'quick' else (lambda vs: vs)
    for p, q in itertools.combinations([p for p in old if vals.get(p.name)], 2):
        for v, u in itertools.product(two(vals[p.name]), two(vals[q.name])):
            ctx.case(n, p.name, v, q.name, u)
            kw = dict(req, **{p.name: v, q.name: u})
            agree(ctx, build(f, **kw), build(cls, **kw), '%s=%r %s=%r' % (p.name, v, q.name, u))
            ctx.trace()
    ctx.sample(ctx.cur)


def shards(tier):
    return [(n, (tier, pkg, n)) for pkg in NAMES for n in NAMES[pkg]] + [('InstanceWindow', (tier, 'utils', 'InstanceWindow'))]
