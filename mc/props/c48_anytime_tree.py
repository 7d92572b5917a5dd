"""C48: the extremely fast decision tree holds, at every node, the split its re-evaluation rule prescribes."""
import itertools

import numpy as np

from mc.core import canon
from mc.efdtref import EFRef
from mc.props.c24_hoeffding_tree import PRE, QUERY, SYM, UNIVERSE, agrees, observe
from skmultiflow.trees import ExtremelyFastDecisionTreeClassifier

ID = 'C48'
TECHNIQUE = 'explicit enumeration of all training histories on a grid; conformance of the real tree, step by step, to a nondeterministic reference tree'
LEVEL_NOTE = (
    'exhaustive over histories of 3-5 (quick) / 4-6 (thorough) samples from a 5-symbol alphabet after five fixed preambles (a changing best attribute, noise, one branch outweighing all others), for 15 configurations with small '
    'grace and re-evaluation periods; splits, replacements, removals, re-tests and new nominal branches all occur'
)
BOUNDS = {'quick': 'alphabet of 5 weighted samples (2 attributes, 2-3 classes), all histories of length 4-5 from the empty tree and 3-4 after preambles of 5-14 samples; '
                   '15 configurations (leaf predictor x criterion x nominal x binary x ties x periods)',
          'thorough': 'one sample more'}
ASSUMPTIONS = ['candidate thresholds are the 10 equal-width points between the observed extremes and children start with the class weights estimated by the '
               'winning split (as in C24)',
               'a node re-evaluates at every sample once it has seen min_samples_reevaluate since its split was made; when the winner tests the same attribute '
               'the test is refreshed and the branches are kept (as implemented)',
               'numerically tied candidates (1e-9) may be resolved either way']

BASE = dict(grace_period=2, min_samples_reevaluate=2, split_criterion='info_gain', split_confidence=0.3, tie_threshold=0.05, binary_split=False,
            leaf_prediction='mc', nb_threshold=0, nominal_attributes=None)


def cfg(**k):
    return dict(BASE, **k)


CONFIGS = []
for lp in ('mc', 'nb', 'nba'):
    CONFIGS += [cfg(leaf_prediction=lp, nominal_attributes=[1], split_confidence=.9),
                cfg(leaf_prediction=lp, split_confidence=.95, min_samples_reevaluate=1),
                cfg(leaf_prediction=lp, split_criterion='gini', nominal_attributes=[0, 1], split_confidence=.9, min_samples_reevaluate=3)]
CONFIGS += [cfg(leaf_prediction='mc', tie_threshold=.9, split_confidence=.5),
            cfg(leaf_prediction='mc', tie_threshold=2., nominal_attributes=[0, 1]),
            cfg(leaf_prediction='nba', tie_threshold=.6, nominal_attributes=[1], binary_split=True, grace_period=1),
            cfg(leaf_prediction='nb', nb_threshold=3, split_criterion='gini', split_confidence=.99),
            cfg(leaf_prediction='mc', split_confidence=.99, grace_period=1.5, min_samples_reevaluate=2.5, nominal_attributes=[0]),
            cfg(leaf_prediction='mc', split_confidence=.9, grace_period=4, min_samples_reevaluate=6, nominal_attributes=[1])]
# the best attribute changes: first attribute 0 separates the classes, later attribute 1, later none
TURN = (((0., 0.), 0, 1.), ((3., 0.), 1, 1.), ((0., 1.), 0, 1.), ((3., 1.), 1, 1.), ((3., 0.), 0, 2.), ((0., 1.), 1, 2.), ((3., 1.), 1, 1.), ((0., 0.), 0, 1.),
        ((0., 0.), 0, 2.), ((3., 1.), 1, 2.))
NOISE = TURN[:4] + (((0., 0.), 1, 1.), ((3., 0.), 0, 1.), ((0., 1.), 1, 1.), ((3., 1.), 0, 1.), ((0., 0.), 1, 1.), ((3., 0.), 1, 1.), ((0., 1.), 0, 1.), ((1., 1.), 1, 1.))
# a split whose other branches have become negligible: the node is worth nothing and turns into a leaf again
HEAVY = ((0., 0.), 0, 1.), ((3., 0.), 1, 1.), ((0., 0.), 0, 1.), ((3., 0.), 1, 1.), ((0., 0.), 0, 400.), ((0., 0.), 1, 450.)
PRES = dict(PRE, turn=TURN, noise=NOISE, heavy=HEAVY)
del PRES['flat']
MAXALT = 32


def run(name, params, ctx):
    ci, pre, firsts, depth = params
    c = CONFIGS[ci]
    cut, kinds = 0, set()
    for first in firsts:
        for n, rest in enumerate(itertools.product(range(len(SYM)), repeat=depth - 1)):
            hist = list(PRES[pre]) + [SYM[first]] + [SYM[i] for i in rest]
            declared = [0, 1, 2] if n % 2 else None
            ctx.case('ExtremelyFastDecisionTreeClassifier', c, hist, declared)
            tree = ExtremelyFastDecisionTreeClassifier(**c)
            alts = [EFRef(c, UNIVERSE, declared)]
            for k, (x, y, w) in enumerate(hist):
                if w == 1. and n % 3 == 0:
                    tree.partial_fit(np.array([x]), np.array([y]), classes=declared)
                else:
                    tree.partial_fit(np.array([x]), np.array([y]), classes=declared, sample_weight=np.array([w]))
                alts = [b for a in alts for b in a.learn(x, y, w)]
                if k < len(PRES[pre]) - 1 and len(alts) == 1:
                    continue
                P, shape = observe(tree)
                keep = [a for a in alts if agrees(a, P, shape)]
                ctx.step()
                if not keep:
                    a = alts[0]
                    ctx.fail('tree', 'after sample %d: tree %s answers %s; reference %s answers %s (%d alternatives)' % (
                        k, shape, np.round(P, 6).tolist(), a.shape(), [a.proba(q) for q in QUERY], len(alts)))
                    break
                if len(keep) > MAXALT:
                    cut += 1                # too many numerical ties to follow them all
                    break
                alts = keep
            else:
                Y = tree.predict(np.array(QUERY))
                for i in range(len(QUERY)):
                    ctx.check(P[i][int(Y[i])] >= P[i].max() - 1e-9, 'label', lambda: 'label %s for scores %s' % (Y[i], P[i]))
                ctx.state(ci, shape, canon(P, 6))
            for a in alts:
                kinds |= a.done
            ctx.trace()
    ctx.sample({'given_up_after_many_ties': cut, 'decisions_seen': sorted(kinds), 'last': ctx.cur})


def shards(tier):
    q = tier == 'quick'
    out = []
    for ci in range(len(CONFIGS)):
        for pre in PRES:
            if q:
                d = (5 if ci % 5 == 0 else 4) if pre == 'none' else 4 if (ci + len(pre)) % 5 == 0 and len(PRES[pre]) < 9 else 3
                if ci == 11 and pre in ('turn', 'noise'):
                    d = 2                                 # many tied candidates
            else:
                d = 6 if pre == 'none' else 5
            out.append(('c%d-%s' % (ci, pre), (ci, pre, list(range(len(SYM))), d)))
    return out
