"""C24: the Hoeffding tree classifier is the tree its documented split rule defines."""
import itertools

import numpy as np

from mc.core import same, chunk, canon
from mc.treeref import HTRef
from skmultiflow.trees import HoeffdingTreeClassifier

ID = 'C24'
TECHNIQUE = 'explicit enumeration of all training histories on a grid; conformance of the real tree, step by step, to a nondeterministic reference tree'
LEVEL_NOTE = (
    'exhaustive over histories of 5 (quick) / 6 (thorough) samples from a 5-symbol alphabet after four fixed preambles, for 26 configurations with small grace '
    'periods; byte-size driven memory management is not exercised (default limits)'
)
BOUNDS = {'quick': 'alphabet of 5 weighted samples (2 attributes, 2-3 classes), all histories of length 5 from the empty tree and 4 after preambles of 5-8 samples; '
                   '26 configurations (leaf predictor x criterion x nominal x binary x pre-pruning x poor attributes x ties)',
          'thorough': 'histories of length 6 / 5'}
ASSUMPTIONS = ['candidate thresholds are the 10 equal-width points between the observed extremes and children start with the class weights estimated by the '
               'winning split (as implemented, as in MOA)',
               'numerically tied candidates (1e-9) may be resolved either way',
               'with the default memory limit a pre-pruned leaf is re-activated at once with its class weights only']

BASE = dict(grace_period=2, split_criterion='info_gain', split_confidence=0.3, tie_threshold=0.05, binary_split=False,
            stop_mem_management=False, remove_poor_atts=False, no_preprune=False, leaf_prediction='mc', nb_threshold=0,
            nominal_attributes=None)


def cfg(**k):
    return dict(BASE, **k)


CONFIGS = []
for lp in ('mc', 'nb', 'nba'):
    CONFIGS += [cfg(leaf_prediction=lp, nominal_attributes=[1]),
                cfg(leaf_prediction=lp, grace_period=3, split_confidence=0.9),
                cfg(leaf_prediction=lp, split_criterion='gini', nominal_attributes=[0, 1], split_confidence=0.9),
                cfg(leaf_prediction=lp, tie_threshold=2., nominal_attributes=[1], binary_split=True),
                cfg(leaf_prediction=lp, no_preprune=True, nominal_attributes=[0], split_confidence=0.6)]
CONFIGS += [cfg(leaf_prediction='nb', nb_threshold=3, nominal_attributes=[1], split_confidence=.9),
            cfg(leaf_prediction='mc', remove_poor_atts=True, split_confidence=.9, tie_threshold=0.),
            cfg(leaf_prediction='nba', remove_poor_atts=True, nominal_attributes=[1], split_confidence=.9),
            cfg(leaf_prediction='mc', stop_mem_management=True, tie_threshold=2.),
            cfg(leaf_prediction='nba', stop_mem_management=True, split_confidence=.9, split_criterion='gini'),
            cfg(leaf_prediction='nb', tie_threshold=.9, split_confidence=1e-3, grace_period=1.5),
            cfg(leaf_prediction='mc', split_criterion='hellinger', split_confidence=.9),
            cfg(leaf_prediction='nba', split_criterion='hellinger', nominal_attributes=[1], tie_threshold=2.),
            cfg(leaf_prediction='mc', grace_period=4, tie_threshold=.6, split_confidence=.5),
            cfg(leaf_prediction='mc', nominal_attributes=[0, 1], tie_threshold=2., no_preprune=True),
            cfg(leaf_prediction='mc', split_criterion='gini', tie_threshold=2.)]

SYM = [((0., 0.), 0, 1.), ((1., 1.), 1, 1.), ((3., 0.), 1, 2.), ((0.5, 2.), 0, 1.), ((2., 1.), 2, 1.)]
PRE = {'none': (),
       'sep': (((0., 0.), 0, 1.), ((3., 1.), 1, 1.), ((1., 0.), 0, 1.), ((2., 1.), 1, 1.), ((0., 1.), 0, 1.), ((3., 2.), 1, 1.)),
       'mixed': (((0., 0.), 1, 1.), ((1., 0.), 0, 2.), ((0., 1.), 0, 1.), ((3., 1.), 1, 1.), ((2., 2.), 2, 1.), ((0., 2.), 1, 0.), ((1., 1.), 0, 1.), ((3., 0.), 2, 1.)),
       'flat': (((1., 1.), 0, 1.), ((1., 1.), 1, 1.), ((1., 1.), 0, 1.), ((1., 1.), 0, 1.), ((1., 1.), 1, 1.))}
QUERY = [(0., 0.), (0.6, 1.), (1., 1.), (1.4, 0.), (2., 1.), (3., 0.), (2.6, 2.), (0., 5.), (5., 2.)]
UNIVERSE = QUERY + [s[0] for s in SYM] + [s[0] for p in PRE.values() for s in p]
MAXALT = 64


def observe(tree):
    P = np.asarray(tree.predict_proba(np.array(QUERY)), dtype=float)
    m = tree.model_measurements
    shape = (int(m['Tree size (nodes)'] - m['Tree size (leaves)']), int(m['Tree size (leaves)']), int(m['Active learning nodes']), int(m['Tree depth']))
    return P, shape


def agrees(ref, P, shape):
    if ref.shape() != shape:
        return False
    for i, q in enumerate(QUERY):
        p = ref.proba(q)
        row = P[i]
        if any(c >= len(row) for c in p if p[c] != 0):
            return False
        for c in range(len(row)):
            if abs(row[c] - p.get(c, 0.)) > 1e-7:
                return False
    return True


def run(name, params, ctx):
    ci, pre, firsts, depth = params
    c = CONFIGS[ci]
    cut = 0
    for first in firsts:
        for n, rest in enumerate(itertools.product(range(len(SYM)), repeat=depth - 1)):
            hist = list(PRE[pre]) + [SYM[first]] + [SYM[i] for i in rest]
            declared = [0, 1, 2] if n % 2 else None
            ctx.case('HoeffdingTreeClassifier', c, hist, declared)
            tree = HoeffdingTreeClassifier(**c)
            alts = [HTRef(c, UNIVERSE, declared)]
            for k, (x, y, w) in enumerate(hist):
                if w == 1. and n % 3 == 0:
                    tree.partial_fit(np.array([x]), np.array([y]), classes=declared)
                else:
                    tree.partial_fit(np.array([x]), np.array([y]), classes=declared, sample_weight=np.array([w]))
                alts = [b for a in alts for b in a.learn(x, y, w)]
                if k < len(PRE[pre]) - 1 and len(alts) == 1:
                    continue
                P, shape = observe(tree)
                keep = [a for a in alts if agrees(a, P, shape)]
                ctx.step()
                if not keep:
                    a = alts[0]
                    ctx.fail('tree', 'after sample %d: tree %s answers %s; reference %s answers %s (%d alternatives)' % (
                        k, shape, np.round(P, 6).tolist(), a.shape(), [a.proba(q) for q in QUERY], len(alts)))
                    break
                if len(keep) > MAXALT:
                    cut += 1                # too many numerical ties to follow them all
                    break
                alts = keep
            else:
                Y = tree.predict(np.array(QUERY))
                for i in range(len(QUERY)):
                    ctx.check(P[i][int(Y[i])] >= P[i].max() - 1e-9, 'label', lambda: 'label %s for scores %s' % (Y[i], P[i]))
                ctx.state(ci, shape, canon(P, 6))
            ctx.trace()
    ctx.sample({'given_up_after_many_ties': cut, 'last': ctx.cur})


def shards(tier):
    q = tier == 'quick'
    out = []
    for ci in range(len(CONFIGS)):
        for pre in PRE:
            d = (5 if pre == 'none' else 4) + (0 if q else 1)
            if q and pre == 'none':
                d = 5 if ci % 4 == 0 else 4
            if q and pre != 'none':
                d = 4 if (ci + len(pre)) % 3 == 0 else 3
            out.append(('c%d-%s' % (ci, pre), (ci, pre, list(range(len(SYM))), d)))
    return out
