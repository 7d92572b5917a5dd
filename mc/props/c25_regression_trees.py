"""C25: the Hoeffding regression trees are the trees their documented split rule defines."""
import itertools
import warnings

import numpy as np

from mc.core import canon
from mc.regref import RegRef, merit, minus, tri
from skmultiflow.trees import HoeffdingTreeRegressor, iSOUPTreeRegressor, StackedSingleTargetHoeffdingTreeRegressor
from skmultiflow.trees._attribute_observer import NumericAttributeRegressionObserver
from skmultiflow.trees._split_criterion import IntraClusterVarianceReductionSplitCriterion, VarianceReductionSplitCriterion

ID = 'C25'
TECHNIQUE = 'explicit enumeration of all weighted training histories on a grid; conformance of the real tree, step by step, to a nondeterministic reference tree'
LEVEL_NOTE = (
    'exhaustive over histories of 4-5 (quick) / 5-6 (thorough) weighted samples from a 6-symbol alphabet after fixed preambles, for 24 configurations of the three regression trees; '
    'once a failed split attempt may have discarded split candidates (the trees\' memory saving approximation) the comparison of that history ends (the discarding itself is explored separately on the candidate table); '
    'byte-size driven memory management is not exercised (default limits)'
)
BOUNDS = {'quick': 'alphabet of 6 weighted samples (2 attributes, weights 1..6 incl. fractional), all histories of length 4-5 from the empty tree and 3-4 after two preambles; '
                   '24 configurations (family x leaf predictor x nominal x binary x pre-pruning x poor attributes x ties); candidate tables of 8 insertions in 30 of 120 orders, 3 discarding thresholds, 36 continuations',
          'thorough': 'one sample longer; all 120 orders'}
ASSUMPTIONS = ['a branch needs a weight of at least 5 for a split to have merit; the spread is the standard deviation (one target) or the mean variance over the targets (several)',
               'numeric candidates are x <= v for every value v seen in the leaf; samples inherited from the parent split count as not satisfying the condition (as implemented)',
               'numerically tied candidates (1e-9) may be resolved either way',
               'a failed attempt whose ratio test exceeds twice the bound may discard candidates: not compared any further']

BASE = dict(grace_period=5, split_confidence=1e-4, tie_threshold=0.05, binary_split=False, remove_poor_atts=False, no_preprune=False,
            leaf_prediction='mean', nominal_attributes=None, learning_ratio_perceptron=0.3, learning_ratio_decay=0.1, learning_ratio_const=True, random_state=7)
CLS = {'htr': HoeffdingTreeRegressor, 'isoup': iSOUPTreeRegressor, 'sst': StackedSingleTargetHoeffdingTreeRegressor}


def cfg(fam, **k):
    return fam, dict(BASE, **k)


CONFIGS = [
    cfg('htr'), cfg('htr', nominal_attributes=[1]), cfg('htr', nominal_attributes=[1], binary_split=True, tie_threshold=2.),
    cfg('htr', tie_threshold=2.), cfg('htr', tie_threshold=2., nominal_attributes=[0, 1], no_preprune=True),
    cfg('htr', grace_period=7.5, split_confidence=1e-3), cfg('htr', remove_poor_atts=True, split_confidence=.5, nominal_attributes=[0, 1], grace_period=10, binary_split=True),
    cfg('htr', split_confidence=.2, nominal_attributes=[0, 1], grace_period=10), cfg('htr', split_confidence=1e-3, tie_threshold=.55, nominal_attributes=[1]),
    cfg('htr', leaf_prediction='perceptron', nominal_attributes=[1]), cfg('htr', leaf_prediction='perceptron', tie_threshold=2., learning_ratio_const=False),
    cfg('isoup'), cfg('isoup', nominal_attributes=[1], tie_threshold=2.), cfg('isoup', tie_threshold=2., binary_split=True, nominal_attributes=[0]),
    cfg('isoup', remove_poor_atts=True, split_confidence=.5, nominal_attributes=[0, 1], grace_period=10), cfg('isoup', split_confidence=.2, no_preprune=True, nominal_attributes=[0, 1]),
    cfg('isoup', leaf_prediction='perceptron', tie_threshold=2.), cfg('isoup', leaf_prediction='perceptron', nominal_attributes=[1], learning_ratio_const=False),
    cfg('isoup', leaf_prediction='adaptive', tie_threshold=2., nominal_attributes=[1]), cfg('isoup', leaf_prediction='adaptive'),
    cfg('sst', leaf_prediction='perceptron', tie_threshold=2.), cfg('sst', leaf_prediction='perceptron', nominal_attributes=[1]),
    cfg('sst', leaf_prediction='adaptive', tie_threshold=2., nominal_attributes=[1]), cfg('sst', leaf_prediction='adaptive', learning_ratio_const=False)]

SYM = [((0., 0.), (1., 2.), 5.), ((1., 1.), (4., 2.), 5.), ((2., 0.), (4., -1.), 3.), ((.5, 2.), (2., 0.), 2.5), ((1., 2.), (-3., 1.), 6.), ((0., 1.), (1.5, 5.), 1.)]
PRE = {'none': (),
       'sep': (((0., 0.), (1., 1.), 3.), ((2., 1.), (5., 0.), 3.), ((1., 0.), (1., 1.), 3.), ((3., 1.), (6., 0.), 3.)),
       'mix': (((0., 0.), (2., -1.), 4.), ((2., 1.), (2.5, 3.), 4.), ((1., 2.), (-1., 0.), 0.), ((3., 2.), (0., 1.), 4.5), ((.5, 1.), (3., 3.), 5.), ((2., 0.), (3., -1.), 2.)),
       'deep': (((0., 0.), (0., 0.), 5.), ((2., 1.), (8., 4.), 5.), ((0., 0.), (0., 1.), 5.), ((.5, 1.), (3., 1.), 5.), ((2., 0.), (8., 3.), 6.))}
QUERY = [(0., 0.), (.5, 1.), (.7, 2.), (1., 1.), (1.4, 0.), (2., 2.), (2.5, 1.), (4., 0.), (0., 5.), (2., 5.)]
UNIVERSE = QUERY + [s[0] for s in SYM] + [s[0] for p in PRE.values() for s in p]


def observe(tree, k):
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        P = np.asarray(tree.predict(np.array(QUERY)), dtype=float)
    m = tree.model_measurements
    return P.reshape(len(QUERY), -1), (int(m['Tree size (nodes)'] - m['Tree size (leaves)']), int(m['Tree size (leaves)']),
                                       int(m['Active learning nodes']), int(m['Tree depth']))


def agrees(ref, P, shape):
    if ref.shape() != shape or P.shape[1] != ref.k:
        return False
    for i, q in enumerate(QUERY):
        for t, opts in enumerate(ref.answer(q)):
            if not any(abs(P[i][t] - o) <= 1e-7 * max(1., abs(o)) for o in opts):
                return False
    return True


# ---------------------------------------------------------------- the table of numeric split candidates, with discarding
class Entry:
    def __init__(self, v, s):
        self.v, self.own, self.kids = v, [s], [None, None]


class Candidates:
    """Reference: a binary search tree of values; every entry keeps the samples that reached it and were not larger."""

    def __init__(self, kind):
        self.kind, self.root, self.all = kind, None, []

    def add(self, v, y, w):
        s = ((v,), y, w)
        self.all.append(s)
        if self.root is None:
            self.root = Entry(v, s)
            return
        e = self.root
        while True:
            if v <= e.v:
                e.own.append(s)
            if v == e.v:
                return
            side = 0 if v < e.v else 1
            if e.kids[side] is None:
                e.kids[side] = Entry(v, s)
                return
            e = e.kids[side]

    def merits(self, e='root', acc=()):
        """[(value, merit, left part)] in ascending order"""
        e = self.root if e == 'root' else e
        if e is None:
            return []
        pre = tri(self.all)
        left = tri(list(acc) + e.own)
        return (self.merits(e.kids[0], acc) + [(e.v, merit(self.kind, pre, [left, minus(pre, left)]), left)]
                + self.merits(e.kids[1], tuple(acc) + tuple(e.own)))

    def prune(self, ratio, top, e_, e='root', acc=()):
        """Drops hopeless values, leaves first: an entry goes when nothing is left below it and its merit ratio is more than two bounds
        below the runner-up's.  None = rounding decides."""
        if e == 'root':
            r = self.prune(ratio, top, e_, self.root)
            if r:
                self.root = None
            return r
        for side in (0, 1):
            if e.kids[side] is not None:
                r = self.prune(ratio, top, e_, e.kids[side], acc if side == 0 else tuple(acc) + tuple(e.own))
                if not r:
                    return r
                e.kids[side] = None
        pre = tri(self.all)
        left = tri(list(acc) + e.own)
        gap = merit(self.kind, pre, [left, minus(pre, left)]) / top - (ratio - 2 * e_)
        return None if abs(gap) < 1e-9 else gap < 0


TARGETS = {'step': lambda v, i: (v > 1.5) * 4. + .25 * i, 'saw': lambda v, i: (v * 3 + i) % 4 - 1., 'bend': lambda v, i: abs(v - 2.) + .5 * (i % 2)}


def observer(params, ctx):
    kind, target, orders = params
    crit = VarianceReductionSplitCriterion() if kind == 'sd' else IntraClusterVarianceReductionSplitCriterion()
    y = TARGETS[target]
    val = (lambda v, i: (y(v, i),)) if kind == 'sd' else (lambda v, i: (y(v, i), v - y(v, i)))
    raw = (lambda t: t[0]) if kind == 'sd' else np.array

    def compare(ob, ref, what):
        pre = tri(ref.all)
        got = ob.get_best_evaluated_split_suggestion(crit, {0: pre[0], 1: raw(pre[1]), 2: raw(pre[2])}, 3)
        want = ref.merits()
        top = max(m for _, m, _ in want)
        ctx.step()
        ctx.check(abs(got.merit - top) < 1e-9, 'observer/merit', lambda: '%s: best merit %r, candidates %r' % (what, got.merit, want))
        hit = [l for v, m, l in want if m >= top - 1e-9 and all(got.split_test.branch_for_instance([0, 0, 0, q]) == (0 if q <= v else 1)
                                                               for q in np.arange(-1, 6, .25))]
        parts = got.resulting_stats_from_split(0), got.resulting_stats_from_split(1)
        ok = any(all(abs(np.ravel(parts[0][k])[t] - np.ravel(l[k])[t]) < 1e-9 and abs(np.ravel(parts[1][k])[t] - np.ravel(minus(pre, l)[k])[t]) < 1e-9
                     for k in range(3) for t in range(np.size(l[k]))) for l in hit)
        ctx.check(ok, 'observer/split', lambda: '%s: %r with %r; candidates %r' % (what, got.split_test.describe_condition_for_branch(0), parts, want))

    for order in orders:
        for ratio, e_ in ((.95, .02), (.7, .05), (.4, .05)):
            for tail in itertools.product((0., .5, 1., 2.5, 3., 5.), repeat=2):
                ctx.case('candidates', kind, target, order, 'discard below', ratio, e_, 'then', tail)
                ob, ref = NumericAttributeRegressionObserver(), Candidates(kind)
                for i, v in enumerate(order):
                    w = 3. + i % 2 * 1.5
                    ob.update(v, raw(val(v, i)), w)
                    ref.add(v, val(v, i), w)
                    if i >= 4 and tail == (0., 0.) and ratio == .95:
                        compare(ob, ref, 'after %d values' % (i + 1))
                top = max(m for _, m, _ in ref.merits())
                if top <= 1e-9:
                    continue
                pre = tri(ref.all)
                r = ref.prune(ratio, top, e_)
                if r is None:
                    continue                                  # rounding decides what is discarded
                ob.remove_bad_splits(crit, ratio, top, e_, {0: pre[0], 1: raw(pre[1]), 2: raw(pre[2])})
                if ref.root is not None:
                    compare(ob, ref, 'after discarding')
                for i, v in enumerate(tail):
                    ob.update(v, raw(val(v, i)), 2.)
                    ref.add(v, val(v, i), 2.)
                    compare(ob, ref, 'discarding, then %r' % (tail[:i + 1],))
                ctx.state(kind, order, ratio, tail, canon(ref.merits(), 6))
                ctx.trace()


def run(name, params, ctx):
    if name.startswith('candidates'):
        return observer(params, ctx)
    ci, pre, depth = params
    fam, c = CONFIGS[ci]
    k = 1 if fam == 'htr' else 2
    cut = 0
    for n, word in enumerate(itertools.product(range(len(SYM)), repeat=depth)):
        hist = [(x, y[:k], w) for x, y, w in list(PRE[pre]) + [SYM[i] for i in word]]
        ctx.case(CLS[fam].__name__, c, hist)
        tree = CLS[fam](**c)
        alts = [RegRef(fam, c, UNIVERSE, k)]
        for j, (x, y, w) in enumerate(hist):
            Y = np.array([y[0]]) if k == 1 else np.array([y])
            with warnings.catch_warnings(), np.errstate(all='ignore'):
                warnings.simplefilter('ignore')
                if w == 1. and n % 2:
                    tree.partial_fit(np.array([x]), Y)
                else:
                    tree.partial_fit(np.array([x]), Y, sample_weight=np.array([w]))
            alts = [b for a in alts for b in a.learn(x, y, w)]
            ctx.step()
            if all(a.pruned for a in alts):
                break
            at = j - len(PRE[pre]) + 1           # symbols of the word consumed; a shared prefix is compared once
            if len(alts) == 1 and at < depth and (at < 0 or any(word[at:])):
                continue
            P, shape = observe(tree, k)
            keep = [a for a in alts if a.pruned or agrees(a, P, shape)]
            if not keep:
                a = alts[0]
                ctx.fail('tree/%s' % fam, 'after sample %d: tree %s answers %s; reference %s answers %s (%d alternatives)' % (
                    j, shape, np.round(P, 6).tolist(), a.shape(), [a.answer(q) for q in QUERY], len(alts)))
                break
            if len(keep) > 64:
                cut += 1                    # too many numerical ties to follow them all
                break
            alts = keep
        else:
            ctx.state(ci, shape, canon(P, 6))
        ctx.trace()
    ctx.sample({'given_up_after_many_ties': cut, 'last': ctx.cur})


def shards(tier):
    q = tier == 'quick'
    out = []
    orders = list(itertools.permutations((0., 1., 2., 3., 4.)))
    orders = [o + ((2., 4., 1.) if i % 2 else (3., 3.5, 0.)) for i, o in enumerate(orders)]
    for kind in ('sd', 'var'):
        for target in TARGETS:
            for i in range(2):
                out.append(('candidates-%s-%s-%d' % (kind, target, i), (kind, target, orders[i::8] if q else orders[i::2])))
    for ci in range(len(CONFIGS)):
        for pre in PRE:
            d = (4 if pre == 'none' else 3) + (0 if q else 1)
            if pre == 'none' and CONFIGS[ci][1]['leaf_prediction'] == 'mean' and ci % 3 == 0:
                d += 1
            out.append(('c%d-%s' % (ci, pre), (ci, pre, d)))
    return out
