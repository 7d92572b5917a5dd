"""C37: rule learners answer from the rules that cover the query."""
import copy
import itertools

import numpy as np

from mc.core import canon
from mc.ruleref import Rules, Tie, R, Rules as _R
from skmultiflow.core import BaseSKMObject
from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector
from skmultiflow.rules import VeryFastDecisionRulesClassifier

ID = 'C37'
TECHNIQUE = 'explicit enumeration of all bounded training histories of the real rule learner against a list-based rule model (forking on numerical ties)'
LEVEL_NOTE = (
    'after every sample: which points each rule covers, how many conditions it has, its class statistics, and the probabilities and labels of every grid point; rule lists and descriptions are asked for '
    'in between and must not change anything'
)
BOUNDS = {'quick': '21 configurations (ordered/unordered, three combinations, three criteria, nominal/numeric, naive Bayes on/off, poor-attribute removal, drift removal, rule limits); all histories over 2-4 labelled points, depths 6-12',
          'thorough': 'one to two samples deeper'}
ASSUMPTIONS = ['which side of the best split becomes the rule is left open for info gain and Hellinger', 'a condition of the same kind on the same attribute is tightened, not repeated',
               'grid traces in which a vote or split depends on rounding continue with every alternative']


class Detector(BaseDriftDetector):
    """Fires on every third error."""

    def __init__(self, every=3):
        super().__init__()
        self.every = every
        self.n = 0

    def add_element(self, v):
        self.n += int(v)
        self.in_concept_change = bool(v) and self.n % self.every == 0

    def reset(self):
        super().reset()
        self.n = 0


class RefDet:
    def __init__(self):
        self.n = 0

    def add(self, v):
        self.n += v
        return bool(v) and self.n % 3 == 0


def C(**kw):
    c = dict(grace=2, conf=0.5, tie=0.3, ordered=True, prediction='first_hit', nominal=[0, 1], max_rules=10, nb=False, nb_threshold=0, criterion='info_gain', poor=False, min_weight=0, detector=None)
    c.update(kw)
    return c


N2 = list(itertools.product((0.0, 1.0), repeat=2))
NUM = [(0.0, 0.0), (0.0, 3.0), (2.0, 1.0), (4.0, 4.0)]
MIX = [(0.0, 0.0), (1.0, 3.0), (2.0, 1.0), (0.0, 4.0)]
ONE = [(0.0,), (1.0,), (3.0,)]


def letters(pts, labs):
    return [(p, l) for p in pts for l in labs]


# name: (config, points, letters as (point index, label), depth)
CFG = {
    'nominal': (C(), N2, [(0, 0), (1, 1), (2, 1), (3, 0)], 7),
    'nominal-loose': (C(tie=2.0, grace=1), N2, [(0, 0), (1, 1), (2, 0), (3, 1)], 6),
    'unordered-sum': (C(ordered=False, prediction='weighted_sum', tie=2.0), N2, [(0, 0), (1, 1), (2, 0), (3, 2)], 7),
    'unordered-max': (C(ordered=False, prediction='weighted_max', tie=2.0), N2, [(0, 0), (1, 1), (2, 2), (3, 0)], 7),
    'unordered-first': (C(ordered=False, tie=2.0), N2, [(0, 0), (1, 1), (3, 1)], 8),
    'numeric': (C(nominal=[], tie=2.0), NUM, [(0, 0), (2, 1), (3, 0)], 8),
    'numeric-strict': (C(nominal=[], conf=0.9, tie=0.0), NUM, [(0, 0), (2, 1), (3, 1)], 8),
    'mixed-nb': (C(nominal=[0], nb=True, tie=2.0), MIX, [(0, 0), (1, 1), (2, 1)], 8),
    'nb-threshold': (C(nb=True, nb_threshold=3, tie=2.0), N2, [(0, 0), (1, 1), (3, 1)], 8),
    'hellinger': (C(criterion='hellinger', nominal=[], tie=2.0), NUM, [(0, 0), (2, 1), (3, 0)], 8),
    'foil': (C(criterion='foil_gain', tie=2.0), N2, [(0, 0), (1, 1), (2, 1), (3, 0)], 7),
    'foil-unordered': (C(criterion='foil_gain', ordered=False, prediction='weighted_sum', tie=2.0, nominal=[]), NUM, [(0, 0), (2, 1), (3, 0)], 8),
    'foil-strict': (C(criterion='foil_gain', conf=0.9, tie=0.0, nominal=[1]), MIX, [(0, 0), (1, 1), (2, 1), (3, 0)], 7),
    'foil-limit': (C(criterion='foil_gain', tie=2.0, max_rules=1), N2, [(0, 0), (1, 1), (3, 1)], 8),
    'poor': (C(poor=True, conf=0.9, tie=0.0, grace=2), N2, [(0, 0), (1, 1), (3, 1)], 8),
    'drift': (C(tie=2.0, detector=RefDet), N2, [(0, 0), (0, 1), (3, 1)], 9),
    'drift-unordered': (C(tie=2.0, detector=RefDet, ordered=False, prediction='weighted_sum', min_weight=3), N2, [(0, 0), (1, 1), (3, 1)], 9),
    # overlapping rules, the earlier of which is dropped while the later goes on learning: first four (five) samples fixed
    'drift-overlap': (C(tie=2.0, detector=RefDet, ordered=False, prediction='weighted_sum', min_weight=2), N2, [(2, 1), (3, 0), (2, 0), (1, 1), (3, 1), (0, 0)], 9, [0, 1, 1, 2, 0]),
    'drift-overlap-2': (C(tie=2.0, grace=1, detector=RefDet, ordered=False, prediction='first_hit', min_weight=1), N2, [(3, 1), (3, 0), (2, 1), (0, 0), (1, 1)], 9, [0, 1, 2, 0]),
    'limit': (C(tie=2.0, max_rules=1, grace=1), N2, [(0, 0), (1, 1), (2, 2)], 8),
    'single': (C(nominal=[], grace=3), ONE, [(0, 0), (1, 1), (2, 0)], 9),
}


def shards(tier):
    s = []
    for k, (c, pts, let, d, *_) in CFG.items():
        for i in range(len(let)):
            s.append(('%s-%d' % (k, i), {'cfg': k, 'first': i, 'n': d if tier == 'quick' else d + (1 if len(let) > 3 else 2)}))
    return s


def make(c):
    return VeryFastDecisionRulesClassifier(expand_confidence=c['conf'], ordered_rules=c['ordered'], grace_period=c['grace'], tie_threshold=c['tie'], rule_prediction=c['prediction'],
                                           nominal_attributes=list(c['nominal']), max_rules=c['max_rules'], nb_threshold=c['nb_threshold'], nb_prediction=c['nb'],
                                           drift_detector=Detector() if c['detector'] else None, expand_criterion=c['criterion'], remove_poor_atts=c['poor'], min_weight=c['min_weight'])


OPS = {'<=': lambda a, b: a <= b, '>': lambda a, b: a > b, '=': lambda a, b: a == b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b, '<': lambda a, b: a < b, '>=': lambda a, b: a >= b}


def view(m, universe):
    out = []
    for r in m.rule_set:
        out.append((tuple(all(OPS[p.operator](u[p.att_idx], p.value) for p in r.predicate_set) for u in universe), len(r.predicate_set), dict(r.observed_class_distribution)))
    return out + [dict(m.default_rule.observed_class_distribution)]


def close(a, b):
    if isinstance(a, dict):
        return {int(k) for k in a} == set(b) and all(abs(a[k] - b[k]) < 1e-9 for k in b)
    return a[:2] == b[:2] and close(a[2], b[2])


def agrees(v, ref):
    w = ref.view()
    return len(v) == len(w) and all(close(a, b) for a, b in zip(v, w))


def run(name, p, ctx):
    c, pts, let, _, *pre = CFG[p['cfg']]
    forced = list(pre[0] if pre else []) + [p['first']]
    X = np.array(pts)
    labels = sorted({l for _, l in let})
    width = max(labels) + 1

    def go(m, alts, h, n):
        i, lab = let[h[-1]]
        wt = 1.0 if (sum(h) % 3) else 1.5
        m.partial_fit(X[i:i + 1], np.array([lab]), classes=labels, sample_weight=np.array([wt]))
        ctx.step()
        ctx.case(p['cfg'], [(pts[let[j][0]], let[j][1]) for j in h])
        try:
            nxt = []
            for a in alts:
                nxt += a.step(pts[i], lab, wt)
        except Tie:
            return
        v = view(m, pts)
        alts = [a for a in nxt if agrees(v, a)]
        if alts and all(a.cfg.get('stale') for a in alts):
            ctx.fail('foil/stale', 'rules %s: a class got a rule only because an earlier class passed its test' % (v,))
        if not ctx.check(alts, 'rules', lambda: 'rules %s; expected one of %s' % (v, [a.view() for a in nxt[:3]])):
            return
        got = np.asarray(m.predict_proba(X), dtype=float)
        ctx.state(canon(v), canon(got))
        if not ctx.check(got.shape == (len(pts), width), 'shape', 'probabilities of shape %s' % (got.shape,)):
            return
        ok = []
        for a in alts:
            for r in range(len(pts)):
                ans = a.answers(pts[r])
                if not any(all(abs(got[r, k] - q.get(k, 0.)) < 1e-9 for k in range(width)) for q in ans):
                    bad = (r, ans)
                    break
            else:
                ok.append(a)
        if not ctx.check(ok, 'answer', lambda: 'point %s answered %s, the covering rules give %s; rules %s' % (pts[bad[0]], got[bad[0]], bad[1], v)):
            return
        alts = dedupe(ok)
        if not ctx.eq([int(x) for x in m.predict(X)], [int(np.argmax(g)) for g in got], 'label', 'labels'):
            return
        if len(h) % 2 == 0:                 # asking changes nothing
            m.get_model_rules()
            m.get_model_description()
            if not ctx.check(canon(view(m, pts)) == canon(v), 'read-only', 'the rules changed by asking for them'):
                return
        if len(h) == n:
            ctx.trace()
            return
        todo = range(len(let)) if len(h) >= len(forced) else [forced[len(h)]]
        for j in todo:
            last = j == todo[-1]
            go(m if last else copy.deepcopy(m), alts if last else copy.deepcopy(alts), h + [j], n)
    start = [Rules(c, pts)]
    if p['cfg'] == 'foil-strict':
        start.append(Rules(dict(c, stale=True), pts))
    go(make(c), start, [forced[0]], p['n'])
    ctx.sample({'cfg': p['cfg'], 'first': p['first']})


def dedupe(alts):
    out, seen = [], set()
    for a in alts:
        k = canon([a.view(), a.cfg.get('stale'), [(r.samples, sorted(r.off), r.last, r.cls) for r in a.rules], a.default.samples, a.default.last])
        k = repr(k)
        if k not in seen:
            seen.add(k)
            out.append(a)
    return out
