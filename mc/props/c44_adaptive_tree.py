"""C44: the Hoeffding adaptive tree grows alternates aside and swaps them in exactly when they are significantly better."""
import itertools

import numpy as np

from mc.core import canon
from mc.hatref import HATRef, Mon, patched_adwin
from skmultiflow.trees import HoeffdingAdaptiveTreeClassifier

ID = 'C44'
TECHNIQUE = 'explicit enumeration of all training histories with an exhaustively reachable change monitor; lock-step conformance of the real tree to a reference'
LEVEL_NOTE = (
    'the change detector behind the nodes is replaced by a monitor with a three-value memory (the detector itself is C16), so that every alarm pattern is reached '
    'in short histories; exhaustive over the bounded histories; numerical ties are followed in every direction'
)
BOUNDS = {'quick': 'all continuations of length 3-4 from two 4-symbol alphabets after three preambles per configuration that lead to alternates (5 from the empty tree); 9 configurations x 5 monitors',
          'thorough': 'continuations of length 5-6'}
ASSUMPTIONS = ['bootstrap sampling is off', 'the significance test is the documented two-proportion bound with confidence 0.05 and more than 300 observations on both sides',
               'candidate splits as in C24']

BASE = dict(grace_period=2, split_criterion='info_gain', split_confidence=0.9, tie_threshold=0.05, binary_split=False, stop_mem_management=False,
            remove_poor_atts=False, no_preprune=False, leaf_prediction='mc', nb_threshold=0, nominal_attributes=None, bootstrap_sampling=False)


def cfg(**k):
    return dict(BASE, **k)


CONFIGS = [cfg(), cfg(nominal_attributes=[0]), cfg(nominal_attributes=[0, 1], no_preprune=True, split_confidence=.95), cfg(leaf_prediction='nb', grace_period=3),
           cfg(leaf_prediction='nba', nominal_attributes=[0]), cfg(split_criterion='gini', nominal_attributes=[0], split_confidence=.99),
           cfg(tie_threshold=2., nominal_attributes=[0], binary_split=True), cfg(stop_mem_management=True, tie_threshold=2.),
           cfg(leaf_prediction='nb', nominal_attributes=[0, 1], split_confidence=.95)]
MONS = [(2, .5, 100), (1, 1., 160), (3, .3, 80), (2, .4, 150, .2), (3, .3, 110, .25)]

A, B, C, D = ((0., 0.), 0, 1.), ((3., 1.), 1, 1.), ((0., 1.), 1, 1.), ((3., 0.), 0, 2.)
E, F = ((1., 0.), 2, 1.), ((2., 1.), 0, 1.)
ALPHA = {'flip': (A, B, C, D), 'new': (A, C, E, F)}
# one letter per sample; picked so that the continuations reach switches, prunings and fresh alternates
SYM = dict(A=A, B=B, C=C, D=D, E=E, F=F)
PRE = {
    (0, 0): ('ABEABEABEABEDAF', 'ACACACACEDCDA', 'BDBDFFEFC'),
    (0, 1): ('ABEABECCBDF', 'BDBDBDCAEC', 'BDBDBDEAE'),
    (0, 2): ('ABEABEABEFCFCF', 'ACACACDFACD', 'ACACFBE'),
    (1, 0): ('BDBDBDBDACFD', 'ABEABEABEABEDBEA', 'ABABABBFAFE'),
    (1, 1): ('BDBDBDCECFF', 'ABEABEABEABECE', 'ABEABEDECFF'),
    (1, 2): ('ABEABEABEEDFFD', 'BDBDBDBDECDEB', 'ACACDAF'),
    (2, 0): ('BDBDADCFD', 'BDBDECDCC', 'ABEABED'),
    (2, 1): ('ACACBFF', 'ABEABEABEABEAFDBE', 'ABEABECCFEF'),
    (2, 2): ('ABEABEABEEADFD', 'BDBDBDBDFBDB', 'BDBDCFE'),
    (3, 0): ('ACACACDFEE', 'BDBDBDFEFBB'),
    (3, 1): ('BDBDBDBDEBA', 'BDBDBDEB', 'BDBDBEDDE'),
    (3, 2): ('BDBDAFEFD', 'BDBDBDBDEBBD', 'ACACDADF'),
    (4, 0): ('ABEABEFBAF', 'ACACACACFBCFA', 'ABABABABDBBE'),
    (4, 1): ('ABABADBBF', 'ACACACACBEB', 'ABABCFFEE'),
    (4, 2): ('ABEABEABEABEFBDFA', 'ABEABEABEABEBDEBB', 'ABEABEECA'),
    (5, 0): ('ABEABECBCDA', 'ABEABEABEFCFDA', 'ABABBBD'),
    (5, 1): ('ACACDCFF', 'ABEABECFEB', 'ABABECCDC'),
    (5, 2): ('ABABABABBFDFD', 'ABEABEABEABEEDFAE', 'ABABABABE'),
    (6, 0): ('ABEABEABEBDDF', 'BDBDAEAFA', 'ABABABABDDBE'),
    (6, 1): ('ABEABEABEABEEEFF', 'ACACCFBDB', 'ABABABBCEEE'),
    (6, 2): ('ABEABEABEDADA', 'BDBDBDBDECBB', 'ABEABEABEF'),
    (7, 0): ('ABEABEABEBFAFF', 'ABEABEABEFBDDE', 'BDBDBDCEDDD'),
    (7, 1): ('ABABFD', 'BDBDBDBDEBDB', 'BDBDEFECB'),
    (7, 2): ('ABABABFDAD', 'ACACACFCCCC', 'ABEABEABED'),
    (8, 0): ('ABEABECFAAD', 'BDBDBDEEBCA', 'ABEABEC'),
    (8, 1): ('ABABABABDCC', 'ABABABDCDEC', 'ACACFCFFF'),
    (8, 2): ('BDBDBDEADDF', 'BDBDBDBDEDBAD', 'ACACAFC'),
    (0, 3): ('ABEABEABEABEDEBF', 'BDBDBDBDAEB', 'BDBDBDBDDEDDE'),
    (0, 4): ('ABEABEABEABEDD', 'ACACACACDECCE', 'BDBDBDBDFBFBF'),
    (1, 3): ('BDBDBDFF', 'ABEABECEEF', 'ABEABEC'),
    (1, 4): ('ACACACFAF', 'ACACACACFCACE'),
    (2, 3): ('BDBDBDFAF', 'BDBDBDECB', 'BDBDE'),
    (2, 4): ('ACACACEF', 'BDBDBDBDFBACE'),
    (3, 3): ('BDBDEFC', 'ACACDECDE', 'BDBDBDBDEEDF'),
    (3, 4): ('BDBDBDBDCBAFF', 'ACACACACDEDBB', 'BDBDEDBCF'),
    (4, 3): ('ABEABEABEABEEE', 'ACACACCECB', 'ABABDBBF'),
    (4, 4): ('ACACAC', 'ACACACDEABA', 'ACACDFF'),
    (5, 3): ('ABEABEABEABECFCFD', 'ABABABABEFF', 'ABABADDD'),
    (5, 4): ('ACACACFDFDA', 'ABEABEABEABECFFBD'),
    (6, 3): ('ABABABDFD', 'ACACACACFBADC', 'ABEABEABEABEA'),
    (6, 4): ('BDBDBDEFEAD', 'ABEABEABECAEDA', 'ABEABEEEDD'),
    (7, 3): ('BDBDBDBDABFFF', 'ACACACACAFBCD', 'BDBDBDBDEFFDB'),
    (7, 4): ('ABABABABFDFA', 'ABEABEABEABEBBCBA', 'ABEABEABEF'),
    (8, 3): ('ABABABDBDCF', 'ABEABEABEABECBDBE', 'ABABABDCCE'),
    (8, 4): ('BDBDAEF', 'BDBDBDBDFBBDE'),
}
QUERY = [(0., 0.), (3., 1.), (0., 1.), (3., 0.), (1., 0.), (2., 1.), (7., 1.)]
UNIVERSE = QUERY
MAXALT = 10


def observe(tree):
    P = np.asarray(tree.predict_proba(np.array(QUERY)), dtype=float)
    return (tree.alternate_trees_cnt, tree.switch_alternate_trees_cnt, tree.pruned_alternate_trees_cnt), tree.model_measurements['Tree depth'], P


def agrees(ref, cnt, depth, P):
    if (ref.grown, ref.switched, ref.pruned) != cnt or ref.depth() != depth:
        return False
    for q, row in zip(QUERY, P):
        p = ref.proba(q)
        if len(row) != 3 or any(abs(row[c] - p.get(c, 0.)) > 1e-7 for c in range(3)):
            return False
    return True


def show(ref):
    return (ref.grown, ref.switched, ref.pruned), ref.depth(), [{c: round(v, 6) for c, v in ref.proba(q).items()} for q in QUERY]


def run(name, params, ctx):
    ci, mi, word, al, depth = params
    pre = [SYM[ch] for ch in word]
    c, m = CONFIGS[ci], MONS[mi]
    tally = [0, 0, 0, 0]
    syms = ALPHA[al]

    def learn(tree, s):
        tree.partial_fit(np.array([s[0]]), np.array([s[1]]), classes=[0, 1, 2], sample_weight=np.array([s[2]]))

    def advance(tree, alts, s, k):
        """one sample on both sides; None after a violation"""
        learn(tree, s)
        alts = [b for a in alts for b in a.successors(*s)]
        cnt, d, P = observe(tree)
        keep = [a for a in alts if agrees(a, cnt, d, P)]
        ctx.step()
        if not keep:
            ctx.fail('tree', 'after sample %d: alternates grown/switched/pruned %s, depth %s, answers %s; reference %s (%d alternatives)' % (
                k, cnt, d, np.round(P, 6).tolist(), show(alts[0]), len(alts)))
            return None
        return list({a.key(): a for a in keep}.values())

    with patched_adwin(*m):
        ctx.case('HoeffdingAdaptiveTreeClassifier', c, 'monitor', m, pre)
        tree, start = HoeffdingAdaptiveTreeClassifier(**c), [HATRef(c, UNIVERSE, lambda: Mon(*m))]
        for k, s in enumerate(pre):
            start = advance(tree, start, s, k)
            if start is None:
                return
        for rest in itertools.product(syms, repeat=depth):
            ctx.case('HoeffdingAdaptiveTreeClassifier', c, 'monitor', m, pre + list(rest))
            tree, alts = HoeffdingAdaptiveTreeClassifier(**c), start
            for s in pre:
                learn(tree, s)
            for k, s in enumerate(rest):
                alts = advance(tree, alts, s, len(pre) + k)
                if alts is None:
                    break
                if len(alts) > MAXALT:
                    tally[3] += 1
                    break
            else:
                Q = np.array(QUERY)
                Y, P = tree.predict(Q), tree.predict_proba(Q)
                for i in range(len(QUERY)):
                    ctx.check(P[i][int(Y[i])] >= P[i].max() - 1e-9, 'label', lambda: 'label %s for scores %s' % (Y[i], P[i]))
                a = alts[0]
                for i, v in enumerate((a.grown, a.switched, a.pruned)):
                    tally[i] += v
                ctx.state(ci, mi, a.grown, a.switched, a.pruned, canon(P, 6))
            ctx.trace()
    ctx.sample({'grown': tally[0], 'switched': tally[1], 'pruned': tally[2], 'given_up_after_many_ties': tally[3], 'last': ctx.cur})


def shards(tier):
    q = tier == 'quick'
    out = []
    for ci in range(len(CONFIGS)):
        for mi in range(len(MONS)):
            for word in ('',) + PRE[ci, mi]:
                for al in ALPHA:
                    d = ((5 if mi in (1, 3) else 4) if not word else 4 if not q or (ci + mi) % 5 == 0 or ci in (0, 1, 7) and mi in (1, 3) else 3) + (0 if q else 1)
                    out.append(('c%d-m%d-%s-%s' % (ci, mi, word or 'none', al), (ci, mi, word, al, d)))
    return out
