"""Reference Hoeffding tree classifier.

Every leaf keeps the plain list of samples it learned (plus the class weights it inherited from the split that made it);
all statistics are recomputed from those lists when they are needed.  Where two candidate splits are numerically tied or a
decision lies within rounding of its threshold, the reference *forks*: a conforming implementation must agree with one of the
surviving alternatives at every step.
"""
import copy
import itertools
import math

from mc.bayesref import gauss_params, density, scores

EPS = 1e-9
NEG = float('-inf')


def entropy(d):
    t = math.fsum(v for v in d.values() if v > 0)
    return 0. if t <= 0 else -math.fsum(v / t * math.log2(v / t) for v in d.values() if v > 0)


def big_enough(dists, frac=0.01):
    t = math.fsum(math.fsum(d.values()) for d in dists)
    return sum(1 for d in dists if t > 0 and math.fsum(d.values()) / t > frac)


def merit(criterion, pre, post):
    if callable(criterion):
        return criterion(pre, post)
    if criterion == 'gini':
        t = math.fsum(math.fsum(d.values()) for d in post)
        g = 0.
        for d in post:
            w = math.fsum(d.values())
            g += w / t * (1. - math.fsum((v / w) ** 2 for v in d.values()) if w else 1.)
        return 1. - g
    if big_enough(post) < 2:
        return NEG
    if criterion == 'hellinger':
        if any(c not in post[b] for b in (0, 1) for c in (0, 1)):
            return 0.
        n, p = post[0][0] + post[1][0], post[0][1] + post[1][1]
        return math.sqrt(math.fsum((math.sqrt(post[b][0] / n) - math.sqrt(post[b][1] / p)) ** 2 for b in (0, 1)))
    t = math.fsum(math.fsum(d.values()) for d in post)
    return entropy(pre) - math.fsum(math.fsum(d.values()) / t * entropy(d) for d in post)


def merit_range(criterion, pre):
    return 1. if criterion == 'gini' else math.log2(max(2, len(pre)))


class Test:
    """kind 'num': x[a] <= v | 'eq': x[a] == v | 'multi': branch per value (list grows with new values)"""

    def __init__(self, kind, att, v):
        self.kind, self.att, self.v = kind, att, v

    def branch(self, x):
        a = x[self.att]
        if self.kind == 'num':
            return 0 if a <= self.v else 1
        if self.kind == 'eq':
            return 0 if a == self.v else 1
        return self.v.index(a) if a in self.v else -1

    def key(self, universe):
        return (self.kind, self.att, tuple(self.branch(x) for x in universe))


class Leaf:
    def __init__(self, init, active=True):
        self.stats = dict(init)
        self.samples = []
        self.active = active
        self.mc = self.nb = 0.
        self.off = set()
        self.last = self.weight()

    def weight(self):
        return math.fsum(self.stats.values())


class Split:
    def __init__(self, test, stats, kids):
        self.test, self.stats, self.kids = test, stats, kids


def add(stats, y, w):
    if y in stats:
        stats[y] += w
        return stats
    stats[y] = w
    return dict(sorted(stats.items()))


def candidates(cfg, leaf, pre, universe):
    """per attribute: list of near-best alternatives (merit, test, dists)"""
    out = []
    crit, nominal = cfg['split_criterion'], cfg['nominal_attributes'] or ()
    natt = len(leaf.samples[0][0]) if leaf.samples else 0
    classes = sorted({y for _, y, _ in leaf.samples})
    for j in range(natt):
        if j in leaf.off:
            continue
        opts = []
        col = {c: [(x[j], w) for x, y, w in leaf.samples if y == c] for c in classes}
        if j in nominal:
            vals = sorted({v for c in classes for v, _ in col[c]})
            if not cfg['binary_split']:
                dists = [{c: math.fsum(w for a, w in col[c] if a == v) for c in classes if any(a == v for a, _ in col[c])} for v in vals]
                opts.append((merit(crit, pre, dists), Test('multi', j, list(vals)), dists))
            for v in vals:
                eq = {c: math.fsum(w for a, w in col[c] if a == v) for c in classes if any(a == v for a, _ in col[c])}
                ne = {c: math.fsum(w for a, w in col[c] if a != v) for c in classes if any(a != v for a, _ in col[c])}
                opts.append((merit(crit, pre, [eq, ne]), Test('eq', j, v), [eq, ne]))
        else:
            lo = min(v for c in classes for v, _ in col[c])
            hi = max(v for c in classes for v, _ in col[c])
            for i in range(10):
                s = lo + (hi - lo) / 11. * (i + 1)
                if not lo < s < hi:
                    continue
                l, r = {}, {}
                for c in classes:
                    cl, ch = min(v for v, _ in col[c]), max(v for v, _ in col[c])
                    W, m, var = gauss_params(col[c])
                    if s < cl:
                        r[c] = W
                    elif s >= ch:
                        l[c] = W
                    elif var > 0:
                        below = W * .5 * (1 + math.erf((s - m) / math.sqrt(2 * var)))
                        l[c], r[c] = below, max(0., W - below)
                    else:                       # total weight <= 1: no spread is known
                        at = W if s == m else 0.
                        less = W - at if s > m else 0.
                        l[c], r[c] = less + at, max(0., W - less - at)
                opts.append((merit(crit, pre, [l, r]), Test('num', j, s), [l, r]))
        if not opts:
            continue
        best = max(o[0] for o in opts)
        near, seen = [], set()
        for o in opts:
            if o[0] == best or o[0] >= best - EPS:
                k = (o[1].key(universe), tuple(tuple(sorted((c, round(v, 8)) for c, v in d.items())) for d in o[2]))
                if k not in seen:
                    seen.add(k)
                    near.append(o)
        out.append(near)
    return out


class HTRef:
    """One alternative. learn() returns the list of successor alternatives."""

    def __init__(self, cfg, universe, classes=None):
        self.cfg, self.universe, self.classes = cfg, universe, classes
        self.root = None
        self.growth = True
        self.inactive = 0

    def __deepcopy__(self, memo):
        new = object.__new__(HTRef)
        memo[id(self)] = new
        memo[id(self.universe)], memo[id(self.cfg)] = self.universe, self.cfg
        for k, v in self.__dict__.items():
            setattr(new, k, copy.deepcopy(v, memo))
        return new

    # -- routing
    def find(self, x):
        node, parent, br = self.root, None, -1
        while isinstance(node, Split):
            b = node.test.branch(x)
            if b < 0:
                return node, parent, br
            node, parent, br = node.kids[b], node, b
        return node, parent, br

    def put(self, parent, br, node):
        if parent is None:
            self.root = node
        else:
            parent.kids[br] = node

    # -- learning
    def nb_scores(self, leaf, x):
        return scores(leaf.stats, leaf.samples if leaf.active else [], x, self.cfg['nominal_attributes'] or (), leaf.off)

    def learn(self, x, y, w):
        if w == 0:
            return [self]
        if self.root is None:
            self.root = Leaf({})
        leaf, parent, br = self.find(x)
        if isinstance(leaf, Split):
            leaf.test.v.append(x[leaf.test.att])
            new = Leaf({})
            leaf.kids.append(new)
            return [self] if not self._absorb(new, x, y, w) else self._forked(new, w)
        forked = self._absorb(leaf, x, y, w)
        outs = [self] if not forked else self._forked(leaf, w)
        res = []
        for alt in outs:
            lf, parent, br = alt.find(x)
            res += alt._grow(lf, parent, br)
        return res

    def _forked(self, leaf, w):
        other = copy.deepcopy(self)
        # the twin leaf in the copy: same position
        for a, b in zip(self.leaves(), other.leaves()):
            if a is leaf:
                b.nb += w
        return [self, other]

    def _absorb(self, leaf, x, y, w):
        """Adds the sample; returns True when the naive Bayes vote of the leaf was an unresolved tie involving y."""
        amb = False
        if self.cfg['leaf_prediction'] == 'nba' and leaf.active:
            if leaf.stats:
                if max(leaf.stats, key=leaf.stats.get) == y:        # first of the heaviest, labels ascending
                    leaf.mc += w
            elif y == 0:
                leaf.mc += w
            s = self.nb_scores(leaf, x)
            top = max(s.values())
            tied = [c for c in s if s[c] >= top - 1e-9 * max(1e-300, top)]
            if y in tied:
                exact = [c for c in s if s[c] == top]
                if len(tied) == 1 or top == 0.:
                    if min(tied) == y or len(tied) == 1:
                        leaf.nb += w
                else:
                    amb = True
        leaf.stats = add(leaf.stats, y, w)
        if leaf.active:
            leaf.samples.append((x, y, w))
        return amb

    def leaves(self, node='root'):
        node = self.root if node == 'root' else node
        if isinstance(node, Leaf):
            return [node]
        return [l for k in (node.kids if node else []) for l in self.leaves(k)]

    def _grow(self, leaf, parent, br):
        c = self.cfg
        if not self.growth or not leaf.active:
            return [self]
        seen = leaf.weight()
        if abs(seen - leaf.last - c['grace_period']) < EPS and seen - leaf.last != c['grace_period']:
            # rounding decides whether the grace period is over
            late = copy.deepcopy(self)
            return [late] + self._attempt(leaf, parent, br, seen)
        if seen - leaf.last < c['grace_period']:
            return [self]
        return self._attempt(leaf, parent, br, seen)

    def _attempt(self, leaf, parent, br, seen):
        c = self.cfg
        leaf.last = seen
        pre = dict(leaf.stats)
        if sum(1 for v in pre.values() if v != 0) < 2:
            return [self]
        per_att = candidates(c, leaf, pre, self.universe)
        null = None if c['no_preprune'] else (merit(c['split_criterion'], pre, [pre]), None, None)
        bound = math.sqrt(merit_range(c['split_criterion'], pre) ** 2 * math.log(1. / c['split_confidence']) / (2. * seen))
        # every combination of near-tied alternatives and every order of near-tied candidates
        plans = []          # (winner or None-for-no-split, attributes to disable)
        for combo in itertools.product(*per_att):
            cand = ([null] if null else []) + list(combo)
            if not cand:
                plans.append(('stay', ()))
                continue
            if len(cand) == 1:
                plans.append((cand[0], ()))
                continue
            ms = sorted(o[0] for o in cand)
            best, second = ms[-1], ms[-2]
            diff = best - second if best != second else (float('nan') if best == NEG else 0.)
            yes = {diff > bound or bound < c['tie_threshold']}
            if abs(diff - bound) < EPS and not bound < c['tie_threshold'] - EPS:
                yes = {True, False}
            if abs(bound - c['tie_threshold']) < 1e-12:
                yes = {True, False}
            off = ()
            if c['remove_poor_atts'] and c['leaf_prediction'] == 'mc':
                off = tuple(o[1].att for o in combo if best - o[0] > bound)
            wins = [o for o in cand if o[0] == best or o[0] >= best - EPS]
            for s in yes:
                for o in (wins if s else [None]):
                    plans.append(('stay' if o is None else o, off))
        out, done = [], set()
        for plan, off in plans:
            k = ('stay' if plan == 'stay' else 'null' if plan[1] is None else
                 (plan[1].key(self.universe), tuple(tuple(sorted((q, round(v, 8)) for q, v in d.items())) for d in plan[2])), off)
            if k in done:
                continue
            done.add(k)
            out.append((plan, off))
        res = []
        for n, (plan, off) in enumerate(out):
            if n == len(out) - 1:
                alt, lf, pa = self, leaf, parent
            else:
                memo = {}
                alt = copy.deepcopy(self, memo)
                lf, pa = memo.get(id(leaf), None), (memo.get(id(parent)) if parent is not None else None)
            lf.off |= set(off)
            if plan != 'stay':
                if plan[1] is None:
                    dead = Leaf(lf.stats, active=False)
                    alt.put(pa, br, dead)
                    alt.inactive += 1
                else:
                    kids = [Leaf(d) for d in plan[2]]
                    alt.put(pa, br, Split(copy.deepcopy(plan[1]), lf.stats, kids))
                alt._manage()
            res.append(alt)
        return res

    def _manage(self):
        """Memory management with unlimited memory: inactive leaves come back with their class weights only,
        or growth stops altogether when stop_mem_management is set."""
        if self.inactive and self.cfg['stop_mem_management']:
            self.growth = False
            return

        def rec(node):
            if isinstance(node, Split):
                node.kids = [rec(k) for k in node.kids]
                return node
            return node if node.active else Leaf(node.stats)
        if self.inactive:
            self.root = rec(self.root)
            self.inactive = 0

    # -- answers
    def votes(self, x):
        if self.root is None:
            return {}
        leaf, _, _ = self.find(x)
        lp = self.cfg['leaf_prediction']
        if isinstance(leaf, Split) or not leaf.active or lp == 'mc':
            return leaf.stats
        if lp == 'nb':
            return self.nb_scores(leaf, x) if leaf.weight() >= self.cfg['nb_threshold'] - 0. else leaf.stats
        return leaf.stats if leaf.mc > leaf.nb else self.nb_scores(leaf, x)

    def proba(self, x):
        """normalised votes {class: share} (unnormalised zeros when all votes are zero)"""
        v = self.votes(x)
        t = math.fsum(v.values())
        return {c: (a / t if t else a) for c, a in v.items()}

    def shape(self):
        def rec(n):
            if isinstance(n, Leaf):
                return (0, 1, 1 if n.active else 0, 0)
            ks = [rec(k) for k in n.kids]
            return (1 + sum(k[0] for k in ks), sum(k[1] for k in ks), sum(k[2] for k in ks), 1 + max([k[3] for k in ks] or [0]))
        if self.root is None:
            return (0, 0, 0, 0)
        return rec(self.root)
