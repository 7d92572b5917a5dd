"""Reference Hoeffding regression trees (single target, iSOUP, stacked single target).

A leaf keeps the plain list of the samples it has learned since it was made, plus the (weight, sum, sum of squares) it inherited
from the split that made it.  Split candidates are recomputed from those lists.  Numerically tied decisions fork the reference.
"""
import copy
import itertools
import math

import numpy as np

from mc.treeref import Test, Split

EPS = 1e-9


def tri(samples):
    w = math.fsum(s[2] for s in samples)
    k = len(samples[0][1]) if samples else 0
    return (w, [math.fsum(s[2] * s[1][t] for s in samples) for t in range(k)], [math.fsum(s[2] * s[1][t] ** 2 for s in samples) for t in range(k)])


def minus(a, b):
    if not b[1]:
        return a
    return (a[0] - b[0], [p - q for p, q in zip(a[1], b[1])], [p - q for p, q in zip(a[2], b[2])])


def spread(kind, d):
    n, s, q = d
    if kind == 'sd':
        v = (q[0] - s[0] ** 2 / n) / n
        return math.sqrt(v) if v > 0 else 0.
    return sum((q[t] - s[t] ** 2 / n) / (n - 1) for t in range(len(s))) / len(s)


def merit(kind, pre, post):
    if any(d[0] < 5. for d in post):
        return 0.
    return spread(kind, pre) - sum(d[0] / pre[0] * spread(kind, d) for d in post)


def near_five(post):
    return any(d[0] != 5. and abs(d[0] - 5.) < EPS for d in post)


class RLeaf:
    def __init__(self, init=None, weights=None):
        self.init = init
        self.samples = []
        self.off = set()
        self.W = copy.deepcopy(weights)
        self.err = None
        self.last = self.weight()

    def stats(self):
        t = tri(self.samples)
        if self.init is None:
            return t
        if not self.samples:
            return self.init
        return (self.init[0] + t[0], [a + b for a, b in zip(self.init[1], t[1])], [a + b for a, b in zip(self.init[2], t[2])])

    def weight(self):
        return (self.init[0] if self.init else 0.) + math.fsum(s[2] for s in self.samples)

    def mean(self):
        s = self.stats()
        return [v / s[0] for v in s[1]] if s[0] else None


class RegRef:
    """family: 'htr' (one target) | 'isoup' | 'sst'"""

    def __init__(self, family, cfg, universe, targets):
        self.family, self.cfg, self.universe, self.k = family, cfg, universe, targets
        self.kind = 'sd' if family == 'htr' else 'var'
        self.root = None
        self.hist = []
        self.memo = {}
        self.pruned = False         # a failed attempt may have discarded candidates: exact comparison ends

    # -- scaling over the whole history
    def _moments(self, cols):
        n = math.fsum(h[2] for h in self.hist)
        s = np.array([math.fsum(h[2] * h[cols][j] for h in self.hist) for j in range(len(self.hist[0][cols]))])
        q = np.array([math.fsum(h[2] * h[cols][j] ** 2 for h in self.hist) for j in range(len(self.hist[0][cols]))])
        return n, s, q

    def scale(self, cols):
        if self.memo.get(cols, (None,))[0] != len(self.hist):
            self.memo[cols] = (len(self.hist), self._scale(cols))
        return self.memo[cols][1]

    def _scale(self, cols):
        n, s, q = self._moments(cols)
        if self.family == 'htr':
            v = (q - s * s / n) / n if n > 1 else np.zeros(len(s))
            return n, s / n, 3. * np.sqrt(np.where(v > 0, v, 0.))
        v = (q - s * s / n) / (n - 1.) if n > 1 else np.zeros(len(s))
        return n, s / n, np.sqrt(np.where(v > 0, v, 0.))

    def norm_x(self, x):
        n, m, sd = self.scale(0)
        if n <= 1 and self.family != 'htr':
            return np.zeros(len(x) + 1)
        nominal = (self.cfg['nominal_attributes'] or ()) if self.family == 'htr' else ()
        out = [x[j] if j in nominal else ((x[j] - m[j]) / sd[j] if sd[j] > 1e-9 and n > 1 else 0.) for j in range(len(x))]
        return np.array(out + [1. if n > 1 else 0.])

    def norm_y(self, y):
        n, m, sd = self.scale(1)
        return np.array([(y[t] - m[t]) / sd[t] if sd[t] > 1e-9 and n > 1 else 0. for t in range(self.k)])

    # -- linear models in the leaves
    def _unit(self, w):
        return w / np.abs(w).sum(axis=-1, keepdims=True)

    def _train(self, leaf, x, y, w):
        c = self.cfg
        if c['leaf_prediction'] == 'mean':
            return
        d = len(x) + 1
        if leaf.W is None:
            rng = np.random.RandomState(c['random_state'])
            if self.family == 'htr':
                leaf.W = [rng.uniform(-1, 1, (1, d))]
            elif self.family == 'isoup':
                leaf.W = [self._unit(rng.uniform(-1, 1, (self.k, d)))]
            else:
                a = rng.uniform(-1, 1, (self.k, d))
                leaf.W = [self._unit(a), self._unit(rng.uniform(-1, 1, (self.k, self.k + 1)))]
        if leaf.err is None:
            leaf.err = [np.zeros(self.k) for _ in range(3)]
        rate = c['learning_ratio_perceptron']
        if not c['learning_ratio_const']:
            rate = rate / (1. + leaf.weight() * c['learning_ratio_decay'])
        xn, yn = self.norm_x(x), self.norm_y(y)
        mn = self.norm_y(leaf.mean())
        for _ in range(int(w)):
            base = leaf.W[0] @ xn
            leaf.W[0] = self._unit(leaf.W[0] + rate * np.outer(yn - base, xn))
            top = base
            if self.family == 'sst':
                b1 = np.append(base, 1.)
                top = leaf.W[1] @ b1
                leaf.W[1] = self._unit(leaf.W[1] + rate * np.outer(yn - top, b1))
            for e, p in zip(leaf.err, (mn, base, top)):
                e *= .95
                e += np.abs(yn - p)

    def fork(self):
        memo = {id(h): h for h in self.hist}
        memo[id(self.universe)], memo[id(self.cfg)] = self.universe, self.cfg
        return copy.deepcopy(self, memo), memo

    # -- routing
    def find(self, x):
        node, parent, br = self.root, None, -1
        while isinstance(node, Split):
            b = node.test.branch(x)
            if b < 0:
                return node, parent, br
            node, parent, br = node.kids[b], node, b
        return node, parent, br

    def put(self, parent, br, node):
        if parent is None:
            self.root = node
        else:
            parent.kids[br] = node

    def learn(self, x, y, w):
        if w == 0:
            return [self]
        item = (x, y, w)
        self.hist.append(item)
        if self.root is None:
            self.root = RLeaf()
        leaf, parent, br = self.find(x)
        fresh = isinstance(leaf, Split)
        if fresh:
            leaf.test.v.append(x[leaf.test.att])
            leaf.kids.append(RLeaf())
            leaf = leaf.kids[-1]
        leaf.samples.append(item)
        self._train(leaf, x, y, w)
        if fresh:
            return [self]
        gone = leaf.weight() - leaf.last
        if gone != self.cfg['grace_period'] and abs(gone - self.cfg['grace_period']) < EPS:
            return [self.fork()[0]] + self._attempt(leaf, parent, br)
        return self._attempt(leaf, parent, br) if gone >= self.cfg['grace_period'] else [self]

    # -- splitting
    def candidates(self, leaf, pre):
        out = []
        nominal = self.cfg['nominal_attributes'] or ()
        for j in range(len(leaf.samples[0][0])):
            if j in leaf.off:
                continue
            vals = sorted({s[0][j] for s in leaf.samples})
            opts = []
            if j in nominal:
                if not self.cfg['binary_split']:
                    post = [tri([s for s in leaf.samples if s[0][j] == v]) for v in vals]
                    opts.append((merit(self.kind, pre, post), Test('multi', j, list(vals)), post))
                for v in vals:
                    a = tri([s for s in leaf.samples if s[0][j] == v])
                    post = [a, minus(pre, a)]
                    opts.append((merit(self.kind, pre, post), Test('eq', j, v), post))
            else:
                for v in vals:
                    a = tri([s for s in leaf.samples if s[0][j] <= v])
                    post = [a, minus(pre, a)]
                    opts.append((merit(self.kind, pre, post), Test('num', j, v), post))
            if any(near_five(o[2]) for o in opts):
                self.pruned = True      # rounding decides a minimum-size test: not compared
            best = max(o[0] for o in opts)
            near, seen = [], set()
            for o in opts:
                if o[0] >= best - EPS:
                    k = (o[1].key(self.universe), tuple(round(d[0], 8) for d in o[2]))
                    if k not in seen:
                        seen.add(k)
                        near.append(o)
            out.append((near, min(o[0] for o in opts) if j not in nominal else None))
        return out

    def _attempt(self, leaf, parent, br):
        c = self.cfg
        n = leaf.weight()
        leaf.last = n
        pre = leaf.stats()
        cand_att = self.candidates(leaf, pre)
        bound = math.sqrt(math.log(1. / c['split_confidence']) / (2. * n))
        plans = []
        for combo in itertools.product(*[a[0] for a in cand_att]):
            cand = ([] if c['no_preprune'] else [(0., None, None)]) + list(combo)
            if len(cand) == 1:
                plans.append((cand[0], (), False))
                continue
            ms = sorted(o[0] for o in cand)
            best, second = ms[-1], ms[-2]
            tie = bound < c['tie_threshold']
            ratio = second / best if best else None
            yes = {best > 0. and (ratio < 1. - bound or tie)}
            if abs(best) < EPS or (best > 0 and not tie and abs(ratio - 1. + bound) < EPS) or abs(bound - c['tie_threshold']) < 1e-12:
                yes = {True, False}
            wins = [o for o in cand if o[0] >= best - EPS]
            for s in yes:
                off, lost = (), False
                if c['remove_poor_atts'] and best > EPS and (self.family == 'htr' or not s):
                    off = tuple(o[1].att for o in combo if o[0] / best < ratio - 2. * bound)
                    if any(abs(o[0] / best - ratio + 2. * bound) < EPS for o in combo):
                        lost = True
                if not s and best > -EPS and second > -EPS:
                    low = [a[1] for a in cand_att if a[1] is not None]
                    if best < EPS or (low and min(low) / best < ratio - 2. * bound + EPS):
                        lost = lost or best >= EPS
                for o in (wins if s else [None]):
                    if o is not None and o[1] is None:
                        continue            # a positive merit is needed, so the null split never wins
                    plans.append(('stay' if o is None else o, off, lost))
        done, todo = set(), []
        for plan, off, lost in plans:
            k = ('stay' if plan == 'stay' else (plan[1].key(self.universe), tuple(round(d[0], 8) for d in plan[2])), off, lost)
            if k not in done:
                done.add(k)
                todo.append((plan, off, lost))
        res = []
        for i, (plan, off, lost) in enumerate(todo):
            if i == len(todo) - 1:
                alt, lf, pa = self, leaf, parent
            else:
                alt, memo = self.fork()
                lf, pa = memo[id(leaf)], (memo[id(parent)] if parent is not None else None)
            lf.off |= set(off)
            alt.pruned = alt.pruned or lost
            if plan != 'stay':
                alt.put(pa, br, Split(copy.deepcopy(plan[1]), pre, [RLeaf(d, lf.W) for d in plan[2]]))
            res.append(alt)
        return res

    # -- answers: per target a list of acceptable values
    def answer(self, x):
        if self.root is None:
            return [[0.]] * self.k
        leaf, _, _ = self.find(x)
        if isinstance(leaf, Split):
            return [[s / leaf.stats[0]] for s in leaf.stats[1]]
        m = leaf.mean()
        mean = [[v] for v in (m if m is not None else [0.] * self.k)]
        lp = self.cfg['leaf_prediction']
        if lp == 'mean' or leaf.W is None:
            return mean
        n, my, sy = self.scale(1)
        if self.family == 'isoup' and n <= 1:
            return mean
        base = leaf.W[0] @ self.norm_x(x)
        top = leaf.W[1] @ np.append(base, 1.) if self.family == 'sst' else base
        back = lambda v, t: v * sy[t] + my[t]
        if lp == 'perceptron':
            return [[back(top[t], t)] for t in range(self.k)]
        out = []
        err = leaf.err if leaf.err is not None else [np.zeros(self.k) for _ in range(3)]
        for t in range(self.k):
            m_, p_, s_ = (e[t] for e in err)
            if self.family == 'isoup':
                opts = ([back(base[t], t)] if p_ <= m_ + EPS else []) + ([mean[t][0]] if m_ < p_ + EPS else [])
            else:
                low = min(m_, p_, s_)
                opts = [v for e, v in ((m_, mean[t][0]), (p_, back(base[t], t)), (s_, back(top[t], t))) if e <= low + EPS]
            out.append(opts)
        return out

    def shape(self):
        def rec(n):
            if isinstance(n, RLeaf):
                return (0, 1, 1, 0)
            ks = [rec(k) for k in n.kids]
            return (1 + sum(k[0] for k in ks), sum(k[1] for k in ks), sum(k[2] for k in ks), 1 + max([k[3] for k in ks] or [0]))
        return (0, 0, 0, 0) if self.root is None else rec(self.root)
