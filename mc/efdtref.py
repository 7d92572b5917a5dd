"""Reference Extremely Fast Decision Tree (Hoeffding Anytime Tree).

Every node - leaf or inner - keeps the plain list of samples it learned plus the class weights it inherited; all statistics and
candidate splits are recomputed from those lists (mc.treeref.candidates).  Numerically undecidable choices fork the reference.
"""
import copy
import itertools
import math

from mc.treeref import EPS, NEG, HTRef, Leaf, Split, add, candidates, merit, merit_range


class Inner(Split):
    def __init__(self, test, leaf, kids):
        super().__init__(test, leaf.stats, dict(enumerate(kids)))
        self.samples, self.off = leaf.samples, set()
        self.mark = self.weight()

    def weight(self):
        return math.fsum(self.stats.values())


class EFRef(HTRef):
    done = frozenset()

    def __deepcopy__(self, memo):
        new = object.__new__(EFRef)
        memo[id(self)] = new
        memo[id(self.universe)], memo[id(self.cfg)] = self.universe, self.cfg
        for k, v in self.__dict__.items():
            setattr(new, k, copy.deepcopy(v, memo))
        return new

    def find(self, x):
        node, parent, br = self.root, None, -1
        while isinstance(node, Split):
            b = node.test.branch(x)
            if b < 0:
                return node, parent, br
            node, parent, br = node.kids.get(b), node, b
        return node, parent, br

    def leaves(self, node='root'):
        node = self.root if node == 'root' else node
        if isinstance(node, Leaf):
            return [node]
        return [l for k in (node.kids.values() if node else []) for l in self.leaves(k)]

    def learn(self, x, y, w):
        if w == 0:
            return [self]
        if self.root is None:
            self.root = Leaf({})
        leaf, parent, br = self.find(x)
        if isinstance(leaf, Split):                       # a nominal value not seen before: a branch of its own
            leaf.test.v.append(x[leaf.test.att])
            br = len(leaf.test.v) - 1
            leaf.kids[br] = Leaf({})
            leaf, parent = leaf.kids[br], leaf
        elif leaf is None:
            leaf = Leaf({})
            parent.kids[br] = leaf
        outs = [self] if not self._absorb(leaf, x, y, w) else self._forked(leaf, w)
        return [b for a in outs for b in a._walk([], x, y, w)]

    def at(self, path):
        node = self.root
        for b in path:
            node = node.kids.get(b)
        return node

    def place(self, path, node):
        if not path:
            self.root = node
        else:
            self.at(path[:-1]).kids[path[-1]] = node

    def _walk(self, path, x, y, w):
        node = self.at(path)
        c = self.cfg
        if isinstance(node, Inner):
            node.stats = add(node.stats, y, w)
            node.samples.append((x, y, w))
            alts = []
            for go, alt in self._reached(node, node.mark, c['min_samples_reevaluate']):
                alts += alt._decide(path, alt.at(path)) if go else [(alt, False)]
            res = []
            for alt, stop in alts:
                b = -1 if stop else alt.at(path).test.branch(x)
                if b < 0 or alt.at(path).kids.get(b) is None:
                    res.append(alt)
                else:
                    res += alt._walk(path + [b], x, y, w)
            return res
        res = []
        for go, alt in self._reached(node, node.last, c['grace_period']):
            if go:
                nd = alt.at(path)
                nd.last = nd.weight()
                res += [a for a, _ in alt._decide(path, nd)]
            else:
                res.append(alt)
        return res

    def _reached(self, node, since, period):
        d = node.weight() - since
        if abs(d - period) < EPS and any(v != int(v) for v in list(node.stats.values()) + [since, period * 2]):
            return [(False, copy.deepcopy(self)), (True, self)]      # rounding decides
        return [(d >= period - EPS, self)]

    def _decide(self, path, node):
        """Alternatives [(reference, replaced?)] for the (re-)evaluation of the split at a node."""
        c = self.cfg
        pre = dict(node.stats)
        if sum(1 for v in pre.values() if v != 0) < 2:
            return [(self, False)]
        per_att = candidates(c, node, pre, self.universe)
        if not per_att:
            return [(self, False)]
        null = merit(c['split_criterion'], pre, [pre])
        null = 0. if null == NEG else null
        bound = math.sqrt(merit_range(c['split_criterion'], pre) ** 2 * math.log(1. / c['split_confidence']) / (2. * node.weight()))
        sure = {bound < c['tie_threshold']}
        plans = {}
        for combo in itertools.product(*per_att):
            best = max(o[0] for o in combo)
            for o in combo:
                if not (o[0] == best or o[0] >= best - EPS):
                    continue
                def over(d):
                    return {d > bound} if abs(d - bound) >= EPS or d != d else {True, False}
                if isinstance(node, Leaf):
                    acts = {'split' if g or t else 'stay' for g in over(best - null) for t in sure}
                else:
                    acts = set()
                    cur = [k[0] for k in combo if k[1].att == node.test.att]
                    for dead in over(null - best):
                        if dead:
                            acts.add('kill')
                            continue
                        for g in over(best - cur[0]) if cur else (True,):
                            for t in sure:
                                acts.add('stay' if not (g or t) else 'swap' if o[1].att != node.test.att else 'retest')
                for a in acts:
                    k = (a,) if a in ('stay', 'kill') else (a, o[1].key(self.universe),
                                                             tuple(tuple(sorted((q, round(v, 8)) for q, v in d.items())) for d in o[2]))
                    plans.setdefault(k, (a, o))
        res = []
        for n, (a, o) in enumerate(plans.values()):
            alt = self if n == len(plans) - 1 else copy.deepcopy(self)
            nd = alt.at(path)
            alt.done = alt.done | {a}
            if a in ('split', 'swap'):
                alt.place(path, Inner(copy.deepcopy(o[1]), nd, [Leaf(d) for d in o[2]]))
            elif a == 'kill':
                leaf = Leaf({})
                leaf.stats, leaf.samples = nd.stats, nd.samples
                alt.place(path, leaf)
            elif a == 'retest':
                nd.test = copy.deepcopy(o[1])
            res.append((alt, a in ('split', 'swap', 'kill')))
        return res

    def votes(self, x):
        if self.root is None:
            return {}
        leaf, parent, _ = self.find(x)
        if leaf is None:
            return parent.stats
        if isinstance(leaf, Split):
            return leaf.stats
        return self.leaf_votes(leaf, x)

    def leaf_votes(self, leaf, x):
        lp = self.cfg['leaf_prediction']
        if lp == 'mc':
            return leaf.stats
        if lp == 'nb':
            return self.nb_scores(leaf, x) if leaf.weight() >= self.cfg['nb_threshold'] else leaf.stats
        return leaf.stats if leaf.mc > leaf.nb else self.nb_scores(leaf, x)

    def shape(self):
        def rec(n):
            if isinstance(n, Leaf):
                return (0, 1, 1, 0)
            ks = [rec(k) for k in n.kids.values()]
            return (1 + sum(k[0] for k in ks), sum(k[1] for k in ks), sum(k[2] for k in ks), 1 + max([k[3] for k in ks] or [0]))
        return rec(self.root) if self.root is not None else (0, 0, 0, 0)
