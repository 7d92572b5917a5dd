"""Reference Hoeffding adaptive tree classifier and the small change monitor both trees are run with.

Built from the same list-based statistics as mc/treeref.py.  Where rounding or a numerical tie decides, the reference asks
`choose`; `successors` explores every answer, so a conforming tree must agree with one of the successors at every step."""
import math

from mc.bayesref import scores
from mc.treeref import EPS, NEG, Test, add, candidates, merit, merit_range


class Mon:
    """Change monitor with a tiny memory: flags when the mean of the newest `b` values differs by at least `gap` from the
    mean of the older ones, and forgets the older ones.  It reports `scale` observations per value, and error rates drawn
    towards one half by `squash`, so that few values suffice to come to either side of the significance bound."""

    def __init__(self, b, gap, scale, squash=1.):
        self.b, self.gap, self.scale, self.squash = b, gap, scale, squash
        self.win, self.flag = [], False

    def add(self, v):
        self.win.append(float(v))
        self.flag = False
        if len(self.win) >= 2 * self.b:
            new, old = self.win[-self.b:], self.win[:-self.b]
            if abs(math.fsum(new) / len(new) - math.fsum(old) / len(old)) >= self.gap:
                self.win, self.flag = new, True

    def clone(self):
        m = Mon(self.b, self.gap, self.scale, self.squash)
        m.win, m.flag = list(self.win), self.flag
        return m

    @property
    def est(self):
        if not self.win:
            return 0.
        m = math.fsum(self.win) / len(self.win)
        return m if self.squash == 1. else .5 + self.squash * (m - .5)

    @property
    def width(self):
        return len(self.win) * self.scale


class patched_adwin:
    """Runs the real trees with Mon behind the ADWIN interface (the real ADWIN is the subject of C16)."""

    def __init__(self, *args):
        self.args = args

    def __enter__(self):
        from skmultiflow.drift_detection.adwin import ADWIN
        args, self.cls = self.args, ADWIN
        names = ('add_element', 'detected_change', 'estimation', 'width')
        self.saved = {n: ADWIN.__dict__.get(n) for n in names}

        def mon(o):
            if '_mc_mon' not in o.__dict__:
                o._mc_mon = Mon(*args)
            return o._mc_mon
        ADWIN.add_element = lambda o, v: mon(o).add(v)
        ADWIN.detected_change = lambda o: mon(o).flag
        ADWIN.estimation = property(lambda o: mon(o).est, lambda o, v: None)
        ADWIN.width = property(lambda o: mon(o).width)
        return self

    def __exit__(self, *exc):
        for n, v in self.saved.items():
            if v is None:
                delattr(self.cls, n)
            else:
                setattr(self.cls, n, v)


class Leaf:
    def __init__(self, stats, mon, active=True):
        self.stats, self.mon, self.active = dict(stats), mon, active
        self.samples, self.mc, self.nb, self.off = [], 0., 0., set()
        self.last = self.weight()

    def weight(self):
        return math.fsum(self.stats.values())

    def clone(self):
        n = Leaf(self.stats, self.mon.clone(), self.active)
        n.samples, n.mc, n.nb, n.off, n.last = list(self.samples), self.mc, self.nb, set(self.off), self.last
        return n


class Split:
    def __init__(self, test, stats, kids, mon):
        self.test, self.stats, self.kids, self.mon, self.alt = test, dict(stats), kids, mon, None

    def clone(self):
        t = Test(self.test.kind, self.test.att, list(self.test.v) if isinstance(self.test.v, list) else self.test.v)
        n = Split(t, self.stats, [k.clone() for k in self.kids], self.mon.clone())
        n.alt = self.alt.clone() if self.alt is not None else None
        return n


class HATRef:
    def __init__(self, cfg, universe, mon):
        self.cfg, self.universe, self.new_mon = cfg, universe, mon
        self.root = None
        self.grown = self.switched = self.pruned = 0
        self.script, self.asked = (), []

    def clone(self):
        n = HATRef(self.cfg, self.universe, self.new_mon)
        n.root = self.root.clone() if self.root is not None else None
        n.grown, n.switched, n.pruned = self.grown, self.switched, self.pruned
        return n

    # -- nondeterminism
    def choose(self, options):
        if len(options) == 1:
            return options[0]
        k = len(self.asked)
        self.asked.append(len(options))
        return options[self.script[k] if k < len(self.script) else 0]

    def successors(self, x, y, w):
        out, todo = [], [()]
        while todo:
            script = todo.pop()
            n = self.clone()
            n.script, n.asked = script, []
            n._start(x, y, w)
            out.append(n)
            for i in range(len(script), len(n.asked)):
                for c in range(1, n.asked[i]):
                    todo.append(script + (0,) * (i - len(script)) + (c,))
        return out

    # -- answers
    def nb_scores(self, leaf, x):
        return scores(leaf.stats, leaf.samples if leaf.active else [], x, self.cfg['nominal_attributes'] or (), leaf.off)

    def votes(self, node, x):
        while isinstance(node, Split):
            b = node.test.branch(x)
            if b < 0:
                return node.stats
            node = node.kids[b]
        lp = self.cfg['leaf_prediction']
        if not node.active or lp == 'mc':
            return node.stats
        if lp == 'nb' or node.mc <= node.nb:
            return self.nb_scores(node, x)
        return node.stats

    def top(self, votes):
        """winning class; any of numerically tied ones"""
        if not votes:
            return 0
        best = max(votes.values())
        near = sorted(c for c in votes if votes[c] >= best - 1e-9 * max(1e-300, best))
        return self.choose(near) if best > 0 else near[0]

    def proba(self, x):
        v = self.votes(self.root, x) if self.root is not None else {}
        t = math.fsum(v.values())
        return {c: (a / t if t else a) for c, a in v.items()}

    # -- learning
    def _start(self, x, y, w):
        if self.root is None:
            self.root = Leaf({}, self.new_mon())
        self._learn(self.root, self._put_root, x, y, w)

    def _put_root(self, n):
        self.root = n

    def _learn(self, node, put, x, y, w):
        wrong = float(self.top(self.votes(node, x)) != y)
        old = node.mon.est
        node.mon.add(wrong)
        if isinstance(node, Leaf):
            self._absorb(node, x, y, w)
            self._grow(node, put)
            return
        if node.mon.flag and not old > node.mon.est:
            node.alt = Leaf({}, self.new_mon())
            self.grown += 1
        elif node.alt is not None and node.mon.width > 300 and node.alt.mon.width > 300:
            e, a = node.mon.est, node.alt.mon.est
            bound = math.sqrt(2. * e * (1. - e) * math.log(2. / .05) * (1. / node.alt.mon.width + 1. / node.mon.width))
            if abs(abs(e - a) - bound) < 1e-12 and bound > 0:
                bound = self.choose([bound + 1e-9, bound - 1e-9])
            if e - a > bound:
                self.switched += 1
                self._bury(node)
                put(node.alt)
                self._learn(node.alt, put, x, y, w)
                return
            if a - e > bound:
                self.pruned += 1
                self._bury(node.alt)
                node.alt = None
        if node.alt is not None:
            def put_alt(n):
                node.alt = n
            self._learn(node.alt, put_alt, x, y, w)
        b = node.test.branch(x)
        if b < 0:
            node.test.v.append(x[node.test.att])
            b = len(node.kids)
            node.kids.append(Leaf({}, self.new_mon()))

        def put_kid(n):
            node.kids[b] = n
        self._learn(node.kids[b], put_kid, x, y, w)

    def _bury(self, node):
        """the alternates hanging on the branches of a removed subtree are pruned with it"""
        for k in node.kids if isinstance(node, Split) else ():
            if isinstance(k, Split) and k.alt is not None:
                self._bury(k.alt)
                self.pruned += 1
            self._bury(k)

    def _absorb(self, leaf, x, y, w):
        if self.cfg['leaf_prediction'] == 'nba' and leaf.active:
            if (max(leaf.stats, key=lambda c: (leaf.stats[c], -c)) if leaf.stats else 0) == y:
                leaf.mc += w
            if self.top(self.nb_scores(leaf, x)) == y:
                leaf.nb += w
        leaf.stats = add(leaf.stats, y, w)
        if leaf.active:
            leaf.samples.append((x, y, w))

    def _grow(self, leaf, put):
        c = self.cfg
        seen = leaf.weight()
        if not leaf.active or seen - leaf.last < c['grace_period']:
            return
        leaf.last = seen
        pre = dict(leaf.stats)
        if sum(1 for v in pre.values() if v != 0) < 2:
            return
        per_att = [self.choose(p) for p in candidates(c, leaf, pre, self.universe)]
        null = [] if c['no_preprune'] else [(merit(c['split_criterion'], pre, [pre]), None, None)]
        cand = null + per_att
        if not cand:
            return
        wins = cand
        if len(cand) > 1:
            ms = sorted(o[0] for o in cand)
            best, second = ms[-1], ms[-2]
            bound = math.sqrt(merit_range(c['split_criterion'], pre) ** 2 * math.log(1. / c['split_confidence']) / (2. * seen))
            diff = best - second if best != second else (float('nan') if best == NEG else 0.)
            yes = diff > bound or bound < c['tie_threshold']
            if abs(diff - bound) < EPS and not bound < c['tie_threshold'] - EPS or abs(bound - c['tie_threshold']) < EPS:
                yes = self.choose([True, False])
            if not yes:
                return
            wins = [o for o in cand if o[0] == best or o[0] >= best - EPS]
        win = self.choose(wins)
        if win[1] is None:
            put(Leaf(leaf.stats, self.new_mon(), active=False))
        else:
            t = Test(win[1].kind, win[1].att, list(win[1].v) if isinstance(win[1].v, list) else win[1].v)
            put(Split(t, leaf.stats, [Leaf(d, self.new_mon()) for d in win[2]], self.new_mon()))
        if not c['stop_mem_management']:
            self._revive(self.root, self._put_root)

    def _revive(self, node, put):
        if isinstance(node, Split):
            for b in range(len(node.kids)):
                def put_kid(n, b=b):
                    node.kids[b] = n
                self._revive(node.kids[b], put_kid)
        elif not node.active:
            put(Leaf(node.stats, self.new_mon()))

    def key(self, node='root'):
        """identifies alternatives that can never behave differently on the universe"""
        if node == 'root':
            return self.grown, self.switched, self.pruned, self.key(self.root)
        if node is None:
            return None
        own = tuple(node.mon.win), node.mon.flag, tuple(sorted((k, round(v, 9)) for k, v in node.stats.items()))
        if isinstance(node, Leaf):
            return own + (node.active, tuple(node.samples), round(node.mc, 9), round(node.nb, 9), tuple(sorted(node.off)), round(node.last, 9))
        return own + (node.test.key(self.universe), tuple(self.key(k) for k in node.kids), self.key(node.alt))

    def depth(self, node='root'):
        node = self.root if node == 'root' else node
        return 1 + max(self.depth(k) for k in node.kids) if isinstance(node, Split) else 0
