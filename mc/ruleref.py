"""Reference very fast decision rules: plain sample lists per rule, statistics recomputed when needed.

Numerical ties fork the reference; a conforming implementation agrees with one of the alternatives at every step."""
import copy
import math

from mc.bayesref import scores
from mc.treeref import candidates, big_enough, EPS, NEG


class Tie(Exception):
    pass


def foil(c):
    def m(pre, post):
        if big_enough(post) < 2:
            return NEG

        def e(d):
            if c not in d:
                return 0.
            if d[c] <= 0:
                raise Tie
            return math.log2(d[c] / math.fsum(d.values()))
        a, b = e(post[0]), e(post[1])
        if abs(a - b) < EPS and a != b:
            raise Tie
        best = 0 if a >= b else 1
        if c not in post[best]:
            return 0.
        return post[best][c] * (min(a, b) - e(pre))
    return m


class R:
    def __init__(self, dist=None, det=None, cls=None):
        self.dist, self.preds, self.samples, self.off, self.cls, self.det = dict(dist or {}), [], [], set(), cls, det
        self.last = self.weight()

    def weight(self):
        return math.fsum(self.dist.values())

    def covers(self, x):
        return all(holds(p, x) for p in self.preds)

    def learn(self, x, y, w):
        self.dist[y] = self.dist.get(y, 0.) + w
        self.samples.append((x, y, w))

    def majority(self):
        if not self.dist:
            return 0
        b = max(self.dist.values())
        near = [c for c in sorted(self.dist) if self.dist[c] >= b - EPS]
        if len(near) > 1 and len({self.dist[c] for c in near}) > 1:
            raise Tie
        return near[0]


def holds(p, x):
    a, op, v = p
    return {'<=': x[a] <= v, '>': x[a] > v, '=': x[a] == v, '!=': x[a] != v}[op]


def unsure(rule, g, grace):
    """Is the grace period over only up to rounding?"""
    exact = all(float(v * 2).is_integer() for v in rule.dist.values()) and float(rule.last * 2).is_integer()
    return abs(g - grace) < EPS and not (g == grace and exact)


class Rules:
    """cfg: grace, conf, tie, ordered, prediction, nominal, max_rules, nb, nb_threshold, criterion, poor, min_weight, detector (factory or None)"""

    def __init__(self, cfg, universe):
        self.cfg, self.universe = cfg, universe
        self.rules, self.default = [], R()

    # --- training: returns the list of possible successors of self
    def step(self, x, y, w):
        c = self.cfg
        s = self
        fired = [r for r in s.rules if r.covers(x)]
        out = [s]
        done = False
        for r in fired:
            if done:
                break
            if c['detector'] is not None:
                right = r.majority() == y
                if r.det.add(0 if right else 1) and r.weight() > c['min_weight']:
                    for o in out:
                        o.rules = [q for q in o.rules if q.ident != r.ident]
                    continue
            nxt = []
            for o in out:
                q = next(v for v in o.rules if v.ident == r.ident)
                if o is not s or q is not r:
                    q.det = copy.deepcopy(r.det)
                q.learn(x, y, w)
                g = q.weight() - q.last
                if unsure(q, g, c['grace']):
                    raise Tie
                if g >= c['grace']:
                    nxt += o.expand(q)
                else:
                    nxt.append(o)
            out = nxt
            if c['ordered']:
                done = True
        if not fired:
            d = self.default
            d.learn(x, y, w)
            if c['max_rules'] > len(self.rules):
                g = d.weight() - d.last
                if unsure(d, g, c['grace']):
                    raise Tie
                if g >= c['grace']:
                    out = self.create()
        return out

    def choose(self, rule, crit):
        """(per-attribute best lists sorted by merit, expand?, bound): expand is True, False or None for either."""
        cfg = {'split_criterion': crit, 'nominal_attributes': self.cfg['nominal'], 'binary_split': True}
        cand = candidates(cfg, rule, rule.dist, self.universe)
        for near in cand:
            if any(math.isnan(o[0]) for o in near):
                raise Tie
        if len(cand) < 2:
            return cand, len(cand) > 0, None
        m = sorted((near[0][0] for near in cand), reverse=True)
        k = len(rule.dist)
        rng = math.log2(k) if callable(crit) else math.log2(max(k, 2))
        bound = math.sqrt(rng * rng * math.log(1 / self.cfg['conf']) / (2 * rule.weight()))
        gap = m[0] - m[1] if m[0] != NEG else 0. if m[1] != NEG else float('nan')
        exp = gap > bound or bound < self.cfg['tie']
        if abs(gap - bound) < EPS or abs(bound - self.cfg['tie']) < EPS:
            exp = None
        return cand, exp, bound

    def best(self, cand):
        """All (predicate, covered statistics, other statistics) that may be chosen."""
        top = max(near[0][0] for near in cand)
        for near in cand:
            if near[0][0] >= top - EPS:
                for m, t, d in near:
                    if t.kind == 'num':
                        yield (t.att, '<=', t.v), d[0], d[1]
                        yield (t.att, '>', t.v), d[1], d[0]
                    else:
                        yield (t.att, '=', t.v), d[0], d[1]
                        yield (t.att, '!=', t.v), d[1], d[0]

    def foil_best(self, cand, c):
        """FOIL fixes the side by the better branch."""
        for p, a, b in self.best(cand):
            first, second = (a, b) if p[1] in ('<=', '=') else (b, a)

            def e(d):
                return math.log2(d[c] / math.fsum(d.values())) if d.get(c, 0) > 0 else 0. if c not in d else NEG
            if big_enough([first, second]) < 2:
                yield p, a, b               # no merit: any side
            elif (e(first) >= e(second)) == (p[1] in ('<=', '=')):
                yield p, a, b

    ids = [0]

    def mk(self, dist, cls):
        r = R(dist, self.cfg['detector']() if self.cfg['detector'] else None, cls)
        r.last = 0.
        Rules.ids[0] += 1
        r.ident = Rules.ids[0]
        return r

    def create(self):
        d = self.default
        if len(d.dist) < 2:
            d.last = d.weight()
            return [self]
        if self.cfg['criterion'] != 'foil_gain':
            cand, exp, _ = self.choose(d, self.cfg['criterion'])
            out = []
            if exp is not True:
                n = copy.deepcopy(self)
                n.default.last = n.default.weight()
                out.append(n)
            if exp is not False:
                for p, mine, other in self.best(cand):
                    n = copy.deepcopy(self)
                    r = self.mk(mine, None)
                    r.preds = [p]
                    n.rules.append(r)
                    n.default = R()
                    n.default.dist = dict(other)
                    out.append(n)
            return out
        out = [(copy.deepcopy(self), False)]
        for c in sorted(d.dist):
            cand, exp, _ = self.choose(d, foil(c))
            nxt = []
            for n, before in out:
                if len(n.rules) >= self.cfg['max_rules']:
                    nxt.append((n, before))
                    continue
                if len(cand) < 2:
                    before = False
                stale = before and self.cfg.get('stale')      # the defect of the pinned code, see known_findings.jsonl
                if stale or exp is not False:
                    for p, mine, other in self.foil_best(cand, c):
                        m = copy.deepcopy(n)
                        r = self.mk(mine, c)
                        r.preds = [p]
                        m.rules.append(r)
                        nxt.append((m, True))
                if not stale and exp is not True:
                    nxt.append((n, before))
            out = nxt
        res = []
        for n, exp in out:
            if exp:
                n.default = R()
            else:
                n.default.last = n.default.weight()
            res.append(n)
        return res

    def expand(self, rule):
        """rule (a member of self.rules) has seen enough: all possible successors."""
        def done(n):
            r = next(q for q in n.rules if q.ident == rule.ident)
            r.last = r.weight()
            return n
        if len(rule.dist) < 2:
            return [done(self)]
        fo = self.cfg['criterion'] == 'foil_gain'
        crit = foil(rule.cls) if fo else self.cfg['criterion']
        cand, exp, bound = self.choose(rule, crit)
        if self.cfg['poor'] and bound is not None:
            top = max(near[0][0] for near in cand)
            for near in cand:
                g = top - near[0][0] if top != NEG else 0.
                if abs(g - bound) < EPS:
                    raise Tie
                if g > bound:
                    rule.off.add(near[0][1].att)
        out = []
        if exp is not True:
            out.append(done(copy.deepcopy(self)))
        if exp is not False:
            for p, mine, other in (self.foil_best(cand, rule.cls) if fo else self.best(cand)):
                n = copy.deepcopy(self)
                r = next(q for q in n.rules if q.ident == rule.ident)
                for i, q in enumerate(r.preds):
                    if q[:2] == p[:2]:
                        if p[1] == '<=':
                            r.preds[i] = (q[0], q[1], min(q[2], p[2]))
                            r.dist = dict(mine)
                        elif p[1] == '>':
                            r.preds[i] = (q[0], q[1], max(q[2], p[2]))
                            r.dist = dict(mine)
                        break
                else:
                    r.preds.append(p)
                    r.dist = dict(mine)
                r.samples, r.off = [], set()
                out.append(done(n))
        return out

    # --- answers
    def rule_votes(self, r, x):
        if self.cfg['nb'] and r.weight() >= self.cfg['nb_threshold']:
            return scores(r.dist, r.samples, x, self.cfg['nominal'], r.off)
        return dict(r.dist)

    def answers(self, x):
        """Possible normalised votes (more than one on numerical ties)."""
        def norm(v):
            t = math.fsum(v.values())
            return {k: a / t for k, a in v.items()} if t else v
        hits = [r for r in self.rules if r.covers(x)]
        if not hits:
            return [norm(self.rule_votes(self.default, x))]
        vs = [norm(self.rule_votes(r, x)) for r in hits]
        how = self.cfg['prediction']
        if how == 'first_hit':
            return vs[:1]
        if how == 'weighted_max':
            full = [v for v in vs if v]
            if not full:
                return [norm(self.rule_votes(self.default, x))]
            top = max(max(v.values()) for v in full)
            near = [v for v in full if max(v.values()) >= top - EPS]
            if all(max(v.values()) == top for v in near):
                return near[-1:]
            return near
        tot = {}
        for v in vs:
            tot = norm({k: tot.get(k, 0.) + v.get(k, 0.) for k in set(tot) | set(v)})
        return [tot]

    def view(self):
        return [(tuple(r.covers(u) for u in self.universe), len(r.preds), dict(r.dist)) for r in self.rules] + [dict(self.default.dist)]
