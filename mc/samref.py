"""Reference of the self-adjusting-memory kNN classifier, recomputed from plain lists."""
import math

import numpy as np
from sklearn.cluster import KMeans


class Tie(Exception):
    """A vote that depends on rounding."""


def dist(a, b):
    return sum((x - y) * (x - y) for x, y in zip(a, b))


def nearest(k, d):
    return sorted(range(len(d)), key=lambda i: (d[i], i))[:k]


def vote(labels, dists, k, weighted):
    """Label of the k nearest; equal votes go to the smaller label."""
    v = {}
    for i in nearest(k, dists):
        v[labels[i]] = v.get(labels[i], 0.0) + (1 / max(math.sqrt(dists[i]), 1e-9) if weighted else 1)
    best = max(v.values())
    if any(0 < best - x < 1e-9 * max(1.0, best) for x in v.values()):
        raise Tie
    return min(c for c, x in v.items() if x == best)


CLUSTERS = {}


def compress(X, y):
    out, lab = [], []
    for c in sorted(set(y)):
        pts = tuple(tuple(x) for x, v in zip(X, y) if v == c)
        n = max(len(pts) // 2, 1)
        if pts not in CLUSTERS:
            CLUSTERS[pts] = [tuple(v) for v in KMeans(n_clusters=n, n_init=1, random_state=0).fit(np.array(pts)).cluster_centers_]
        out += CLUSTERS[pts]
        lab += [c] * n
    return out, lab


class Sam:
    def __init__(self, k, weighting, size, ltm, min_stm, option, use_ltm, halves='int'):
        self.k, self.weighted, self.size, self.ltm = k, weighting == 'distance', size, ltm * size
        self.min, self.option, self.use_ltm, self.halves = min_stm, option, use_ltm, halves
        self.X, self.y, self.L, self.M = [], [], [], []
        self.flags = []                 # (stm, ltm, both) right or wrong, one per STM sample
        self.hist = {}                  # suffix start -> interleaved test-then-train flags

    # --- answers
    def opinions(self, x):
        """(stm, ltm, both, chosen) answers for row x."""
        dS = [dist(x, s) for s in self.X]
        if not self.X:
            return 0, 0, 0, 0
        if not self.use_ltm:
            a = vote(self.y, dS, min(self.k, len(dS)), self.weighted)
            return a, 0, 0, a
        if len(self.X) < self.k:
            a = vote(self.y, dS, len(dS), self.weighted)
            return a, 0, 0, a
        dL = [dist(x, s) for s in self.L]
        s = vote(self.y, dS, self.k, self.weighted)
        b = vote(self.y + self.M, dS + dL, self.k, self.weighted)
        l = 0
        chosen = s
        if len(self.L) >= self.k:
            l = vote(self.M, dL, self.k, self.weighted)
            right = [sum(f[j] for f in self.flags) for j in range(3)]
            chosen = (s, l, b)[right.index(max(right))]
        return s, l, b, chosen

    # --- training
    def train(self, x, label):
        if self.use_ltm:
            s, l, b, _ = self.opinions(x)
            self.flags.append((s == label, l == label, b == label))
        self.X.append(tuple(x))
        self.y.append(label)
        self.bound()
        self.L, self.M = self.clean(self.L, self.M, [len(self.X) - 1])
        if self.option is not None:
            n = self.best_size()
            cut = len(self.X) - n
            if cut > 0:
                oX, oy = self.X[:cut], self.y[:cut]
                self.X, self.y, self.flags = self.X[cut:], self.y[cut:], self.flags[cut:]
                if self.use_ltm:
                    oX, oy = self.clean(oX, oy, range(len(self.X)))
                    self.L, self.M = self.L + oX, self.M + oy
                    self.bound()

    def bound(self):
        if not self.use_ltm:
            if len(self.X) > self.size:
                self.X, self.y = self.X[1:], self.y[1:]
                if self.option == 'maxACCApprox':
                    self.hist = {max(s - 1, 0): (h[1:] if s == 0 else h) for s, h in self.hist.items()}
                else:
                    self.hist = {}
            return
        if len(self.X) + len(self.L) <= self.size:
            return
        if len(self.L) > self.ltm:
            self.L, self.M = compress(self.L, self.M)
        else:
            n = int(self.ltm - len(self.L) + 1)
            self.L, self.M = compress(self.L + self.X[:n], self.M + self.y[:n])
            self.X, self.y, self.flags = self.X[n:], self.y[n:], self.flags[n:]
            self.hist = {}

    def clean(self, L, M, which):
        """Drop remembered samples that contradict the neighbourhood of the given STM samples."""
        L, M = list(L), list(M)
        if len(self.X) <= self.k:
            return L, M
        for i in which:
            if not L:
                break
            others = [j for j in range(len(self.X)) if j != i]
            dS = [dist(self.X[i], self.X[j]) for j in others]
            near = [j for j in nearest(self.k, dS) if self.y[others[j]] == self.y[i]]
            dL = [dist(self.X[i], s) for s in L]
            if not near:
                continue
            thr = max(dS[j] for j in near)
            if any(0 < abs(d - thr) < 1e-12 for d in dL):
                raise Tie
            drop = {j for j in nearest(min(self.k, len(dL)), dL) if M[j] != self.y[i] and dL[j] <= thr}
            L = [v for j, v in enumerate(L) if j not in drop]
            M = [v for j, v in enumerate(M) if j not in drop]
        return L, M

    # --- STM size
    def interleaved(self, start, have=()):
        X, y = self.X[start:], self.y[start:]
        h = list(have)
        for i in range(len(h) + self.k, len(y)):
            h.append(vote(y[:i], [dist(X[i], X[j]) for j in range(i)], self.k, self.weighted) == y[i])
        return h

    def best_size(self):
        N = len(self.X)
        if N < 2 * self.min:
            return N
        sizes = [N]
        while True:
            h = sizes[-1] // 2 if self.halves == 'int' else sizes[-1] / 2
            if h < self.min:
                break
            sizes.append(h)
        starts = [int(N - s) for s in sizes]
        exact = self.option == 'maxACC'
        if exact:
            if self.halves == 'int':
                self.hist = {}
            else:
                self.hist = {s: h for s, h in self.hist.items() if s in [N - z for z in sizes]}
        acc = []
        for s in starts:
            if s in self.hist:
                h = self.interleaved(s, self.hist[s])
            elif not exact and s - 1 in self.hist:
                h = self.interleaved(s, self.hist.pop(s - 1)[1:])
            else:
                h = self.interleaved(s)
            self.hist[s] = h
            acc.append(round(sum(h) / len(h), 4))
        best = acc.index(max(acc))
        if not exact and best > 0:
            a0 = acc[0]
            for j, s in enumerate(starts):
                if acc[j] > a0:
                    self.hist[s] = self.interleaved(s)
                    acc[j] = round(sum(self.hist[s]) / len(self.hist[s]), 4)
            best = acc.index(max(acc))
        if best > 0:
            if self.halves == 'int':
                cut = starts[best]
                self.hist = {s - cut: h for s, h in self.hist.items() if s >= cut}
            else:
                for _ in range(best):
                    ks = sorted(self.hist)
                    self.hist = {s - ks[1]: self.hist[s] for s in ks[1:]}
        return int(sizes[best])
