"""Reference definitions of the scores, computed from a plain list of results."""
import math

import numpy as np


def single_label(hist, flags, n_classes0, last):
    """hist: [(true, pred, weight)] in the window; flags: [(majority_ok, nochange_ok)] judged at arrival;
    classes known = initial 0..n_classes0-1 plus every class of positive weight ever seen (`last` carries them)."""
    classes = sorted(last['classes'])
    W = sum(w for _, _, w in hist)
    row = {c: sum(w for t, p, w in hist if t == c) for c in classes}
    col = {c: sum(w for t, p, w in hist if p == c) for c in classes}
    diag = {c: sum(w for t, p, w in hist if t == c and p == c) for c in classes}
    out = {}
    acc = sum(diag.values()) / W if W > 0 else 0.0
    out['accuracy_score'] = acc

    def kap(pe):
        if W <= 0:
            return 0.0
        return 0.0 if abs(pe - 1.0) < 1e-12 else (acc - pe) / (1.0 - pe)
    out['kappa_score'] = kap(sum(row[c] * col[c] for c in classes) / (W * W) if W > 0 else 0)
    out['kappa_t_score'] = kap(sum(w for (t, p, w), f in zip(hist, flags) if f[1]) / W if W > 0 else 0)
    out['kappa_m_score'] = kap(sum(w for (t, p, w), f in zip(hist, flags) if f[0]) / W if W > 0 else 0)
    prec = {c: diag[c] / col[c] if col[c] > 0 else 0.0 for c in classes}
    rec = {c: diag[c] / row[c] if row[c] > 0 else 0.0 for c in classes}
    f1 = {c: 2 * prec[c] * rec[c] / (prec[c] + rec[c]) if prec[c] + rec[c] > 0 else 0.0 for c in classes}
    for name, d in (('precision_score', prec), ('recall_score', rec), ('f1_score', f1)):
        out[name] = d[1] if len(classes) == 2 else sum(d.values()) / len(classes)
        for c in classes:
            out[name, c] = d[c]
    out['geometric_mean_score'] = 0.0 if min(rec.values()) <= 0 else math.exp(
        sum(math.log(r) for r in rec.values()) / len(rec))
    out['majority_class'] = majority(row)
    out['matrix'] = {(a, b): sum(w for t, p, w in hist if (t, p) == (a, b)) for a in classes for b in classes}
    return out


def majority(row):
    best, bw = 0, 0.0
    for c in sorted(row):
        if row[c] > bw:
            best, bw = c, row[c]
    return best


class SingleLabelModel:
    """window=None: cumulative."""

    def __init__(self, n_classes=2, window=None):
        self.n0, self.window = max(n_classes, 2), window
        self.reset()

    def reset(self):
        self.hist, self.flags = [], []
        self.last = (0, 0)
        self.classes = set(range(self.n0))

    def add(self, t, p, w=1.0):
        if self.window is not None and len(self.hist) == self.window:
            self.hist.pop(0)
            self.flags.pop(0)
        self.hist.append((t, p, w))
        if w > 0:
            self.classes |= {t, p}
        row = {c: sum(ww for tt, _, ww in self.hist if tt == c) for c in self.classes}
        maj = majority(row)
        self.flags.append((maj == t, self.last[0] == t))
        self.last = (t, p)

    def scores(self):
        return single_label(self.hist, self.flags, self.n0, {'classes': self.classes})


class MultiLabelModel:
    def __init__(self, window=None):
        self.window = window
        self.reset()

    def reset(self):
        self.hist = []

    def add(self, t, p):
        if self.window is not None and len(self.hist) == self.window:
            self.hist.pop(0)
        self.hist.append((t, p))

    def scores(self, jaccard_empty=0.0):
        n = len(self.hist)
        if not n:
            return {'hamming_score': 0.0, 'exact_match_score': 0.0, 'jaccard_score': 0.0, 'n': 0}
        L = len(self.hist[0][0])
        ham = sum(sum(a == b for a, b in zip(t, p)) for t, p in self.hist) / (n * L)
        em = sum(tuple(t) == tuple(p) for t, p in self.hist) / n
        j = 0.0
        for t, p in self.hist:
            i = sum(1 for a, b in zip(t, p) if a and b)
            u = sum(1 for a, b in zip(t, p) if a or b)
            j += i / u if u else jaccard_empty
        return {'hamming_score': ham, 'hamming_loss_score': 1 - ham, 'exact_match_score': em, 'jaccard_score': j / n,
                'n': n}


class RegressionModel:
    def __init__(self, window=None):
        self.window = window
        self.reset()

    def reset(self):
        self.hist = []

    def add(self, t, p):
        if self.window is not None and len(self.hist) == self.window:
            self.hist.pop(0)
        self.hist.append((np.array(t, dtype=float), np.array(p, dtype=float)))

    def mse(self):
        return sum(((t - p) ** 2 for t, p in self.hist), 0.0) / len(self.hist) if self.hist else 0.0

    def mae(self):
        return sum((abs(t - p) for t, p in self.hist), 0.0) / len(self.hist) if self.hist else 0.0


class OldSingleModel:
    """The deprecated measurement classes (unit weights).  The cumulative one judges the majority baseline
    including the present result, the windowed one before it; the no-change baseline has no answer at first."""

    def __init__(self, targets, window=None):
        self.t0, self.window = list(targets), window
        self.targets = list(targets)
        self.reset()

    def reset(self):
        self.hist, self.flags, self.last = [], [], (None, None)

    def _maj(self, hist):
        best, bw = self.targets[0], 0
        for c in self.targets:
            n = sum(1 for t, _ in hist if t == c)
            if n > bw:
                best, bw = c, n
        return best

    def add(self, t, p):
        for v in (t, p):
            if v not in self.targets:
                self.targets.append(v)
        if self.window is not None:
            if len(self.hist) == self.window:
                self.hist.pop(0)
                self.flags.pop(0)
            maj = self._maj(self.hist)
            self.hist.append((t, p))
        else:
            self.hist.append((t, p))
            maj = self._maj(self.hist)
        self.flags.append((maj == t, self.last[0] == t))
        self.last = (t, p)

    def scores(self):
        h, n = self.hist, len(self.hist)
        cs = self.targets
        acc = sum(t == p for t, p in h) / n

        def kap(pe):
            return 1 if abs(pe - 1) < 1e-12 else (acc - pe) / (1 - pe)
        out = {'get_accuracy': acc, 'get_incorrectly_classified_ratio': 1 - acc,
               'get_kappa': kap(sum(sum(t == c for t, _ in h) * sum(p == c for _, p in h) for c in cs) / (n * n)),
               'get_kappa_t': kap(sum(f[1] for f in self.flags) / n),
               'get_kappa_m': kap(sum(f[0] for f in self.flags) / n),
               'get_majority_class': self._maj(h)}
        if set(cs) == {0, 1}:
            tp = sum(t == 1 and p == 1 for t, p in h)
            fp = sum(t == 0 and p == 1 for t, p in h)
            fn = sum(t == 1 and p == 0 for t, p in h)
            tn = n - tp - fp - fn
            pr = tp / (tp + fp) if tp + fp else 0.0
            rc = tp / (tp + fn) if tp + fn else 0.0
            sp = tn / (tn + fp) if tn + fp else 0.0
            out.update({'get_precision': pr, 'get_recall': rc, 'get_f1_score': 2 * pr * rc / (pr + rc) if pr + rc else 0.0,
                        'get_g_mean': math.sqrt(rc * sp)})
        return out
