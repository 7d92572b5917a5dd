"""Reference models of the drift detectors as nondeterministic step functions.

step(state, x) -> [(state', warning, drift)]: more than one outcome only where a comparison is within
rounding of its threshold.  States are plain tuples, so an implementation trace is checked by the
set of model states that explain it."""
from math import inf, log, sqrt

REL = 1e-10


def cmp_gt(a, b):
    """Possible truth values of a > b under rounding."""
    if a == inf or b == inf or a == -inf or b == -inf:
        return (a > b,)
    if abs(a - b) <= REL * max(1e-3, abs(a), abs(b)):
        return (True, False)
    return (a > b,)


class DDMRef:
    def __init__(self, min_num_instances=30, warning_level=2.0, out_control_level=3.0):
        self.mn, self.wl, self.ol = min_num_instances, warning_level, out_control_level

    def init(self):
        return (0, 0.0, inf, inf, inf)      # n, number of errors, min(p+s), p_min, s_min

    def step(self, st, x):
        n, c, ms, mp, msd = st
        n, c = n + 1, c + x
        p = c / n
        s = sqrt(max(p * (1 - p), 0.0) / n)
        if n + 1 < self.mn:
            return [((n, c, ms, mp, msd), False, False)]
        out = []
        for worse in cmp_gt(p + s, ms):
            a, b, d = (ms, mp, msd) if worse else (p + s, p, s)
            for drift in cmp_gt(p + s, b + self.ol * d):
                if drift:
                    out.append((self.init(), False, True))
                else:
                    for warn in cmp_gt(p + s, b + self.wl * d):
                        out.append(((n, c, a, b, d), warn, False))
        return out


class EDDMRef:
    WARN, OUT, MIN_N, MIN_ERR = 0.95, 0.9, 30, 30

    def init(self):
        return (0, 0, 0, 0.0, 0.0, 0.0, False)   # n, errors, position of last error, mean, M2, max, warning

    def step(self, st, x):
        n, e, last, mean, m2, mx, warn = st
        n += 1
        if x != 1:
            return [((n, e, last, mean, m2, mx, warn), warn, False)]
        e += 1
        d = n - last
        new = mean + (d - mean) / e
        m2 += (d - new) * (d - mean)
        mean, last = new, n
        v = mean + 2 * sqrt(max(m2, 0.0) / e)
        if n + 1 < self.MIN_N:
            return [((n, e, last, mean, m2, mx, False), False, False)]
        out = []
        for bigger in cmp_gt(v, mx):
            if bigger:
                out.append(((n, e, last, mean, m2, v, False), False, False))
                continue
            r = v / mx
            for low in cmp_gt(self.OUT, r):
                if e > self.MIN_ERR and low:
                    out.append((self.init(), False, True))
                    continue
                for w in cmp_gt(self.WARN, r):
                    w = w and e > self.MIN_ERR
                    out.append(((n, e, last, mean, m2, mx, w), w, False))
        return out


class PageHinkleyRef:
    def __init__(self, min_instances=30, delta=0.005, threshold=50, alpha=1 - 0.0001):
        self.mn, self.delta, self.thr, self.alpha = min_instances, delta, threshold, alpha

    def init(self):
        return (0, 0.0, 0.0)        # n, sum of values, test statistic

    def step(self, st, x):
        n, s, t = st
        n, s = n + 1, s + x
        t = max(0.0, self.alpha * t + (x - s / n - self.delta))
        if n + 1 < self.mn:
            return [((n, s, t), False, False)]
        return [((self.init() if d else (n, s, t)), False, d) for d in cmp_gt(t, self.thr)]


class HDDMARef:
    def __init__(self, drift_confidence=0.001, warning_confidence=0.005, two_side_option=True):
        self.dc, self.wc, self.two = drift_confidence, warning_confidence, two_side_option

    def init(self):
        return (0, 0.0, 0, 0.0, 0, 0.0)     # n, c, n_min, c_min, n_max, c_max

    def eps(self, n):
        return sqrt(log(1.0 / self.dc) / (2 * n))

    def bound(self, n0, n, conf):
        return sqrt((n - n0) / n0 / n / 2 * log(2.0 / conf))

    def step(self, st, x):
        n, c, n0, c0, n1, c1 = st
        n, c = n + 1, c + x
        if n0 == 0:
            n0, c0 = n, c
        if n1 == 0:
            n1, c1 = n, c
        e = self.eps(n)
        lows = set()
        for gt in cmp_gt(c / n + e, c0 / n0 + self.eps(n0)):
            lows.add((n0, c0) if gt else (n, c))
        highs = set()
        for gt in cmp_gt(c1 / n1 - self.eps(n1), c / n - e):
            highs.add((n1, c1) if gt else (n, c))
        out = []
        for a, ca in lows:
            drifts = (False,) if a == n else tuple(not v for v in cmp_gt(self.bound(a, n, self.dc), c / n - ca / a))
            for drift in drifts:
                if drift:
                    out.append((self.init(), False, True))
                    continue
                warns = (False,) if a == n else tuple(not v for v in cmp_gt(self.bound(a, n, self.wc), c / n - ca / a))
                for warn in warns:
                    for b, cb in highs:
                        decs = (False,) if (b == n or not self.two) else tuple(not v for v in cmp_gt(self.bound(b, n, self.dc), cb / b - c / n))
                        for dec in decs:
                            out.append((self.init() if dec else (n, c, a, ca, b, cb), warn, False))
        return out


class HDDMWRef:
    """decr='documented': the two-sided monitor works; decr='off': it never fires (the known finding)."""

    def __init__(self, drift_confidence=0.001, warning_confidence=0.005, lambda_option=0.05, two_side_option=True, decr='documented'):
        self.dc, self.wc, self.lam, self.two = drift_confidence, warning_confidence, lambda_option, two_side_option and decr == 'documented'

    def init(self):
        return (None, inf, None, None, -inf, None, None)    # total, incr cut, incr 1, incr 2, decr cut, decr 1, decr 2

    def ew(self, s, x):
        if s is None:
            return (x, 1.0)
        l = self.lam
        return (l * x + (1 - l) * s[0], l * l + (1 - l) * (1 - l) * s[1])

    def bnd(self, ibc, conf):
        return sqrt(ibc * log(1.0 / conf) / 2)

    def inc(self, a, b, conf):
        if a is None or b is None:
            return (False,)
        return cmp_gt(b[0] - a[0], self.bnd(a[1] + b[1], conf))

    def step(self, st, x):
        tot, ic, i1, i2, dcut, d1, d2 = st
        tot = self.ew(tot, x)
        e = self.bnd(tot[1], self.dc)
        out = []
        for gt in cmp_gt(ic, tot[0] + e):
            a = (tot[0] + e, tot, None) if gt else (ic, i1, self.ew(i2, x))
            for drift in self.inc(a[1], a[2], self.dc):
                if drift:
                    out.append((self.init(), False, True))
                    continue
                for warn in self.inc(a[1], a[2], self.wc):
                    for gt2 in cmp_gt(tot[0] - e, dcut):
                        b = (tot[0] - e, tot, None) if gt2 else (dcut, d1, self.ew(d2, x))
                        decs = self.inc(b[2], b[1], self.dc) if self.two else (False,)
                        for dec in decs:
                            # a detected decrement restarts the monitor; the flags of a restarted monitor are off
                            out.append((self.init(), False, False) if dec else ((tot,) + a + b, warn, False))
        return out


def explain(ref, states, x, warn, drift, cap=64):
    nxt, seen = [], set()
    for s in states:
        for t, w, d in ref.step(s, x):
            if w == warn and d == drift:
                k = tuple(repr(v) for v in t)
                if k not in seen:
                    seen.add(k)
                    nxt.append(t)
    return nxt[:cap]


# ------------------------------------------------------------------ ADWIN

class ADWINRef:
    """Reference adaptive window (exponential histogram of at most 5 buckets per row).

    drop_var: merging two buckets forgets the older one's variance; skip_last: the split search leaves out
    the newest bucket of every row.  Both off is the documented algorithm."""
    MAXB, MINW, MINL = 5, 10, 5

    def __init__(self, delta=0.002, clock=32, drop_var=False, skip_last=False):
        self.delta, self.clock, self.drop_var, self.skip_last = delta, clock, drop_var, skip_last
        self.rows = [[]]            # row i: list of (total, M2), oldest first
        self.width, self.total, self.m2, self.time, self.ndet = 0, 0.0, 0.0, 0, 0
        self.tie = False

    def add(self, v):
        if self.width:
            self.m2 += self.width * (v - self.total / self.width) ** 2 / (self.width + 1)
        self.width += 1
        self.total += v
        self.rows[0].append((v, 0.0))
        i = 0
        while len(self.rows[i]) > self.MAXB:
            if i + 1 == len(self.rows):
                self.rows.append([])
            (a, va), (b, vb) = self.rows[i][:2]
            n = 2 ** i
            self.rows[i + 1].append((a + b, (0.0 if self.drop_var else va) + vb + (a / n - b / n) ** 2 * n / 2))
            del self.rows[i][:2]
            i += 1

    def drop(self):
        i = len(self.rows) - 1
        n = 2 ** i
        t, v = self.rows[i].pop(0)
        self.width -= n
        self.total -= t
        self.m2 -= v + n * self.width * (t / n - self.total / self.width) ** 2 / (n + self.width)
        if not self.rows[i]:
            self.rows.pop()

    def detect(self):
        from math import log as ln
        self.time += 1
        change = False
        if self.time % self.clock == 0 and self.width > self.MINW:
            again = True
            while again:
                again = False
                n0, u0, n1, u1 = 0, 0.0, self.width, self.total
                for i in range(len(self.rows) - 1, -1, -1):
                    row = self.rows[i]
                    for k, (t, _) in enumerate(row):
                        if self.skip_last and k == len(row) - 1:
                            continue
                        n0, u0, n1, u1 = n0 + 2 ** i, u0 + t, n1 - 2 ** i, u1 - t
                        if i == 0 and k == len(row) - 1:
                            break
                        if n0 >= self.MINL and n1 >= self.MINL:
                            dd = ln(2 * ln(self.width) / self.delta)
                            m = 1.0 / (n0 - self.MINL + 1) + 1.0 / (n1 - self.MINL + 1)
                            var = self.m2 / self.width
                            arg = 2 * m * var * dd
                            if arg < 0:
                                if arg < -1e-9:
                                    arg = float('nan')
                                else:
                                    arg = 0.0
                            eps = sqrt(arg) + 2.0 / 3 * dd * m if arg == arg else arg
                            diff = abs(u0 / n0 - u1 / n1)
                            if abs(diff - eps) < 1e-9:
                                self.tie = True
                            if diff > eps:
                                again = change = True
                                self.drop()
                                break
                    if again:
                        break
        if change:
            self.ndet += 1
        return change
