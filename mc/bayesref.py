"""Reference class scores by Bayes' rule, computed from plain sample lists (not incrementally)."""
import math


def gauss_params(pairs):
    """pairs: [(value, weight)] -> (total weight, mean, variance) ; unbiased by total weight - 1"""
    W = math.fsum(w for _, w in pairs)
    if W <= 0:
        return 0., 0., 0.
    m = math.fsum(v * w for v, w in pairs) / W
    if all(v == pairs[0][0] for v, _ in pairs):
        return W, pairs[0][0], 0.
    ss = math.fsum(w * (v - m) ** 2 for v, w in pairs)
    return W, m, (ss / (W - 1) if W > 1 else 0.)


def density(pairs, v):
    W, m, var = gauss_params(pairs)
    if W <= 0:
        return 0.
    if var > 0:
        return math.exp(-(v - m) ** 2 / (2 * var)) / math.sqrt(2 * math.pi * var)
    return 1. if abs(v - m) <= 1e-12 * max(1, abs(m)) else 0.


def nominal(pairs, v):
    """Laplace-corrected relative frequency among the values seen for this class"""
    vals = {a for a, _ in pairs}
    return (math.fsum(w for a, w in pairs if a == v) + 1.) / (math.fsum(w for _, w in pairs) + len(vals))


def scores(prior, samples, x, nominal_atts=(), skip_atts=()):
    """prior: {class: weight}; samples: [(x, y, w)] seen by the attribute statistics.
    Unnormalised class scores: prior share times the product of the attribute likelihoods."""
    tot = math.fsum(prior.values())
    if not prior or tot == 0:
        return {0: 0.}
    out = {}
    for c, pw in prior.items():
        s = pw / tot
        if samples:
            mine = [(a, w) for a, y, w in samples if y == c]
            for j in range(len(x)):
                if j in skip_atts:
                    s *= 0.
                elif not mine:
                    s *= 0.
                else:
                    col = [(a[j], w) for a, w in mine]
                    s *= nominal(col, x[j]) if j in nominal_atts else density(col, x[j])
        out[c] = s
    return out
