"""C03: synthetic samples obey the documented concept, domain and metadata."""
import itertools
import math

import numpy as np

from mc.core import same, chunk
from mc.genkit import ScriptedRandom
from skmultiflow.data import (AGRAWALGenerator, AnomalySineGenerator, HyperplaneGenerator, LEDGenerator, LEDGeneratorDrift,
                              MIXEDGenerator, MultilabelGenerator, RandomRBFGenerator, RandomRBFGeneratorDrift,
                              RandomTreeGenerator, RegressionGenerator, SEAGenerator, SineGenerator, STAGGERGenerator,
                              WaveformGenerator)

ID = 'C03'
TECHNIQUE = 'the generators\' random draws are enumerated over boundary grids (scripted RandomState); every emitted sample is judged by an independent concept oracle'
LEVEL_NOTE = (
    'exhaustive over grids of draw values bracketing every threshold of every documented concept, every option and every concept switch; '
    'draw values between grid points are not covered'
)
BOUNDS = {'quick': '4-9 values per relevant draw, all combinations, every classification function and option',
          'thorough': 'finer grids (up to 21 values per draw)'}
ASSUMPTIONS = ['a sample within 1e-9 of a concept threshold may get either label',
               'commission is 0 for salaries of 75k and more and 10k-85k otherwise, function 4 tests salary where the paper tests loan (both as in the MOA original the generator ports)',
               'label noise: a draw more than 0.02 below the noise level flips, one above it does not (the implementation adds 0.01 to the draw)']

EPS = 1e-9


def meta(ctx, g, X, y, key, classes=True):
    X, y = np.asarray(X), np.asarray(y)
    ctx.check(X.ndim == 2 and X.shape[1] == g.n_features == len(g.feature_names), key + ':meta', 'X shape %r, n_features %r, %d names' % (X.shape, g.n_features, len(g.feature_names)))
    ctx.check(y.shape[0] == X.shape[0] and (y.ndim == 1 and g.n_targets == 1 or y.ndim == 2 and y.shape[1] == g.n_targets), key + ':meta', 'y shape %r, n_targets %r' % (y.shape, g.n_targets))
    if classes:
        ctx.check(len(g.target_values) == g.n_classes and set(np.ravel(y).tolist()) <= set(g.target_values), key + ':meta',
                  'labels %r outside target_values %r (n_classes %r)' % (sorted(set(np.ravel(y).tolist())), g.target_values, g.n_classes))


# ------------------------------------------------------------------ AGRAWAL

def inr(v, lo, hi):
    """Truth of lo <= v <= hi; None within EPS of a bound."""
    for b in (lo, hi):
        if abs(v - b) <= EPS * max(1, abs(b)) and v != b:
            return None
    return lo <= v <= hi


def agrawal_group(f, r):
    """Set of admissible groups."""
    salary, commission, age, elevel, car, zipcode, hvalue, hyears, loan = r
    band = 0 if age < 40 else (1 if age < 60 else 2)

    def rng(v, *bands):
        t = inr(v, *bands)
        return {0, 1} if t is None else ({0} if t else {1})
    if f == 0:
        return {1} if 40 <= age < 60 else {0}
    if f == 1:
        return rng(salary, *[(50000, 100000), (75000, 125000), (25000, 75000)][band])
    if f == 2:
        return {0} if elevel in [(0, 1), (1, 2, 3), (2, 3, 4)][band] else {1}
    if f == 3:
        inside = elevel in [(0, 1), (1, 2, 3), (2, 3, 4)][band]
        a = {0: ((25000, 75000), (50000, 100000)), 1: ((50000, 100000), (75000, 125000)), 2: ((50000, 100000), (25000, 75000))}[band]
        return rng(salary, *(a[0] if inside else a[1]))
    if f == 4:
        if band == 0:
            return rng(loan, 100000, 300000) if inr(salary, 50000, 100000) else {1}
        if band == 1:
            return {1}      # both documented tests of the ported original need a salary of 200k or more
        return rng(loan, 300000, 500000) if inr(salary, 25000, 75000) else rng(loan, 75000, 300000)
    if f == 5:
        return rng(salary + commission, *[(50000, 100000), (75000, 125000), (25000, 75000)][band])
    equity = hvalue * (hyears - 20) / 10 if hyears >= 20 else 0
    disp = {6: 2 * (salary + commission) / 3 - loan / 5 - 20000,
            7: 2 * (salary + commission) / 3 - 5000 * elevel - 20000,
            8: 2 * (salary + commission) / 3 - 5000 * elevel - loan / 5 - 10000,
            9: 2 * (salary + commission) / 3 - 5000 * elevel + equity / 5 - 10000}[f]
    # the implementation compares with 1, the paper with 0: nothing between is generated by the grids
    if abs(disp - 1) < 1e-6:
        return {0, 1}
    return {0} if disp > 1 else {1}


def U(v, lo, hi):
    return (v - lo) / (hi - lo)


def agrawal_grid(f, tier):
    """Draw scripts (salary, commission?, age, elevel, car, zip, hvalue, hyears, loan) for the dimensions function f depends on."""
    fine = tier != 'quick'
    d = 37.5
    sal = [20001.]
    for b in (25000, 50000, 75000, 100000, 125000):
        sal += [b - d, b + d]
    sal += [149000.] + ([30000., 60000., 70000., 90000., 110000., 140000.] if fine else [])
    com = [10100., 40000., 74000., 84000.] if not fine else [10100., 25000., 40000., 55000., 74000., 84000.]
    ages = [20, 30, 39, 40, 41, 59, 60, 61, 79, 80]
    el = [0, 1, 2, 3, 4]
    loan = [100., 75000 - d, 75000 + d, 100000 - d, 100000 + d, 200000., 300000 - d, 300000 + d, 400000 + d, 499900.]
    hy = [1, 19, 20, 21, 25, 30]
    hv = [0.02, 0.5, 0.98]
    zc = [0, 4, 8]
    mid = dict(com=[40000.], ages=[39, 40, 59, 60], el=[2], loan=[200000.], hy=[10], hv=[0.5], zc=[4])
    use = {0: ('ages',), 1: ('ages', 'com'), 2: ('ages', 'el'), 3: ('ages', 'el'), 4: ('ages', 'loan'), 5: ('ages', 'com'), 6: ('com', 'loan'),
           7: ('com', 'el'), 8: ('com', 'el', 'loan'), 9: ('com', 'el', 'hy', 'hv', 'zc')}[f]
    full = dict(com=com, ages=ages, el=el, loan=loan, hy=hy, hv=hv, zc=zc)
    pick = {k: (full[k] if k in use else mid[k]) for k in full}
    if f >= 6:
        pick['ages'] = [30, 70]
    if f == 9 and not fine:
        pick['com'] = [10100., 74000.]
    if f in (0, 2):
        sal = [30000., 80000.]
    for s in sal:
        for c in (pick['com'] if s < 75000 else [None]):
            for a in pick['ages']:
                for e in pick['el']:
                    for z in pick['zc']:
                        for v in pick['hv']:
                            for h in pick['hy']:
                                for l in pick['loan']:
                                    yield (s, c, a, e, (s * 7 + a) % 20 // 1, z, v, h, l)


def agrawal_script(t):
    s, c, a, e, car, z, v, h, l = t
    out = [U(s, 20000, 150000)]
    if c is not None:
        out.append(U(c, 10000, 85000))
    return out + [(a - 20 + .5) / 61, (e + .5) / 5, (int(car) % 20 + .5) / 20, (z + .5) / 9, v, (h - 1 + .5) / 30, l / 500000.]


def agrawal_domain(ctx, r):
    s, c, a, e, car, z, hv, hy, l = r
    ok = (20000 <= s <= 150000 and (c == 0 if s >= 75000 else 10000 <= c <= 85000) and 20 <= a <= 80 and a == int(a) and e in range(5)
          and car in range(20) and z in range(9) and (9 - z) * 50000 <= hv <= (9 - z) * 150000 and 1 <= hy <= 30 and hy == int(hy) and 0 <= l <= 500000)
    ctx.check(ok, 'agrawal:domain', lambda: 'feature outside its documented domain: %r' % (r,))


def run_agrawal(ctx, f):
    for t in agrawal_grid(f, ctx.tier):
        sc = agrawal_script(t)
        ctx.case('AGRAWAL', f, t)
        g = AGRAWALGenerator(classification_function=f, random_state=ScriptedRandom(sc))
        X, y = g.next_sample()
        r = tuple(X[0].tolist())
        agrawal_domain(ctx, r)
        want = agrawal_group(f, r)
        ctx.check(int(y[0]) in want, 'agrawal:function', lambda: 'function %d labels %r as %r, want %r' % (f, r, y[0], want))
        ctx.state('ag', f, t)
        ctx.step()
    meta(ctx, g, X, y, 'agrawal')
    ctx.sample({'generator': 'AGRAWAL', 'function': f, 'features': r, 'label': int(y[0])})
    ctx.trace()


def run_agrawal_pert(ctx, f):
    """Perturbation moves numeric features by at most perturbation x range, clipped to the domain; the label stays that of the original."""
    base = [(30000., 40000., 30, 1, 3, 2, .5, 10, 200000.), (140000., None, 45, 2, 19, 8, .98, 25, 499000.), (74000., 11000., 79, 4, 0, 0, .02, 1, 1000.),
            (60000., 84000., 20, 0, 7, 5, .5, 30, 250000.)]
    grid = [0.0, 0.3, 0.5, 0.999]
    for t in base:
        sc = agrawal_script(t)
        r0 = tuple(AGRAWALGenerator(classification_function=f, random_state=ScriptedRandom(sc)).next_sample()[0][0].tolist())
        n = 6 if t[1] is not None else 5
        for p in (0.1, 0.5, 1.0):
            for u in itertools.product(grid, repeat=n if ctx.tier != 'quick' else 3):
                u = (u * 3)[:n]
                ctx.case('AGRAWAL perturbed', f, t, p, u)
                g = AGRAWALGenerator(classification_function=f, random_state=ScriptedRandom(sc + list(u)), perturbation=p)
                X, y = g.next_sample()
                r = tuple(X[0].tolist())
                want = agrawal_group(f, r0)
                ctx.check(int(y[0]) in want, 'agrawal:perturbed label', lambda: 'label %r of the unperturbed %r' % (y[0], r0))
                ctx.check(r[3] == r0[3] and r[4] == r0[4] and r[5] == r0[5], 'agrawal:perturbed nominal', lambda: 'nominal feature perturbed %r -> %r' % (r0, r))
                names = ['salary', 'commission', 'age', 'hvalue', 'hyears', 'loan']
                for col, lo, hi, rnd, nm in ((0, 20000, 150000, 0, 'salary'), (1, 10000, 75000, 0, 'commission'), (2, 20, 80, 1, 'age'), (7, 1, 30, 1, 'hyears'), (8, 0, 500000, 0, 'loan')):
                    if col == 1 and r0[1] == 0:
                        ctx.check(r[1] == 0, 'agrawal:perturbed commission', 'a zero commission changed to %r' % r[1])
                        continue
                    amp = p * (hi - lo)
                    a, b = max(lo, min(hi, r0[col] - amp)), max(lo, min(hi, r0[col] + amp))
                    tol = 0.5 * rnd + 1e-6
                    ctx.check(a - tol <= r[col] <= b + tol, 'agrawal:perturbed ' + nm, lambda: '%s %r perturbed to %r (perturbation %r)' % (nm, r0[col], r[col], p))
                z = r0[5]
                amp = p * (9 - z) * 100000
                if max(0, r0[6] - amp) - 1e-6 <= r[6] <= r0[6] + amp + 1e-6 or (r[6] == 135000 and r0[6] + amp >= 135000):
                    pass
                elif r[6] in (0, (9 - z) * 100000):
                    ctx.fail('agrawal:perturbed hvalue', 'hvalue %r is perturbed to %r: the range and the bounds are passed in the wrong order' % (r0[6], r[6]))
                else:
                    ctx.fail('agrawal:perturbed hvalue out of range', 'hvalue %r perturbed to %r' % (r0[6], r[6]))
                ctx.step()
        ctx.state('agp', f, t)
    ctx.trace()


# ------------------------------------------------------------------ two-class numeric concepts

def noise_ok(ctx, key, flipped, draw, level):
    if level == 0:
        ctx.check(not flipped, key, 'label flipped with noise 0')
    elif draw > level + EPS:
        ctx.check(not flipped, key, 'flipped although the draw %r exceeds the noise level %r' % (draw, level))
    elif draw < level - 0.02:
        ctx.check(flipped, key, 'not flipped although the draw %r is below the noise level %r' % (draw, level))


def run_sea(ctx, f):
    thr = [8, 9, 7, 9.5][f]
    vals = sorted({0.0, .1, 2.5, 5.0, 9.9} | {thr / 2 + d for d in (-.001, .001)} | {thr - 2.5 + d for d in (-.001, 0.001)})
    if ctx.tier != 'quick':
        vals += [1., 2., 3., 4., 6., 7., 8., 9.]
    for a, b, c in itertools.product(vals, vals, [0.0, 5.0, 9.9]):
        for noise, u in [(0.0, 0.5), (0.0, 0.0), (0.3, 0.1), (0.3, 0.27), (0.3, 0.31), (0.3, .9), (1.0, .5)]:
            ctx.case('SEA', f, a, b, c, noise, u)
            g = SEAGenerator(classification_function=f, random_state=ScriptedRandom([a / 10, b / 10, c / 10, u]), noise_percentage=noise)
            X, y = g.next_sample()
            s = X[0][0] + X[0][1]
            ctx.check(all(0 <= v <= 10 for v in X[0]), 'sea:domain', 'feature outside [0,10]')
            if abs(s - thr) > EPS:
                want = 0 if s <= thr else 1
                noise_ok(ctx, 'sea:concept', int(y[0]) != want, u, noise)
            ctx.step()
    meta(ctx, g, X, y, 'sea')
    ctx.state('sea', f)
    ctx.trace()


def run_sine(ctx, f):
    n = 21 if ctx.tier == 'quick' else 60
    vals = [i / n for i in range(n)]
    for a, b in itertools.product(vals, vals):
        for noise in (False, True):
            ctx.case('Sine', f, a, b, noise)
            g = SineGenerator(classification_function=f, random_state=ScriptedRandom([a, b]), has_noise=noise)
            X, y = g.next_sample()
            ctx.check(X.shape == (1, 4 if noise else 2) and all(0 <= v <= 1 for v in X[0]), 'sine:domain', 'row %r' % X.tolist())
            x1, x2 = X[0][0], X[0][1]
            c = math.sin(x2) if f < 2 else 0.5 + 0.3 * math.sin(3 * math.pi * x2)
            if abs(x1 - c) > EPS:
                below = x1 < c
                want = (1 if below else 0) if f in (0, 2) else (0 if below else 1)
                ctx.check(int(y[0]) == want, 'sine:concept', lambda: 'function %d labels %r as %r' % (f, (x1, x2), y[0]))
            ctx.step()
    meta(ctx, g, X, y, 'sine')
    ctx.state('sine', f)
    ctx.trace()


def run_mixed(ctx, f):
    n = 15 if ctx.tier == 'quick' else 40
    vals = [i / n for i in range(n)]
    for v, w in itertools.product((.1, .499, .501, .9), repeat=2):
        for a, b in itertools.product(vals, vals):
            ctx.case('MIXED', f, v, w, a, b)
            g = MIXEDGenerator(classification_function=f, random_state=ScriptedRandom([v, w, a, b]))
            X, y = g.next_sample()
            vv, ww, xx, yy = X[0]
            ctx.check(vv in (0, 1) and ww in (0, 1) and 0 <= xx <= 1 and 0 <= yy <= 1, 'mixed:domain', 'row %r' % X.tolist())
            c = 0.5 + 0.3 * math.sin(3 * math.pi * xx)
            if abs(yy - c) > EPS:
                t = sum((vv == 1, ww == 1, yy < c)) >= 2
                want = (0 if t else 1) if f == 0 else (1 if t else 0)
                ctx.check(int(y[0]) == want, 'mixed:concept', lambda: 'function %d labels %r as %r' % (f, X[0].tolist(), y[0]))
            ctx.step()
    ctx.check(g.cat_features_idx == [0, 1], 'mixed:meta', 'categorical positions')
    meta(ctx, g, X, y, 'mixed')
    ctx.state('mixed', f)
    ctx.trace()


def run_stagger(ctx, f):
    seen = set()
    for s, c, h in itertools.product(range(3), repeat=3):
        ctx.case('STAGGER', f, s, c, h)
        g = STAGGERGenerator(classification_function=f, random_state=ScriptedRandom([(s + .5) / 3, (c + .5) / 3, (h + .5) / 3]))
        X, y = g.next_sample()
        row = dict(zip(g.feature_names, X[0].tolist()))
        size, color, shape = (lab[int(row[k])] for lab, k in ((g.size_labels, 'size'), (g.color_labels, 'color'), (g.shape_labels, 'shape')))
        want = [size == 'small' and color == 'red', color == 'green' or shape == 'circle', size in ('medium', 'large')][f]
        ctx.check(int(y[0]) == int(want), 'stagger:concept', lambda: 'function %d labels %r as %r' % (f, (size, color, shape), y[0]))
        seen.add((size, color, shape))
        ctx.step()
        ctx.state('stagger', f, size, color, shape)
    ctx.check(len(seen) == 27, 'stagger:domain', '%d of 27 objects reachable' % len(seen))
    meta(ctx, g, X, y, 'stagger')
    ctx.trace()


def run_switch(ctx):
    """Concept switch: to another documented concept, later samples only (any draw sequence incl. repeats of the current one)."""
    table = [(AGRAWALGenerator, 10), (SEAGenerator, 4), (SineGenerator, 4), (STAGGERGenerator, 3), (MIXEDGenerator, 2)]

    def label_ok(cls, f, x, yv):
        if cls is AGRAWALGenerator:
            return yv in agrawal_group(f, tuple(x))
        if cls is SEAGenerator:
            return abs(x[0] + x[1] - [8, 9, 7, 9.5][f]) < EPS or yv == (0 if x[0] + x[1] <= [8, 9, 7, 9.5][f] else 1)
        if cls is SineGenerator:
            c = math.sin(x[1]) if f < 2 else 0.5 + 0.3 * math.sin(3 * math.pi * x[1])
            return abs(x[0] - c) < EPS or yv == int((x[0] < c) == (f in (0, 2)))
        if cls is STAGGERGenerator:
            return yv == int([x[0] == 0 and x[1] == 0, x[1] == 2 or x[2] == 0, x[0] in (1, 2)][f])
        c = 0.5 + 0.3 * math.sin(3 * math.pi * x[2])
        t = sum((x[0] == 1, x[1] == 1, x[3] < c)) >= 2
        return abs(x[3] - c) < EPS or yv == ((0 if t else 1) if f == 0 else (1 if t else 0))
    for cls, nf in table:
        for f in range(nf):
            for target in range(nf):
                for rep in (0, 1, 2):
                    if target == f:
                        continue
                    for before in (0, 3):
                        ctx.case(cls.__name__, 'switch', f, '->', target, 'after', rep, 'repeats')
                        rs = ScriptedRandom()
                        g = cls(classification_function=f, random_state=rs)
                        pre = g.next_sample(before) if before else None
                        keep = [a.copy() for a in pre] if pre else None
                        rs.script, rs.i = [(f + .5) / nf] * rep + [(target + .5) / nf], 0
                        g.generate_drift()
                        new = g.classification_function
                        ctx.check(new != f and new in range(nf), 'switch:function', 'switched from %r to %r' % (f, new))
                        if nf > 2:
                            ctx.eq(new, target, 'switch:function', 'the drawn function')
                        X, y = g.next_sample(12)
                        ctx.check(all(label_ok(cls, new, x.tolist(), int(v)) for x, v in zip(X, y)), 'switch:%s' % cls.__name__, 'samples after the switch do not follow function %r' % new)
                        if pre:
                            ctx.check(same(keep[0], pre[0], 0) and same(keep[1], pre[1], 0) and all(label_ok(cls, f, x.tolist(), int(v)) for x, v in zip(*pre)), 'switch:past', 'delivered samples changed')
                        ctx.step(3)
                        ctx.state('switch', cls.__name__, f, new)
    ctx.trace()


# ------------------------------------------------------------------ hyperplane, LED, waveform

def run_hyper(ctx, cfg):
    n, nd, mag, noise, sig = cfg
    grid = [0.05, 0.4, 0.95]
    for wdraws in itertools.product([0.1, 0.8], repeat=n):
        for xs in itertools.product(grid, repeat=n):
            for u in ((0.0,), (.28,), (.5,)) if noise else ((.001,),):
                ctx.case('Hyperplane', cfg, wdraws, xs, u)
                rs = ScriptedRandom(list(wdraws) + list(xs) + list(u) + [.001, .9, .3])
                g = HyperplaneGenerator(random_state=rs, n_features=n, n_drift_features=nd, mag_change=mag, noise_percentage=noise, sigma_percentage=sig)
                d = [v for _, v in rs.log]
                w, sg = d[:n], [1.0] * nd
                for t in range(3):
                    start = len(rs.log)
                    X, y = g.next_sample()
                    d = [v for _, v in rs.log[start:]]
                    s = sum(a * b for a, b in zip(w, X[0])) - 0.5 * sum(w)
                    ctx.check(all(0 <= v <= 1 for v in X[0]), 'hyperplane:domain', 'row %r' % X.tolist())
                    if abs(s) > EPS:
                        noise_ok(ctx, 'hyperplane:concept', int(y[0]) != int(s >= 0), d[n], noise)
                    for i in range(nd):
                        w[i] += sg[i] * mag
                        if 0.01 + d[n + 1 + i] <= sig:
                            sg[i] = -sg[i]
                    ctx.step()
        ctx.state('hyper', cfg, wdraws)
    meta(ctx, g, X, y, 'hyperplane')
    ctx.trace()


DIGITS = ['1110111', '0010010', '1011101', '1011011', '0111010', '1101011', '1101111', '1010010', '1111111', '1111011']


def run_led(ctx, drift):
    for digit in range(10):
        for has_noise in (False, True):
            for noise in (0.0, 0.3, 1.0):
                for bits in itertools.product((0.0, 0.5), repeat=7) if noise == 0.3 else [(0.0,) * 7, (.5,) * 7]:
                    combos = [(0, 0)]
                    if drift and has_noise and noise == 0.0:
                        combos = list(itertools.product(range(7), range(17)))
                    for nd in ((0, 1, 4, 7) if drift else (0,)):
                        for r, o in combos:
                            if drift and nd == 0 and (r, o) != (0, 0):
                                continue
                            ctx.case('LED', digit, has_noise, noise, bits, nd, r, o)
                            pre = [(r + .5) / 7, (o + .5) / 17] if drift and has_noise and nd else []
                            rs = ScriptedRandom(pre + [(digit + .5) / 10] + list(bits))
                            if drift:
                                g = LEDGeneratorDrift(random_state=rs, noise_percentage=noise, has_noise=has_noise, n_drift_features=nd)
                            else:
                                g = LEDGenerator(random_state=rs, noise_percentage=noise, has_noise=has_noise)
                            X, y = g.next_sample()
                            ctx.check(X.shape == (1, 24 if has_noise else 7) and set(X[0]) <= {0, 1}, 'led:domain', 'row %r' % X.tolist())
                            pos = list(range(24))
                            if pre:
                                for i in range(nd):
                                    a, b = (i + r) % 7, 7 + (i + o) % 17
                                    pos[a], pos[b] = b, a
                            ctx.eq(int(y[0]), digit, 'led:label', 'label')
                            for i in range(7):
                                noise_ok(ctx, 'led:segments', X[0][pos[i]] != int(DIGITS[digit][i]), bits[i], noise)
                            ctx.step()
        ctx.state('led', drift, digit)
    meta_y = np.asarray(y)
    ctx.check(X.shape[1] == g.n_features == len(g.feature_names) and list(g.target_values) == list(range(10)) and g.n_classes == 10, 'led:meta', 'metadata')
    ctx.trace()


H1 = [max(6 - abs(i - 6), 0) for i in range(21)]
H2 = [max(6 - abs(i - 14), 0) for i in range(21)]
H3 = [max(6 - abs(i - 10), 0) for i in range(21)]


def run_wave(ctx):
    pair = {0: (H1, H2), 1: (H1, H3), 2: (H2, H3)}
    for grp in range(3):
        for m in [0.0, .25, .5, .9, .999]:
            for has_noise in (False, True):
                for z in itertools.product((.5, .1, .9), repeat=3):
                    ctx.case('Waveform', grp, m, has_noise, z)
                    rs = ScriptedRandom([(grp + .5) / 3, m] + (list(z) * 14)[:40])
                    g = WaveformGenerator(random_state=rs, has_noise=has_noise)
                    X, y = g.next_sample()
                    ctx.eq(int(y[0]), grp, 'waveform:label', 'label')
                    nz = [v for k, v in rs.log if k == 'normal']
                    a, b = pair[grp]
                    want = [m * a[i] + (1 - m) * b[i] + nz[i] for i in range(21)] + (nz[21:40] if has_noise else [])
                    ctx.eq(X[0].tolist(), want, 'waveform:features', 'features')
                    ctx.step()
        ctx.state('wave', grp)
    meta(ctx, g, X, y, 'waveform')
    ctx.trace()


# ------------------------------------------------------------------ RBF, random tree

def run_rbf(ctx, drift):
    nf, nc, ncls = 2, 3, 3
    for mscript in itertools.product([.1, .6], repeat=5):
        for pick in [0.0, .2, .5, .8, .999]:
            for dirs in itertools.product([0.05, .7], repeat=nf):
                for z in (.1, .5, .95):
                    ctx.case('RBF', drift, mscript, pick, dirs, z)
                    ms, ss = ScriptedRandom(mscript), ScriptedRandom([pick] + list(dirs) + [z])
                    if drift:
                        g = RandomRBFGeneratorDrift(model_random_state=ms, sample_random_state=ss, n_classes=ncls, n_features=nf, n_centroids=nc, change_speed=0.3, num_drift_centroids=2)
                    else:
                        g = RandomRBFGenerator(model_random_state=ms, sample_random_state=ss, n_classes=ncls, n_features=nf, n_centroids=nc)
                    cs = g.centroids
                    ctx.check(len(cs) == nc and all(0 <= v <= 1 for c in cs for v in c.centre) and all(c.class_label in range(ncls) for c in cs), 'rbf:model', 'centroids')
                    speed = [list(map(float, s)) for s in g.centroid_speed] if drift else None
                    centres = [list(map(float, c.centre)) for c in cs]
                    if drift:
                        ctx.check(len(speed) == 2 and all(abs(sum(v * v for v in s) - 1) < 1e-9 for s in speed), 'rbf:speed', 'speeds %r' % speed)
                    for t in range(3):
                        start = len(ss.log)
                        X, y = g.next_sample()
                        if drift:
                            for i in range(2):
                                for j in range(nf):
                                    centres[i][j] += speed[i][j] * 0.3
                                    if centres[i][j] > 1 or centres[i][j] < 0:
                                        centres[i][j] = 1 if centres[i][j] > 1 else 0
                                        speed[i][j] = -speed[i][j]
                        ctx.eq([list(c.centre) for c in g.centroids], centres, 'rbf:movement', 'centroid positions')
                        d = ss.log[start:]
                        v = d[0][1] * sum(g.centroid_weights)
                        acc, k, tie = 0.0, 0, False
                        for k in range(nc):
                            acc += g.centroid_weights[k]
                            tie = tie or abs(acc - v) < 1e-12
                            if acc > v:
                                break
                        if not tie:
                            ctx.eq(int(y[0]), g.centroids[k].class_label, 'rbf:label', 'label of the drawn centroid')
                            vec = np.array([2 * a[1] - 1 for a in d[1:1 + nf]])
                            off = d[1 + nf][1] * g.centroids[k].std_dev * vec / np.sqrt((vec ** 2).sum())
                            ctx.eq(X[0].tolist(), (np.array(centres[k]) + off).tolist(), 'rbf:features', 'features around the drawn centroid')
                        ctx.step()
        ctx.state('rbf', drift, mscript)
    meta(ctx, g, X, y, 'rbf')
    ctx.trace()


def run_tree(ctx, cfg):
    ncls, ncat, nnum, nval, maxd, mind, frac = cfg

    def walk(ctx, node, depth, used, lo, hi):
        if not node.children:
            ctx.check(depth <= maxd and (depth >= mind or depth == maxd) and node.class_label in range(ncls), 'tree:shape', 'leaf at depth %d with label %r' % (depth, node.class_label))
            return
        ctx.check(depth < maxd, 'tree:shape', 'an inner node at depth %d' % depth)
        a = int(node.split_att_index)
        if a < nnum:
            ctx.check(len(node.children) == 2 and lo[a] <= node.split_att_value <= hi[a], 'tree:shape', 'numeric split of %d at %r outside [%r,%r]' % (a, node.split_att_value, lo[a], hi[a]))
            h2, l2 = dict(hi), dict(lo)
            h2[a] = l2[a] = node.split_att_value
            walk(ctx, node.children[0], depth + 1, used, lo, h2)
            walk(ctx, node.children[1], depth + 1, used, l2, hi)
        else:
            ctx.check(a not in used and a < nnum + ncat and len(node.children) == nval, 'tree:shape', 'nominal split on %d twice on a path / wrong fan-out' % a)
            for c in node.children:
                walk(ctx, c, depth + 1, used | {a}, lo, hi)

    def classify(node, num, cat):
        while node.children:
            a = int(node.split_att_index)
            node = node.children[(0 if num[a] < node.split_att_value else 1) if a < nnum else cat[a - nnum]]
        return node.class_label
    grid = [.05, .3, .55, .8, .97]
    for ts in itertools.product(grid, repeat=4 if ctx.tier != 'quick' else 3):
        ctx.case('RandomTree', cfg, ts)
        g = RandomTreeGenerator(tree_random_state=ScriptedRandom(ts), sample_random_state=ScriptedRandom(), n_classes=ncls, n_cat_features=ncat, n_num_features=nnum,
                                n_categories_per_cat_feature=nval, max_tree_depth=maxd, min_leaf_depth=mind, fraction_leaves_per_level=frac)
        walk(ctx, g.tree_root, 0, frozenset(), {i: 0.0 for i in range(nnum)}, {i: 1.0 for i in range(nnum)})
        for us in itertools.product([.1, .45, .9], repeat=nnum):
            for cs in itertools.product(range(nval), repeat=ncat):
                ctx.case('RandomTree', cfg, ts, us, cs)
                rs = g._sample_random_state if False else g.sample_random_state
                rs.script, rs.i = list(us) + [(c + .5) / nval for c in cs], 0
                X, y = g.next_sample()
                row = X[0].tolist()
                num = row[:nnum]
                ctx.check(all(0 <= v <= 1 for v in num), 'tree:domain', 'numeric feature outside [0,1]: %r' % row)
                cat = []
                for i in range(ncat):
                    block = row[nnum + i * nval: nnum + (i + 1) * nval]
                    ctx.check(sorted(block) == [0.0] * (nval - 1) + [1.0], 'tree:onehot', 'one-hot block %r' % block)
                    cat.append(block.index(1.0))
                ctx.eq(int(y[0]), classify(g.tree_root, num, cat), 'tree:label', 'label of %r' % row)
                ctx.step()
        ctx.state('tree', cfg, ts)
    ctx.check(X.shape[1] == g.n_features == len(g.feature_names) and list(g.target_values) == list(range(ncls)), 'tree:meta', 'metadata')
    ctx.trace()


# ------------------------------------------------------------------ finite generators

def run_finite(ctx):
    from sklearn.datasets import make_regression, make_multilabel_classification
    for n, nf, inf, nt, s in itertools.product((1, 2, 5, 8), (1, 3), (1, 3), (1, 2, 3), (0, 1, 5)):
        if inf > nf:
            continue
        ctx.case('Regression', n, nf, inf, nt, s)
        g = RegressionGenerator(n_samples=n, n_features=nf, n_informative=inf, n_targets=nt, random_state=s)
        Xr, yr = make_regression(n_samples=n, n_features=nf, n_informative=inf, n_targets=nt, random_state=s)
        X, y = g.next_sample(n)
        ctx.eq(X, Xr, 'regression:X', 'features')
        ctx.eq(y, yr.reshape((n, nt)) if nt > 1 else yr.ravel(), 'regression:y', 'targets')
        meta(ctx, g, X, y, 'regression', classes=False)
        ctx.check(len(g.target_names) == nt, 'regression:meta', 'target names')
        ctx.step()
        ctx.state('reg', n, nf, inf, nt, s)
    for n, nf, nt, nl, s in itertools.product((1, 2, 5, 8), (2, 4), (1, 2, 3), (1,), (0, 2, 5)):
        ctx.case('Multilabel', n, nf, nt, nl, s)
        g = MultilabelGenerator(n_samples=n, n_features=nf, n_targets=nt, n_labels=nl, random_state=s)
        Xr, yr = make_multilabel_classification(n_samples=n, n_features=nf, n_classes=nt, n_labels=nl, random_state=s)
        X, y = g.next_sample(n)
        ctx.eq(X, Xr, 'multilabel:X', 'features')
        ctx.eq(y, yr if nt > 1 else yr.ravel(), 'multilabel:y', 'labels')
        meta(ctx, g, X, y, 'multilabel', classes=False)
        ctx.check(len(g.target_names) == nt and g.n_classes == 2, 'multilabel:meta', 'metadata')
        ctx.step()
        ctx.state('ml', n, nf, nt, nl, s)
    for n, na, ctxl, nc, shift, s, rep in itertools.product((8, 13), (0, 1, 4, 8), (False, True), (0, 2, 5), (1, 3, -3), range(4), (False, True)):
        if na == 0 and rep is False and False:
            continue
        if na == 0:
            continue
        ctx.case('AnomalySine', n, na, ctxl, nc, shift, s, rep)
        sh = abs(shift)
        if ctxl and nc > n - sh and not rep:
            continue
        g = AnomalySineGenerator(n_samples=n, n_anomalies=na, contextual=ctxl, n_contextual=nc, shift=shift, noise=0.0, replace=rep, random_state=s)
        X, y = g.next_sample(n)
        meta(ctx, g, X, y, 'anomaly', classes=False)
        n_an = n_ctx = 0
        for i in range(n):
            ctx.check(abs(X[i, 0] - math.sin(i / 4.0)) < 1e-9, 'anomaly:att1', 'attribute 1 of row %d is %r' % (i, X[i, 0]))
            if y[i] == 1:
                n_an += 1
                ctx.check(0.999 <= X[i, 1] <= 3.001 and any(abs(X[i, 1] - 2 - math.sin(k)) < 1e-9 for k in range(na)), 'anomaly:value', 'anomaly value %r' % X[i, 1])
            else:
                ctx.check(y[i] == 0, 'anomaly:label', 'label %r' % y[i])
                if abs(X[i, 1] - math.cos(i / 4.0)) < 1e-9:
                    continue
                n_ctx += 1
                ctx.check(ctxl and i >= sh and abs(X[i, 1] - math.sin((i - sh) / 4.0)) < 1e-9, 'anomaly:contextual', 'row %d attribute 2 is %r' % (i, X[i, 1]))
        ctx.check(n_an == na if not rep else 1 <= n_an <= na, 'anomaly:count', '%d anomalies, %d configured' % (n_an, na))
        ctx.check(n_ctx <= nc, 'anomaly:count', '%d contextual anomalies, %d configured' % (n_ctx, nc))
        if ctxl and not rep and nc:
            ctx.check(n_ctx >= nc - na, 'anomaly:count', '%d contextual anomalies left of %d with %d anomalies' % (n_ctx, nc, na))
        ctx.step()
        ctx.state('anom', n, na, ctxl, nc, shift, s, rep)
    ctx.trace()


TREES = [(2, 2, 2, 2, 3, 1, .3), (3, 2, 1, 3, 3, 2, .15), (2, 0, 2, 1, 4, 0, .5), (2, 1, 2, 2, 2, 0, .9), (3, 3, 0, 2, 3, 1, .2)]
HYP = [(2, 1, 0.0, 0.0, .1), (3, 2, .3, .3, .5), (3, 3, 1.0, .0, 1.0)]


def shards(tier):
    out = [('agrawal-%d' % f, ('agrawal', f)) for f in range(10)]
    out += [('agrawal-pert-%d' % f, ('pert', f)) for f in (1, 3, 5, 9)]
    out += [('sea-%d' % f, ('sea', f)) for f in range(4)] + [('sine-%d' % f, ('sine', f)) for f in range(4)]
    out += [('mixed-%d' % f, ('mixed', f)) for f in range(2)] + [('stagger', ('stagger', None)), ('switch', ('switch', None))]
    out += [('hyper-%d' % i, ('hyper', c)) for i, c in enumerate(HYP)]
    out += [('led', ('led', False)), ('led-drift', ('led', True)), ('wave', ('wave', None)), ('rbf', ('rbf', False)), ('rbf-drift', ('rbf', True)), ('finite', ('finite', None))]
    out += [('tree-%d' % i, ('tree', c)) for i, c in enumerate(TREES)]
    out.sort(key=lambda s: s[0] not in ('agrawal-9', 'agrawal-8', 'led', 'led-drift', 'mixed-0', 'mixed-1'))
    return out


def run(name, p, ctx):
    kind, a = p
    if kind == 'agrawal':
        run_agrawal(ctx, a)
    elif kind == 'pert':
        run_agrawal_pert(ctx, a)
    elif kind == 'stagger':
        for f in range(3):
            run_stagger(ctx, f)
    elif kind == 'switch':
        run_switch(ctx)
    elif kind == 'wave':
        run_wave(ctx)
    elif kind == 'finite':
        run_finite(ctx)
    else:
        {'sea': run_sea, 'sine': run_sine, 'mixed': run_mixed, 'hyper': run_hyper, 'led': run_led, 'rbf': run_rbf, 'tree': run_tree}[kind](ctx, a)
