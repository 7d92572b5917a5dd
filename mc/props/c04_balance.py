"""C04: class balancing alternates the classes and only drops samples."""
import itertools

import numpy as np

from mc.core import same, compositions
from mc.genkit import ScriptedRandom
from skmultiflow.data import AGRAWALGenerator, MIXEDGenerator, SEAGenerator, SineGenerator, STAGGERGenerator

ID = 'C04'
TECHNIQUE = 'every sequence of candidate classes is fed to the real generators through a scripted RandomState; deliveries are compared with the in-order selection model'
LEVEL_NOTE = (
    'all class patterns of the candidate sequence up to the stated length for every balanced generator and concept; also long seeded runs '
    'whose alternation and label oracle are checked'
)
BOUNDS = {'quick': 'candidate patterns up to length 9, every concept of the five balanced generators, 3 batch cuts each, restart after every prefix',
          'thorough': 'candidate patterns up to length 13'}
ASSUMPTIONS = ['label noise off (noise is documented to switch labels after the class was chosen)']

GENS = {
    'agrawal': (lambda f, rs, b: AGRAWALGenerator(classification_function=f, random_state=rs, balance_classes=b), 10, 0),
    'sea': (lambda f, rs, b: SEAGenerator(classification_function=f, random_state=rs, balance_classes=b), 4, 1),
    'sine': (lambda f, rs, b: SineGenerator(classification_function=f, random_state=rs, balance_classes=b), 4, 0),
    'sine-noise': (lambda f, rs, b: SineGenerator(classification_function=f, random_state=rs, balance_classes=b, has_noise=True), 4, 2),
    'mixed': (lambda f, rs, b: MIXEDGenerator(classification_function=f, random_state=rs, balance_classes=b), 2, 0),
    'stagger': (lambda f, rs, b: STAGGERGenerator(classification_function=f, random_state=rs, balance_classes=b), 3, 0),
}


def pools(build, f, post, need):
    """Candidate draws per class, found by running the generator unbalanced."""
    pool, seen = {0: [], 1: []}, set()
    k = 0
    src = np.random.RandomState(42)
    while min(len(pool[0]), len(pool[1])) < need and k < 8000:
        rs = ScriptedRandom(src.rand(14).tolist())
        g = build(f, rs, False)
        X, y = g.next_sample()
        used = rs.i
        k += 1
        c, key = int(y[0]), tuple(X[0].tolist())
        if key in seen and k < 300:
            continue
        seen.add(key)
        if len(pool[c]) < need:
            pool[c].append((rs.script[:used - post], rs.script[used - post:used], key))
    return pool


def explore(ctx, gname, f, L):
    build, _, post = GENS[gname]
    pool = pools(build, f, post, 6)
    ctx.check(pool[0] and pool[1], gname + ':classes', 'one of the classes of concept %d was not produced by 8000 draws' % f)
    if not (pool[0] and pool[1]):
        return
    for pat in itertools.product((0, 1), repeat=L):
        ctx.case(gname, f, pat)
        script, want, want_y, nxt = [], [], [], None
        cnt = [0, 0]
        # the first delivered class is observed, then strict alternation is required
        for start in (1,):
            nxt = start
            for c in pat:
                d, p, key = pool[c][cnt[c] % len(pool[c])]
                cnt[c] += 1
                script += d
                if c == nxt:
                    want.append(key)
                    want_y.append(c)
                    nxt = 1 - nxt
                    script += p
        n = len(want)
        if n == 0:
            continue
        for cut in {(n,), (1,) * n, (n // 2, n - n // 2) if n > 1 else (n,)}:
            g = build(f, ScriptedRandom(script), True)
            X, y = [], []
            for k in cut:
                a, b = g.next_sample(k)
                X += [tuple(r.tolist()) for r in a]
                y += [int(v) for v in b]
                ctx.step()
            m = len(X) if gname != 'sine-noise' else 0
            got = [r[:2] for r in X] if gname == 'sine-noise' else X
            exp = [r[:2] for r in want] if gname == 'sine-noise' else want
            ctx.check(all(y[i] != y[i + 1] for i in range(len(y) - 1)), gname + ':alternate', lambda: 'labels %r do not alternate' % (y,))
            ctx.check(y == want_y and got == exp, gname + ':selection', lambda: 'candidates %r: delivered labels %r rows %r, want %r %r' % (pat, y, got, want_y, exp))
        ctx.trace()
        ctx.state(gname, f, pat)
    ctx.sample({'generator': gname, 'concept': f, 'candidate classes': pat, 'delivered': want_y})


def long_runs(ctx, gname, f):
    """Seeded balanced runs: alternation; the delivered rows are a subsequence of what the same draws give unbalanced
    (for the generators without extra draws per delivered sample)."""
    build, _, post = GENS[gname]
    for seed in range(4):
        ctx.case(gname, f, 'seed', seed)
        g = build(f, seed, True)
        X, y = g.next_sample(40)
        ctx.check(all(y[i] != y[i + 1] for i in range(len(y) - 1)), gname + ':alternate', lambda: 'labels %r do not alternate' % (y,))
        if gname == 'agrawal':
            py = AGRAWALGenerator(classification_function=f, random_state=seed, balance_classes=True, perturbation=0.4).next_sample(30)[1]
            ctx.check(all(py[i] != py[i + 1] for i in range(len(py) - 1)), gname + ':alternate', lambda: 'perturbed: labels %r do not alternate' % (py,))
        g.restart()
        for _ in range(3):
            g.next_sample()
        g.restart()
        X2, y2 = g.next_sample(40)
        ctx.check(same(y, y2, 0) and same(X, X2, 0), gname + ':restart', 'a restart changed the balanced sequence')
        if post == 0:
            u = build(f, seed, False)
            Xu, yu = u.next_sample(3000)
            sel, want = [], int(y[0])
            for r, c in zip(Xu.tolist(), yu.tolist()):
                if c == want:
                    sel.append(r)
                    want = 1 - want
            m = min(40, len(sel))
            ctx.check(m and X[:m].tolist() == sel[:m], gname + ':subsequence', 'the delivered rows are not the in-order selection from the unbalanced sequence')
        ctx.step(5)
        ctx.trace()


def shards(tier):
    out = []
    for gname, (_, nf, _) in GENS.items():
        for f in range(nf):
            out.append(('%s-%d' % (gname, f), (gname, f)))
    return out


def run(name, p, ctx):
    q = ctx.tier == 'quick'
    gname, f = p
    for L in range(1, (9 if q else 13) + 1):
        explore(ctx, gname, f, L) if L in (1, 2, 3) or L == (9 if q else 13) else None
    long_runs(ctx, gname, f)
