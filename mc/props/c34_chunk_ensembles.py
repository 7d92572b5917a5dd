"""C34: chunk ensembles weight, replace and bound their members as documented."""
import itertools
import math

import numpy as np
from sklearn.model_selection import KFold

from mc.core import canon, compositions
from mc.fakes import Rec, Draws, row
from skmultiflow.meta import (AccuracyWeightedEnsembleClassifier, LearnPPNSEClassifier, LearnPPClassifier, BatchIncrementalClassifier)

ID = 'C34'
TECHNIQUE = 'exhaustive enumeration of label sequences, chunk sizes, batch cuts and resampling draws with history-digesting members against a reference of each chunk protocol'
LEVEL_NOTE = (
    'members answer with a digest of the exact chunk, labels, weights and classes they were trained on; the reference keeps chunks, errors, weights and victims from the raw history; '
    'ensemble answers to 20 queries compared at every chunk boundary and inside chunks'
)
BOUNDS = {'quick': 'accuracy-weighted: all 2^10 label sequences (chunk 2) and all 2^9 (chunk 3) x 5 pool settings; Learn++.NSE the same x 4 prunings; batch-incremental all cuts of 8 samples; Learn++ all 3^4 draw scripts x 6 sequences',
          'thorough': 'all 2^12 label sequences; Learn++ all 3^6 scripts'}
ASSUMPTIONS = ['votes that tie within 1e-9 may be answered with any of the tied labels', 'Learn++.NSE keeps its error-weight normalisation as at present (see DESIGN.md)',
               'Learn++ may refuse a chunk on which the base learner stays too weak']

QS = np.array([(float(i), -1.0) for i in range(20)])


class Chunk(Rec):
    def __init__(self, tag=0, k=2):
        super().__init__(tag)
        self.k = k

    def predict_proba(self, X):
        out = []
        for x in np.asarray(X, dtype=float):
            key = (self.digest, self.tag, self.k, row(x))
            if key not in CACHE:
                if len(CACHE) > 200000:
                    CACHE.clear()
                p = np.array([0.05 + self.value('p', row(x), c) ** 3 for c in range(self.k)])
                CACHE[key] = p / p.sum()
            out.append(CACHE[key])
        return np.array(out)

    def predict(self, X):
        return np.argmax(self.predict_proba(X), axis=1)


class ChunkPlain(Chunk):
    def fit(self, X, y):
        return Chunk.fit(self, X, y)


class Incremental(Chunk):
    """Can only be trained incrementally, like most stream learners."""

    def fit(self, X, y, classes=None, sample_weight=None):
        raise NotImplementedError


class Memory(Chunk):
    """Remembers the rows it was trained on last and mostly, but not always, knows the label (the last feature) of others."""

    def fit(self, X, y, classes=None, sample_weight=None):
        super().fit(X, y, classes, sample_weight)
        self.known = {row(x): int(v) for x, v in zip(np.asarray(X, dtype=float), y)}
        return self

    def predict(self, X):
        out = Chunk.predict(self, X)
        return np.array([self.known.get(row(x), int(o) if self.value('right', row(x)) < 0.25 or x[-1] not in (0, 1) else int(x[-1]))
                         for x, o in zip(np.asarray(X, dtype=float), out)])


CACHE = {}
TAIL = tuple((i * 0.6180339887 + 0.31) % 1 for i in range(97))     # after the enumerated draws: an equidistributed continuation


def shards(tier):
    q = tier == 'quick'
    s = []
    for keep, use, w in ((1, 1, 2), (2, 1, 2), (2, 2, 3), (3, 2, 2), (2, 2, 2)):
        s.append(('awe-%d-%d-%d' % (keep, use, w), {'kind': 'awe', 'keep': keep, 'use': use, 'w': w, 'n': (10 if w == 2 else 9) if q else 12}))
    for pr, w, n in ((None, 2, 2), ('age', 2, 2), ('error', 2, 2), ('error', 3, 1), ('age', 3, 3)):
        s.append(('nse-%s-%d-%d' % (pr, w, n), {'kind': 'nse', 'pr': pr, 'w': w, 'est': n, 'n': (10 if w == 2 else 9) if q else 12}))
    for w, n in ((1, 1), (2, 2), (3, 1), (2, 3)):
        s.append(('batch-%d-%d' % (w, n), {'kind': 'batch', 'w': w, 'est': n, 'n': 8 if q else 10}))
    for w, n, e in ((4, 2, 2), (5, 1, 2), (4, 3, 1), (7, 2, 2)):
        s.append(('learnpp-%d-%d-%d' % (w, n, e), {'kind': 'lpp', 'w': w, 'est': n, 'ens': e, 'd': 5 if q else 7}))
    s.append(('awe-folds', {'kind': 'folds', 'n': 6}))
    return s


def run(name, p, ctx):
    {'awe': awe, 'nse': nse, 'batch': batch, 'lpp': lpp, 'folds': folds}[p['kind']](p, ctx)


def rows(ys):
    return [(float(i), float(i * i % 7)) for i in range(len(ys))]


def cuts_for(n, k):
    """A few batch cuts, rotating with k so that all are used over the enumeration."""
    opts = [(1,) * n, (n,), (2,) * (n // 2) + (1,) * (n % 2), (3,) * (n // 3) + ((n % 3,) if n % 3 else ())]
    return opts[k % len(opts)]


def score(member, X, y, seen):
    s = 0.0
    P = member.predict_proba(X)
    for p, c in zip(P, y):
        s += (1 - p[c]) ** 2 if c in seen else 1.0
    return s / len(y)


def awe(p, ctx):
    w = p['w']
    for num, ys in enumerate(itertools.product((0, 1), repeat=p['n'])):
        X = rows(ys)
        splits = 2
        m = AccuracyWeightedEnsembleClassifier(n_estimators=p['use'], n_kept_estimators=p['keep'], base_estimator=Chunk(3), window_size=w, n_splits=splits)
        pool = []
        i = 0
        ctx.trace()
        tied = False
        for c in cuts_for(p['n'], num):
            m.partial_fit(np.array(X[i:i + c]), np.array(ys[i:i + c]))
            for t in range(i + 1, i + c + 1):
                if t % w:
                    continue
                cx, cy = np.array(X[t - w:t]), np.array(ys[t - w:t])
                seen = set(cy)
                base = sum((list(cy).count(v) / w) * (1 - list(cy).count(v) / w) ** 2 for v in seen)
                new = Chunk(3).fit(cx, cy.astype(float))
                s = 0.0
                for tr, te in KFold(n_splits=splits, shuffle=True, random_state=0).split(cx):
                    s += score(Chunk(3).fit(cx[tr], cy[tr].astype(float)), cx[te], cy[te], seen) / splits
                nw = max(0.0, base - s)
                for e in pool:
                    e[1] = max(0.0, base - score(e[0], cx, cy, e[2]))
                if len(pool) < p['keep']:
                    pool.append([new, nw, seen])
                else:
                    low = min(e[1] for e in pool)
                    if 0 < abs(nw - low) < 1e-9 or any(0 < abs(e[1] - low) < 1e-9 for e in pool):
                        tied = True
                    if nw > low:
                        v = next(e for e in pool if e[1] == low)
                        pool = [e for e in pool if e is not v] + [[new, nw, seen]]
            i += c
            if tied:
                break
            ctx.step()
            ctx.case('awe', p, ys[:i], 'cuts', cuts_for(p['n'], num))
            got = [int(v) for v in m.predict(QS)]
            ctx.state(canon(got), len(pool))
            if not pool:
                ctx.eq(got, [0] * len(QS), 'awe/empty', 'answers before the first chunk')
                continue
            top = sorted(pool, key=lambda e: e[1], reverse=True)[:p['use']]
            cols = [e[0].predict(QS) for e in top]
            for q, g in enumerate(got):
                v = {}
                for e, col in zip(top, cols):
                    v[int(col[q])] = v.get(int(col[q]), 0.0) + e[1]
                if not ctx.check(g in v and v[g] >= max(v.values()) - 1e-9, 'awe/vote', lambda: 'query %d answered %d, weighted votes %s (members %d)' % (q, g, v, len(pool))):
                    return
        ctx.sample({'ensemble': 'AWE', 'labels': ys, 'weights': [e[1] for e in pool], 'answers': got})


def folds(p, ctx):
    """The weight of the newest member is its cross-validated score also for learners that can only train incrementally."""
    for ys in itertools.product((0, 1), repeat=p['n']):
        X = np.array(rows(ys))
        ctx.case('folds', ys)
        ctx.step()
        m = AccuracyWeightedEnsembleClassifier(n_estimators=2, n_kept_estimators=2, base_estimator=Incremental(3), window_size=p['n'], n_splits=3)
        m.partial_fit(X, np.array(ys))
        if not ctx.check(len(m.models_pool) == 1, 'awe/pool', 'one chunk, %d members' % len(m.models_pool)):
            return
        cy = np.array(ys)
        seen = sorted(set(ys))
        base = sum((ys.count(v) / len(ys)) * (1 - ys.count(v) / len(ys)) ** 2 for v in seen)
        s = 0.0
        for tr, te in KFold(n_splits=3, shuffle=True, random_state=0).split(X):
            s += score(Incremental(3).partial_fit(X[tr], cy[tr].astype(float), np.array(seen, dtype=float)), X[te], cy[te], set(seen)) / 3
        ctx.state(round(s, 9))
        ctx.check(abs(m.models_pool[0].weight - max(0.0, base - s)) < 1e-9, 'awe/folds', lambda: 'weight %r, cross-validated weight %r' % (m.models_pool[0].weight, max(0.0, base - s)))


def nse(p, ctx):
    w, k = p['w'], 2
    a, b = 0.5, 2
    for num, ys in enumerate(itertools.product((0, 1), repeat=p['n'])):
        X = rows(ys)
        cl = [0, 1] if num % 3 else [1, 0]
        m = LearnPPNSEClassifier(base_estimator=Chunk(5), window_size=w, slope=a, crossing_point=b, n_estimators=p['est'], pruning=p['pr'])
        E = []                          # [member, betas, sigmas, vote weight]

        def votes(q):
            v = np.zeros(2)
            for e in E:
                if e[3] > 0:
                    v += e[3] * e[0].predict_proba(q)[0]
            return v
        i = 0
        ctx.trace()
        skip = False
        for c in cuts_for(p['n'], num):
            m.partial_fit(np.array(X[i:i + c]), np.array(ys[i:i + c]), classes=cl)
            for t in range(i + 1, i + c + 1):
                if t % w:
                    continue
                cx, cy = np.array(X[t - w:t]), np.array(ys[t - w:t])
                D = np.ones(w) / w
                if E:
                    V = [votes(cx[j:j + 1]) for j in range(w)]
                    if any(abs(v[0] - v[1]) < 1e-9 for v in V):
                        skip = True
                        break
                    ans = np.array([int(np.argmax(v)) if cl == [0, 1] else cl[int(np.argmax(v))] for v in V])
                    e = np.mean(ans != cy)
                    D[ans == cy] = e / w
                    if D.sum() > 0:
                        D = D / D.sum()
                E.append([Chunk(5).fit(cx, cy, cl), [], [], 0.0])
                n = len(E)
                worst, wi = -1.0, None
                for j in range(1, n + 1):
                    err = float(sum(d for d, pr_, tr_ in zip(D, E[j - 1][0].predict(cx), cy) if pr_ != tr_))
                    if abs(err - 0.5) < 1e-9:
                        err = 0.5
                    if j < n:
                        err = min(err, 0.5)
                    if err > worst + 1e-15:
                        worst, wi = err, j - 1
                    beta = err / (1 - err) if err < 1 else float('inf')
                    s = 1 / (1 + math.exp(-a * (n - j - b)))
                    E[j - 1][1].append(beta)
                    E[j - 1][2].append(s / (sum(E[j - 1][2]) + s))
                    E[j - 1][3] = -math.log(sum(x * y for x, y in zip(*E[j - 1][1:3])) + 1e-50)
                if p['pr'] == 'age' and n > p['est']:
                    E.pop(0)
                elif p['pr'] == 'error' and n > p['est']:
                    E.pop(wi)
            if skip:
                break
            i += c
            ctx.step()
            ctx.case('nse', p, ys[:i], 'cuts', cuts_for(p['n'], num), 'classes', cl)
            got = np.asarray(m.predict_proba(QS), dtype=float)
            ctx.state(canon(got))
            if not E:
                ctx.eq(got, np.zeros((len(QS), 1)), 'nse/empty', 'probabilities before the first chunk')
                continue
            V = [votes(QS[j:j + 1]) for j in range(len(QS))]
            want = np.array([v / v.sum() if v.sum() > 0 else v for v in V])
            if not ctx.eq(got, want, 'nse/votes', 'probabilities of %d members with weights %s' % (len(E), [round(e[3], 6) for e in E])):
                return
        ctx.sample({'ensemble': 'Learn++.NSE', 'labels': ys, 'weights': [e[3] for e in E]})


def batch(p, ctx):
    n, w = p['n'], p['w']
    for base in (Chunk, ChunkPlain):
        for comp in compositions(n):
            for num in range(4):
                ys = [(i * (num + 1) + i // 3 + num) % 2 for i in range(n)]
                X = rows(ys)
                W = [0.5 + (i * 3 + num) % 4 for i in range(n)]
                m = BatchIncrementalClassifier(base_estimator=base(7), window_size=w, n_estimators=p['est'])
                E = []
                i = 0
                ctx.trace()
                for c in comp:
                    kw = {'sample_weight': np.array(W[i:i + c])} if num % 2 else {}
                    m.partial_fit(np.array(X[i:i + c]), np.array(ys[i:i + c]), classes=[0, 1], **kw)
                    for t in range(i + 1, i + c + 1):
                        if t % w == 0:
                            cx, cy = np.array(X[t - w:t]), np.array(ys[t - w:t])
                            h = base(7)
                            if base is Chunk:
                                h.fit(cx, cy, None, W[t - w:t] if num % 2 else [1.0] * w)
                            else:
                                h.fit(cx, cy)
                            E = (E + [h])[-p['est']:]
                    i += c
                    ctx.step()
                    ctx.case('batch', p, base.__name__, comp, num, i)
                    got = np.asarray(m.predict_proba(QS), dtype=float)
                    ctx.state(canon(got))
                    want = np.mean([e.predict(QS) for e in E], axis=0) if E else np.zeros(len(QS))
                    if not ctx.eq(got, want, 'batch/votes', 'mean vote of the last %d chunk members' % p['est']):
                        return
                    ctx.eq(np.asarray(m.predict(QS), dtype=float), (want >= 0.5 - 1e-12) * 1.0, 'batch/label', 'answers')


def lpp(p, ctx):
    w, thr = p['w'], 0.5
    full = 2
    for script in itertools.product((0.1, 0.45, 0.9), repeat=p['d']):
        for num in range(6):
            n = 3 * w
            ys = [(i * (num + 1) + i // 3 + num) % 2 for i in range(n)]
            X = [(r[0], float(v)) for r, v in zip(rows(ys), ys)]
            m = LearnPPClassifier(base_estimator=Memory(9), error_threshold=thr, n_estimators=p['est'], n_ensembles=p['ens'], window_size=w, random_state=Draws(script + TAIL))
            rng = Draws(script + TAIL)
            G = []                      # [[members, errors]]
            ctx.trace()
            ctx.case('learnpp', p, script, ys)
            weak = False
            for c in range(3):
                cx, cy = np.array(X[c * w:(c + 1) * w]), np.array(ys[c * w:(c + 1) * w])
                try:
                    g = chunk(cx, cy, p['est'], thr, rng, 1000 if full else 60)
                except OverflowError:
                    weak = True
                    if full == 0:           # the refusal itself (1001 attempts) is replayed a few times only
                        break
                    full -= 1
                try:
                    m.partial_fit(cx, cy, classes=[0, 1])
                    if weak:
                        ctx.fail('learnpp/too-weak', 'the chunk is accepted although every attempt stays above the error threshold')
                        return
                except RuntimeError:
                    if not weak:
                        raise
                if weak:
                    break
                G = (G + [g])[-p['ens']:]
                ctx.step()
                got = np.asarray(m.predict_proba(QS), dtype=float)
                ctx.state(canon(got))
                want = []
                for q in QS:
                    v = np.zeros(2)
                    for ms, es in G:
                        for h, e in zip(ms, es):
                            v[int(h.predict([q])[0])] += math.log(1 / (e + 1e-50))
                    want.append(v / v.sum() if v.sum() > 0 else v)
                if not ctx.eq(got, np.array(want), 'learnpp/votes', 'probabilities of %d ensembles' % len(G)):
                    return
            ctx.sample({'ensemble': 'Learn++', 'script': script, 'labels': ys, 'chunks': len(G)})


def chunk(X, y, n_est, thr, rng, limit):
    """Learn++ on one chunk; OverflowError if the base learner stays too weak."""
    m = len(X)
    D = np.ones(m) / m
    H, errs = [], []
    for t in range(n_est):
        if D.sum() == 0:
            break
        D = D / D.sum()
        H.append(Memory(9))
        errs.append(1.0)
        tries = 0
        while True:
            tr = [int(v) for v in rng.choice(np.arange(m), m // 2, p=D)]
            te = [int(v) for v in rng.choice(np.arange(m), m // 2, p=D)]
            H[t].fit(X[tr], y[tr])
            miss = H[t].predict(X[te]) != y[te]
            err = float(D[te][miss].sum() / D[te].sum())
            if err < thr:
                errs[t] = err / (1 - err)
                V = np.zeros((m, 2))
                for h, e in zip(H, errs):
                    for j, c in enumerate(h.predict(X)):
                        V[j][int(c)] += math.log(1 / (e + 1e-50))
                good = np.argmax(V, axis=1) == y
                err = float(D[~good].sum() / D.sum())
                if err < thr:
                    if t < n_est - 1:
                        D = D.copy()
                        D[good] *= err / (1 - err)
            if err < thr:
                break
            tries += 1
            if tries > limit:
                raise OverflowError
    return H, errs
