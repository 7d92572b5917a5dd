"""C39: self-adjusting memory keeps its memories consistent with the samples seen."""
import copy
import itertools

import numpy as np

from mc.core import canon, compositions
from mc.samref import Sam, Tie
from skmultiflow.lazy import SAMKNNClassifier
from skmultiflow.lazy import libNearestNeighbor as lib

ID = 'C39'
TECHNIQUE = 'explicit enumeration of all bounded labelled histories of the real classifier against a list model that recomputes memories, accuracies and votes from scratch; exhaustive small inputs for the native kernels'
LEVEL_NOTE = (
    'short- and long-term memory (samples and labels, in order), and the answers to 5 query rows, are compared after every sample; native kernels against their definition on every small integer input'
)
BOUNDS = {'quick': 'windows 6-12, k 1-3, both weightings, with/without long-term memory, all size options, min STM 2-4; all histories over 2-4 labelled rows, lengths 7-11 (up to 4^7); kernels: all vectors over 3 values to length 5, all k',
          'thorough': 'one to three more samples per history'}
ASSUMPTIONS = ['min_stm_size > n_neighbors', 'equal votes go to the smaller label, equal distances to the older sample; traces whose votes differ only by rounding are left out',
               'compression uses scikit-learn\'s KMeans with half as many clusters per label']

ROWS = {'a': ((0.0, 0.0), 0), 'b': ((0.0, 0.0), 1), 'c': ((1.0, 0.5), 0), 'd': ((1.0, 0.5), 1), 'e': ((3.0, 1.0), 2), 'f': ((2.0, -1.0), 1)}
Q = [(0.0, 0.0), (1.0, 0.5), (3.0, 1.0), (0.4, 0.1), (2.1, -0.2)]
# name: (k, weighting, window, ltm, min, option, use_ltm, letters, quick length)
CFG = {
    'k1-approx': (1, 'distance', 8, 0.4, 2, 'maxACCApprox', True, 'abcd', 7),
    'k1-exact': (1, 'uniform', 8, 0.5, 2, 'maxACC', True, 'abc', 8),
    'k1-full': (1, 'distance', 6, 0.5, 2, None, True, 'abcd', 7),
    'k2-approx': (2, 'distance', 8, 0.4, 3, 'maxACCApprox', True, 'bcf', 8),
    'k2-exact': (2, 'distance', 10, 0.3, 3, 'maxACC', True, 'ad', 11),
    'k3-exact': (3, 'uniform', 12, 0.4, 4, 'maxACC', True, 'abe', 8),
    'k3-approx': (3, 'uniform', 9, 0.4, 4, 'maxACCApprox', True, 'ad', 11),
    'k2-none': (2, 'uniform', 6, 0.5, 3, None, True, 'abe', 8),
    'stm-none': (2, 'distance', 5, 0.4, 3, None, False, 'abe', 8),
    'stm-exact': (1, 'uniform', 7, 0.4, 2, 'maxACC', False, 'abc', 8),
    'stm-approx': (1, 'distance', 7, 0.4, 2, 'maxACCApprox', False, 'abc', 8),
    'stm-approx2': (2, 'uniform', 9, 0.4, 3, 'maxACCApprox', False, 'ab', 11),
}


def shards(tier):
    s = []
    for k, c in CFG.items():
        for f in c[7]:
            s.append(('%s-%s' % (k, f), {'kind': 'hist', 'cfg': k, 'first': f, 'n': c[8] + (0 if tier == 'quick' else (1 if len(c[7]) > 2 else 3))}))
    for k in ('k1-approx', 'k2-exact', 'stm-exact'):
        s.append(('cuts-' + k, {'kind': 'cuts', 'cfg': k, 'n': 8 if tier == 'quick' else 10}))
    s.append(('kernels', {'kind': 'kernels'}))
    return s


def run(name, p, ctx):
    {'hist': hist, 'cuts': cuts, 'kernels': kernels}[p['kind']](p, ctx)


def make(c):
    k, w, size, ltm, mn, opt, use = c[:7]
    return SAMKNNClassifier(n_neighbors=k, weighting=w, max_window_size=size, ltm_size=ltm, min_stm_size=mn, stm_size_option=opt, use_ltm=use)


def matches(m, r, answers):
    S, L = np.asarray(m.STMSamples, dtype=float), np.asarray(m.LTMSamples, dtype=float)
    return (S.shape[0] == len(r.X) and L.shape[0] == len(r.L) and [int(v) for v in m.STMLabels] == r.y and [int(v) for v in m.LTMLabels] == r.M
            and np.allclose(S, np.array(r.X).reshape(S.shape), rtol=0, atol=1e-9) and np.allclose(L, np.array(r.L).reshape(L.shape), rtol=0, atol=1e-9)
            and answers == [r.opinions(q)[3] for q in Q])


def judge(ctx, m, refs, c, h):
    """refs: [documented, halves of odd sizes as at present]; False ends the trace."""
    size = c[2]
    S, y = np.asarray(m.STMSamples), [int(v) for v in m.STMLabels]
    n = len(y)
    got = [int(v) for v in m.predict(np.array(Q))]
    ctx.state(canon(S), y, canon(np.asarray(m.LTMSamples)), [int(v) for v in m.LTMLabels], got)
    if not ctx.check(0 < n <= len(h) and y == [v[1] for v in h[-n:]] and np.array_equal(S, np.array([v[0] for v in h[-n:]])), 'stm/suffix',
                     lambda: 'the short-term memory %s %s is no suffix of the training samples' % (S, y)):
        return False
    nl = len(m.LTMLabels)
    if not ctx.check(n + nl <= size, 'size', '%d + %d samples stored, %d allowed' % (n, nl, size)):
        return False
    if not ctx.check(set(int(v) for v in m.LTMLabels) <= {v[1] for v in h}, 'ltm/labels', 'labels in the long-term memory that were never seen'):
        return False
    try:
        if refs[0] is not None and matches(m, refs[0], got):
            return True
        if matches(m, refs[1], got):
            if refs[0] is not None:
                ctx.fail('stm/odd-half', 'the size adaption scored a window of one sample more than it keeps')
                refs[0] = None
            return True
    except Tie:
        return False
    r = refs[0] or refs[1]
    ctx.fail('memories', 'STM %s %s LTM %s %s answers %s; expected STM %s %s LTM %s %s answers %s' % (
        S.tolist(), y, np.asarray(m.LTMSamples).tolist(), [int(v) for v in m.LTMLabels], got, r.X, r.y, r.L, r.M, [r.opinions(q)[3] for q in Q]))
    return False


def feed(ctx, c, h, comp):
    m = make(c)
    refs = [Sam(*c[:7]), Sam(*c[:7], halves='float')]
    i = 0
    ctx.trace()
    for b in comp:
        m.partial_fit(np.array([v[0] for v in h[i:i + b]]), np.array([v[1] for v in h[i:i + b]]))
        try:
            for v in h[i:i + b]:
                for r in refs:
                    if r is not None:
                        r.train(*v)
        except Tie:
            return True
        i += b
        ctx.step()
        ctx.case(c, h[:i], comp)
        if not judge(ctx, m, refs, c, h[:i]):
            return False
    return True


def hist(p, ctx):
    """Depth-first over all histories; siblings share their prefix by copying the classifier."""
    c = CFG[p['cfg']]

    def go(m, refs, h):
        x, v = h[-1]
        m.partial_fit(np.array([x]), np.array([v]))
        ctx.step()
        try:
            for r in refs:
                if r is not None:
                    r.train(x, v)
        except Tie:
            return
        ctx.case(c, h)
        if not judge(ctx, m, refs, c, h):
            return
        if len(h) == p['n']:
            ctx.trace()
            return
        last = c[7][-1]
        for f in c[7]:
            go(*((m, refs) if f == last else copy.deepcopy((m, refs))), h + [ROWS[f]])
    go(make(c), [Sam(*c[:7]), Sam(*c[:7], halves='float')], [ROWS[p['first']]])
    ctx.sample({'cfg': c, 'first': p['first'], 'depth': p['n']})


def cuts(p, ctx):
    c = CFG[p['cfg']]
    n = p['n']
    for code in range(6):
        h = [ROWS['abcdef'[(i * (code + 1) + i // 3 + code) % 6]] for i in range(n)]
        for comp in compositions(n):
            feed(ctx, c, h, comp)


def kernels(p, ctx):
    vals = (0.0, 1.0, 2.5)
    for n in range(1, 6):
        for v in itertools.product(vals, repeat=n):
            a = np.array(v)
            ctx.case('kernel', v)
            for k in range(1, n + 1):
                ctx.step()
                got = np.asarray(lib.nArgMin(k, a))
                ctx.eq(got.tolist(), [sorted(range(n), key=lambda i: (v[i], i))[:k]], 'kernel/nArgMin', 'nArgMin(%d, %s)' % (k, v))
            ctx.state('v', v)
        for lab in itertools.product((0, 2, 7, -3) if n < 5 else (0, 2, 300), repeat=n):
            ctx.step()
            a = np.array(lab, dtype=np.int32)
            ctx.case('kernel', lab)
            best = max(lab.count(c) for c in lab)
            ctx.eq(np.asarray(lib.mostCommon(a)).tolist(), [min(c for c in lab if lab.count(c) == best)], 'kernel/mostCommon', 'mostCommon(%s)' % (lab,))
            ctx.state('l', lab)
    for n in range(1, 5):
        for lab in itertools.product((0, 2, 7), repeat=n):
            for d in itertools.product((0.0, 1.0, 0.4), repeat=n):
                ctx.step()
                v = {}
                for c, x in zip(lab, d):
                    v[c] = v.get(c, 0.0) + 1 / max(x, 1e-9)
                best = max(v.values())
                ok = [c for c in v if v[c] >= best - 1e-9 * best]
                got = np.asarray(lib.getLinearWeightedLabels(np.array(lab, dtype=np.int32), np.array(d))).tolist()
                ctx.case('kernel', lab, d)
                ctx.check(len(got) == 1 and got[0] in ok and (len(ok) == 1 or max(v[c] for c in ok) != min(v[c] for c in ok) or got[0] == min(ok)),
                          'kernel/weighted', lambda: 'getLinearWeightedLabels(%s, %s) = %s, votes %s' % (lab, d, got, v))
    pts = [x for x in itertools.product((-1.0, 0.0, 2.0), repeat=2)]
    for a in pts:
        ctx.step()
        ctx.case('kernel', a)
        ctx.eq(np.asarray(lib.get1ToNDistances(np.array(a), np.array(pts))).tolist(), [sum((x - y) ** 2 for x, y in zip(a, b)) for b in pts], 'kernel/distance', 'squared distances')
        for n in range(1, 4):
            for m in range(1, 4):
                A, B = np.array(pts[:n]) + a, np.array(pts[m:2 * m + 1])
                ctx.eq(np.asarray(lib.getNToNDistances(A, B)), ((A[:, None, :] - B[None]) ** 2).sum(-1), 'kernel/matrix', 'distance matrix')
    for rows in itertools.product(itertools.product((0.0, 1.0, 2.0), repeat=3), repeat=2):
        ctx.step()
        ctx.case('kernel', rows)
        M = np.array(rows)
        for k in (1, 2, 3):
            ctx.eq(np.asarray(lib.nArgMin(k, M)).tolist(), [sorted(range(3), key=lambda i: (r[i], i))[:k] for r in rows], 'kernel/nArgMin-rows', 'nArgMin of a matrix')
        ctx.eq(np.asarray(lib.mostCommon(M.astype(np.int32))).tolist(),
               [min(c for c in r if r.count(c) == max(r.count(x) for x in r)) for r in [tuple(int(v) for v in r) for r in rows]], 'kernel/mostCommon-rows', 'mostCommon of a matrix')
