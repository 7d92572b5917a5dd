"""C32: multi-output learners and chains compose their base learners as documented."""
import copy
import itertools

import numpy as np

from mc.core import canon, compositions
from mc.fakes import Rec, RecPlain, RecClasses, RecReg, RecLabel, Order
from skmultiflow.meta import (MultiOutputLearner, ClassifierChain, ProbabilisticClassifierChain, MonteCarloClassifierChain,
                              RegressorChain)
from skmultiflow.bayes import NaiveBayes

ID = 'C32'
TECHNIQUE = 'exhaustive enumeration of batch cuts, target counts, chain permutations and sampling draws with history-digesting base learners, against a reference composition'
LEVEL_NOTE = (
    'the base learner answers with a digest of everything it was trained with, so any wrong column, order, weight or feature shows in the answer; '
    'all permutations of up to 4 targets, all batch cuts, all draw scripts of the Monte-Carlo chain in the bound'
)
BOUNDS = {'quick': '1-4 targets, 1-2 features, all chain orders, all cuts of up to 4 samples, all 0/1 label columns of 3 samples (2 targets); Monte-Carlo: all 3^4 draw scripts x 2 histories',
          'thorough': 'all cuts of up to 6 samples, Monte-Carlo: all 3^6 draw scripts x 3 histories'}
ASSUMPTIONS = ['the first partial_fit of a fresh learner may call fit of the fresh base learners, which the recording learner treats as the same thing',
               'the chain classifiers document that classes and sample_weight are not used']

FEATS = [(0.5, 1.0), (0.25, -1.0), (0.75, 2.0), (0.1, 0.3), (0.9, -0.5), (0.4, 0.4)]
Q = [(0.2, 0.7), (0.6, -0.2)]


def targets(n, L, kind, shift=0):
    if kind == 'reg':
        return [[round(1.5 * i - 0.7 * j + 0.1 * (i * j + shift), 3) for j in range(L)] for i in range(n)]
    return [[(i * (j + 1) + j + shift + (i * i >> 1)) % 2 for j in range(L)] for i in range(n)]


def shards(tier):
    n = 4 if tier == 'quick' else 6
    s = []
    for L in (1, 2, 3, 4):
        for D in (1, 2):
            s.append(('multi-L%d-D%d' % (L, D), {'kind': 'multi', 'L': L, 'D': D, 'n': n}))
            for cls in ('cc', 'pcc', 'rc'):
                s.append(('%s-L%d-D%d' % (cls, L, D), {'kind': cls, 'L': L, 'D': D, 'n': n if L < 4 else 3}))
    s.append(('labels', {'kind': 'labels'}))
    for L in (2, 3):
        s.append(('mcc-L%d' % L, {'kind': 'mcc', 'L': L, 'k': 4 if tier == 'quick' else 6}))
    return s


def run(name, p, ctx):
    {'multi': multi, 'cc': chains, 'pcc': chains, 'rc': chains, 'labels': labels, 'mcc': mcc}[p['kind']](p, ctx)


def cut(rows, comp):
    i = 0
    for c in comp:
        yield rows[i:i + c]
        i += c


def multi(p, ctx):
    L, D = p['L'], p['D']
    X = np.array([f[:D] for f in FEATS])
    XQ = np.array([f[:D] for f in Q])
    for base in (Rec, RecPlain, RecClasses, RecReg):
        y = np.array(targets(6, L, 'reg' if base is RecReg else 'cls'))
        w = np.array([1.0, 0.5, 2.0, 3.0, 0.25, 1.5])
        for n in range(1, p['n'] + 1):
            for comp in compositions(n):
                for use_c, use_w, fit in itertools.product((False, True), (False, True), (False, True)):
                    ctx.case(base.__name__, comp, 'classes' if use_c else '', 'weights' if use_w else '', 'fit first' if fit else '')
                    ctx.trace()
                    m = MultiOutputLearner(base(7))
                    ref = [base(7) for _ in range(L)]
                    first = True
                    for idx in cut(range(n), comp):
                        idx = list(idx)
                        kw = {}
                        if use_c:
                            kw['classes'] = [0, 1]
                        if use_w:
                            kw['sample_weight'] = w[idx]
                        r = (m.fit if first and fit else m.partial_fit)(X[idx], y[idx], **kw)
                        ctx.check(r is m, 'multi/returns-self', 'partial_fit returns %r' % (r,))
                        for j in range(L):
                            k2 = {k: v for k, v in kw.items() if (k == 'classes' and base in (Rec, RecClasses)) or (k == 'sample_weight' and base in (Rec, RecReg))}
                            ref[j].partial_fit(X[idx], y[idx][:, j], **k2)
                        first = False
                        want = np.column_stack([e.predict(XQ) for e in ref])
                        got = np.asarray(m.predict(XQ))
                        ctx.step()
                        ctx.state(canon(got))
                        ctx.sample({'learner': 'MultiOutputLearner', 'targets': L, 'cuts': comp, 'answer': got})
                        ctx.eq(got, want, 'multi/predict', 'per-target answers')
                        if base is not RecReg:
                            ctx.eq(np.asarray(m.predict_proba(XQ)), np.column_stack([e.predict_proba(XQ)[:, 1] for e in ref]), 'multi/proba', 'per-target probabilities')
                    ctx.check(m.base_estimator.digest == b'' if base is not RecReg else m.base_estimator.rec.digest == b'', 'multi/base', 'the base estimator passed in was trained')


def ref_chain(ref, x, L):
    z = list(x)
    out = []
    for j in range(L):
        v = float(ref[j].predict(np.array([z]))[0])
        out.append(v)
        z.append(v)
    return out


def joint(ref, x, y):
    z = list(x)
    out = 1.0
    for j, v in enumerate(y):
        out *= ref[j].predict_proba(np.array([z]))[0][v]
        z.append(float(v))
    return out


def unperm(order, vals):
    out = [None] * len(order)
    for pos, t in enumerate(order):
        out[t] = vals[pos]
    return out


def chains(p, ctx):
    L, D, kind = p['L'], p['D'], p['kind']
    X = np.array([f[:D] for f in FEATS])
    XQ = np.array([f[:D] for f in Q])
    base = RecReg if kind == 'rc' else RecPlain
    y = np.array(targets(6, L, 'reg' if kind == 'rc' else 'cls'))
    orders = [None] + list(itertools.permutations(range(L)))
    for order in orders:
        for n in range(1, p['n'] + 1):
            for comp in compositions(n):
                for fit in (False, True):
                    ctx.case(kind, 'order', order, comp, 'fit first' if fit else '')
                    ctx.trace()
                    cls = {'cc': ClassifierChain, 'pcc': ProbabilisticClassifierChain, 'rc': RegressorChain}[kind]
                    m = cls(base(7), order=None if order is None else 'random', random_state=Order(order or range(L)))
                    o = list(order) if order is not None else list(range(L))
                    ref = [base(7) for _ in range(L)]
                    first = True
                    for idx in cut(range(n), comp):
                        idx = list(idx)
                        r = (m.fit if first and fit else m.partial_fit)(X[idx], y[idx])
                        ctx.check(r is m, kind + '/returns-self', 'partial_fit returns %r' % (r,))
                        first = False
                        yo = y[idx][:, o]
                        for j in range(L):
                            ref[j].partial_fit(np.column_stack([X[idx], yo[:, :j]]), yo[:, j])
                        ctx.step()
                        got = np.asarray(m.predict(XQ))
                        if kind == 'pcc':
                            want = []
                            for x in XQ:
                                best = max(itertools.product((0, 1), repeat=L), key=lambda v: joint(ref, x, v))
                                want.append(unperm(o, best))
                        else:
                            want = [unperm(o, ref_chain(ref, x, L)) for x in XQ]
                        ctx.state(canon(got))
                        ctx.sample({'chain': kind, 'order': o, 'cuts': comp, 'answer': got})
                        ctx.eq(got, np.array(want, dtype=float), kind + '/predict', 'chain answers')
                        if kind != 'rc':
                            wp = []
                            for x in XQ:
                                z, out = list(x), []
                                for j in range(L):
                                    v = float(ref[j].predict_proba(np.array([z]))[0][1])
                                    out.append(v)
                                    z.append(v)
                                wp.append(unperm(o, out))
                            ctx.eq(np.asarray(m.predict_proba(XQ)), np.array(wp), kind + '/proba', 'chain probabilities')


def labels(p, ctx):
    """Real base learners; every 0/1 label matrix of 3 samples with 2 targets, trained one by one without declared classes."""
    X = np.array([f for f in FEATS[:3]])
    XQ = np.array(Q)
    for cols in itertools.product(range(4), repeat=3):
        y = np.array([(c >> 1, c & 1) for c in cols])
        for order in (None, (1, 0)):
            o = [0, 1] if order is None else list(order)
            for name, cls in (('cc', ClassifierChain), ('pcc', ProbabilisticClassifierChain), ('multi', MultiOutputLearner)):
                if name == 'multi' and order:
                    continue
                ctx.case('labels', name, cols, order)
                ctx.trace()
                m = cls(NaiveBayes()) if name == 'multi' else cls(NaiveBayes(), order=None if order is None else 'random', random_state=Order(order or (0, 1)))
                ref = [NaiveBayes(), NaiveBayes()]
                for i in range(3):
                    m.partial_fit(X[i:i + 1], y[i:i + 1])
                    yo = y[i:i + 1][:, o]
                    for j in range(2):
                        ref[j].partial_fit(X[i:i + 1] if name == 'multi' else np.column_stack([X[i:i + 1], yo[:, :j]]), yo[:, j])
                    got = np.asarray(m.predict(XQ))
                    pro = np.asarray(m.predict_proba(XQ))
                    ctx.step()
                    ctx.state(canon(got), canon(pro))
                    want, wp = [], []
                    for x in XQ:
                        P = lambda j, z: ([list(v) + [0.0] for v in ref[j].predict_proba(np.array([z]))][0])[1]
                        if name == 'multi':
                            want.append([float(e.predict(np.array([x]))[0]) for e in ref])
                            wp.append([P(0, x), P(1, x)])
                            continue
                        if name == 'cc':
                            want.append(unperm(o, ref_chain(ref, x, 2)))
                        else:
                            def jp(v):
                                a = P(0, x)
                                b = P(1, list(x) + [float(v[0])])
                                return (a if v[0] else pz(ref[0], x)) * (b if v[1] else pz(ref[1], list(x) + [float(v[0])]))
                            want.append(unperm(o, max(itertools.product((0, 1), repeat=2), key=jp)))
                        a = P(0, x)
                        wp.append(unperm(o, [a, P(1, list(x) + [a])]))
                    ctx.eq(got, np.array(want, dtype=float), name + '/labels', 'answers')
                    ctx.eq(pro, np.array(wp, dtype=float), name + '/labels-proba', 'probabilities')


def pz(e, z):
    return float(e.predict_proba(np.array([z]))[0][0])


def mcc(p, ctx):
    L = p['L']
    X = np.array(FEATS)
    for shift in range(2 if p['k'] == 4 else 3):
        y = np.array(targets(6, L, 'cls', shift))
        for script in itertools.product((0.05, 0.5, 0.95), repeat=p['k']):
            for M in (1, 2, 3):
                if M * L < len(script) and M < 3:
                    if any(v != 0.05 for v in script[M * L:]):
                        continue
                ctx.case('mcc', L, shift, script, M)
                ctx.trace()
                rng = Order((), script)
                m = MonteCarloClassifierChain(RecLabel(7), M=M, random_state=rng)
                m.partial_fit(X[:2], y[:2])
                m.partial_fit(X[2:5], y[2:5])
                ref = [RecLabel(7) for _ in range(L)]
                for j in range(L):
                    ref[j].partial_fit(np.column_stack([X[:5], y[:5, :j]]), y[:5, j])
                x = np.array(Q[:1])
                ctx.step()
                greedy = [int(v) for v in ref_chain(ref, x[0], L)]
                got = np.asarray(m.predict(x))[0]
                draws = [v for k, v in rng.log if k == 'choice']
                ctx.state(script[:M * L], canon(got))
                best, wbest = ref_chain(ref, x[0], L), joint(ref, x[0], greedy)
                if len(draws) == M * L:
                    for k in range(M):
                        c = draws[k * L:(k + 1) * L]
                        wc = joint(ref, x[0], c)
                        if wc > wbest:
                            best, wbest = c, wc
                    ctx.eq(got, np.array(best, dtype=float), 'mcc/best-sample', 'greedy answer or the most probable of %d samples %s' % (M, draws))
                else:
                    ctx.check(joint(ref, x[0], [int(v) for v in got]) >= joint(ref, x[0], greedy) - 1e-12, 'mcc/not-worse', 'less probable than the greedy answer')
