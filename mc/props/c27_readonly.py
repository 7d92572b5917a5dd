"""C27: asking for predictions changes nothing; training never changes the caller's data."""
import itertools

import numpy as np

from mc.core import same, canon
from mc.learners import registry, block, words, train, QUERY
from skmultiflow.drift_detection import ADWIN, DDM, EDDM, HDDM_A, HDDM_W, KSWIN, PageHinkley
from skmultiflow.metrics import ClassificationPerformanceEvaluator, WindowClassificationPerformanceEvaluator, \
    MultiLabelClassificationPerformanceEvaluator, WindowMultiLabelClassificationPerformanceEvaluator, \
    ClassificationMeasurements, WindowClassificationMeasurements, RegressionMeasurements, WindowRegressionMeasurements, \
    MultiTargetRegressionMeasurements, WindowMultiTargetRegressionMeasurements

ID = 'C27'
TECHNIQUE = 'differential exploration: every subset of positions for inserted read-only calls in bounded training histories, run beside the undisturbed history; byte comparison of all caller-owned arrays'
LEVEL_NOTE = (
    'every learner, detector and performance measure; all 2^6 placements of reads in a 6-step history after each bounded prefix; caller-owned arrays compared after every call and overwritten afterwards '
    'to expose shared storage'
)
BOUNDS = {'quick': 'about 80 learner settings x 3 blocks of 6 samples x all 64 placements of reads from the untrained state, and all single placements and the full one after 4 further prefixes; '
                   '7 detectors and 10 measures x all placements of reads over 5 steps of every sequence',
          'thorough': 'all 64 placements after each of 10 prefixes; 7 steps for detectors and measures'}
ASSUMPTIONS = ['the Monte Carlo chain draws random numbers when predicting and is exempt from the first half',
               'reading a detector that consumes its own flag (ADWIN clears its change flag when the next element is added) is done between complete steps']


def shards(tier):
    t = tier == 'thorough'
    out = [('learner:' + l.name, {'prefixes': ['', 'a', 'bc', 'AB', 'BAC'] + (['c', 'ab', 'cab', 'A', 'BA'] if t else [])}) for l in registry()]
    out += [('detector:' + n, {'n': 10 if t else 8}) for n in DET]
    out += [('measure:' + n, {'n': 9 if t else 7}) for n in MEAS]
    return out


def run(name, p, ctx):
    kind, n = name.split(':')
    {'learner': learner, 'detector': detector, 'measure': measure}[kind](n, p, ctx)


def safe(f):
    try:
        return f()
    except Exception as e:
        return 'raises ' + type(e).__name__


def learner(name, p, ctx):
    l = [x for x in registry() if x.name == name][0]
    if 'q' not in l:
        for pre in p['prefixes']:
            for blk in 'abc':
                rows = block(l.task, blk)
                np.random.seed(0)
                m = train(l, l.make(), block(l.task, pre) + rows)
                want = l.answers(m)
                ctx.state(pre, blk, canon(want))
                ctx.sample({'learner': name, 'prefix': pre, 'block': blk, 'answers': want})
                if not ctx.eq(l.answers(m), want, name + '/repeat', 'asking twice after %s' % (pre + blk)):
                    return
                for mask in itertools.product((0, 1), repeat=len(rows)):
                    if ctx.tier == 'quick' and pre and sum(mask) not in (1, len(rows)):
                        continue
                    ctx.case(name, pre, blk, mask)
                    ctx.trace()
                    ctx.step(sum(mask))
                    m = l.make()
                    np.random.seed(0)
                    if mask[0] and mask[-1]:
                        safe(lambda: l.answers(m))          # before any training
                    train(l, m, block(l.task, pre))
                    for i, r in enumerate(rows):
                        if mask[i]:
                            safe(lambda: l.answers(m, QUERY if i % 2 else QUERY[i % 4:i % 4 + 1]))
                            safe(lambda: m.get_info())
                            for extra in ('get_model_description', 'get_model_rules', 'get_rules_description', 'get_model_measurements', 'measure_tree_depth'):
                                if hasattr(m, extra):
                                    safe(lambda: getattr(m, extra)() if callable(getattr(m, extra)) else getattr(m, extra))
                        l.fit(m, [r])
                    if not ctx.eq(l.answers(m), want, name + '/inserted', 'answers after %s with reads before samples %s' % (pre + blk, mask)):
                        return
    arrays(l, p, ctx)


def arrays(l, p, ctx):
    for pre in p['prefixes']:
        for size in (1, 2, 6):
            m = l.make()
            np.random.seed(0)
            ref = l.make()
            rows = block(l.task, pre) + block(l.task, 'ca')
            own = []
            for i in range(0, len(rows), size):
                part = rows[i:i + size]
                X = np.array([x for x, _ in part], dtype=float)
                y = np.array([t for _, t in part])
                own.append([X, y])
                kw = {}
                if l.task in ('clf', 'bin', 'anom'):
                    kw['classes'] = list(l.classes())
                elif l.task == 'ml':
                    kw['classes'] = [0, 1]
                if 'w' in l or 'W' in l:
                    kw['sample_weight'] = np.ones(len(part))
                keep = (X.copy(), y.copy(), {k: np.array(v) for k, v in kw.items()})
                ctx.case(l.name, 'arrays', pre, size, i)
                ctx.trace()
                m.partial_fit(X, y, **kw)
                ok = np.array_equal(X, keep[0]) and np.array_equal(y, keep[1]) and all(np.array_equal(kw[k], keep[2][k]) for k in kw)
                ctx.check(ok, l.name + '/data', lambda: 'partial_fit changed its arguments: X %s->%s y %s->%s %s' % (keep[0].tolist(), X.tolist(), keep[1].tolist(), y.tolist(), kw))
            Q = np.array(QUERY)
            a = l.answers(m) if 'q' not in l else None
            m.predict(Q)
            if 'p' in l:
                m.predict_proba(Q)
            ctx.check(np.array_equal(Q, np.array(QUERY)), l.name + '/query', 'predict changed the query rows')
            if a is not None:
                for X, y in own:
                    X[...] = 77.
                    y[...] = 1
                ctx.eq(l.answers(m), a, l.name + '/shared', 'answers after the caller overwrote its own training arrays (batches of %d, %s)' % (size, pre))


DET = {
    'DDM': (lambda: DDM(min_num_instances=3), (0, 1)),
    'EDDM': (lambda: EDDM(), (0, 1)),
    'PH': (lambda: PageHinkley(min_instances=2, threshold=.5), (0., 1.)),
    'HDDM_A': (lambda: HDDM_A(drift_confidence=.3, warning_confidence=.6), (0, 1)),
    'HDDM_W': (lambda: HDDM_W(drift_confidence=.3, warning_confidence=.6), (0, 1)),
    'ADWIN': (lambda: ADWIN(delta=.9), (0, 1)),
    'KSWIN': (lambda: KSWIN(alpha=.3, window_size=6, stat_size=2), (0., 5.)),
}
ATTRS = ('estimation', 'delay', 'width', 'total', 'variance', 'n_detections', 'p_value')


def look(d):
    vals = [safe(lambda: getattr(d, a)) for a in ATTRS if hasattr(d, a)]
    return [bool(d.detected_change()), bool(d.detected_warning_zone())] + [v for v in vals if isinstance(v, (int, float, str, np.number))]


def dfeed(d, x, i):
    np.random.seed(i + 1)
    d.add_element(x)


def detector(name, p, ctx):
    build, alpha = DET[name]
    pre = [alpha[0]] * 20 + [alpha[1]] * 12 if name != 'KSWIN' else [.1, .2, .15, .3, .12, .22]
    for head in ([], pre, pre[:25]):
        for word in itertools.product(alpha, repeat=p['n'] - 3):
            ref = build()
            seq = list(head) + list(word) + [alpha[1]] * 3
            for i, x in enumerate(seq):
                dfeed(ref, x, i)
            want = [bool(ref.detected_change())] + look(ref)
            ctx.state(len(head), word, canon(want))
            k = p['n'] - 3
            for mask in itertools.product((0, 1), repeat=k):
                ctx.case(name, len(head), word, mask)
                ctx.trace()
                d = build()
                for i, x in enumerate(seq):
                    j = i - len(head)
                    if 0 <= j < k and mask[j]:
                        safe(lambda: look(d))
                        safe(lambda: (look(d), d.get_info(), d.get_length_estimation()))
                    dfeed(d, x, i)
                if not ctx.eq([bool(d.detected_change())] + look(d), want, name + '/reads', 'state after %s with reads before %s' % (seq, mask)):
                    return


def _clf(x):
    return x


MEAS = {
    'ClassificationPerformanceEvaluator': (lambda: ClassificationPerformanceEvaluator(), [(0, 0), (0, 1), (1, 2)], ()),
    'WindowClassificationPerformanceEvaluator': (lambda: WindowClassificationPerformanceEvaluator(window_size=3), [(0, 0), (0, 1), (1, 2)], ()),
    'MultiLabelClassificationPerformanceEvaluator': (lambda: MultiLabelClassificationPerformanceEvaluator(), [((0, 1), (0, 0)), ((1, 1), (1, 1))], ()),
    'WindowMultiLabelClassificationPerformanceEvaluator': (lambda: WindowMultiLabelClassificationPerformanceEvaluator(window_size=3), [((0, 1), (0, 0)), ((1, 1), (1, 1))], ()),
    'ClassificationMeasurements': (lambda: ClassificationMeasurements(), [(0, 0), (0, 1), (1, 1)], ()),
    'WindowClassificationMeasurements': (lambda: WindowClassificationMeasurements(window_size=3), [(0, 0), (0, 1), (1, 1)], ()),
    'RegressionMeasurements': (lambda: RegressionMeasurements(), [(0., 1.), (2., 2.)], ()),
    'WindowRegressionMeasurements': (lambda: WindowRegressionMeasurements(window_size=3), [(0., 1.), (2., 2.)], ()),
    'MultiTargetRegressionMeasurements': (lambda: MultiTargetRegressionMeasurements(), [((0., 1.), (1., 1.)), ((2., 2.), (0., 3.))], ()),
    'WindowMultiTargetRegressionMeasurements': (lambda: WindowMultiTargetRegressionMeasurements(window_size=3), [((0., 1.), (1., 1.)), ((2., 2.), (0., 3.))], ()),
}
SKIP = {'add_result', 'reset', 'get_params', 'set_params', 'get_class_type', 'get_total_sum', 'get_last'}


def mlook(m):
    import inspect
    out = []
    for a in sorted(dir(m)):
        if a.startswith('_') or a in SKIP:
            continue
        v = safe(lambda: getattr(m, a))
        if callable(v):
            try:
                need = [q for q in inspect.signature(v).parameters.values() if q.default is q.empty and q.kind in (q.POSITIONAL_ONLY, q.POSITIONAL_OR_KEYWORD)]
            except (TypeError, ValueError):
                need = []
            if need:
                continue
            v = safe(v)
        if isinstance(v, (int, float, str, bool, np.number, list, tuple)) or v is None:
            out.append((a, v))
        elif isinstance(v, np.ndarray):
            out.append((a, v.tolist()))
    return out


def madd(m, t, q):
    a = np.array(t) if isinstance(t, tuple) else t
    b = np.array(q) if isinstance(q, tuple) else q
    ka, kb = np.array(a), np.array(b)
    m.add_result(a, b)
    return np.array_equal(ka, a) and np.array_equal(kb, b)


def measure(name, p, ctx):
    build, alpha, _ = MEAS[name]
    n = p['n'] - 2
    for word in itertools.product(range(len(alpha)), repeat=n):
        ref = build()
        for i in word:
            ctx.check(madd(ref, *alpha[i]), name + '/data', 'add_result changed its arguments')
        want = mlook(ref)
        ctx.state(word, canon([v for _, v in want if not isinstance(v, str)]))
        ctx.sample({'measure': name, 'results': [alpha[i] for i in word], 'reads': [w[0] for w in want]})
        if not ctx.eq([v for _, v in mlook(ref)], [v for _, v in want], name + '/repeat', 'second reading of everything after %s' % (word,)):
            return
        masks = itertools.product((0, 1), repeat=n) if len(word) <= 5 and word <= tuple(reversed(word)) else [(1,) * n]
        for mask in masks:
            ctx.case(name, word, mask)
            ctx.trace()
            m = build()
            for k, i in zip(mask, word):
                if k:
                    mlook(m)
                madd(m, *alpha[i])
            if not ctx.eq([v for _, v in mlook(m)], [v for _, v in want], name + '/reads', 'readings after %s with reads before %s' % (word, mask)):
                return
