"""C43: an object saved (pickled) or copied at any point of its life continues exactly as the original would."""
import copy
import itertools
import os
import pickle
import random
import tempfile

import numpy as np

from mc.core import canon, same
from mc import learners as reg
from mc.genkit import configs

import skmultiflow.drift_detection as DD
import skmultiflow.metrics as M
from skmultiflow import transform
from skmultiflow.core import Pipeline
from skmultiflow.data import DataStream, FileStream, TemporalDataStream
from skmultiflow.utils import FastBuffer, SlidingWindow
from skmultiflow.utils.data_structures import FastComplexBuffer, ConfusionMatrix, MOLConfusionMatrix

ID = 'C43'
TECHNIQUE = 'checkpoint/restart model checking: every cut point of every history x every way of saving, resumed on the real object'
LEVEL_NOTE = (
    'every learner, stream, detector, transformer, metric and buffer class with small settings; all cut points of the bounded histories, '
    'pickle (two protocols) and deepcopy; longer histories are not covered'
)
BOUNDS = {'quick': 'about 190 objects; histories of 14-60 calls; a checkpoint after every call (every third one in histories of more than 20), three ways of saving, '
                   'resumption of the copy, and of the original after the copy was used differently',
          'thorough': 'all block words of length 3 plus three long runs per learner'}
ASSUMPTIONS = ['objects that draw from the global generators are resumed with the global generators in the same state']

WAYS = {'pickle': lambda o: pickle.loads(pickle.dumps(o, -1)),
        'pickle2': lambda o: pickle.loads(pickle.dumps(o, 2)),
        'deepcopy': copy.deepcopy}


class Subject:
    """steps: calls returning an observation; odd: calls used to disturb; probe: observation that changes nothing"""

    def __init__(self, make, steps, odd, probe):
        self.make, self.steps, self.odd, self.probe = make, steps, odd, probe


def quiet_seed(k):
    np.random.seed(k)
    random.seed(k)


def obs(f, o):
    try:
        return canon(f(o), 9)
    except Exception as e:
        return 'raises ' + type(e).__name__


def learner_subjects(tier):
    out = {}
    for l in reg.registry():
        ws = ('abc', 'AcB') if tier == 'quick' else [''.join(w) for w in itertools.product('abc', repeat=3)] + ['AcB', 'BAC', 'CCa']
        for w in ws:
            rows = reg.block(l.task, w)
            if len(rows) > 40 and tier == 'quick':
                rows = rows[::2]
            other = reg.block(l.task, 'cb')

            def fit(o, r, l=l):
                l.fit(o, [r])
            out['learner:%s:%s' % (l.name, w)] = Subject(
                l.make, [lambda o, r=r, fit=fit: fit(o, r) for r in rows], [lambda o, r=r, fit=fit: fit(o, r) for r in other],
                (lambda o, l=l: l.answers(o)) if 'q' not in l.traits else (lambda o, l=l: l.answers(copy.deepcopy(o))))
    return out


TABLE = np.array([[float(i), i * .5 - 1, (i * 7) % 3] for i in range(9)])
_dir = {}


def csv():
    import pandas as pd
    if 'p' not in _dir or _dir.get('pid') != os.getpid():
        d = tempfile.mkdtemp(prefix='mcc43')
        _dir.update(p=os.path.join(d, 't.csv'), pid=os.getpid(), d=d)
        pd.DataFrame(TABLE, columns=['a', 'b', 'c']).to_csv(_dir['p'], index=False)
    return _dir['p']


def fed(name, vals):
    def f(o, v):
        o.add_element(v)
        return bool(o.detected_change()), bool(o.detected_warning_zone()), float(o.estimation or 0) if hasattr(o, 'estimation') else 0
    return [lambda o, v=v: f(o, v) for v in vals]


def other_subjects(tier):
    out = {}
    draws = [2, 1, 3, 1, 1]

    def left(o):
        try:
            return o.n_remaining_samples(), o.has_more_samples()
        except Exception as e:
            return type(e).__name__
    src = [(n, b) for n, b in configs('quick') if n.endswith('seed1')] + [
        ('datastream', lambda: DataStream(TABLE.copy(), target_idx=2)), ('filestream', lambda: FileStream(csv())),
        ('temporal', lambda: TemporalDataStream(TABLE.copy(), np.arange(9, dtype=float) % 3, time=np.array(['2020-01-0%d' % (1 + i) for i in range(9)], dtype='datetime64[D]'), sample_delay=np.array(['2020-01-1%d' % i for i in range(9)], dtype='datetime64[D]'), ordered=True))]
    for n, b in src:
        steps = [lambda o, k=k: o.next_sample(k) for k in draws[:3]] + [lambda o: o.restart() and None] + [lambda o, k=k: o.next_sample(k) for k in draws]
        out['stream:' + n] = Subject(b, steps, [lambda o: o.next_sample(2), lambda o: o.restart() and None, lambda o: o.next_sample(1)],
                                     lambda o: (o.n_features, o.n_targets, o.feature_names, o.target_names, left(o), o.last_sample()))
    bits = [0] * 14 + [1] * 9 + [0, 1] * 6 + [0] * 10 + [1] * 8
    for name, make in (('ADWIN', lambda: DD.ADWIN(.3)), ('DDM', lambda: DD.DDM(3)), ('EDDM', DD.EDDM), ('HDDM_A', lambda: DD.HDDM_A(.2, .3)),
                       ('HDDM_W', lambda: DD.HDDM_W(.2, .3)), ('PageHinkley', lambda: DD.PageHinkley(3, 0, 1.)), ('KSWIN', lambda: DD.KSWIN(.1, 8, 3))):
        out['detector:' + name] = Subject(make, fed(name, bits), fed(name, [1, 0, 1, 1, 1, 0, 1]), lambda o: (bool(o.detected_warning_zone()), o.get_info()))
    rows = [(1., 2.), (3., -9.), (5., 1.), (0., -9.), (2., 2.), (-1., 4.)]
    for name, make in [('Cleaner-' + s, lambda s=s: transform.MissingValuesCleaner(-9., s, 3, new_value=4)) for s in ('mean', 'median', 'mode', 'zero', 'custom')] + [
            ('Minmax', lambda: transform.WindowedMinmaxScaler(3)), ('Standard', lambda: transform.WindowedStandardScaler(3)),
            ('OneHot', lambda: transform.OneHotToCategorical([[0, 1]]))]:
        steps = [lambda o, r=r: o.partial_fit_transform(np.array([r])) for r in rows] + [lambda o: o.partial_fit(np.array(rows[:2])) and None] + [lambda o, r=r: o.transform(np.array([r])) for r in rows]
        out['transform:' + name] = Subject(make, steps, [lambda o: o.partial_fit(np.array(rows[3:])) and None], lambda o: copy.deepcopy(o).transform(np.array(rows[:3])))
    pairs = [(0, 0), (1, 0), (2, 2), (0, 1), (1, 1), (2, 0), (0, 0), (2, 2), (1, 2)]

    def cls_probe(o):
        return [o.get_accuracy() if hasattr(o, 'get_accuracy') else o.accuracy_score(), o.get_kappa() if hasattr(o, 'get_kappa') else o.kappa_score(),
                o.get_kappa_m() if hasattr(o, 'get_kappa_m') else o.kappa_m_score(), o.get_kappa_t() if hasattr(o, 'get_kappa_t') else o.kappa_t_score()]
    for name, make in (('ClassificationMeasurements', M.ClassificationMeasurements), ('WindowClassificationMeasurements', lambda: M.WindowClassificationMeasurements(window_size=4)),
                       ('ClassificationPerformanceEvaluator', M.ClassificationPerformanceEvaluator), ('WindowClassificationPerformanceEvaluator', lambda: M.WindowClassificationPerformanceEvaluator(window_size=4))):
        steps = [lambda o, p=p: o.add_result(*p) for p in pairs]
        out['metric:' + name] = Subject(make, steps, steps[4:] + steps[:2], cls_probe)
    ml = [((0, 1), (0, 0)), ((1, 1), (1, 0)), ((0, 0), (0, 0)), ((1, 0), (1, 0)), ((0, 1), (1, 0)), ((1, 1), (1, 1))]
    for name, make in (('MultiTargetClassificationMeasurements', M.MultiTargetClassificationMeasurements), ('WindowMultiTargetClassificationMeasurements', lambda: M.WindowMultiTargetClassificationMeasurements(window_size=3))):
        steps = [lambda o, p=p: o.add_result(np.array(p[0]), np.array(p[1])) for p in ml]
        out['metric:' + name] = Subject(make, steps, steps[3:], lambda o: [o.get_hamming_score(), o.get_exact_match(), o.get_j_index()])
    for name, make in (('RegressionMeasurements', M.RegressionMeasurements), ('WindowRegressionMeasurements', lambda: M.WindowRegressionMeasurements(window_size=3))):
        steps = [lambda o, p=p: o.add_result(p[0] * 1.5, p[1] - .25) for p in pairs]
        out['metric:' + name] = Subject(make, steps, steps[3:], lambda o: [o.get_mean_square_error(), o.get_average_error()])
    for name, make in (('MultiTargetRegressionMeasurements', M.MultiTargetRegressionMeasurements), ('WindowMultiTargetRegressionMeasurements', lambda: M.WindowMultiTargetRegressionMeasurements(window_size=3))):
        steps = [lambda o, p=p: o.add_result(np.array(p[0]) * 1.5, np.array(p[1]) - .25) for p in ml]
        out['metric:' + name] = Subject(make, steps, steps[3:], lambda o: [o.get_average_mean_square_error(), o.get_average_absolute_error(), o.get_average_root_mean_square_error()])
    steps = [lambda o, v=v: o.add_element([v]) for v in range(5)] + [lambda o: o.get_next_element(), lambda o: o.add_element([7, 8])]
    out['buffer:FastBuffer'] = Subject(lambda: FastBuffer(3), steps, steps[3:], lambda o: (o.get_queue(), o.get_current_size(), o.is_full(), o.is_empty()))
    steps = [lambda o, v=v: o.add_element(np.array([[v, v + 1]])) for v in range(5)]
    out['buffer:FastComplexBuffer'] = Subject(lambda: FastComplexBuffer(3, 2), steps, steps[3:], lambda o: (np.asarray(o.get_queue()).tolist(), o.get_current_size(), o.is_full()))
    steps = [lambda o, v=v: o.add_sample(np.array([[v, 2. * v]]), np.array([v % 2])) for v in range(6)] + [lambda o: o.delete_oldest_sample()]
    out['buffer:SlidingWindow'] = Subject(lambda: SlidingWindow(4), steps, steps[3:], lambda o: (o.features_buffer, o.targets_buffer, o.size))
    steps = [lambda o, p=p: o.update(*p) for p in ((0, 1), (1, 1), (2, 0), (4, 4), (0, 0))] + [lambda o: o.remove(1, 1)]
    out['buffer:ConfusionMatrix'] = Subject(lambda: ConfusionMatrix(2), steps, steps[2:], lambda o: (o.matrix, o.shape(), o.get_total_sum() if hasattr(o, 'get_total_sum') else 0))
    steps = [lambda o, p=p: o.update(*p) for p in ((0, 1, 1), (1, 1, 0), (2, 0, 0), (0, 0, 1))]
    out['buffer:MOLConfusionMatrix'] = Subject(lambda: MOLConfusionMatrix(2), steps, steps[2:], lambda o: (o.matrix, o.get_total_sum(), o.get_total_discordance()))
    from skmultiflow.bayes import NaiveBayes
    prows = [((1., 2.), 0), ((3., 0.), 1), ((2., 2.), 0), ((5., -1.), 1), ((0., 0.), 0)]
    steps = [lambda o, r=r: o.partial_fit(np.array([r[0]]), np.array([r[1]]), classes=[0, 1]) and None for r in prows]
    out['pipeline'] = Subject(lambda: Pipeline([('s', transform.WindowedStandardScaler(3)), ('nb', NaiveBayes())]), steps, steps[::-1],
                              lambda o: np.asarray(copy.deepcopy(o).predict(np.array([r[0] for r in prows]))).tolist())
    return out


def subjects(tier):
    return {**learner_subjects(tier), **other_subjects(tier)}


def shards(tier):
    return [(k, {}) for k in subjects(tier)]


def run(name, p, ctx):
    s = subjects(ctx.tier)[name]
    short = ':'.join(name.split(':')[:2])
    n = len(s.steps)

    def go(o, i, j):
        r = []
        for k in range(i, j):
            quiet_seed(100 + k)
            r.append(obs(s.steps[k], o))
            ctx.step()
        return r

    def disturb(o):
        for k, f in enumerate(s.odd):
            quiet_seed(50 + k)
            obs(f, o)
            ctx.step()
    quiet_seed(1)
    ref = s.make()
    want, probes = [], []
    for k in range(n + 1):
        probes.append(obs(s.probe, ref))
        if k < n:
            want += go(ref, k, k + 1)
    ctx.sample({'object': name, 'calls': n, 'final': probes[-1]})
    for i in range(0, n + 1, 3 if ctx.tier == 'quick' and n > 20 else 1):
        ctx.state(i, probes[i])
        for way, save in WAYS.items():
            if way == 'pickle2' and i % 4:
                continue
            ctx.case(name, way, 'after %d of %d calls' % (i, n))
            ctx.trace()
            quiet_seed(1)
            o = s.make()
            go(o, 0, i)
            try:
                c = save(o)
            except Exception as e:
                ctx.fail('save/%s: %s' % (short, type(e).__name__), '%s raises %r' % (way, e))
                return
            if not ctx.check(type(c) is type(o), 'type/' + short, lambda: 'restored as %r' % type(c)):
                return
            if not ctx.eq(obs(s.probe, c), probes[i], 'restored/' + short, 'state of the copy right after %s at call %d' % (way, i)):
                return
            # the copy is used for something else; the original must not notice
            d = save(o)
            disturb(d)
            # the copy goes on as the original would have
            got = go(c, i, n)
            if not ctx.eq((got, obs(s.probe, c)), (want[i:], probes[n]), 'resumed/' + short, 'the %s copy of call %d carried on to the end' % (way, i)):
                return
            if not ctx.eq(obs(s.probe, o), probes[i], 'shared/' + short, 'the original at call %d after its copies were used' % i):
                return
            got = go(o, i, n)
            if not ctx.eq((got, obs(s.probe, o)), (want[i:], probes[n]), 'shared/' + short, 'the original of call %d carried on after its copies were used' % i):
                return
    if 'd' in _dir and _dir.get('pid') == os.getpid():
        import shutil
        shutil.rmtree(_dir['d'], ignore_errors=True)
        _dir.clear()
