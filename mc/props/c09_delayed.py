"""C09: delayed prequential evaluation uses a label only after its delay has passed."""
import itertools

import numpy as np

from mc.core import chunk
from mc.evalkit import METRICS, SCORE, Recorder, TASKS, captured, guess, label, labels, ref_model, ref_score, rows
from skmultiflow.data import TemporalDataStream
from skmultiflow.evaluation import EvaluatePrequentialDelayed

ID = 'C09'
TECHNIQUE = 'exhaustive exploration of delay patterns and evaluator configurations, running the real delayed evaluator on numbered records with recording models; the call log is checked against the arrival/availability protocol model'
LEVEL_NOTE = (
    'every combination of delay pattern, batch size, pretrain size, stream length, sample limit, weights, task and number of '
    'models in the grid; each real run is compared with the protocol phase by phase, and its final scores with a recomputation'
)
BOUNDS = {'quick': '21-26 records; delays constant (0,1,3,30), decreasing, alternating, clustered; batch 1/2/3; pretrain 0/1/4; limit 20/100; weights on/off; 1-2 models; 4 tasks',
          'thorough': 'adds batch 4/5, pretrain 2/7, limit 21/23, all period-3 delay words over {0,2,5}'}
ASSUMPTIONS = ['labels that become available at the same moment may be used in any order among themselves',
               'the evaluator refuses runs shorter than 20 samples (documented minimum)']
BASE = np.datetime64('2020-01-01')


def delays(tier):
    pats = [('int', 0), ('int', 1), ('int', 3), ('int', 30), ('word', (3, 2, 1)), ('word', (0, 5)), ('word', (7, 0, 0)),
            ('cluster', 6), ('same', 2)]
    if tier == 'thorough':
        pats += [('word', w) for w in itertools.product((0, 2, 5), repeat=3)]
    return pats


def shards(tier):
    q = tier == 'quick'
    cfgs = [c for c in itertools.product(TASKS, delays(tier), (21, 26) if q else (21, 24, 26, 45),
                                         (0, 1, 4) if q else (0, 1, 2, 4, 7), (1, 2, 3) if q else (1, 2, 3, 4, 5),
                                         (20, 100) if q else (20, 21, 23, 100), (False, True), (1, 2))
            if not (q and c[6] and c[7] == 1)]
    return [('part-%02d' % i, p) for i, p in enumerate(chunk(cfgs, 24 if q else 64))]


def run(name, cfgs, ctx):
    for c in cfgs:
        one(c, ctx)


def timeline(pat, n):
    """(arrival, availability) in abstract time units"""
    kind, a = pat
    if kind == 'int':
        return [(i, i + a) for i in range(n)]
    if kind == 'word':
        return [(i, i + a[i % len(a)]) for i in range(n)]
    if kind == 'cluster':
        return [(i // 3, (i // a + 1) * a // 2) for i in range(n)]
    return [(i - i % 2, i - i % 2 + a) for i in range(n)]      # pairs arrive together


def make_stream(pat, task, n, w):
    if pat[0] == 'int':
        return TemporalDataStream(rows(range(n)), labels(task, range(n)), sample_delay=pat[1], sample_weight=w)
    tl = timeline(pat, n)
    return TemporalDataStream(rows(range(n)), labels(task, range(n)),
                              time=np.array([BASE + np.timedelta64(int(a), 'D') for a, _ in tl]),
                              sample_delay=np.array([BASE + np.timedelta64(int(b), 'D') for _, b in tl]), sample_weight=w)


def one(c, ctx):
    task, pat, n, pretrain, batch, lim, weighted, n_models = c
    ctx.case('delayed prequential', dict(task=task, delays=pat, records=n, pretrain=pretrain, batch=batch, max_samples=lim,
                                         weighted=weighted, models=n_models))
    tl = timeline(pat, n)
    stream = make_stream(pat, task, n, np.array([1.0 + i for i in range(n)]) if weighted else None)
    log = []
    models = [Recorder(i, task, log) for i in range(n_models)]
    with captured():
        ev = EvaluatePrequentialDelayed(n_wait=2, max_samples=lim, batch_size=batch, pretrain_size=pretrain,
                                        metrics=list(METRICS[task]))
        ret = ev.evaluate(stream=stream, model=models if n_models > 1 else models[0])
    ctx.trace()
    ctx.step(len(log))
    # ---------------- protocol: phases of (kind, ids); labels released in one phase may come in any order within equal times
    limit = min(n, lim)
    phases, queue, pos, count = [], [], 0, 0
    if pretrain:
        phases.append(('pre', list(range(min(pretrain, n)))))
        pos = count = pretrain
    while count < limit and pos < n:
        ids = list(range(pos, min(pos + batch, n)))
        pos += batch
        clock = tl[ids[-1]][0]
        due = [i for i in queue if tl[i][1] <= clock]
        queue = [i for i in queue if tl[i][1] > clock]
        if due:
            phases.append(('fit', due))
            count += len(due)
        phases.append(('pred', ids))
        queue += ids
    if queue:
        phases.append(('drain', queue))
    read = min(pos, n)
    used = None
    for m in range(n_models):
        mine = [e for e in log if e[0] == m and e[2]]
        k = 0
        order = []
        for kind, ids in phases:
            got, gy, gw = [], [], []
            need = len(ids)
            while len(got) < need and k < len(mine) and mine[k][1] == ('pred' if kind == 'pred' else 'fit'):
                got += [int(i) for i in mine[k][2]]
                if mine[k][1] == 'fit':
                    gy += [tuple(v) if isinstance(v, list) else v for v in mine[k][4]]
                    gw += mine[k][6] if mine[k][6] is not None else [None] * len(mine[k][2])
                    ctx.check(len(gw) == len(got), 'weights per sample', lambda: repr(mine[k]))
                if kind == 'drain':
                    ctx.check(len(mine[k][2]) <= batch, 'drain batches')
                k += 1
            if kind in ('pre', 'pred'):
                ctx.eq(got, ids, '%s samples' % kind, 'model %d' % m)
            else:
                ctx.eq(sorted(got), sorted(ids), 'labels used in this phase', 'model %d, %s' % (m, kind))
                av = [tl[i][1] for i in got]
                ctx.check(av == sorted(av), 'order of availability', lambda: repr(got))
                order += got
            if kind != 'pred':
                ctx.check(gy == [label(task, i) for i in got], 'label of its own sample', lambda: repr((got, gy)))
                ctx.check(gw == [(1.0 + i) if weighted else None for i in got], 'weight of its own sample', lambda: repr((got, gw)))
        ctx.eq(k, len(mine), 'no further calls', 'model %d: %r' % (m, mine[k:][:2]))
        ctx.check(all(b == a * 10 + 0.5 for e in mine for a, b in zip(e[2], e[3])), 'features intact')
        first = next((e for e in mine if e[1] == 'fit'), None)
        if first is not None and task in ('class', 'multilabel'):
            ctx.eq(first[5], [0, 1, 2] if task == 'class' else [0, 1], 'declared classes')
        if used is None:
            used = order
        ctx.eq(order, used, 'same order for all models')
    # ---------------- scores: each prediction made at arrival, paired with its own label, counted once
    for m in range(n_models):
        ref = ref_model(task)
        for i in used:
            ref.add(label(task, i), guess(task, m, i))
        mean = ev.get_mean_measurements(m)
        for metric in METRICS[task]:
            if metric in SCORE:
                ctx.eq(getattr(mean, SCORE[metric])(), ref_score(task, ref, metric), 'score ' + metric, tol=1e-7)
    ctx.check(sorted(used) == list(range(min(pretrain, n), read)), 'every label used once')
    ctx.check(ret is not None and all(a is b for a, b in zip(ret, models)), 'returned models')
    ctx.eq(stream.n_remaining_samples(), n, 'stream restarted')
    ctx.state(c, len(log))
    ctx.sample({'config': c, 'phases': len(phases), 'calls': len(log)})
