"""C10: reported evaluation results equal a recomputation from the raw predictions."""
import itertools
import os
import re
import shutil
import tempfile

from mc.core import chunk
from mc.evalkit import (COLUMN, METRICS, Recorder, SCORE, SUMMARY, TASKS, captured, finite_stream, EndlessStream, guess, label,
                        ref_model, ref_score)
from mc.props import c08_holdout, c09_delayed
from skmultiflow.evaluation import EvaluateHoldout, EvaluatePrequential, EvaluatePrequentialDelayed

ID = 'C10'
TECHNIQUE = 'exhaustive exploration of evaluator configurations; every output-file row, summary line and measurement object of the real run is compared with a recomputation from the scripted predictions'
LEVEL_NOTE = (
    'all metric subsets (singles, full, reversed, with time/size columns), reporting intervals, batch sizes, limits, numbers of '
    'models and task types in the grid, for prequential, hold-out and delayed prequential evaluation, against reference metric definitions'
)
BOUNDS = {'quick': 'streams 20-41 records, pretrain 0/4, batch 1/2/3, n_wait 1/3/5/7, limit 20/24/100, 1-2 models, 4 tasks, all metric subsets in the grid; delayed: 4 delay patterns, n_wait 1/3/50',
          'thorough': 'adds batch 5, n_wait 2/20, 3 models, limits 21/23, pretrain 1/7'}


def metric_sets(task):
    full = METRICS[task]
    out = [tuple(full), tuple(reversed(full)), tuple(full[:1] + ['running_time', 'model_size'] + full[1:])]
    out += [(m,) for m in full if m != 'true_vs_predicted']
    return out


def shards(tier):
    q = tier == 'quick'
    cfgs = []
    for task in TASKS:
        sets = metric_sets(task)
        for n, pretrain, batch, wait, lim, models in itertools.product(
                (20, 24, 41, None), (0, 4) if q else (0, 1, 4, 7), (1, 2, 3) if q else (1, 2, 3, 5),
                (1, 3, 5, 7) if q else (1, 2, 3, 5, 7, 20), (20, 24, 100) if q else (20, 21, 23, 24, 100),
                (1, 2) if q else (1, 2, 3)):
            if n is None and lim == 100:
                continue
            k = len(cfgs)
            use = sets[:1] + ([sets[1 + k % (len(sets) - 1)]] if q else sets[1:])
            for ms in use:
                cfgs.append(('preq', task, n, pretrain, batch, wait, lim, models, ms))
        for n, test, batch, wait, lim, models, dyn in itertools.product(
                (24, 41, None), (1, 4) if q else (1, 2, 4, 6), (1, 2, 3) if q else (1, 2, 3, 5), (3, 5, 7) if q else (2, 3, 5, 7),
                (20, 24, 100), (1, 2), (True, False)):
            if n is None and lim == 100:
                continue
            k = len(cfgs)
            use = sets[:1] + ([sets[1 + k % (len(sets) - 1)]] if q else sets[1:])
            for ms in use:
                cfgs.append(('hold', task, n, test, batch, wait, lim, models, ms, dyn))
        # long enough for the buffered output file to be flushed in mid-run
        for models, batch in ((1, 1), (2, 1), (2, 2)):
            cfgs.append(('preq', task, 230, 4, batch, 1, 1000, models, sets[0]))
            cfgs.append(('hold', task, 230, 3, 1, batch, 1000, models, sets[0], False))
        for n, pretrain, batch, wait, lim, models, pat in itertools.product(
                (24, 41) if q else (20, 24, 41), (0, 4) if q else (0, 1, 4, 7), (1, 2, 3) if q else (1, 2, 3, 5), (1, 3, 50) if q else (1, 2, 3, 5, 7, 50),
                (24, 100), (2,) if q else (1, 2), (('int', 0), ('int', 3), ('word', (0, 4, 1)), ('int', 60))):
            k = len(cfgs)
            use = sets[:1] + ([sets[1 + k % (len(sets) - 1)]] if q else sets[1:])
            for ms in use:
                cfgs.append(('delay', task, n, pretrain, batch, wait, lim, models, ms, pat))
    return [('part-%02d' % i, p) for i, p in enumerate(chunk(cfgs, 24 if q else 64))]


def run(name, cfgs, ctx):
    tmp = tempfile.mkdtemp(prefix='mc_c10_')
    try:
        for c in cfgs:
            one(c, ctx, os.path.join(tmp, 'out.csv'))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def steps(c):
    """Reference run: [(ids scored since the last step, row id or None when no row is due)]"""
    kind, task, n, a, batch, wait, lim, models, ms = c[:9]
    end = 10 ** 9 if n is None else n
    limit = lim if n is None else min(n, lim)
    out = []
    if kind == 'preq':
        pos = count = a
        updates = 0
        while count < limit and pos < end:
            ids = list(range(pos, min(pos + batch, end)))
            pos += batch
            count += batch
            row = None
            if count % wait == 0 or count >= limit or count / wait > updates + 1:
                row = count - batch
                updates += 1
            out.append((ids, row))
        return out, count
    ev, _ = c08_holdout.protocol(n, 0, a, batch, lim, wait, c[9])
    for e in ev:
        if e[0] == 'score':
            out.append((e[1], e[2]))
    count = 0 if c[9] else a
    for e in ev:
        count = count + batch if e[0] == 'fit' else (e[2] if c[9] else count)
    return out, count


def delayed_steps(c, log):
    """The same for a delayed evaluation, from the order in which the labels were used (C09 decides that order)."""
    kind, task, n, a, batch, wait, lim, models, ms = c[:9]
    out, count, updates = [], 0, 0
    limit = min(n, lim)
    fits = [e for e in log if e[0] == 0 and e[1] == 'fit' and e[2]]
    if a:
        count = a
        fits = fits[1:]
    for e in fits:
        row = None
        if count % wait == 0 or count >= limit or count / wait > updates + 1:
            row = count - batch
            updates += 1
        out.append(([int(i) for i in e[2]], row))
        count += len(e[2])
    if out and not updates:
        out.append(([], count - batch))                   # nothing reported so far: one row at the end
    return out, count


def ordered(ms):
    return [m for m in ms if m not in ('running_time', 'model_size')] + [m for m in ms if m in ('running_time', 'model_size')]


def one(c, ctx, path):
    kind, task, n, a, batch, wait, lim, n_models, ms = c[:9]
    ctx.case(kind, dict(task=task, records=n, pretrain_or_test=a, batch=batch, n_wait=wait, max_samples=lim, models=n_models,
                        metrics=ms, extra=c[9:]))
    plan, count = steps(c) if kind != 'delay' else ([], 0)
    if kind != 'delay' and not any(r is not None and ids for ids, r in plan):
        return
    if kind == 'hold' and any(not ids for ids, r in plan):
        return                                            # an evaluation with no sample left to hold out
    if kind == 'delay':
        stream = c09_delayed.make_stream(c[9], task, n, None)
    else:
        stream = EndlessStream(task) if n is None else finite_stream(task, n)
    log = []
    models = [Recorder(i, task, log) for i in range(n_models)]
    names = ['m%d' % i for i in range(n_models)] if wait % 2 else None
    passed = list(ms)
    with captured() as text:
        if kind == 'preq':
            e = EvaluatePrequential(n_wait=wait, max_samples=lim, batch_size=batch, pretrain_size=a, metrics=passed,
                                    output_file=path)
        elif kind == 'delay':
            e = EvaluatePrequentialDelayed(n_wait=wait, max_samples=lim, batch_size=batch, pretrain_size=a, metrics=passed,
                                           output_file=path)
        else:
            e = EvaluateHoldout(n_wait=wait, max_samples=lim, batch_size=batch, test_size=a, dynamic_test_set=c[9],
                                metrics=passed, output_file=path)
        if wait == 3:                                     # one evaluator object, two runs: the second starts afresh
            e.evaluate(stream=stream, model=[Recorder(i, task, []) for i in range(n_models)], model_names=names)
            text.seek(0)
            text.truncate(0)
        e.evaluate(stream=stream, model=models, model_names=names)
    ctx.trace()
    ctx.eq(passed, list(ms), 'metric list of the caller')
    names = names or ['M%d' % i for i in range(n_models)]
    # ---------- reference
    window = a if kind == 'hold' else wait
    if kind == 'delay':
        plan, count = delayed_steps(c, log)
    mean = [ref_model(task) for _ in models]
    cur = [ref_model(task, window) for _ in models]
    want_rows = []
    last = None
    for ids, row in plan:
        for i in ids:
            last = i
            for m in range(n_models):
                mean[m].add(label(task, i), guess(task, m, i))
                cur[m].add(label(task, i), guess(task, m, i))
        if row is not None:
            vals = []
            for metric in ordered(ms):
                if metric == 'true_vs_predicted':
                    vals += [label(task, last)] + [guess(task, m, last) for m in range(n_models)]
                elif metric == 'running_time':
                    vals += ['t'] * (3 * n_models)
                elif metric == 'model_size':
                    vals += ['s'] * n_models
                else:
                    for m in range(n_models):
                        vals += [ref_score(task, mean[m], metric), ref_score(task, cur[m], metric)]
            want_rows.append((row, vals))
    header = ['id']
    for metric in ordered(ms):
        if metric == 'true_vs_predicted':
            header += ['true_value'] + ['predicted_value_[%s]' % x for x in names]
        elif metric == 'running_time':
            header += [s % x for x in names for s in ('training_time_[%s]', 'testing_time_[%s]', 'total_running_time_[%s]')]
        elif metric == 'model_size':
            header += ['model_size_[%s]' % x for x in names]
        else:
            header += [s % (COLUMN.get(metric, metric), x) for x in names for s in ('mean_%s_[%s]', 'current_%s_[%s]')]
    # ---------- file
    lines = [l for l in open(path).read().split('\n') if l and not l.startswith('#')]
    ctx.eq(lines[0].split(','), header, 'column header')
    ctx.eq(len(lines) - 1, len(want_rows), 'number of rows', 'rows %r' % [l.split(',')[0] for l in lines[1:]])
    for l, (row, vals) in zip(lines[1:], want_rows):
        got = l.split(',')
        ctx.step()
        ctx.eq(len(got), len(header), 'values per row', l)
        ctx.eq(int(got[0]), row, 'row id')
        for h, g, w in zip(header[1:], got[1:], vals):
            if w in ('t', 's'):
                ctx.check(float(g) >= 0, 'non-negative ' + h.split('_[')[0], l)
            else:
                ctx.check(abs(float(g) - float(w)) <= 1.01e-6, 'value of ' + h.split('_[')[0],
                          lambda: 'row %d column %s: %s, recomputed %.8f' % (row, h, g, w))
    # ---------- summary and measurement objects
    out = text.getvalue()
    ctx.check('Processed samples: %d\n' % count in out, 'processed samples', lambda: 'want %d in %r' % (count, out[-300:]))
    for m in range(n_models):
        for metric in ms:
            if metric in SUMMARY:
                # '\bKappa M' etc. : exact label
                hit = re.search(r'^%s - %s\s*:\s*(-?[\d.]+|nan)' % (re.escape(names[m]), re.escape(SUMMARY[metric])), out, re.M)
                want = want_rows[-1][1][header.index('mean_%s_[%s]' % (COLUMN.get(metric, metric), names[m])) - 1]
                ctx.check(hit is not None and abs(float(hit.group(1)) - want) <= 6e-5, 'summary ' + metric,
                          lambda: '%r, recomputed %.6f' % (hit and hit.group(0), want))
    for m in range(n_models):
        a1, b1 = e.get_measurements(m)
        a2, b2 = e.get_mean_measurements(m), e.get_current_measurements(m)
        ctx.check(a1 is a2 and b1 is b2, 'measurement accessors')
        for metric in METRICS[task]:
            if metric in SCORE:
                ctx.eq(getattr(a1, SCORE[metric])(), ref_score(task, mean[m], metric), 'final mean ' + metric, tol=1e-7)
                ctx.eq(getattr(b1, SCORE[metric])(), ref_score(task, cur[m], metric), 'final current ' + metric, tol=1e-7)
    ctx.state(c, len(want_rows))
    ctx.sample({'config': c, 'rows': len(want_rows)})
