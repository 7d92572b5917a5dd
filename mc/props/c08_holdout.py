"""C08: hold-out evaluation never trains on the samples it scores."""
import itertools

from mc.core import chunk
from mc.evalkit import EndlessStream, METRICS, Recorder, TASKS, captured, finite_stream, label
from skmultiflow.evaluation import EvaluateHoldout

ID = 'C08'
TECHNIQUE = 'exhaustive exploration of all hold-out configurations in the bound, running the real evaluator on numbered records with recording models; the recorded call log is checked against the hold-out protocol model'
LEVEL_NOTE = (
    'every combination of stream length, consumed prefix, test size, batch size, sample limit, interval, static/dynamic test '
    'set, task and number of models in the grid; each real run is compared call by call with the protocol'
)
BOUNDS = {'quick': 'streams of 24/31 records or endless, prefix 0/2, test size 1/3/6, batch 1/2/3/5, limit 20/23/29/100, n_wait 2/3/5/8, static and dynamic, 1-2 models, 4 tasks',
          'thorough': 'adds lengths 26/45, test size 2/9, batch 4/7, limits 21/22/40, n_wait 1/4/7/11, 3 models'}
ASSUMPTIONS = ['the evaluator refuses runs shorter than 20 samples (documented minimum), so limits below 20 are not explored',
               'configurations in which no evaluation step falls before the end of the run are skipped']


def shards(tier):
    q = tier == 'quick'
    grid = itertools.product(TASKS, (24, 31, None) if q else (24, 26, 31, 45, None), (0, 2),
                             (1, 3, 6) if q else (1, 2, 3, 6, 9), (1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 7),
                             (20, 23, 29, 100) if q else (20, 21, 22, 23, 29, 40, 100),
                             (2, 3, 5, 8) if q else (1, 2, 3, 4, 5, 7, 8, 11), (1, 2) if q else (1, 2, 3),
                             (True, False), (True, False))
    cfgs = []
    for c in grid:
        task, n, pre, test, batch, lim, wait, models, dynamic, restart = c
        limit = lim if n is None else min(n - pre, lim)
        if limit < 20 or (n is None and lim > 40):
            continue
        if q and (wait in (3, 8)) != restart:
            continue
        cfgs.append(c)
    return [('part-%02d' % i, p) for i, p in enumerate(chunk(cfgs, 24 if q else 48))]


def run(name, cfgs, ctx):
    for c in cfgs:
        one(c, ctx)


def protocol(n, pre, test, batch, lim, wait, dynamic):
    """Events in order: ('fit', ids) / ('score', ids, count)."""
    end = 10 ** 9 if n is None else n
    limit = lim if n is None else min(n - pre, lim)
    pos, count, ev, k = pre, 0, [], 0
    held = None
    if not dynamic:
        held = list(range(pos, min(pos + test, end)))
        pos += test
        count = test
    while count < limit and pos < end:
        ev.append(('fit', list(range(pos, min(pos + batch, end)))))
        pos += batch
        count += batch
        due = (count >= wait * (k + 1) + test * k) if dynamic else (count - test) % wait == 0
        if due or count >= limit:
            if dynamic:
                held = list(range(pos, min(pos + test, end)))
                pos += test
                count += len(held)
            ev.append(('score', held, count))
            k += 1
    return ev, min(pos, end)


def one(c, ctx):
    task, n, pre, test, batch, lim, wait, n_models, dynamic, restart = c
    ctx.case('holdout', dict(task=task, records=n, already_read=pre, test_size=test, batch=batch, max_samples=lim, n_wait=wait,
                             models=n_models, dynamic=dynamic, restart=restart))
    ev, pos = protocol(n, pre, test, batch, lim, wait, dynamic)
    if not any(e[0] == 'score' and e[1] for e in ev):
        return
    stream = EndlessStream(task) if n is None else finite_stream(task, n)
    if pre:
        stream.next_sample(pre)
    log = []
    models = [Recorder(i, task, log) for i in range(n_models)]
    with captured():
        e = EvaluateHoldout(n_wait=wait, max_samples=lim, batch_size=batch, test_size=test, dynamic_test_set=dynamic,
                            metrics=list(METRICS[task]), restart_stream=restart)
        ret = e.evaluate(stream=stream, model=models if n_models > 1 else models[0])
    ctx.trace()
    ctx.step(len(log))
    want_fit = [i for x in ev if x[0] == 'fit' for i in x[1]]
    want = [(('fit' if x[0] == 'fit' else 'pred'), [float(i) for i in x[1]]) for x in ev if x[1]]
    held = set()
    trained = set()
    for m in range(n_models):
        mine = [x for x in log if x[0] == m and x[2]]
        ctx.eq([(x[1], x[2]) for x in mine], want, 'order of training and scoring', 'model %d' % m)
        ctx.eq([tuple(v) if isinstance(v, list) else v for x in mine if x[1] == 'fit' for v in x[4]],
               [label(task, i) for i in want_fit], 'training labels')
        ctx.check(all(b == a * 10 + 0.5 for x in mine for a, b in zip(x[2], x[3])), 'features intact')
        first = next((x for x in mine if x[1] == 'fit'), None)
        if first is not None and task in ('class', 'multilabel'):
            ctx.eq(sorted(first[5] or []), [0, 1, 2] if task == 'class' else [0, 1], 'declared classes')
        held |= {i for x in mine if x[1] == 'pred' for i in x[2]}
        trained |= {i for x in mine if x[1] == 'fit' for i in x[2]}
    ctx.check(not (held & trained), 'held-out samples trained on', lambda: repr(sorted(held & trained)))
    ctx.check(ret is not None and all(a is b for a, b in zip(ret, models)), 'returned models')
    if n is not None:
        ctx.eq(stream.n_remaining_samples(), n if restart else n - pos, 'stream position after the run')
    else:
        ctx.eq(stream.sample_idx, 0 if restart else pos, 'stream position after the run')
    ctx.state(c, len(log))
    ctx.sample({'config': c, 'events': len(ev), 'calls': len(log)})
