"""C07: prequential evaluation tests each sample once, before training on it."""
import itertools

from mc.core import chunk
from mc.evalkit import EndlessStream, METRICS, Recorder, TASKS, captured, finite_stream, label
from skmultiflow.evaluation import EvaluatePrequential

ID = 'C07'
TECHNIQUE = 'exhaustive exploration of all evaluator configurations in the bound, running the real evaluator on numbered records with recording models; the recorded call log is checked against the protocol model'
LEVEL_NOTE = (
    'every combination of stream length, consumed prefix, pretrain size, batch size, sample limit, reporting interval, task '
    'and number of models in the grid; each run of the real evaluator is compared call by call with the test-then-train protocol'
)
BOUNDS = {'quick': 'streams of 20-24 records or endless, prefix 0/2, pretrain 0/1/4/7, batch 1/2/3/5, limit 20/21/23/100, n_wait 1/3/5/50, 1-2 models, 4 tasks',
          'thorough': 'adds lengths 22/41, pretrain 2/21, batch 4/7, limits 22/40, n_wait 2/4/7, 3 models'}
ASSUMPTIONS = ['the evaluator refuses runs shorter than 20 samples (documented minimum), so limits below 20 are not explored']


def shards(tier):
    q = tier == 'quick'
    grid = itertools.product(TASKS, (20, 24, None) if q else (20, 22, 24, 41, None), (0, 2),
                             (0, 1, 4, 7) if q else (0, 1, 2, 4, 7, 19), (1, 2, 3, 5) if q else (1, 2, 3, 4, 5, 7),
                             (20, 21, 23, 100) if q else (20, 21, 22, 23, 40, 100), (1, 3, 5, 50) if q else (1, 2, 3, 4, 5, 7, 50),
                             (1, 2) if q else (1, 2, 3), (True, False))
    cfgs = []
    for c in grid:
        task, n, pre, pretrain, batch, lim, wait, models, restart = c
        limit = lim if n is None else min(n - pre, lim)
        if limit < 20 or (n is None and lim > 40):
            continue
        if q and (wait in (3, 50)) != restart:
            continue
        cfgs.append(c)
    return [('part-%02d' % i, p) for i, p in enumerate(chunk(cfgs, 24 if q else 48))]


def run(name, cfgs, ctx):
    for c in cfgs:
        one(c, ctx)


def one(c, ctx):
    task, n, pre, pretrain, batch, lim, wait, n_models, restart = c
    ctx.case('prequential', dict(task=task, records=n, already_read=pre, pretrain=pretrain, batch=batch, max_samples=lim,
                                 n_wait=wait, models=n_models, restart=restart))
    stream = EndlessStream(task) if n is None else finite_stream(task, n)
    if pre:
        stream.next_sample(pre)
    log = []
    models = [Recorder(i, task, log) for i in range(n_models)]
    with captured():
        ev = EvaluatePrequential(n_wait=wait, max_samples=lim, batch_size=batch, pretrain_size=pretrain,
                                 metrics=list(METRICS[task]), restart_stream=restart)
        ret = ev.evaluate(stream=stream, model=models if n_models > 1 else models[0])
    ctx.trace()
    ctx.step(len(log))
    # ---- protocol
    end = 10 ** 9 if n is None else n
    limit = lim if n is None else min(n - pre, lim)
    pos = pre
    expected = []                                     # blocks of ids: first for pretraining
    if pretrain:
        block = list(range(pos, min(pos + pretrain, end)))
        expected.append(('pre', block))
        pos += pretrain
    count = pretrain
    while count < limit and pos < end:
        expected.append(('tt', list(range(pos, min(pos + batch, end)))))
        pos += batch
        count += batch
    consumed = [i for _, b in expected for i in b]
    scored = [i for k, b in expected for i in b if k == 'tt']
    trained = {}
    for m in range(n_models):
        mine = [e for e in log if e[0] == m]
        fit_ids = [i for e in mine if e[1] == 'fit' for i in e[2]]
        fit_y = [tuple(v) if isinstance(v, list) else v for e in mine if e[1] == 'fit' for v in e[4]]
        ctx.eq(fit_ids, [float(i) for i in consumed], 'trained samples', 'model %d' % m)
        ctx.eq(fit_y, [label(task, i) for i in consumed], 'training labels', 'model %d' % m)
        ctx.eq([i for e in mine if e[1] == 'pred' for i in e[2]], [float(i) for i in scored], 'predicted samples', 'model %d' % m)
        ctx.check(all(b == a * 10 + 0.5 for e in mine for a, b in zip(e[2], e[3])), 'features intact', 'model %d' % m)
        ctx.eq([len(e[2]) for e in mine if e[1] == 'pred'], [len(b) for k, b in expected if k == 'tt'], 'batch sizes')
        first = next((e for e in mine if e[1] == 'fit'), None)
        if first is not None and task in ('class', 'multilabel'):
            flat = first[5] or []
            ctx.eq(sorted(flat) if flat and not isinstance(flat[0], list) else flat,
                   [0, 1, 2] if task == 'class' else [0, 1], 'declared classes', 'first training call')
        ctx.check(all(e[6] is None for e in mine if e[1] == 'fit'), 'no invented weights')
    for e in log:                                     # order over all models
        if e[1] == 'fit':
            for i in e[2]:
                trained[i] = True
        else:
            bad = [i for i in e[2] if i in trained]
            ctx.check(not bad, 'predicted after training', lambda: 'model %d predicts %r after a model was trained on it' % (e[0], bad))
    ctx.check(ret is not None and list(ret) == models and all(a is b for a, b in zip(ret, models)), 'returned models')
    if n is not None:
        ctx.eq(stream.n_remaining_samples(), n if restart else max(n - pos, 0), 'stream position after the run')
    else:
        ctx.eq(stream.sample_idx, 0 if restart else pos, 'stream position after the run')
    ctx.state(c, len(log), len(consumed))
    ctx.sample({'config': c, 'calls': len(log), 'trained': len(consumed), 'predicted': len(scored)})
