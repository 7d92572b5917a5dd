"""C06: temporal records are delivered in time order, fully aligned; queued labels are released exactly when due."""
import itertools

import numpy as np
import pandas as pd

from mc.core import chunk, compositions
from skmultiflow.data import TemporalDataStream, TimeManager

ID = 'C06'
TECHNIQUE = 'exhaustive enumeration of arrival orders, delay assignments, containers and batch cuts on the real stream, and of all operation sequences on the real delayed-label queue, against a list model'
LEVEL_NOTE = (
    'every arrival order with ties of up to 4 (5) records, every delay kind and container, every batch cut; every queue '
    'operation sequence up to depth 4 (5) including equal availability times, with and without weights'
)
BOUNDS = {'quick': '3-4 records, times in 0..2 days; queue depth 4 over 9 operations', 'thorough': '5 records; queue depth 5'}
ASSUMPTIONS = ['records with equal time (or equal availability) may come in any order among themselves']
BASE = np.datetime64('2020-01-01')


def shards(tier):
    q = tier == 'quick'
    out = []
    cfgs = []
    for n in ((3, 4) if q else (3, 4, 5)):
        for times in itertools.product(range(3), repeat=n):
            for delay in ('int0', 'int2', 'td1', 'array', 'series'):
                for ordered in (True, False):
                    if ordered and list(times) != sorted(times):
                        continue
                    cfgs.append((n, times, delay, ordered))
    for i, p in enumerate(chunk(cfgs, 12)):
        out.append(('stream-%02d' % i, ('stream', p)))
    ops = queue_ops()
    for w in (False, True):
        for clock in ('int', 'date'):
            for a in range(len(ops)):
                out.append(('queue-%s-%s-%d' % (w, clock, a), ('queue', w, clock, a, 4 if q else 5)))
    return out


def run(name, p, ctx):
    if p[0] == 'stream':
        for c in p[1]:
            one_stream(c, ctx)
    else:
        run_queue(ctx, *p[1:])


def at(k):
    return BASE + np.timedelta64(int(k), 'D')


def one_stream(c, ctx):
    n, times, delay, ordered = c
    avail = [t + 1 + (i * 2) % 3 for i, t in enumerate(times)]
    variants = itertools.product(('ndarray', 'frame'), ('xy', 'table'), (None, 'ndarray', 'series'), ('ndarray', 'series', 'text'))
    for k, (box, layout, weights, tbox) in enumerate(variants):
        if delay == 'int0' and tbox == 'ndarray' and ordered:
            t = None
        else:
            t = np.array([at(x) for x in times])
            if tbox == 'series':
                t = pd.Series(t, index=range(10, 10 + n))
            elif tbox == 'text':
                t = pd.Series([str(x) for x in t])
        ctx.case('TemporalDataStream', dict(times=times, avail=avail, delay=delay, ordered=ordered, box=box, layout=layout,
                                            weights=weights, time_container=tbox))
        X = np.array([[i + 0.5, 100. - i] for i in range(n)])
        y = np.array([[i % 2] for i in range(n)])
        w = None if weights is None else np.array([1.0 + i for i in range(n)])
        if weights == 'series':
            w = pd.Series(w, index=range(5, 5 + n))
        d = {'int0': 0, 'int2': 2, 'td1': np.timedelta64(1, 'D'), 'array': np.array([at(a) for a in avail]),
             'series': pd.Series([at(a) for a in avail])}[delay]
        if layout == 'table':
            data, yy = np.hstack([X, y]), None
        else:
            data, yy = X, y
        if box == 'frame':
            data = pd.DataFrame(data)
            yy = None if yy is None else pd.DataFrame(yy)
        before = [None if v is None else np.array(v, copy=True) for v in (data, yy, t, w)]
        s = TemporalDataStream(data, yy, t, w, d, ordered=ordered)
        for v, b in zip((data, yy, t, w), before):
            ctx.check(v is None or np.array_equal(np.asarray(v), b), 'caller data unchanged')
        first = None
        for cut in compositions(n):
            got = []
            for b in cut + (2,):
                o = s.next_sample(b)
                ctx.step()
                ctx.eq(len(o), 5, 'arity')
                x_, y_, t_, a_, w_ = o
                for u, v in zip(o, s.last_sample()):
                    ctx.check((u is None and v is None) or np.array_equal(np.asarray(u), np.asarray(v)), 'last_sample')
                m = len(x_)
                ctx.check(len(y_) == m and len(t_) == m and len(a_) == m and (w_ is None or len(w_) == m), 'lengths')
                w_ = None if w_ is None else np.asarray(w_)
                for j in range(m):
                    got.append((x_[j][0], x_[j][1], y_[j], t_[j], a_[j], None if w_ is None else w_[j]))
            ids = [int(g[0] - 0.5) for g in got]
            ctx.check(sorted(ids) == list(range(n)), 'each record once', lambda: repr(ids))
            if ordered:
                ctx.eq(ids, list(range(n)), 'source order')
            else:
                ctx.check([times[i] for i in ids] == sorted(times), 'time order', lambda: repr((times, ids)))
            for pos, (i, g) in enumerate(zip(ids, got)):
                ctx.check(g[1] == 100. - i and g[2] == i % 2, 'features and target aligned', lambda: repr((i, g)))
                ctx.check(g[5] == (None if w is None else 1.0 + i), 'weight aligned', lambda: repr((i, g)))
                if delay[:3] == 'int':
                    ctx.check(int(g[3]) == pos and int(g[4]) == pos + int(delay[3:]), 'sample clock', lambda: repr((pos, g)))
                else:
                    ctx.check(np.datetime64(g[3], 'D') == at(times[i]), 'arrival time', lambda: repr((i, g)))
                    want = times[i] + 1 if delay == 'td1' else avail[i]
                    ctx.check(np.datetime64(g[4], 'D') == at(want), 'availability time', lambda: repr((i, g)))
            if first is None:
                first = ids
            ctx.eq(ids, first, 'same order for every cut')
            ctx.eq(s.n_remaining_samples(), 0, 'remaining')
            s.restart()
            ctx.trace()
        ctx.state(c, k, tuple(first))
    ctx.sample({'config': c})


def queue_ops():
    return [('put', (1,)), ('put', (3, 1)), ('put', (2, 2, 1)), ('put', (4, 4)), ('tick',), ('avail',), ('next', 1), ('next', 3)]


def run_queue(ctx, weighted, clock, first, depth):
    ops = queue_ops()
    mk = (lambda k: at(k)) if clock == 'date' else (lambda k: int(k))
    for rest in itertools.product(ops, repeat=depth - 1):
        hist = (ops[first],) + rest
        ctx.case('TimeManager', dict(weighted=weighted, clock=clock), hist)
        tm = TimeManager(mk(0))
        now, nid, queue, seen = 0, 0, [], []          # queue: (avail, id)
        for op in hist + (('tick',), ('tick',), ('avail',), ('next', 2), ('next', 50)):
            ctx.step()
            if op[0] == 'put':
                ids = list(range(nid, nid + len(op[1])))
                nid += len(ids)
                av = [now + d for d in op[1]]
                tm.update_queue(X=np.array([[i, i * 2.0] for i in ids]), y_true=np.array([i % 3 for i in ids]),
                                y_pred=np.array([[i % 2, i + 7] for i in ids]),
                                sample_weight=np.array([i + 0.5 for i in ids]) if weighted else None,
                                arrival_time=np.array([mk(now)] * len(ids)), available_time=np.array([mk(a) for a in av]))
                queue += list(zip(av, ids))
                continue
            if op[0] == 'tick':
                now += 1
                tm.update_timestamp(mk(now))
                continue
            if op[0] == 'avail':
                due = [q for q in queue if q[0] <= now]
                out = tm.get_available_samples()
                released = check_release(ctx, out, weighted)
                ctx.check(sorted(released) == sorted(i for _, i in due), 'released exactly the due labels',
                          lambda: 'at %d: %r, due %r' % (now, released, due))
            else:
                ctx.check(tm.has_more_samples() == bool(queue), 'has_more_samples')
                out = tm.next_sample(op[1])
                released = check_release(ctx, out, weighted)
                ctx.eq(len(released), min(op[1], len(queue)), 'number of samples')
                when = dict((i, a) for a, i in queue)
                got = sorted(when[i] for i in released if i in when)
                ctx.check(len(got) == len(released) and got == sorted(a for a, _ in queue)[:len(got)], 'earliest first',
                          lambda: 'released %r of %r' % (released, queue))
            when = dict((i, a) for a, i in queue)
            order = [when.get(i, -1) for i in released]
            ctx.check(order == sorted(order), 'order of availability', lambda: repr((released, queue)))
            ctx.check(not set(released) & set(seen), 'released twice')
            seen += released
            queue = [q for q in queue if q[1] not in released]
        ctx.check(not tm.has_more_samples() and sorted(seen) == list(range(nid)), 'nothing lost', lambda: repr((seen, nid)))
        ctx.trace()
        ctx.state(hist, weighted, clock, tuple(seen))
    ctx.sample({'first op': ops[first], 'depth': depth})


def check_release(ctx, out, weighted):
    X, y, p = out[0], out[1], out[2]
    ids = [int(r[0]) for r in X]
    for j, i in enumerate(ids):
        ctx.check(X[j][1] == i * 2.0 and y[j] == i % 3 and list(p[j]) == [i % 2, i + 7], 'released record aligned',
                  lambda: repr((X[j], y[j], p[j])))
        if weighted:
            ctx.check(out[3] is not None and len(out[3]) == len(ids) and out[3][j] == i + 0.5, 'released weight aligned',
                      lambda: repr((i, out[3])))
    ctx.check(len(y) == len(ids) and len(p) == len(ids), 'released lengths')
    if not weighted and ids:
        ctx.check(out[3] is None, 'no invented weights')
    return ids
