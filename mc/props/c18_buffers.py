"""C18: bounded buffers keep exactly the newest items."""
import itertools

import numpy as np

from mc.core import same, chunk
from skmultiflow.utils import FastBuffer, FastComplexBuffer, SlidingWindow
from skmultiflow.evaluation.evaluation_data_buffer import EvaluationDataBuffer

ID = 'C18'
TECHNIQUE = 'explicit enumeration of all operation sequences on the real buffers against a list model'
LEVEL_NOTE = (
    'exhaustive over capacities 1-4 and all operation sequences to depth 5-6 (quick) / 7-8 (thorough); larger capacities not covered'
)
BOUNDS = {'quick': 'capacities 1..4, depth 6 (sliding window 6, FIFO 5 with bulk inserts of 1-3 items, evaluation buffer 5)',
          'thorough': 'capacities 1..5, depth 8 / 7 / 6'}
ASSUMPTIONS = ['the sliding window\'s documentation does not promise an internal order, so its content is compared as a set of (x, y) pairs; '
               'which sample is the oldest is observed through removal']


def item(n):
    return float(n) + 0.25


def run_fifo(ctx, cap, depth, first, init):
    OPS = ['a1', 'a2', 'a3', 'n1', 'pop', 'clear']
    for rest in itertools.product(OPS, repeat=depth - 1):
        hist = (first,) + rest
        ctx.case('FastBuffer', cap, init, hist)
        n = init
        b = FastBuffer(cap, [item(i) for i in range(init)]) if init else FastBuffer(cap)
        m = [item(i) for i in range(init)][-cap:] if init else []
        for op in hist:
            if op[0] in 'an' :
                k = int(op[1])
                new = [item(n + i) for i in range(k)]
                n += k
                got = b.add_element(np.array(new) if op[0] == 'n' else new)
                m += new
                out, m = m[:max(0, len(m) - cap)], m[-cap:]
                ctx.check((got is None or len(got) == 0) if not out else same(list(got), out), 'evicted', 'evicted %r want %r' % (got, out))
            elif op == 'pop':
                got = b.get_next_element()
                want = m.pop(0) if m else None
                ctx.eq(got, want, 'pop', 'get_next_element')
            else:
                b.clear_queue()
                m = []
            ctx.step()
            ctx.eq(list(b.get_queue()), m, 'content', 'queue')
            ctx.eq(b.get_current_size(), len(m), 'size', 'size')
            ctx.eq(b.peek(), m[0] if m else None, 'peek', 'peek')
            ctx.check(b.is_full() == (len(m) == cap) and b.is_empty() == (not m), 'full/empty', 'flags')
        ctx.state('fifo', cap, tuple(m))
        ctx.trace()
    ctx.sample({'FastBuffer': cap, 'history': hist})


def run_complex(ctx, cap, depth, first):
    OPS = ['r', 'l', 'm1', 'm2', 'm3', 'll1', 'll2', 'pop', 'clear']
    for rest in itertools.product(OPS, repeat=depth - 1):
        hist = (first,) + rest
        ctx.case('FastComplexBuffer', cap, hist)
        b, m, n = FastComplexBuffer(cap, 2), [], 0
        for op in hist:
            if op in ('pop', 'clear'):
                if op == 'pop':
                    ctx.eq(b.get_next_element(), m.pop(0) if m else None, 'c.pop', 'get_next_element')
                else:
                    b.clear_queue()
                    m = []
            else:
                k = int(op[-1]) if op[-1].isdigit() else 1
                new = [[item(n + i), -item(n + i)] for i in range(k)]
                n += k
                arg = {'r': lambda: np.array(new[0]), 'l': lambda: list(new[0]), 'm': lambda: np.array(new),
                       'll': lambda: [list(v) for v in new]}[op.rstrip('123')]()
                got = b.add_element(arg)
                m += new
                out, m = m[:max(0, len(m) - cap)], m[-cap:]
                ctx.check((got is None or len(got) == 0) if not out else same(list(got), out), 'c.evicted', 'evicted %r want %r' % (got, out))
            ctx.step()
            ctx.eq([list(v) for v in b.get_queue()], m, 'c.content', 'queue')
            ctx.eq(b.get_current_size(), len(m), 'c.size', 'size')
            ctx.eq(b.peek(), m[0] if m else None, 'c.peek', 'peek')
            ctx.check(b.is_full() == (len(m) == cap) and b.is_empty() == (not m), 'c.full/empty', 'flags')
        ctx.state('complex', cap, repr(m))
        ctx.trace()


def rows(w):
    if w.size == 0:
        return []
    X, y = np.asarray(w.features_buffer), np.asarray(w.targets_buffer)
    if len(X) != w.size or len(y) != w.size:
        return 'size %r but %d feature rows and %d target rows' % (w.size, len(X), len(y))
    return sorted((tuple(map(float, a)), tuple(map(float, np.ravel(b)))) for a, b in zip(X, y))


def run_window(ctx, cap, depth, first, nt):
    OPS = ['add', 'add2d', 'del', 'reset', 'bad']
    for rest in itertools.product(OPS, repeat=depth - 1):
        hist = (first,) + rest
        ctx.case('SlidingWindow', cap, nt, hist)
        w, m, n = SlidingWindow(window_size=cap), [], 0
        for op in hist:
            if op in ('add', 'add2d'):
                x, y = [item(n), n * 10.0], [-float(n)] * nt
                n += 1
                if nt > 1:
                    y[1] = n * 100.0
                if op == 'add':
                    w.add_sample(np.array(x), np.array(y) if nt > 1 else y[0])
                else:
                    w.add_sample(np.array([x]), np.array([y]))
                m.append((tuple(x), tuple(y)))
                m = m[-cap:]
            elif op == 'del':
                w.delete_oldest_sample()
                m = m[1:]
            elif op == 'reset':
                w.reset()
                m = []
            elif m:
                # wrong number of features: refused, nothing changes
                ctx.raises(lambda: w.add_sample(np.array([1., 2., 3.]), np.array([0.] * nt)), 'bad width', 'adding a row of another width')
            ctx.step()
            ctx.eq(w.size, len(m), 'w.size', 'size')
            got = rows(w)
            ctx.check(got == sorted(m), 'w.content', lambda: 'window %r want %r' % (got, m))
        ctx.state('window', cap, nt, tuple(m))
        ctx.trace()
    ctx.sample({'SlidingWindow': cap, 'history': hist})


def run_eval(ctx, depth):
    spec = {'acc': ['mean', 'cur'], 'k': ['mean']}
    cells = [('acc', 'mean'), ('acc', 'cur'), ('k', 'mean')]
    OPS = [(d, c) for d in (0, 1) for c in cells]
    for hist in itertools.product(OPS, repeat=depth):
        ctx.case('EvaluationDataBuffer', hist)
        b, sid, m = EvaluationDataBuffer(data_dict=dict(spec)), 10, {}
        cur = None
        for n, (d, c) in enumerate(hist):
            sid += d
            if sid != cur:
                m, cur = {}, sid
            b.update_data(sid, c[0], c[1], n)
            m[c] = n
            ctx.step()
            for cc in cells:
                ctx.eq(b.get_data(*cc), m.get(cc), 'eval buffer', 'value of %s' % (cc,))
        ctx.state('eval', sid, repr(sorted(m.items())))
        ctx.trace()


def shards(tier):
    q = tier == 'quick'
    out = []
    for cap in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for f in ('a1', 'a2', 'a3', 'n1', 'pop', 'clear'):
            for init in (0, 2, 3):
                out.append(('fifo', ('fifo', cap, (5 if init == 0 else 4) + (0 if q else 1), f, init)))
        for f in ('r', 'l', 'm1', 'm2', 'm3', 'll1', 'll2', 'pop'):
            out.append(('complex', ('complex', cap, 4 if q else 5, f)))
        for f in ('add', 'add2d'):
            for nt in (1, 2):
                out.append(('window', ('window', cap, 6 if q else 8, f, nt)))
    out.append(('eval', ('eval', 4 if q else 6)))
    return [('part-%02d' % i, out[i::32]) for i in range(32)]


def run(name, parts, ctx):
    for _, p in parts:
        {'fifo': run_fifo, 'complex': run_complex, 'window': run_window, 'eval': run_eval}[p[0]](ctx, *p[1:])
