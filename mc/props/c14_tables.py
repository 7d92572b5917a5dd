"""C14: contingency tables count exactly what was added and not removed."""
import itertools

import numpy as np

from mc.core import same
from skmultiflow.utils.data_structures import ConfusionMatrix, MOLConfusionMatrix
from skmultiflow.metrics._confusion_matrix import ConfusionMatrix as NativeConfusionMatrix
from skmultiflow.metrics._confusion_matrix import MultiLabelConfusionMatrix

ID = 'C14'
TECHNIQUE = 'explicit enumeration of all update/remove/restart sequences on the real tables against a dictionary model'
LEVEL_NOTE = (
    'exhaustive over all operation sequences on 2-3 row tables growing up to 4 rows, to depth 4 (quick) / 5-6 (thorough)'
)
BOUNDS = {'quick': 'indices 0..3, initial sizes 0..3, depth 4', 'thorough': 'depth 5'}


def cm_ops():
    return [('u', i, j, w) for i, j, w in ((0, 0, 1), (0, 1, 1), (1, 0, 2), (1, 1, 1), (2, 0, 1), (0, 3, 1), (2, 2, 1))] + \
           [('r', i, j) for i, j in ((0, 0), (0, 1), (1, 0), (2, 0), (3, 3))] + [('restart', 2)]


def run_cm(ctx, n0, depth, first):
    for rest in itertools.product(cm_ops(), repeat=depth - 1):
        hist = (first,) + rest
        ctx.case('ConfusionMatrix', n0, hist)
        c = ConfusionMatrix(n0)
        size, m, cnt = n0, {}, 0
        for op in hist:
            if op[0] == 'u':
                ret = c.update(op[1], op[2], weight=op[3])
                size = max(size, op[1] + 1, op[2] + 1)
                m[op[1:3]] = m.get(op[1:3], 0) + op[3]
                cnt += 1
                ctx.check(ret is True, 'update result', repr(ret))
            elif op[0] == 'r':
                ret = c.remove(op[1], op[2])
                ok = op[1] < size and op[2] < size
                if ok:
                    m[op[1:3]] = m.get(op[1:3], 0) - 1
                    cnt -= 1
                ctx.check(bool(ret) == ok, 'remove result', 'remove%r on size %d returned %r' % (op[1:], size, ret))
            else:
                c.restart(op[1])
                size, m, cnt = op[1], {}, 0
            ctx.step()
            want = np.zeros((size, size))
            for k, v in m.items():
                want[k] = v
            ctx.check(np.shape(c.matrix) == (size, size) and same(np.asarray(c.matrix, float), want), 'table', lambda: 'got %r want %r' % (c.matrix, want))
        ctx.eq(c.sample_count, cnt, 'sample_count', 'sample_count')
        ctx.eq(c.get_sum_main_diagonal(), np.trace(want), 'diagonal', 'diagonal')
        for i in range(size):
            ctx.check(same(np.ravel(c.row(i)).tolist(), want[i].tolist()), 'row', 'row %d' % i)
            ctx.check(same(np.ravel(c.column(i)).tolist(), want[:, i].tolist()), 'column', 'column %d' % i)
        ctx.state('cm', n0, repr(sorted(m.items())), size)
        ctx.trace()
    ctx.sample({'initial size': n0, 'history': hist})


def mol_ops():
    return [('u', t, a, b, w) for t, a, b, w in ((0, 0, 0, 1), (0, 1, 0, 2), (1, 0, 1, 1), (1, 1, 1, 1), (2, 1, 1, 1), (0, 2, 0, 1), (1, 0, -1, 1))] + \
           [('r', t, a, b) for t, a, b in ((0, 0, 0), (0, 1, 0), (1, 1, 1), (2, 0, 0), (3, 0, 0), (0, 2, 0), (0, 0, 2))] + [('restart', 1)]


def run_mol(ctx, n0, depth, first):
    for rest in itertools.product(mol_ops(), repeat=depth - 1):
        hist = (first,) + rest
        ctx.case('MOLConfusionMatrix', n0, hist)
        c = MOLConfusionMatrix(n0)
        size, m = n0, {}
        for op in hist:
            if op[0] == 'u':
                ret = c.update(*op[1:])
                ok = op[2] in (0, 1) and op[3] in (0, 1) and op[1] <= size
                if ok:
                    size = max(size, op[1] + 1)
                    m[op[1:4]] = m.get(op[1:4], 0) + op[4]
                ctx.check(bool(ret) == ok, 'mol update result', repr(ret))
            elif op[0] == 'r':
                ret = c.remove(*op[1:])
                ok = op[1] < size and op[2] < 2 and op[3] < 2
                if ok:
                    m[op[1:4]] = m.get(op[1:4], 0) - 1
                ctx.check(bool(ret) == ok, 'mol remove result', 'remove%r on %d targets returned %r' % (op[1:], size, ret))
            else:
                c.restart(op[1])
                size, m = op[1], {}
            ctx.step()
            want = np.zeros((size, 2, 2))
            for k, v in m.items():
                want[k] = v
            ctx.check(np.shape(c.matrix) == want.shape and same(np.asarray(c.matrix, float), want), 'mol table', lambda: 'got %r want %r' % (c.matrix, want))
        diag = float(want[:, 0, 0].sum() + want[:, 1, 1].sum())
        ctx.eq(c.get_sum_main_diagonal(), diag, 'mol diagonal', 'diagonal')
        ctx.eq(c.get_total_sum(), float(want.sum()), 'mol total', 'total')
        ctx.eq(c.get_total_discordance(), float(want.sum()) - diag, 'mol discordance', 'discordance')
        ctx.state('mol', n0, repr(sorted(m.items())), size)
        ctx.trace()


def run_native(ctx, n0, depth):
    ops = [((a, b), w) for a, b in ((0, 0), (0, 1), (1, 1), (3, 0), (2, 2)) for w in (1.0, 2.5, -1.0)] + ['reset']
    for hist in itertools.product(ops, repeat=depth):
        ctx.case('native ConfusionMatrix', n0, hist)
        c = NativeConfusionMatrix(n_classes=n0)
        m, classes = {}, set(range(n0))
        for op in hist:
            if op == 'reset':
                c.reset()
                m, classes = {}, set(range(n0))
            else:
                c[op[0]] = op[1]
                m[op[0]] = m.get(op[0], 0.0) + op[1]
                classes |= set(op[0])
            ctx.step()
        ctx.eq(c.n_classes, len(classes), 'native n_classes', 'n_classes')
        ctx.eq(c.shape, (len(classes),) * 2, 'native shape', 'shape')
        for i in range(4):
            ctx.eq(c.sum_row[i], sum(v for k, v in m.items() if k[0] == i), 'native sum_row', 'sum_row[%d]' % i)
            ctx.eq(c.sum_col[i], sum(v for k, v in m.items() if k[1] == i), 'native sum_col', 'sum_col[%d]' % i)
            for j in range(4):
                ctx.eq(c[(i, j)], m.get((i, j), 0.0), 'native cell', 'cell %d,%d' % (i, j))
        ctx.eq(c.sum_diag, sum(v for k, v in m.items() if k[0] == k[1]), 'native diag', 'sum_diag')
        ctx.state('native', n0, repr(sorted(m.items())))
        ctx.trace()


def run_nativeml(ctx, n0, depth):
    ops = [((l, a, b), w) for l, a, b in ((0, 0, 0), (0, 1, 0), (1, 1, 1), (3, 0, 1), (2, 1, 1)) for w in (1.0, -2.0)] + ['reset', 'bad']
    for hist in itertools.product(ops, repeat=depth):
        ctx.case('native MultiLabelConfusionMatrix', n0, hist)
        c = MultiLabelConfusionMatrix(n_labels=n0)
        m, n = {}, n0
        for op in hist:
            if op == 'reset':
                c.reset()
                m, n = {}, n0
            elif op == 'bad':
                def f():
                    c[(0, 2, 0)] = 1.0
                ctx.raises(f, 'native ml bad value', 'a label value of 2')
            else:
                c[op[0]] = op[1]
                m[op[0]] = m.get(op[0], 0.0) + op[1]
                n = max(n, op[0][0] + 1)
            ctx.step()
            ctx.eq(c.n_labels, n, 'native ml n_labels', 'n_labels')
            ctx.eq(tuple(c.shape), (n, 2, 2), 'native ml shape', 'shape')
            want = np.zeros((n, 2, 2))
            for k, v in m.items():
                want[k] = v
            ctx.check(same(np.asarray(c.data), want), 'native ml table', lambda: 'got %r want %r' % (c.data, want))
        ctx.state('nativeml', n0, repr(sorted(m.items())), n)
        ctx.trace()


def shards(tier):
    d = 4 if tier == 'quick' else 5
    out = []
    for n0 in (0, 2, 3):
        for f in cm_ops():
            out.append(('cm', ('cm', n0, d, f)))
    for n0 in (0, 1, 2):
        for f in mol_ops():
            out.append(('mol', ('mol', n0, d - 1 if tier == 'quick' else d, f)))
    for n0 in (2, 3):
        out.append(('native', ('native', n0, 3)))
        out.append(('nativeml', ('nativeml', n0, 3)))
    return [('part-%02d' % i, out[i::32]) for i in range(32)]


def run(name, parts, ctx):
    for _, p in parts:
        {'cm': run_cm, 'mol': run_mol, 'native': run_native, 'nativeml': run_nativeml}[p[0]](ctx, *p[1:])
