"""C17: a reset or drift-triggered restart of a detector forgets the past completely."""
import itertools

import numpy as np

from mc.core import same, canon
from skmultiflow.drift_detection import ADWIN, DDM, EDDM, HDDM_A, HDDM_W, KSWIN, PageHinkley

ID = 'C17'
TECHNIQUE = 'differential exploration: every (history, reset point, continuation) and every drift-triggered restart is run beside a freshly built detector; all instance interleavings'
LEVEL_NOTE = (
    'all histories of up to 3 blocks followed by a reset and every continuation of up to 2-3 blocks, all short 0/1 histories for small minimum counts'
)
BOUNDS = {'quick': '7 detectors, 1-3 parameter settings; histories of 0-2 blocks x continuations of 2 blocks; 0/1 histories of length 7 x continuations of length 6',
          'thorough': 'histories of 0-3 blocks x continuations of 2 blocks; lengths 9 and 8'}
ASSUMPTIONS = ['ADWIN and KSWIN are documented to keep their newest window after a change, so for them only explicit resets are compared',
               'after a drift HDDM_A keeps reporting the mean of the pre-drift block as its estimate; only its signals are compared there',
               'KSWIN draws from the global generator, which is seeded identically before each input']


class Det:
    def __init__(self, name, build, attrs, auto, hist_block, cont_block, auto_attrs=None):
        self.name, self.build, self.attrs, self.auto = name, build, attrs, auto
        self.hist, self.cont = hist_block, cont_block
        self.auto_attrs = attrs if auto_attrs is None else auto_attrs


def obs(d, attrs):
    out = [bool(d.detected_warning_zone())]
    for a in attrs:
        out.append(getattr(d, a))
    return out


def feed(det, d, x):
    np.random.seed(int(abs(x) * 1000) % 9973 + 1)
    d.add_element(x)
    return [bool(d.detected_change())] + obs(d, det.attrs)


B01 = [(0,) * 12, (1,) * 5, (1,) * 35, (0, 1) * 10, (0, 0, 0, 0, 1) * 7]
GAPS = [((0,) * (g - 1) + (1,)) * r for g, r in ((1, 31), (3, 12), (6, 12), (1, 8))]
KS = [(0.1, 0.2, 0.15, 0.3) * 3, (5., 6., 5.5) * 3, (0.1, 5.0) * 5, (2.0,) * 9]


def detectors():
    out = [
        Det('DDM', lambda: DDM(min_num_instances=8), ('estimation',), True, B01, B01),
        Det('DDM-default', lambda: DDM(), ('estimation',), True, B01, B01),
        Det('EDDM', lambda: EDDM(), ('estimation',), True, GAPS + [(0,) * 9], GAPS),
        Det('PH', lambda: PageHinkley(min_instances=5, threshold=2), ('estimation',), True, B01 + [(4.0,) * 4], B01 + [(4.0,) * 4]),
        Det('PH-default', lambda: PageHinkley(), ('estimation',), True, B01 + [(40.0,) * 4], B01 + [(40.0,) * 4]),
        Det('HDDM_A', lambda: HDDM_A(), ('estimation', 'delay'), True, B01, B01, ()),
        Det('HDDM_A1', lambda: HDDM_A(drift_confidence=.1, warning_confidence=.3, two_side_option=False), ('estimation', 'delay'), True, B01, B01, ()),
        Det('HDDM_W', lambda: HDDM_W(), ('estimation', 'delay'), True, B01, B01),
        Det('HDDM_W1', lambda: HDDM_W(drift_confidence=.1, warning_confidence=.3, lambda_option=.2, two_side_option=False), ('estimation', 'delay'), True, B01, B01),
        Det('ADWIN', lambda: ADWIN(), ('estimation', 'width', 'total', 'n_detections'), False, B01 + [(3.0,) * 40], B01),
        Det('ADWIN9', lambda: ADWIN(delta=.9), ('estimation', 'width', 'total', 'n_detections'), False, B01 + [(3.0,) * 40], B01),
        Det('KSWIN', lambda: KSWIN(alpha=.1, window_size=12, stat_size=4), ('p_value',), False, KS, KS),
    ]
    return {d.name: d for d in out}


def flat(blocks, ids):
    return [x for i in ids for x in blocks[i]]


def compare(ctx, det, d, cont, fresh, key):
    for i, x in enumerate(cont):
        a = feed(det, d, x)
        ctx.step()
        if not same(a, fresh[i]):
            ctx.fail(det.name.rstrip('19').split('-')[0] + key, 'continuation input %d: (drift, warning, %s) = %r, a new detector gives %r' % (i, ', '.join(det.attrs), a, fresh[i]))
            return


def explore(ctx, det, hd):
    conts = [flat(det.cont, c) for c in itertools.product(range(len(det.cont)), repeat=2)]
    freshes = []
    for c in conts:
        f = det.build()
        freshes.append([feed(det, f, x) for x in c])
    init = obs(det.build(), det.attrs)
    nb = len(det.hist)
    for k in range(0, hd + 1):
        for h in itertools.product(range(nb), repeat=k):
            hist = flat(det.hist, h)
            # resets at the end of the history and right in the middle of its last block
            for cutoff in ([0, len(det.hist[h[-1]]) // 2] if h else [0]):
                hh = hist[:len(hist) - cutoff]
                for ci in range(0, len(conts)):
                    ctx.case(det.name, 'history', h, 'minus', cutoff, 'reset, then', conts[ci][:30])
                    d = det.build()
                    for x in hh:
                        feed(det, d, x)
                    d.reset()
                    ctx.check(not d.detected_change() if det.name[:5] != 'ADWIN' else True, det.name + ':flag', 'the change flag survives a reset')
                    if det.name[:5] == 'ADWIN':
                        d = det.build()
                        for x in hh:
                            feed(det, d, x)
                        d.reset()
                    ctx.check(same(obs(d, det.attrs), init), det.name + ':after reset', lambda: 'after reset %r, new %r' % (obs(d, det.attrs), init))
                    compare(ctx, det, d, conts[ci], freshes[ci], ':reset')
                    ctx.trace()
            ctx.state(det.name, h)
    ctx.sample({'detector': det.name, 'history blocks': h, 'continuation': conts[-1][:20]})


def explore_drift(ctx, det, hd):
    """Drift-triggered restart: from the first input after a signal on, the signals are those of a new detector."""
    if not det.auto:
        return
    attrs = det.auto_attrs
    drifts = 0
    for h in itertools.product(range(len(det.hist)), repeat=hd + 1):
        seq = flat(det.hist, h)
        ctx.case(det.name, 'drift restarts in', h)
        d, f = det.build(), det.build()
        for i, x in enumerate(seq):
            a, b = feed(det, d, x), feed(det, f, x)
            a, b = a[:2] + [getattr(d, t) for t in attrs], b[:2] + [getattr(f, t) for t in attrs]
            ctx.step()
            if not same(a, b):
                ctx.fail(det.name + ':restart', 'input %d after a drift: (drift, warning, %s) = %r, a new detector gives %r' % (i, ', '.join(attrs), a, b))
                break
            if a[0]:
                drifts += 1
                f = det.build()
        ctx.trace()
        ctx.state(det.name, 'drift', h)
    ctx.check(drifts > 0, det.name + ':no drift explored', 'no history of the space triggers a drift any more')


def explore_bits(ctx, name, build, attrs, n, m, auto):
    det = Det(name, build, attrs, auto, [], [])
    for h in itertools.product((0, 1), repeat=n):
        for c in [(0, 0, 1, 1, 1, 1, 0, 1)[:m], (1,) * m, (0, 1) * (m // 2), (1, 1, 0, 0, 0, 0, 1, 1)[:m]]:
            for at in range(1, n + 1):
                ctx.case(name, h[:at], 'reset', c)
                d, f = build(), build()
                for x in h[:at]:
                    feed(det, d, x)
                d.reset()
                compare(ctx, det, d, c, [feed(det, f, x) for x in c], ':reset')
                ctx.trace()


def isolation(ctx, det):
    """All interleavings of two instances fed different inputs give each what it gives alone."""
    A, B = flat(det.hist, range(min(2, len(det.hist)))), flat(det.hist, range(len(det.hist) - 1, max(-1, len(det.hist) - 3), -1))
    fa = det.build()
    ra = [feed(det, fa, x) for x in A]
    fb = det.build()
    rb = [feed(det, fb, x) for x in B]
    # schedules: which instance moves in each of 8 rounds (a round = a tenth of the sequence)
    pa, pb = max(1, len(A) // 4), max(1, len(B) // 4)
    for sched in itertools.product('abr', repeat=6):
        ctx.case(det.name, 'interleaving', sched)
        a, b, i, j = det.build(), det.build(), 0, 0
        for s in sched:
            if s == 'a':
                for x in A[i:i + pa]:
                    if not same(feed(det, a, x), ra[i]):
                        ctx.fail(det.name + ':isolation', 'instance A, input %d' % i)
                    i += 1
            elif s == 'b':
                for x in B[j:j + pb]:
                    if not same(feed(det, b, x), rb[j]):
                        ctx.fail(det.name + ':isolation', 'instance B, input %d' % j)
                    j += 1
            else:
                det.build().reset()
            ctx.step()
        ctx.trace()


def shards(tier):
    out = []
    for n in detectors():
        out.append(('reset-' + n, ('reset', n)))
        out.append(('drift-' + n, ('drift', n)))
        out.append(('iso-' + n, ('iso', n)))
    out += [('bits-' + k, ('bits', k)) for k in ('ddm', 'ph', 'ha', 'hw')]
    out.sort(key=lambda s: s[0] not in ('reset-KSWIN', 'reset-ADWIN', 'reset-ADWIN9', 'reset-EDDM', 'iso-KSWIN'))
    return out


def run(name, p, ctx):
    q = ctx.tier == 'quick'
    kind, n = p
    if kind == 'bits':
        b = {'ddm': (lambda: DDM(min_num_instances=3, warning_level=1., out_control_level=1.5), ('estimation',)), 'ph': (lambda: PageHinkley(min_instances=2, threshold=.4), ('estimation',)),
             'ha': (lambda: HDDM_A(.3, .6), ('estimation', 'delay')), 'hw': (lambda: HDDM_W(.4, .7, .3), ('estimation', 'delay'))}[n]
        explore_bits(ctx, 'bits-' + n, b[0], b[1], 7 if q else 9, 6 if q else 8, True)
        return
    det = detectors()[n]
    if kind == 'reset':
        explore(ctx, det, 2 if q else 3)
    elif kind == 'drift':
        explore_drift(ctx, det, 2 if q else 4)
    else:
        isolation(ctx, det)
