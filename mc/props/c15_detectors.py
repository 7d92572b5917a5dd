"""C15: drift detectors signal exactly when their documented test says so."""
import itertools

from mc.core import chunk
from mc.driftref import DDMRef, EDDMRef, HDDMARef, HDDMWRef, PageHinkleyRef, explain
from skmultiflow.drift_detection import DDM, EDDM, HDDM_A, HDDM_W, PageHinkley

ID = 'C15'
TECHNIQUE = 'explicit-state reference model of each test; every implementation trace over all bounded input sequences must be a trace of the model'
LEVEL_NOTE = (
    'all input sequences over a small alphabet to the stated depth for small minimum counts, plus all block-structured histories for the '
    'default parameters; comparisons within 1e-10 of a threshold may go either way'
)
BOUNDS = {'quick': 'DDM: all 0/1 sequences of length 14; Page-Hinkley: all length-8 sequences over 4 values; HDDM-A: length 14; HDDM-W: length 9 over 3 values; EDDM and '
                   'defaults: all sequences of 4 blocks (6-8 block types); 3-6 parameter settings each',
          'thorough': 'depths 16 / 9 / 16 / 11 / 5 blocks'}
ASSUMPTIONS = ['HDDM inputs lie in [0,1]', 'minimum counts as implemented: the test is applied from the (min-1)-th input on',
               'EDDM keeps its warning flag between errors (it is re-judged at each error)']


def drive(ctx, key, det, ref, seq, alt=None, altkey=None, obs=None):
    """Feed seq; the observed flags must be explained by the model.  `alt` explains a known deviation."""
    states, astates = [ref.init()], ([alt.init()] if alt else None)
    for i, x in enumerate(seq):
        det.add_element(x)
        w, d = bool(det.detected_warning_zone()), bool(det.detected_change())
        if states:
            states = explain(ref, states, x, w, d)
        if astates:
            astates = explain(alt, astates, x, w, d)
        ctx.step()
        if not states:
            if astates:
                ctx.fail(altkey[0], altkey[1], [key, list(seq[:i + 1])])
                continue
            ctx.fail(key, 'input %d (%r) of %r: warning=%r drift=%r, which the documented test excludes' % (i, x, list(seq[:i + 1]), w, d), [key, list(seq[:i + 1])])
            return
    st = (states or astates)[0]
    ctx.state(key, tuple(round(v, 6) if isinstance(v, float) else repr(v) for v in st))


MK = {'DDM': (DDM, DDMRef), 'EDDM': (EDDM, EDDMRef), 'PH': (PageHinkley, PageHinkleyRef), 'HA': (HDDM_A, HDDMARef), 'HW': (HDDM_W, HDDMWRef)}

TWO = ('HDDM_W: two-sided decrement never detected',
       'HDDM_W(two_side_option=True) never notices a decreasing mean: the decrement cut point starts at +inf')


def one(ctx, kind, kw, seq):
    cls, rcls = MK[kind]
    ctx.case(kind, kw, seq)
    alt = HDDMWRef(decr='off', **kw) if kind == 'HW' else None
    drive(ctx, kind, cls(**kw), rcls(**kw), seq, alt, TWO if alt else None)
    ctx.trace()


EXH = {
    'DDM': ([dict(min_num_instances=m, warning_level=w, out_control_level=o) for m, w, o in ((1, 2.0, 3.0), (4, 1.0, 2.0), (5, 2.0, 3.0), (3, .5, .5), (9, 1.5, 2.5))], (0, 1), 14, 16),
    'PH': ([dict(min_instances=m, delta=d, threshold=t, alpha=a) for m, d, t, a in ((1, .005, .5, .9999), (3, 0.1, 1.0, .9), (4, 0.0, 2.0, 1.0), (6, .005, 0.3, .5))], (0.0, 0.5, 1.0, 4.0), 8, 9),
    'HA': ([dict(drift_confidence=d, warning_confidence=w, two_side_option=t) for d, w in ((.05, .2), (.3, .6), (.001, .005)) for t in (True, False)], (0, 1), 14, 16),
    'HW': ([dict(drift_confidence=d, warning_confidence=w, lambda_option=l, two_side_option=t) for d, w, l in ((.3, .6, .3), (.6, .9, .05), (.5, .8, .7)) for t in (True, False)], (0, 0.5, 1), 9, 11),
}

BLOCKS = {
    'DDM': ([{}, dict(min_num_instances=10)], [(0,) * 12, (1,) * 3, (1,) * 12, (0, 1) * 10, (0, 0, 0, 0, 1) * 6, (0,) * 40, (0, 0, 0, 1) * 3]),
    'EDDM': ([{}], [((0,) * (g - 1) + (1,)) * r for g, r in ((1, 8), (1, 30), (2, 12), (3, 31), (6, 12), (12, 6), (4, 3))] + [(0,) * 15]),
    'PH': ([{}, dict(min_instances=10, threshold=3)], [(0.0,) * 10, (1.0,) * 6, (5.0,) * 8, (0.0, 1.0) * 8, (30.0,) * 2, (-4.0,) * 3]),
    'HA': ([{}, dict(two_side_option=False)], [(0,) * 15, (1,) * 15, (0, 1) * 10, (0, 0, 0, 1) * 6, (1, 1, 1, 0) * 6, (1,) * 4]),
    'HW': ([{}, dict(two_side_option=False), dict(lambda_option=.2)], [(0,) * 15, (1,) * 15, (0, 1) * 10, (0, 0, 0, 1) * 6, (1, 1, 1, 0) * 6, (1,) * 4]),
}


def shards(tier):
    q = tier == 'quick'
    out = []
    for kind, (cfgs, alpha, dq, dt) in EXH.items():
        depth = dq if q else dt
        for i, kw in enumerate(cfgs):
            for first in alpha:
                out.append(('%s-%d-%s' % (kind, i, first), ('exh', kind, kw, alpha, depth, first)))
    for kind, (cfgs, blocks) in BLOCKS.items():
        for i, kw in enumerate(cfgs):
            for b in range(len(blocks)):
                out.append(('%s-blocks-%d-%d' % (kind, i, b), ('blk', kind, kw, b, 4 if q else 5)))
    out.sort(key=lambda s: s[1][0] != 'blk' or s[1][1] != 'EDDM')
    return out


def run(name, p, ctx):
    if p[0] == 'exh':
        _, kind, kw, alpha, depth, first = p
        for rest in itertools.product(alpha, repeat=depth - 1):
            one(ctx, kind, kw, (first,) + rest)
        ctx.sample({'detector': kind, 'parameters': kw, 'inputs': (first,) + rest})
    else:
        _, kind, kw, b, depth = p
        blocks = BLOCKS[kind][1]
        for rest in itertools.product(range(len(blocks)), repeat=depth - 1):
            one(ctx, kind, kw, tuple(x for j in (b,) + rest for x in blocks[j]))
