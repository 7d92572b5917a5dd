"""C16: the adaptive window always describes a suffix of its input."""
import itertools

from mc.core import same, chunk
from mc.driftref import ADWINRef
from skmultiflow.drift_detection import ADWIN

ID = 'C16'
TECHNIQUE = 'all block-structured input histories on the real ADWIN; suffix invariant checked after every input, cuts compared with a reference exponential-histogram model'
LEVEL_NOTE = (
    'all sequences of 3 (quick) / 4 (thorough) blocks from 12 block types, 3 confidences, clocks 1, 3 and 32, and all short 0/1 sequences; '
    'inputs outside the block alphabet are not covered'
)
BOUNDS = {'quick': 'sequences of 3 blocks out of 12 (length up to 200 inputs) x delta {.002,.3,.9} x clock {1,3,32}; all 0/1 sequences of length 13 after a run of 12 equal inputs with delta .9; '
                   'steady runs of 300-1600 inputs followed by all pairs of 5 blocks; constant inputs of length 4000',
          'thorough': '4 blocks; length 16'}
ASSUMPTIONS = ['detected_change() is called once after every input, as the library does', 'a split within 1e-9 of the bound may or may not cut']

BLOCKS = [(0,) * 8, (1,) * 8, (0,) * 20, (1,) * 20, (0, 1) * 10, (0, 0, 0, 1) * 8, (1, 1, 1, 0) * 8, (0.5,) * 12, (3.0,) * 6, (0,) * 64, (0.2, 0.25) * 20, (-2.0,) * 5]

# after a long steady run the histogram has many rows, and one check drops many buckets
LONG = (300, 700, 1600)
TAIL = [(1,) * 40, (.5,) * 40, (0, 1) * 20, (0,) * 40, (1,) * 150]

FIND = {(True, True): 'ADWIN: bucket variance and newest bucket of a row dropped',
        (True, False): 'ADWIN: bucket variance dropped on merge', (False, True): 'ADWIN: newest bucket of each row left out of the split search'}


class Tracker:
    """All model variants in parallel; the documented one must explain the trace, else a listed deviation."""

    def __init__(self, delta, clock):
        self.live = {v: ADWINRef(delta, clock, *v) for v in ((False, False), (True, False), (False, True), (True, True))}
        self.tied = False

    def step(self, x, obs):
        width, total, change, ndet, var = obs
        for v, r in list(self.live.items()):
            r.add(x)
            c = r.detect()
            if r.tie:
                self.tied = True
            if (c, r.width, r.ndet) != (change, width, ndet) or not same(r.total, total) or not same(r.m2 / r.width, var, 1e-7):
                del self.live[v]

    def verdict(self):
        if (False, False) in self.live or self.tied:
            return None
        for v in ((True, True), (True, False), (False, True)):
            if v in self.live:
                return FIND[v]
        return 'cut'


def drive(ctx, seq, delta, clock, constant=False):
    a = ADWIN(delta=delta)
    a.set_clock(clock)
    tr = Tracker(delta, clock)
    prev = 0
    for i, x in enumerate(seq):
        a.add_element(x)
        change = bool(a.detected_change())
        w, t = int(a.width), float(a.total)
        ctx.step()
        seen = seq[:i + 1]
        if not (0 < w <= i + 1) or not same(t, sum(seen[len(seen) - w:]), 1e-7) or not same(a.estimation, t / w, 1e-9):
            ctx.fail('suffix', 'after %d inputs: width %r total %r mean %r is not a suffix of %r' % (i + 1, w, t, a.estimation, list(seen)[-40:]))
            return
        if (w < prev + 1) != change:
            ctx.fail('shrink', 'width went from %d to %d with change=%r' % (prev, w, change))
            return
        if constant and change:
            ctx.fail('constant', 'change reported on a constant input of %d values %r' % (i + 1, x))
            return
        if bool(a.in_concept_change) != change:
            ctx.fail("flag", "in_concept_change is %r when detected_change() returned %r" % (a.in_concept_change, change))
            return
        if a.detected_warning_zone():
            ctx.fail('warning', 'a warning zone is reported')
            return
        prev = w
        tr.step(x, (w, t, change, a.n_detections, float(a.variance)))
        if not tr.live and not tr.tied:
            ctx.fail('cut', 'input %d of %r: width %d change %r variance %r is not what the documented bound on the bucket splits gives' % (i, list(seen)[-60:], w, change, a.variance))
            return
    v = tr.verdict()
    if v:
        ctx.fail(v, v)
    ctx.state(delta, clock, prev, round(t, 6), a.n_detections)
    ctx.trace()


def shards(tier):
    out = []
    for d in (.002, .3, .9):
        for c in (1, 3, 32):
            for b in range(len(BLOCKS)):
                out.append(('blocks-%g-%d-%d' % (d, c, b), ('blk', d, c, b, 3 if tier == 'quick' else 4)))
    for h in (0, 1):
        for f in itertools.product((0, 1), repeat=3):
            out.append(('bits-%d-%s' % (h, ''.join(map(str, f))), ('bits', h, f, 13 if tier == 'quick' else 16)))
    for d in (.002, .3, .9):
        for z in LONG if tier == 'quick' else LONG + (3000,):
            out.append(('long-%g-%d' % (d, z), ('long', d, z)))
    out.append(('const', ('const',)))
    out += [('const-%d' % i, ('constl', v)) for i, v in enumerate((.1, 1 / 3, 1e6 + .1, -3.3))]
    return out


def run(name, p, ctx):
    if p[0] == 'blk':
        _, d, c, b, depth = p
        for rest in itertools.product(range(len(BLOCKS)), repeat=depth - 1):
            ctx.case('blocks', d, c, (b,) + rest)
            drive(ctx, tuple(x for j in (b,) + rest for x in BLOCKS[j]), d, c)
        ctx.sample({'delta': d, 'clock': c, 'blocks': (b,) + rest})
    elif p[0] == 'bits':
        _, h, f, n = p
        for rest in itertools.product((0, 1), repeat=n - 3 if ctx.tier != 'quick' else n - 5):
            ctx.case('bits', h, f + rest)
            drive(ctx, (h,) * 12 + f + rest, .9, 1)
    elif p[0] == 'long':
        _, d, z = p
        for base in ((0,), (1, 0, 0)):
            for tail in itertools.product(TAIL, repeat=2):
                ctx.case('long', d, base, z, [(t[:2], len(t)) for t in tail])
                drive(ctx, (base * z)[:z] + tail[0] + tail[1], d, 32)
    elif p[0] == 'constl':
        for d in (.002, .9):
            ctx.case('constant', p[1], d)
            drive(ctx, (p[1],) * (4000 if ctx.tier == 'quick' else 20000), d, 32, constant=True)
    else:
        for v in (0, 1, 0.1, 1e-3, 7.25, -3.3, 1e6, 1 / 3):
            for d in (.002, .3, .9, 1.0):
                for c in (1, 32):
                    ctx.case('constant', v, d, c)
                    drive(ctx, (v,) * 300, d, c, constant=True)
