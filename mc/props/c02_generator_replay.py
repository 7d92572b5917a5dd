"""C02: a seeded generator replays one fixed sequence."""
import itertools

import numpy as np

from mc.core import same, canon, compositions, chunk
from mc.genkit import configs, FINITE

ID = 'C02'
TECHNIQUE = 'explicit enumeration of every batch cut, restart point, metadata call and instance interleaving on the real generators'
LEVEL_NOTE = (
    'every generator class and option, 2 (quick) / 4 (thorough) seeds; all cuts of the first 6 / 8 samples, restarts after every prefix, all '
    'two-instance interleavings; the space of seeds itself is not exhausted'
)
BOUNDS = {'quick': '2 seeds per configuration, prefix length 6, all 32 batch cuts x every restart point, all operation sequences of '
                   'length 4 over {next 1, next 2, restart, metadata, other instance, global RNG}',
          'thorough': '4 seeds, prefix length 8, operation sequences of length 6'}
ASSUMPTIONS = ['integer seeds (a shared RandomState object is by documentation shared)',
               'a concept switch by generate_drift is a change of configuration, so it is not part of the histories of this property']


def rows(X, y):
    if X is None:
        return []
    X, y = np.asarray(X), np.asarray(y)
    if len(X) != len(y):
        return 'X has %d rows, y has %d' % (len(X), len(y))
    return [(tuple(a.tolist()), tuple(np.ravel(b).tolist())) for a, b in zip(X, y)]


def meta(g, want_last):
    g.get_data_info()
    g.n_remaining_samples()
    g.has_more_samples()
    g.is_restartable()
    g.get_info()
    g.feature_names, g.target_names, g.target_values, g.n_features, g.n_targets
    X, y = g.last_sample()
    got = rows(X, y)
    return got == want_last


def explore(name, build, ctx, n, depth):
    base = name.split('/')[0]
    finite = base in FINITE
    N = 9 if finite else None
    total = 9 if finite else n + 14
    # the reference sequence: one at a time from a fresh instance
    g = build()
    ref = []
    for _ in range(total):
        ref += rows(*g.next_sample())
    ctx.check(len(ref) == total, base + ':length', 'one-at-a-time reading gave %d of %d rows' % (len(ref), total))
    if finite:
        ctx.check(not g.has_more_samples() and g.n_remaining_samples() == 0, base + ':end', 'all %d samples delivered, yet has_more=%r remaining=%r'
                  % (N, g.has_more_samples(), g.n_remaining_samples()))
        ctx.check(len(rows(*g.next_sample(2))) == 0, base + ':end', 'samples after the end')
        g.restart()
        ctx.check(rows(*g.next_sample(N + 2)) == ref, base + ':end', 'a batch larger than the stream is not the whole stream')
        ctx.check(g.n_remaining_samples() == 0 and not g.has_more_samples(), base + ':end', 'remaining after reading past the end: %r' % g.n_remaining_samples())
    other_build = build
    # every cut x restart point
    cuts = list(compositions(n))
    for cut in cuts:
        for cutat in range(len(cut) + 1):
            ctx.case(name, 'cut', cut, 'restart after batch', cutat)
            g = build()
            pos = 0
            for k in cut[:cutat]:
                got = rows(*g.next_sample(k))
                ctx.check(got == ref[pos:pos + k], base + ':cut', lambda: 'batch at %d of size %d: %r want %r' % (pos, k, got, ref[pos:pos + k]))
                pos += k
                ctx.step()
            g.restart()
            pos = 0
            for k in reversed(cut):
                got = rows(*g.next_sample(k))
                ctx.check(got == ref[pos:pos + k], base + ':restart', lambda: 'after a restart, batch at %d of size %d: %r want %r' % (pos, k, got, ref[pos:pos + k]))
                pos += k
                ctx.step()
            ctx.trace()
        ctx.state(name, cut)
    # long batches
    if not finite:
        g = build()
        one = []
        for _ in range(60):
            one += rows(*g.next_sample())
        for cut in ((60,), (30, 30), (59, 1), (1, 59), (17, 43), (50, 10)):
            ctx.case(name, 'long', cut)
            g = build()
            got = []
            for k in cut:
                got += rows(*g.next_sample(k))
            g.restart()
            again = rows(*g.next_sample(60))
            ctx.check(got == one and again == one, base + ':long', 'a long batch differs from one-at-a-time reading (cut %r)' % (cut,))
            ctx.trace()
            ctx.step(3)
    # concept switch: the same switch at the same position gives the same continuation in every cut
    if hasattr(build(), 'generate_drift'):
        for at in range(0, 4):
            want = None
            for cut in compositions(4):
                ctx.case(name, 'drift at', at, 'cut', cut)
                g = build()
                pre = rows(*g.next_sample(at)) if at else []
                g.generate_drift()
                got = []
                for k in cut:
                    got += rows(*g.next_sample(k))
                ctx.check(pre == ref[:at], base + ':drift', 'samples before the switch changed')
                want = got if want is None else want
                ctx.check(got == want, base + ':drift', lambda: 'after the switch at %d, cut %r gives %r want %r' % (at, cut, got, want))
                ctx.trace()
                ctx.step(len(cut) + 1)
    # all short operation sequences, with a second instance, metadata reads and global-RNG use in between
    OPS = ['1', '2', 'R', 'M', 'O', 'G']
    for hist in itertools.product(OPS, repeat=depth):
        ctx.case(name, 'ops', hist)
        g, o = build(), other_build()
        pos = opos = 0
        last = []
        for op in hist:
            if op in '12':
                k = int(op)
                last = rows(*g.next_sample(k))
                ctx.check(last == ref[pos:pos + k], base + ':ops', lambda: 'batch at %d of size %d: %r want %r' % (pos, k, last, ref[pos:pos + k]))
                pos += k
            elif op == 'R':
                g.restart()
                pos, last = 0, []
            elif op == 'M':
                ctx.check(meta(g, last), base + ':last', lambda: 'last_sample() %r is not the last batch %r' % (rows(*g.last_sample()), last))
            elif op == 'O':
                got = rows(*o.next_sample())
                ctx.check(got == ref[opos:opos + 1], base + ':second instance', lambda: 'a second identical instance at %d: %r want %r' % (opos, got, ref[opos:opos + 1]))
                opos += 1
                if opos == 2:
                    build()         # yet another instance is created
            else:
                np.random.seed(pos + 77)
                np.random.rand(3)
            if finite:
                ctx.check(g.n_remaining_samples() == N - pos and g.has_more_samples() == (pos < N), base + ':remaining',
                          lambda: 'remaining %r has_more %r at position %d of %d' % (g.n_remaining_samples(), g.has_more_samples(), pos, N))
            else:
                ctx.check(g.n_remaining_samples() == -1 and g.has_more_samples(), base + ':remaining', 'an infinite stream reports an end')
            ctx.step()
        ctx.trace()
        ctx.state(name, 'ops', pos, opos)
    ctx.sample({'configuration': name, 'history': hist, 'first sample': ref[0]})


def different(name, build, ctx, cfg):
    """Creating and using instances of every *other* configuration in between changes nothing either."""
    base = name.split('/')[0]
    g = build()
    ref = []
    for _ in range(4):
        ref += rows(*g.next_sample())
    for oname, obuild in cfg:
        ctx.case(name, 'isolated from', oname)
        g = build()
        got = rows(*g.next_sample())
        o = obuild()
        got += rows(*g.next_sample())
        o.next_sample(2)
        got += rows(*g.next_sample())
        o.restart()
        got += rows(*g.next_sample())
        ctx.check(got == ref, base + ':isolation', lambda: 'with %s in use in between: %r want %r' % (oname, got, ref))
        ctx.trace()
        ctx.step(7)


def shards(tier):
    names = [n for n, _ in configs(tier)]
    return [('part-%02d' % i, p) for i, p in enumerate(chunk(names, 32))]


def run(name, parts, ctx):
    cfg = configs(ctx.tier)
    table = dict(cfg)
    q = ctx.tier == 'quick'
    first = [c for c in cfg if c[0].endswith('seed1')]
    for nm in parts:
        slow = nm.startswith(('tree', 'waveform', 'concept', 'agrawal'))
        explore(nm, table[nm], ctx, 6 if q else 7, 4 if q else 5)
        different(nm, table[nm], ctx, first)
