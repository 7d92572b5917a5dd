"""Explorer core: shards, counters, violations, replay artefacts.

A property module defines
    ID                      property id
    shards(tier)            -> list of (name, params) : a partition of the bounded space
    run(shard, params, ctx) -> explores that part completely
and reports through `ctx`.  Shards run in forked processes; a shard that dies, raises or hangs is a
violation (the code under test is the only moving part).
"""
import hashlib
import itertools
import json
import os
import pickle
import select
import signal
import sys
import time
import traceback

import numpy as np

TOL = 1e-9


class StopShard(Exception):
    pass


class Ctx:
    MAX_FAILS = 3

    def __init__(self, prop, shard, tier, known=()):
        self.prop, self.shard, self.tier, self.known = prop, shard, tier, set(known)
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.cur = None
        self.t0 = time.time()

    # --- coverage
    def state(self, *key):
        """Record an observed state (canonical, hashable/pickleable key)."""
        self._states.add(h64((self.shard, key)))

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def sample(self, obj):
        if len(self.samples) < 2:
            self.samples.append(jsonable(obj))

    def case(self, *desc):
        self.cur = desc

    # --- verdicts
    def fail(self, key, msg, trace=None):
        rec = {'key': key, 'msg': str(msg)[:4000], 'trace': jsonable(self.cur if trace is None else trace)}
        if any(f['key'] == key for f in self.fails):
            return
        self.fails.append(rec)
        if len([f for f in self.fails if f['key'] not in self.known]) >= self.MAX_FAILS:
            raise StopShard()

    def check(self, cond, key, msg='', trace=None):
        if not cond:
            self.fail(key, msg() if callable(msg) else msg, trace)
        return bool(cond)

    def eq(self, got, want, key, what='', tol=TOL, trace=None):
        if not same(got, want, tol):
            self.fail(key, '%s: got %s, want %s' % (what, show(got), show(want)), trace)
            return False
        return True

    def raises(self, fn, key, what=''):
        try:
            fn()
        except Exception:
            return True
        self.fail(key, what + ': no error was raised')
        return False


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), 'big')


def show(x):
    s = repr(x)
    return s if len(s) < 600 else s[:600] + '...'


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set, frozenset)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
        return repr(x)
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    return repr(x)


def _num(x):
    return isinstance(x, (int, float, bool, np.number, np.bool_))


def same(a, b, tol=TOL):
    """Structural equality with a numeric tolerance; NaN equals NaN; 1 == 1.0 == np.int64(1)."""
    if a is None or b is None:
        return a is b
    if _num(a) and _num(b):
        fa, fb = float(a), float(b)
        if fa != fa or fb != fb:
            return fa != fa and fb != fb
        if fa in (float('inf'), float('-inf')) or fb in (float('inf'), float('-inf')):
            return fa == fb
        return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, np.ndarray):
        if a.ndim == 0:
            return same(a.item(), b, tol)
        if isinstance(b, np.ndarray):
            if a.shape != b.shape:
                return False
            if a.dtype.kind in 'iufb' and b.dtype.kind in 'iufb':
                if np.array_equal(a, b):
                    return True
        a = a.tolist()
    if isinstance(b, np.ndarray):
        if b.ndim == 0:
            return same(a, b.item(), tol)
        b = b.tolist()
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    return type(a) is type(b) and a == b or (isinstance(a, str) and a == b)


def canon(x, nd=9):
    """Canonical hashable form of an observation."""
    if isinstance(x, np.ndarray):
        return canon(x.tolist(), nd)
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, nd) for v in x)
    if isinstance(x, dict):
        return tuple(sorted(((str(k), canon(v, nd)) for k, v in x.items())))
    if _num(x):
        return round(float(x), nd)
    return x


# ---------------------------------------------------------------- enumerators

def histories(alphabet, depth, min_depth=0):
    """Every sequence over the alphabet with min_depth <= length <= depth, shortest first."""
    for n in range(min_depth, depth + 1):
        yield from itertools.product(alphabet, repeat=n)


def compositions(n, maxpart=None):
    """Every ordered partition of n (every way of cutting a sequence of n into batches)."""
    if n == 0:
        yield ()
        return
    for k in range(1, min(n, maxpart or n) + 1):
        for rest in compositions(n - k, maxpart):
            yield (k,) + rest


def chunk(seq, n):
    """Split a list into n interleaved parts (shard partition)."""
    seq = list(seq)
    return [seq[i::n] for i in range(n) if seq[i::n]]


# ---------------------------------------------------------------- scripted environment answers

class Divergence(Exception):
    pass


class Script:
    """Enumerates every answer sequence of an environment (RNG, ...) by replay.

    def body(choose): ... choose(n) -> 0..n-1 ...
    for choices in Script.explore(body): one complete execution each
    """

    @staticmethod
    def explore(body, max_runs=None, bound=None):
        """Runs body(choose) for every choice sequence; choice 0 is the default answer and `bound`
        limits the number of non-default answers per execution."""
        stack = [()]
        runs = 0
        while stack:
            prefix = stack.pop()
            pts = []

            def choose(n, _p=prefix, _pts=pts):
                i = len(_pts)
                c = _p[i] if i < len(_p) else 0
                if c >= n:
                    raise Divergence('choice %d of %d at point %d' % (c, n, i))
                _pts.append((c, n))
                return c
            yield body(choose), [c for c, _ in pts]
            runs += 1
            used = sum(1 for c in prefix if c)
            if bound is None or used < bound:
                for i in range(len(prefix), len(pts)):
                    for alt in range(1, pts[i][1]):
                        stack.append(tuple(c for c, _ in pts[:i]) + (alt,))
            if max_runs and runs >= max_runs:
                raise Divergence('more executions than the stated bound')


# ---------------------------------------------------------------- parallel driver

def _child(mod, name, params, tier, known, wfd):
    ctx = Ctx(mod.ID, name, tier, known)
    try:
        np.random.seed(12345)
        mod.run(name, params, ctx)
    except StopShard:
        pass
    except MemoryError:
        ctx.fails.append({'key': 'exception', 'msg': 'MemoryError', 'trace': jsonable(ctx.cur)})
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt,)):
            raise
        ctx.fails.append({'key': 'exception:%s' % type(e).__name__, 'trace': jsonable(ctx.cur),
                          'msg': traceback.format_exc()[-3500:]})
    out = {'name': name, 'states': ctx._states, 'transitions': ctx.transitions, 'traces': ctx.traces,
           'samples': ctx.samples, 'fails': ctx.fails, 'wall': time.time() - ctx.t0}
    data = pickle.dumps(out)
    off = 0
    while off < len(data):
        off += os.write(wfd, data[off:off + 65536])
    os.close(wfd)


def run_shards(mod, tier, shards, known, limit, jobs=None):
    jobs = jobs or min(8, os.cpu_count() or 1)
    pending = list(shards)
    live = {}
    results = []
    deadline = time.time() + limit
    failed = False
    while pending or live:
        while pending and len(live) < jobs and not failed:
            name, params = pending.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    for fd in live:
                        os.close(fd)
                    dn = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(dn, 1)
                    if not os.environ.get('MC_STDERR'):
                        os.dup2(dn, 2)
                    os.setpgid(0, 0)
                    _child(mod, name, params, tier, known, w)
                except BaseException:
                    code = 3
                finally:
                    os._exit(code)
            os.close(w)
            live[r] = (pid, name, bytearray(), time.time())
        if failed and pending:
            pending = []
        if not live:
            break
        ready, _, _ = select.select(list(live), [], [], 1.0)
        for fd in ready:
            pid, name, buf, t0 = live[fd]
            d = os.read(fd, 1 << 20)
            if d:
                buf.extend(d)
                continue
            os.close(fd)
            del live[fd]
            _, st = os.waitpid(pid, 0)
            try:
                res = pickle.loads(bytes(buf))
            except Exception:
                res = {'name': name, 'states': set(), 'transitions': 0, 'traces': 0, 'samples': [],
                       'wall': time.time() - t0,
                       'fails': [{'key': 'crash', 'trace': None,
                                  'msg': 'the exploring process died (status %r)' % st}]}
            results.append(res)
            if any(f['key'] not in known for f in res['fails']):
                failed = True
        if time.time() > deadline:
            for fd, (pid, name, buf, t0) in list(live.items()):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
                os.waitpid(pid, 0)
                os.close(fd)
                results.append({'name': name, 'states': set(), 'transitions': 0, 'traces': 0, 'samples': [],
                                'wall': time.time() - t0,
                                'fails': [{'key': 'hang', 'trace': None, 'msg':
                                           'no result after %.0f s (normally seconds): the code under test '
                                           'does not terminate or is drastically slower' % (time.time() - t0)}]})
            live = {}
            pending = []
    return results
