"""C20: a pipeline equals the composition of its steps."""
import itertools

import numpy as np

from mc.core import same, chunk, canon
from skmultiflow.core import Pipeline
from skmultiflow.transform import (MissingValuesCleaner, WindowedMinmaxScaler, WindowedStandardScaler,
                                   OneHotToCategorical)
from skmultiflow.lazy import KNNClassifier
from skmultiflow.bayes import NaiveBayes
from skmultiflow.trees import HoeffdingTreeRegressor

ID = 'C20'
TECHNIQUE = 'explicit enumeration of all pipelines over recording steps and all call sequences, compared with hand-composed steps'
LEVEL_NOTE = (
    'exhaustive over pipelines of up to 2 (quick) / 3 (thorough) transformers of every supported shape, 4 final-step shapes and all call sequences to depth 3'
)
BOUNDS = {'quick': 'up to 2 transformers of 6 shapes (incl. None) x 4 final steps x all call sequences of 6 calls to depth 3; '
                   'library transformers: all lists of up to 2 of 5 x 2 learners x all call sequences to depth 3',
          'thorough': 'up to 3 transformers to depth 3, up to 2 to depth 4; library transformers to depth 4'}
ASSUMPTIONS = ['a step without fit is fitted incrementally by fit()',
               'fitting a transformer and transforming with it in one call (partial_fit_transform) or two is equivalent, so only the data each step was '
               'fitted on and asked to transform is compared']


class T:
    """Recording transformer: stateful, non-commutative, so that a skipped, repeated or reordered step shows in the data."""

    def __init__(self, k):
        self.k, self.seen, self.log = k, 0, []

    def _fit(self, what, X, y, classes=None):
        self.seen += len(X)
        self.log.append((what, canon(X), canon(y), canon(classes)))

    def transform(self, X):
        self.log.append(('transform', canon(X)))
        return np.asarray(X) * (self.k + 2) + self.k + 10 * self.seen


class Sk(T):                       # scikit-learn like: everything, classes accepted
    def fit(self, X, y=None):
        self._fit('fit', X, y)
        return self

    def fit_transform(self, X, y=None):
        return self.fit(X, y).transform(X)

    def partial_fit(self, X, y=None, classes=None):
        self._fit('partial_fit', X, y, classes)
        return self

    def partial_fit_transform(self, X, y=None, classes=None):
        return self.partial_fit(X, y, classes).transform(X)


class FitOnly(T):                  # fit/partial_fit without the combined methods
    def fit(self, X, y=None):
        self._fit('fit', X, y)
        return self

    def partial_fit(self, X, y=None, classes=None):
        self._fit('partial_fit', X, y, classes)
        return self


class StreamT(T):                  # the library's StreamTransform interface: no fit, no classes
    def partial_fit(self, X, y=None):
        self._fit('partial_fit', X, y)
        return self

    def partial_fit_transform(self, X, y=None):
        return self.partial_fit(X, y).transform(X)


class StreamC(T):                  # like OneHotToCategorical: fit, classes
    def fit(self, X, y=None):
        self._fit('fit', X, y)
        return self

    def partial_fit(self, X, y=None, classes=None):
        self._fit('partial_fit', X, y, classes)
        return self

    def partial_fit_transform(self, X, y=None, classes=None):
        return self.partial_fit(X, y, classes).transform(X)


class NoClasses(T):
    def fit(self, X, y=None):
        self._fit('fit', X, y)
        return self

    def partial_fit(self, X, y=None):
        self._fit('partial_fit', X, y)
        return self


class E:
    def __init__(self):
        self.log, self.n = [], 0

    def fit(self, X, y):
        self.log.append(('fit', canon(X), canon(y)))
        self.n += len(X)
        return self

    def predict(self, X):
        self.log.append(('predict', canon(X)))
        return np.asarray(X).sum(axis=1) + 1000 * self.n


class EC(E):
    def partial_fit(self, X, y, classes=None, sample_weight=None):
        self.log.append(('partial_fit', canon(X), canon(y), canon(classes), canon(sample_weight)))
        self.n += len(X)
        return self


class ER(E):
    def partial_fit(self, X, y, sample_weight=None):
        self.log.append(('partial_fit', canon(X), canon(y), canon(sample_weight)))
        self.n += len(X)
        return self


class EP(EC):
    def partial_fit_predict(self, X, y):
        self.log.append(('pfp', canon(X), canon(y)))
        self.n += len(X)
        return self.predict(X)


SHAPES = [None, Sk, FitOnly, StreamT, StreamC, NoClasses]
FINALS = [EC, ER, EP]
CALLS = ['fit', 'pf', 'pfc', 'pf1', 'predict', 'pfp']
DATA = {'fit': ([[1., 2.], [3., 5.]], [0, 1]), 'pf': ([[2., 1.], [0., 4.]], [1, 0]), 'pfc': ([[7., 1.]], [1]),
        'pf1': ([[5., 3.]], [0]), 'predict': ([[1., 1.], [6., 2.], [0., 9.]], None), 'pfp': ([[4., 4.], [2., 8.]], [1, 1])}
CL = [0, 1]


def accepts(fn):
    import inspect
    return 'classes' in inspect.signature(fn).parameters


def by_hand(trs, est, call):
    X, y = DATA[call]
    X = np.array(X)
    y = None if y is None else np.array(y)
    classes = CL if call == 'pfc' else None
    for t in trs:
        if t is None:
            continue
        if call == 'fit' and hasattr(t, 'fit'):
            t.fit(X, y)
        elif call != 'predict':
            if accepts(t.partial_fit) and call != 'pfp':
                t.partial_fit(X, y, classes=classes)
            else:
                t.partial_fit(X, y)
        X = t.transform(X)
    if call == 'fit':
        est.fit(X, y)
    elif call == 'predict':
        return est.predict(X)
    elif call == 'pfp':
        if hasattr(est, 'partial_fit_predict'):
            return est.partial_fit_predict(X, y)
        est.partial_fit(X, y)
        return est.predict(X)
    elif accepts(est.partial_fit):
        est.partial_fit(X, y, classes=classes)
    else:
        est.partial_fit(X, y)


def by_pipe(pipe, call):
    X, y = DATA[call]
    X = np.array(X)
    y = None if y is None else np.array(y)
    keep = X.copy()
    if call == 'fit':
        out = pipe.fit(X, y)
    elif call == 'predict':
        out = pipe.predict(X)
    elif call == 'pfp':
        out = pipe.partial_fit_predict(X, y)
    elif call == 'pfc':
        out = pipe.partial_fit(X, y, classes=CL)
    else:
        out = pipe.partial_fit(X, y)
    return out, np.array_equal(keep, X)


def run_rec(ctx, shapes, fin, depth):
    for calls in itertools.product(CALLS, repeat=depth):
        ctx.case('recording', [s.__name__ if s else None for s in shapes], fin.__name__, calls)
        A = [s(i) if s else None for i, s in enumerate(shapes)]
        B = [s(i) if s else None for i, s in enumerate(shapes)]
        ea, eb = fin(), fin()
        pipe = Pipeline([('s%d' % i, t) for i, t in enumerate(A)] + [('last', ea)])
        ns = pipe.named_steps()
        ctx.check(set(ns) == {'s%d' % i for i in range(len(A))} | {'last'} and all(ns['s%d' % i] is t for i, t in enumerate(A))
                  and ns['last'] is ea, 'names', 'named_steps')
        for c in calls:
            got, untouched = by_pipe(pipe, c)
            want = by_hand(B, eb, c)
            ctx.step()
            if c in ('fit', 'pf', 'pfc', 'pf1'):
                ctx.check(got is pipe, 'self', '%s returns the pipeline' % c)
            else:
                ctx.eq(got, want, 'answer', c)
            ctx.check(untouched, 'input', 'the caller\'s data was changed')
        for i, (a, b) in enumerate(zip(A, B)):
            if a is not None:
                ctx.eq(a.log, b.log, 'step', 'calls seen by step %d' % i)
        ctx.eq(ea.log, eb.log, 'final', 'calls seen by the final estimator')
        ctx.state(shapes and [s and s.__name__ for s in shapes], fin.__name__, ea.log)
        ctx.trace()
    ctx.sample(ctx.cur)


LIB = {'onehot': lambda: OneHotToCategorical([[0, 1]]), 'clean': lambda: MissingValuesCleaner(-1., 'mean', 3),
       'std': lambda: WindowedStandardScaler(3), 'minmax': lambda: WindowedMinmaxScaler(2), 'none': lambda: None}
LEARN = {'knn': lambda: KNNClassifier(n_neighbors=1, max_window_size=5), 'nb': lambda: NaiveBayes()}
LDATA = [([[1., 0., 2.], [0., 1., -1.]], [0, 1]), ([[0., 1., 4.]], [1]), ([[1., 0., -1.], [0., 0., 3.], [0., 1., 0.]], [2, 0, 1])]
QUERY = [[1., 0., 1.], [0., 1., -1.], [0., 0., 5.]]


def run_lib(ctx, names, learner, depth):
    for calls in itertools.product(list(range(len(LDATA))) + ['q'], repeat=depth):
        ctx.case('library', names, learner, calls)
        A, B = [LIB[n]() for n in names], [LIB[n]() for n in names]
        ea, eb = LEARN[learner](), LEARN[learner]()
        pipe = Pipeline([('s%d' % i, t) for i, t in enumerate(A)] + [('last', ea)])

        def query():
            X = np.array(QUERY)
            got = pipe.predict(X)
            ctx.eq(X, QUERY, 'lib.input', 'predict changed the caller\'s data')
            Z = np.array(QUERY)
            for t in B:
                if t is not None:
                    Z = t.transform(Z)
            ctx.eq(got, eb.predict(Z), 'lib.predict', 'predictions')
            ctx.step()
        for c in calls:
            if c == 'q':
                query()
                continue
            X, y = np.array(LDATA[c][0]), np.array(LDATA[c][1])
            keep = X.copy()
            pipe.partial_fit(X, y, classes=[0, 1, 2])
            ctx.eq(X, keep, 'lib.input', 'partial_fit changed the caller\'s data')
            Z = keep.copy()
            for t in B:
                if t is not None:
                    Z = t.partial_fit_transform(Z, y)
            eb.partial_fit(Z, y, classes=[0, 1, 2])
            ctx.step()
        query()
        ctx.state(names, learner, calls)
        ctx.trace()
    ctx.sample(ctx.cur)


def shards(tier):
    q = tier == 'quick'
    out = []
    pipes = [s for n in range(3 if q else 4) for s in itertools.product(range(len(SHAPES)), repeat=n)]
    for i, part in enumerate(chunk([(s, f) for s in pipes for f in range(len(FINALS))], 16 if q else 64)):
        out.append(('rec-%d' % i, ('r', part, 3)))
    if not q:
        pipes = [s for n in range(3) for s in itertools.product(range(len(SHAPES)), repeat=n)]
        for i, part in enumerate(chunk([(s, f) for s in pipes for f in range(len(FINALS))], 16)):
            out.append(('rec4-%d' % i, ('r', part, 4)))
    libs = [s for n in range(3) for s in itertools.product(LIB, repeat=n) if s.count('onehot') < 2 and 'onehot' not in s[1:]]
    for i, part in enumerate(chunk([(s, l) for s in libs for l in LEARN], 16)):
        out.append(('lib-%d' % i, ('l', part, 3 if q else 4)))
    return out


def run(name, params, ctx):
    if params[0] == 'r':
        for s, f in params[1]:
            run_rec(ctx, [SHAPES[i] for i in s], FINALS[f], params[2])
    else:
        for s, l in params[1]:
            run_lib(ctx, s, l, params[2])
