"""Recording stand-ins: base learners whose answers depend on everything they were trained with, and a
random generator whose draws are enumerated.  An ensemble that shows a member the wrong sample, a wrong
label, weight or class list, or shows it once too often, therefore answers differently."""
import hashlib

import numpy as np

from skmultiflow.core import BaseSKMObject, ClassifierMixin, RegressorMixin
from mc.genkit import ScriptedRandom


def num(x):
    return float(x)


def row(x):
    return tuple(float(v) for v in np.ravel(x))


class Rec(BaseSKMObject, ClassifierMixin):
    """A learner that only remembers a digest of its training history."""

    def __init__(self, tag=0):
        super().__init__()
        self.tag = tag
        self.forget()

    def forget(self):
        self.digest = b''
        self.n = 0

    def learn(self, *what):
        self.digest = hashlib.blake2b(self.digest + repr(what).encode(), digest_size=12).digest()
        self.n += 1

    def value(self, *q):
        h = hashlib.blake2b(self.digest + repr((self.tag,) + q).encode(), digest_size=6).digest()
        return int.from_bytes(h, 'big') / 2.0 ** 48

    def rows(self, X, y, classes, w):
        X = np.asarray(X, dtype=float)
        y = np.ravel(y)
        if w is not None and len(np.ravel(w)) != len(y):
            raise ValueError('weights do not match')
        for i in range(len(y)):
            self.learn(row(X[i]), num(y[i]), None if classes is None else row(classes), 1.0 if w is None else num(np.ravel(w)[i]))

    def reset(self):
        self.forget()
        return self

    def fit(self, X, y, classes=None, sample_weight=None):
        self.forget()
        self.rows(X, y, classes, sample_weight)
        return self

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        self.rows(X, y, classes, sample_weight)
        return self

    def predict(self, X):
        return np.array([self.value('y', row(x)) for x in np.asarray(X, dtype=float)])

    def predict_proba(self, X):
        p = np.array([self.value('p', row(x)) for x in np.asarray(X, dtype=float)])
        return np.column_stack([1 - p, p])


class RecPlain(Rec):
    """Takes neither classes nor weights."""

    def fit(self, X, y):
        return Rec.fit(self, X, y)

    def partial_fit(self, X, y):
        return Rec.partial_fit(self, X, y)


class RecLabel(RecPlain):
    """Answers with the more probable of the labels 0 and 1."""

    def predict(self, X):
        return (self.predict_proba(X)[:, 1] > 0.5).astype(int)


class RecClasses(Rec):
    """Takes classes, no weights."""

    def fit(self, X, y, classes=None):
        return Rec.fit(self, X, y, classes)

    def partial_fit(self, X, y, classes=None):
        return Rec.partial_fit(self, X, y, classes)


class RecReg(BaseSKMObject, RegressorMixin):
    """A recording regressor that takes weights only."""

    def __init__(self, tag=0):
        super().__init__()
        self.tag = tag
        self.rec = Rec(tag)

    def fit(self, X, y, sample_weight=None):
        self.rec.fit(X, y, None, sample_weight)
        return self

    def partial_fit(self, X, y, sample_weight=None):
        self.rec.partial_fit(X, y, None, sample_weight)
        return self

    def predict(self, X):
        return self.rec.predict(X)

    def predict_proba(self, X):
        raise NotImplementedError

    def reset(self):
        self.rec.forget()
        return self


class Order(ScriptedRandom):
    """Answers shuffle/permutation with a given permutation and choice(2, p) with scripted numbers."""

    def __init__(self, perm=(), script=()):
        super().__init__(script)
        self.perm = list(perm)

    def shuffle(self, x):
        x[:] = np.asarray(x)[self.perm]

    def permutation(self, x):
        x = np.arange(x) if np.isscalar(x) else np.array(x)
        return x[self.perm]

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.isscalar(a) else np.asarray(a)

        def one():
            c = np.cumsum(np.ones(len(a)) / len(a) if p is None else p)
            v = a[min(int(np.searchsorted(c, self._rand1() * c[-1], side='right')), len(a) - 1)]
            self.log.append(('choice', int(v)))
            return v
        return self._many(one, size)

    def __reduce__(self):
        return (Order, (self.perm, self.script))


class Draws(Order):
    """Poisson draws by their quantile, from the same script; logged as (kind, value, rate)."""

    def poisson(self, lam=1.0, size=None):
        def one():
            u, k = self._u(), 0
            p = c = float(np.exp(-lam))
            while u > c and k < 50:
                k += 1
                p *= lam / k
                c += p
            self.log.append(('poisson', k, float(lam)))
            return k
        return self._many(one, size)

    def __reduce__(self):
        return (Draws, (self.script,))

    def __init__(self, script=()):
        super().__init__((), script)
