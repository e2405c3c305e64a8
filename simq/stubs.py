"""Instrumented deterministic collaborators: estimators, regressors, distances, random generator.

They are stand-ins for user supplied objects; every call into them is a fault point and is recorded.
"""
import hashlib
import warnings

import numpy as np
from sklearn.base import BaseEstimator, ClassifierMixin, RegressorMixin
from sklearn.exceptions import NotFittedError

from simq import core

#  what happened to the estimators of this run: list of [uid, event, detail]
EVENTS = []
REGISTRY = {}


def digest(*arrays):
    h = hashlib.sha1()
    for a in arrays:
        a = np.asarray(a)
        h.update(str(a.dtype).encode() + str(a.shape).encode())
        h.update(np.ascontiguousarray(a).tobytes() if a.dtype != object else repr(a.tolist()).encode())
    return h.hexdigest()[:12]


def note(uid, event, detail=''):
    EVENTS.append([uid, event, detail])


class StubClf(BaseEstimator, ClassifierMixin):
    """ A deterministic probabilistic classifier based on class centroids

    mode: 'soft' ordinary probabilities; 'hard' saturated to 0/1; 'const' class priors whatever the example;
          'tied' probabilities rounded to quarters; 'skew' strongly biased towards the first class;
          'swap' systematically confuses neighbouring classes; 'blind' never predicts one of the classes
    out:  'new' a new array each time; 'ro' a read-only array; 'cached' the same array object for equal inputs
          (an estimator that caches its outputs); 'f' Fortran order
    """

    def __init__(self, mode='soft', temp=1.0, uid='e', out='new', shift=0.0, bad=None, noisy=False):
        self.bad = bad
        self.noisy = noisy
        self.mode = mode
        self.temp = temp
        self.uid = uid
        self.out = out
        self.shift = shift

    def fit(self, X, y, sample_weight=None):
        core.point('est.fit', 'start')
        X = np.asarray(X, dtype=float)
        y = np.asarray(y)
        if len(X) != len(y):
            raise ValueError('inconsistent numbers of samples')
        classes, pos = np.unique(y, return_inverse=True)
        pos = np.asarray(pos).ravel()
        cent = np.zeros((len(classes), X.shape[1]))
        for i in range(len(classes)):
            cent[i] = X[pos == i].mean(axis=0)
        core.point('est.fit', 'mid')
        scale = X.std(axis=0) + 1e-9
        prior = np.bincount(pos, minlength=len(classes)) / len(pos)
        core.point('est.fit', 'end')
        self.n_features_in_ = X.shape[1]
        self.centroids_, self.scale_, self.prior_ = cent, scale, prior
        self.classes_ = classes
        note(self.uid, 'fit', digest(X, y))
        return self

    def _check(self, X):
        if not hasattr(self, 'classes_'):
            raise NotFittedError('StubClf %s is not fitted' % self.uid)
        X = np.asarray(X, dtype=float)
        if X.ndim != 2 or X.shape[1] != self.n_features_in_:
            raise ValueError('StubClf %s: wrong number of features' % self.uid)
        return X

    def _proba(self, X):
        k = len(self.classes_)
        if self.mode == 'const':
            return np.tile(self.prior_, (len(X), 1))
        d = np.zeros((len(X), k))
        for i in range(k):
            d[:, i] = (((X - self.centroids_[i]) / self.scale_) ** 2).sum(axis=1)
        s = -0.5 * d * self.temp
        if self.mode == 'skew':
            s[:, 0] += 2.5
        if self.shift:
            s[:, -1] += self.shift
        s -= s.max(axis=1, keepdims=True)
        p = np.exp(s)
        p /= p.sum(axis=1, keepdims=True)
        if self.mode == 'swap' and k > 1:
            p = 0.4 * p + 0.6 * np.roll(p, 1, axis=1)
        if self.mode == 'blind':
            # a class is never predicted
            j = int(self.temp * 1000) % k
            p[:, j] = 0
            p[p.sum(axis=1) == 0, (j + 1) % k] = 1
            p /= p.sum(axis=1, keepdims=True)
        if self.mode == 'hard':
            q = np.zeros_like(p)
            q[np.arange(len(p)), p.argmax(axis=1)] = 1.0
            p = q
        if self.mode == 'tied':
            q = np.floor(p * 4) / 4
            q[np.arange(len(p)), p.argmax(axis=1)] += 1 - q.sum(axis=1)
            p = q
        if k == 2:
            # exactly complementary, so that 1 - p of a class is what is predicted for the other one
            p[:, 1] = np.round(p[:, 1] * 2.0 ** 50) / 2.0 ** 50
            p[:, 0] = 1 - p[:, 1]
        return p

    def _give(self, what, X, a):
        if self.out == 'f' and a.ndim == 2:
            a = np.asfortranarray(a)
        if self.out == 'ro':
            a.flags.writeable = False
        elif self.out == 'cached':
            # the registry keeps the object alive, so that no other one gets its identity
            key = ('cache', id(self), what, digest(X, self.centroids_, self.classes_))
            if key in REGISTRY:
                return REGISTRY[key][0]
            REGISTRY[key] = (a, digest(a), self)
        return a

    def predict_proba(self, X):
        core.point('est.proba', 'start')
        X = self._check(X)
        p = self._proba(X)
        if self.noisy:
            # it overflows and warns, as estimators do
            np.exp(np.array([1000.0]))
            warnings.warn('not converged', RuntimeWarning)
        if self.bad:
            p = bad_outputs(p, self.bad)
        core.point('est.proba', 'end')
        return self._give('proba', X, p)

    def predict(self, X):
        core.point('est.predict', 'start')
        X = self._check(X)
        p = self.classes_[self._proba(X).argmax(axis=1)]
        core.point('est.predict', 'end')
        return self._give('predict', X, p)


class UserClf:
    """ An estimator written by a user: nothing but fit, predict and predict_proba (no classes_, no parameters) """

    def __init__(self, inner):
        self.inner = inner

    def fit(self, X, y):
        self.inner.fit(X, y)
        return self

    def predict(self, X):
        return self.inner.predict(X)

    def predict_proba(self, X):
        return self.inner.predict_proba(X)


def bad_outputs(p, how):
    """ what a broken estimator returns instead of probabilities """
    p = np.array(p)
    if how == 'nan':
        p[::2] = np.nan
    elif how == 'zero':
        p[:] = 0
    elif how == 'neg':
        p = -p
    elif how == 'big':
        p *= 1e6
    elif how == 'one':
        p[:] = 1
    elif how == 'inf':
        p[0] = np.inf
    elif how == 'tiny':
        p *= 1e-300
    elif how == 'flat':
        p[:] = 1.0 / p.shape[1]
    return p


def cached_outputs_altered():
    return sorted('%s of an estimator' % k[2] for k, (a, d, _) in REGISTRY.items() if k[0] == 'cache' and digest(a) != d)


class MemoClf(BaseEstimator, ClassifierMixin):
    """ Remembers its training examples: the first feature of an example is its row number. The probability it gives
    says which model answered and whether it had been trained with that example """

    def __init__(self, uid='m'):
        self.uid = uid

    def fit(self, X, y):
        core.point('est.fit', 'start')
        X = np.asarray(X, dtype=float)
        seen = sorted(row_id(v) for v in X[:, 0])
        classes, pos = np.unique(y, return_inverse=True)
        of = {row_id(v): int(p) for v, p in zip(X[:, 0], np.asarray(pos).ravel())}
        core.point('est.fit', 'end')
        self.seen_ = frozenset(seen)
        self.classes_ = classes
        note(self.uid, 'memo', {'seen': seen, 'classes': [int(c) for c in classes], 'y': [of[v] for v in seen], 'op': core.SIM.me().op if core.SIM.me() else None})
        return self

    def predict_proba(self, X):
        core.point('est.proba', 'start')
        if not hasattr(self, 'classes_'):
            raise NotFittedError('not fitted')
        X = np.asarray(X, dtype=float)
        p = memo_proba(self.seen_, len(self.classes_), X[:, 0])
        core.point('est.proba', 'end')
        return p

    def predict(self, X):
        return self.classes_[self.predict_proba(X).argmax(axis=1)]


def row_id(v):
    return int(round(float(v)))


def memo_proba(seen, k, rows):
    """ what a MemoClf trained with the examples `seen` answers """
    if k == 1:
        return np.ones((len(rows), 1))
    m = int(hashlib.sha1(repr(sorted(seen)).encode()).hexdigest()[:6], 16) / float(1 << 24)
    p = np.zeros((len(rows), k))
    for i, v in enumerate(rows):
        p[i, 0] = 0.5 * m + (0.5 if row_id(v) in seen else 0.0)
        p[i, 1:] = (1 - p[i, 0]) / (k - 1)
    return p


def define_user_quantifiers():
    """ Quantifiers a user could write: they need the base classes of the library """
    from quantificationlib.base import UsingClassifiers, WithoutClassifiers

    class UserX(WithoutClassifiers):
        """ how: 'near' counts of nearest centroids; 'onehot' everything in the class its training bag has most of;
        'first' everything in the class of the centroid nearest to the bag """

        def __init__(self, how='near', verbose=0):
            super().__init__(verbose=verbose)
            self.how = how

        def fit(self, X, y):
            core.point('est.fit', 'UserX')
            super().fit(X, y)
            X, y = np.asarray(X, dtype=float), np.asarray(y)
            self.cent_ = np.array([X[y == c].mean(axis=0) for c in self.classes_])
            self.count_ = np.array([np.sum(y == c) for c in self.classes_])
            return self

        def predict(self, X):
            core.point('est.predict', 'UserX')
            X = np.asarray(X, dtype=float)
            k = len(self.classes_)
            if self.how == 'onehot':
                return np.eye(k)[np.argmax(self.count_)]
            if self.how == 'first':
                X = X.mean(axis=0)[None]
            d = ((X[:, None, :] - self.cent_[None]) ** 2).sum(axis=2)
            return np.bincount(d.argmin(axis=1), minlength=k) / float(len(X))

    class UserY(UsingClassifiers):
        def __init__(self, estimator_train=None, estimator_test=None, how='near', verbose=0):
            super().__init__(estimator_train=estimator_train, estimator_test=estimator_test, verbose=verbose)
            self.how = how

        def fit(self, X, y, predictions_train=None):
            super().fit(X, y, predictions_train=predictions_train)
            core.point('est.fit', 'UserY')
            self.count_ = np.array([np.sum(self.y_ext_ == c) for c in self.classes_])
            self.bias_ = np.asarray(self.predictions_train_, dtype=float).mean(axis=0)
            return self

        def predict(self, X, predictions_test=None):
            super().predict(X, predictions_test=predictions_test)
            core.point('est.predict', 'UserY')
            k = len(self.classes_)
            if self.how == 'onehot':
                return np.eye(k)[np.argmax(self.count_)]
            m = np.asarray(self.predictions_test_, dtype=float).mean(axis=0)
            if self.how == 'first':
                return np.eye(k)[np.argmax(m - 0.5 * self.bias_)]
            p = np.maximum(m - 0.3 * self.bias_, 1e-6)
            return p / p.sum()

    for C in (UserX, UserY):
        C.__module__, C.__qualname__ = __name__, C.__name__
        globals()[C.__name__] = C


class StubReg(BaseEstimator, RegressorMixin):
    """ Deterministic ridge regression in closed form """

    def __init__(self, uid='r', alpha=1.0, below=0.0):
        self.uid = uid
        self.alpha = alpha
        self.below = below

    def fit(self, X, y):
        core.point('reg.fit', 'start')
        X = np.asarray(X, dtype=float)
        A = np.hstack([X, np.ones((len(X), 1))])
        w = np.linalg.solve(A.T @ A + self.alpha * np.eye(A.shape[1]), A.T @ np.asarray(y, dtype=float))
        core.point('reg.fit', 'end')
        self.w_ = w
        note(self.uid, 'regfit', digest(X, np.asarray(y)))
        return self

    def predict(self, X):
        core.point('reg.predict', '')
        if not hasattr(self, 'w_'):
            raise NotFittedError('StubReg is not fitted')
        X = np.asarray(X, dtype=float)
        return np.hstack([X, np.ones((len(X), 1))]) @ self.w_ - self.below


# ---- user supplied distance functions --------------------------------------------------------------------------------
def user_l1(p, q):
    core.point('dist', 'l1')
    return np.sum(np.abs(np.asarray(p) - np.asarray(q)))


def user_l2(p, q):
    core.point('dist', 'l2')
    return np.sqrt(np.sum((np.asarray(p) - np.asarray(q)) ** 2))


def user_wiggly(p, q):
    """ Several local minima """
    core.point('dist', 'wiggly')
    d = np.sum(np.abs(np.asarray(p) - np.asarray(q)))
    return d + 0.05 * np.sin(40 * d) + 0.05


def user_manhattan(A, B):
    core.point('dist', 'manhattan')
    return np.abs(A[:, None, :] - B[None, :, :]).sum(axis=2)


def user_euclid(A, B):
    core.point('dist', 'euclid')
    return np.sqrt(((A[:, None, :] - B[None, :, :]) ** 2).sum(axis=2))


def user_measure(p_true, p_pred):
    core.point('dist', 'measure')
    p_true, p_pred = np.asarray(p_true), np.asarray(p_pred)
    return float((np.abs(p_true - p_pred) / (p_true + 0.02)).sum())


def _bad(name, fn):
    def bad(p, q):
        core.point('dist', name)
        p, q = np.asarray(p, dtype=float), np.asarray(q, dtype=float)
        d = np.abs(p[:, None] - q[None]).sum(axis=2) if p.ndim == 2 else np.sum(np.abs(p - q))
        return fn(d)
    bad.__name__ = bad.__qualname__ = name
    return bad


CALLS = [0]


def _later(d):
    """ no more finite values after as many calls as a search over the grid of prevalences makes """
    CALLS[0] += 1
    return d if CALLS[0] % 3000 <= 101 else d * np.nan


BAD = [_bad('bad_nan', lambda d: d * np.nan), _bad('bad_inf', lambda d: d + np.inf), _bad('bad_negative', lambda d: -d),
       _bad('bad_const', lambda d: d * 0 + 1.0), _bad('bad_noise', lambda d: np.sin(1e4 * d)), _bad('bad_zero', lambda d: d * 0),
       _bad('bad_partly', lambda d: np.where(np.sin(1e4 * d) > 0.3, np.nan, d)[()]),
       _bad('bad_later', _later)]


def _vec(fn):
    def vec(p, q):
        return fn(np.ravel(p), np.ravel(q))
    vec.__name__ = vec.__qualname__ = fn.__name__.replace('bad', 'vec')
    return vec


# the same, between two vectors of any shape
BAD += [_vec(f) for f in BAD]
DISTS = {f.__name__: f for f in (user_l1, user_l2, user_wiggly, user_manhattan, user_euclid, user_measure)}
DISTS.update({f.__name__: f for f in BAD})


class SimRandomState(np.random.RandomState):
    """ A user supplied generator: every draw is a fault point """

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def randint(self, *a, **k):
        core.point('rng', 'randint')
        return super().randint(*a, **k)

    def choice(self, *a, **k):
        core.point('rng', 'choice')
        return super().choice(*a, **k)

    def dirichlet(self, *a, **k):
        core.point('rng', 'dirichlet')
        return super().dirichlet(*a, **k)

    def __reduce__(self):
        return _restore_rs, (self.get_state(),)


def _restore_rs(state):
    r = SimRandomState(0)
    r.set_state(state)
    return r
