"""A transparent base estimator: class weights per rounded first feature; logs its training."""
import numpy as np


def make():
    """The class derives from the library's base classes, so it is built after the library is loaded."""
    global _CLS
    if _CLS is None:
        from skmultiflow.drift_detection.base_drift_detector import BaseDriftDetector
        from skmultiflow.core import BaseSKMObject, ClassifierMixin, RegressorMixin

        class ToyClassifier(BaseSKMObject, ClassifierMixin):
            def __init__(self, width=1.0, full=False, nominal_attributes=None):
                super().__init__()
                self.nominal_attributes = nominal_attributes        # only recorded
                self.width = width
                self.full = full            # look at all features
                self.reset()

            def reset(self):
                self.log = []
                self.n_resets = getattr(self, 'n_resets', -1) + 1
                self.counts, self.total, self.classes = {}, {}, None
                return self

            def partial_fit(self, X, y, classes=None, sample_weight=None):
                if classes is not None:
                    self.classes = sorted(int(c) for c in classes)
                for i in range(len(X)):
                    w = 1.0 if sample_weight is None else float(sample_weight[i])
                    c = int(y[i])
                    self.log.append((tuple(float(v) for v in X[i]), c, w))
                    d = self.counts.setdefault(self.key(X[i]), {})
                    d[c] = d.get(c, 0.0) + w
                    self.total[c] = self.total.get(c, 0.0) + w
                return self

            def fit(self, X, y, classes=None, sample_weight=None):
                self.reset()
                return self.partial_fit(X, y, classes, sample_weight)

            def key(self, x):
                if self.full:
                    return tuple(int(np.floor(v / self.width)) for v in x)
                return int(np.floor(x[0] / self.width))

            def votes(self, x):
                d = self.counts.get(self.key(x), self.total)
                t = sum(d.values())
                return {c: v / t for c, v in d.items()} if t > 0 else {}

            def predict_proba(self, X):
                k = 1 + max([0] + list(self.total) + (self.classes or []))
                out = np.zeros((len(X), k))
                for i, x in enumerate(X):
                    for c, v in self.votes(x).items():
                        out[i, c] = v
                return out

            def predict(self, X):
                return np.argmax(self.predict_proba(X), axis=1)

        class ToyDetector(BaseDriftDetector):
            """Reports a change whenever the inputs since the last one add up to the limit."""

            def __init__(self, limit=5.0):
                super().__init__()
                self.limit = limit
                self.reset()

            def reset(self):
                super().reset()
                self.sum = 0.0

            def add_element(self, input_value):
                self.in_concept_change = False
                self.sum += float(input_value)
                if self.sum >= self.limit:
                    self.in_concept_change = True
                    self.sum = 0.0

        ToyDetector.__module__ = 'vp.toy'
        ToyDetector.__qualname__ = 'ToyDetector'
        globals()['ToyDetector'] = ToyDetector

        class ToyRegressor(BaseSKMObject, RegressorMixin):
            """Mean target of the samples in the same bucket, else a fixed function of all features."""

            def __init__(self, width=1.0):
                super().__init__()
                self.width = width
                self.reset()

            def reset(self):
                self.log, self.sums = [], {}
                return self

            def key(self, x):
                return tuple(int(np.floor(v / self.width)) for v in x)

            def partial_fit(self, X, y, sample_weight=None):
                for i in range(len(X)):
                    w = 1.0 if sample_weight is None else float(sample_weight[i])
                    self.log.append((tuple(float(v) for v in X[i]), float(y[i]), w))
                    s = self.sums.setdefault(self.key(X[i]), [0.0, 0.0])
                    s[0] += w * float(y[i])
                    s[1] += w
                return self

            def fit(self, X, y, sample_weight=None):
                self.reset()
                return self.partial_fit(X, y, sample_weight)

            def predict(self, X):
                out = []
                for x in X:
                    s = self.sums.get(self.key(x), [0.0, 0.0])
                    out.append(s[0] / s[1] if s[1] > 0 else 0.25 * float(x[-1]) + 0.125 * float(x[0]))
                return np.array(out)

            def predict_proba(self, X):
                raise NotImplementedError

        ToyRegressor.__module__ = 'vp.toy'
        ToyRegressor.__qualname__ = 'ToyRegressor'
        globals()['ToyRegressor'] = ToyRegressor
        ToyClassifier.__module__ = 'vp.toy'
        ToyClassifier.__qualname__ = 'ToyClassifier'
        globals()['ToyClassifier'] = ToyClassifier
        _CLS = ToyClassifier
    return _CLS


def regressor():
    make()
    return globals()['ToyRegressor']


def detector():
    make()
    return globals()['ToyDetector']


class Recorder(np.random.RandomState):
    """A random state that remembers what it handed out."""

    def __init__(self, seed):
        super().__init__(seed)
        self.poissons, self.choices, self.lams = [], [], set()

    def poisson(self, lam=1.0, size=None):
        out = super().poisson(lam, size)
        self.poissons.extend(np.ravel(out).tolist())
        self.lams.add(float(lam))
        return out

    def choice(self, *a, **k):
        out = super().choice(*a, **k)
        self.choices.append(np.array(out))
        return out


_CLS = None
