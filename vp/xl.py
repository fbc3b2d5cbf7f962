"""Helpers of the cross-learner contract checks (C34-C38)."""
import numpy as np
from hypothesis import strategies as st

from vp import learners as LR
from vp.engine import Skip
from vp.gen import seeds

_REG = None


def reg():
    global _REG
    if _REG is None:
        _REG = LR.registry()
    return _REG


# learners that interpret the labels as negative (0) / positive (1)
BINARY = {'OnlineAdaC2', 'OnlineCSB2', 'OnlineRUSBoost-1', 'OnlineRUSBoost-2', 'OnlineRUSBoost-3',
          'OnlineSMOTEBagging', 'OnlineUnderOverBagging'}
BINARY.add('BatchIncremental')
BINARY |= {n + '-nodrift' for n in BINARY}
# the first call has to show several rows with both labels (their first call is fit of a batch learner)
NEEDS_BATCH = {'MultiOutput-perc', 'ClassifierChain', 'ClassifierChain-random', 'ProbCC', 'MonteCarloCC'}
# predict needs a first training call
NEEDS_FIT = NEEDS_BATCH | {'PerceptronMask', 'RSLVQ', 'MultiOutput-reg', 'RegressorChain',
                           'RegressorChain-random',
                           'MultiOutput-nb', 'MultiOutput-perc'}
# predict_proba of one column per class is documented as not available
NO_PROBA = {'SAMKNN', 'RSLVQ', 'DWM', 'AddExp-weakest', 'AddExp-oldest', 'AWE'}
# predict is a documented Monte-Carlo procedure
RANDOM_PREDICT = {'MonteCarloCC'}


def case_s(names, **kw):
    d = dict(name=st.sampled_from(sorted(names)), seed=seeds, dseed=seeds, nf=st.integers(2, 5),
             k=st.integers(2, 4), n=st.one_of(st.integers(10, 120), st.integers(150, 300)), kind=st.sampled_from(
                 ['sep', 'drift', 'drift', 'noise', 'int']))
    d.update(kw)
    return st.fixed_dictionaries(d)


class Env:
    def __init__(self, c):
        self.name = c['name']
        e = reg()[self.name]
        self.task = e['task']
        self.make = lambda: e['make'](c['seed'] % 1000)
        if c['kind'] not in e.get('kinds', [c['kind']]):
            c = dict(c, kind=e['kinds'][0])
        self.k = 2 if self.name in BINARY else c['k']
        m = e.get('n_labels', 2 + c['k'] % 2)
        n = c['n'] + (8 if self.name in NEEDS_BATCH else 0)
        self.X, self.y = LR.data(self.task, n, c['dseed'], nf=c['nf'], k=self.k, m=m, kind=c['kind'])
        self.Q, _ = LR.data(self.task, 7, c['dseed'] + 1, nf=c['nf'], k=self.k, m=m, kind=c['kind'])
        self.X2, self.y2 = LR.data(self.task, 30, c['dseed'] + 2, nf=c['nf'], k=self.k, m=m, kind='sep')
        if self.task == 'mlc':
            for Y in (self.y, self.y2):
                Y[0], Y[1] = 0, 1
        self.classes = LR.classes_of(self.task, self.k)
        self.first = 8 if self.name in NEEDS_BATCH else 1

    def batches(self, X, sizes=(1,)):
        """Row ranges: a first group, then groups of the given cyclic sizes."""
        out, i, j = [], 0, 0
        while i < len(X):
            s = max(sizes[j % len(sizes)], self.first if i == 0 else 1)
            out.append((i, min(len(X), i + s)))
            i, j = i + s, j + 1
        return out

    def fit(self, m, X, y, weights=None, classes='all'):
        try:
            return LR.fit(m, self.task, X, y, self.classes if isinstance(classes, str) else classes,
                          weights)
        except RuntimeError as e:
            if 'too weak' in str(e):      # documented refusal of LearnPP
                raise Skip()
            raise

    def train(self, m, X=None, y=None, sizes=(1,)):
        X = self.X if X is None else X
        y = self.y if y is None else y
        for a, b in self.batches(X, sizes):
            self.fit(m, X[a:b], y[a:b])
        return m

    def predict(self, m, Q=None):
        return np.asarray(m.predict(self.Q if Q is None else Q), dtype=float)

    def proba(self, m, Q=None):
        """List of rows (their lengths may differ between models, never NaN-padded)."""
        return [np.atleast_1d(np.asarray(r, dtype=float)) for r in m.predict_proba(
            self.Q if Q is None else Q)]

    def has_proba(self):
        return self.task in ('clf', 'anom') and self.name not in NO_PROBA


def same(a, b, tol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)


def same_rows(a, b, tol=1e-9):
    return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))


def reg_names():
    """All registered names; callable at import time of a check (after build.install)."""
    return sorted(reg())


def task(name):
    return reg()[name]['task']
