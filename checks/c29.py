"""Ensembles of weighted experts and of batch models against reference ensembles."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import toy
from vp.engine import Skip, Sub, require, require_close, rng_of, short
from vp.gen import seeds

PROP = 'C29'
SCALE = 2
META = dict(
    title='Ensembles of experts add, weight, prune and vote as specified',
    statement='For any stream, base estimator and configuration: DynamicWeightedMajority multiplies the weight of an '
              'expert that is wrong at a period boundary by beta, scales the weights so that the largest is 1, drops '
              'experts below theta and adds a new one when the ensemble is wrong there (in place of the weakest when it '
              'is full); AdditiveExpertEnsemble multiplies the weight of every wrong expert by beta, adds one of weight '
              'gamma times the total whenever the ensemble is wrong, and prunes the weakest or oldest above '
              'n_estimators; all experts learn every sample. AccuracyWeightedEnsemble trains a model on each full chunk, '
              'weights models by how much their mean square error on the newest chunk (cross-validated for the '
              'new model) beats a classifier guessing by class shares, keeps the best n_kept_estimators and votes with '
              'the best n_estimators. LearnPP trains boosted ensembles on each full chunk, resampled by the weight of '
              'the errors so far; LearnPPNSE weights one model per chunk by its time-discounted '
              'errors and prunes by age or error; BatchIncremental keeps the newest n_estimators models and averages '
              'their votes. Samples of an unfinished chunk have no effect yet, and the cut of the stream into calls has '
              'none at all. Predictions are the class labels with the highest vote.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all streams, batch cuts, label sets, seeds and parameter settings'),
    why_tests_cant='Tests compare predictions of one setting each on a fixed stream of labels 0 and 1.',
    anchors=dict(files=['src/skmultiflow/meta/dynamic_weighted_majority.py',
                        'src/skmultiflow/meta/additive_expert_ensemble.py',
                        'src/skmultiflow/meta/accuracy_weighted_ensemble.py', 'src/skmultiflow/meta/learn_nse.py',
                        'src/skmultiflow/meta/learn_pp.py', 'src/skmultiflow/meta/batch_incremental.py'],
                 mechanism=[dict(name='experts', where='fit_single_sample'),
                            dict(name='chunks', where='partial_fit'),
                            dict(name='votes', where='predict')]),
    technique='PBT, stateful: differential against reference ensembles; transparent base estimator',
)
ASSUMPTIONS = ['votes and pruning decisions that are tied up to rounding are left out',
               'base estimators start over when fit is called (with estimators that do not, the cross-validation of '
               'AccuracyWeightedEnsemble leaks between folds; existing tests pin that)']


def near(a, b):
    return abs(a - b) <= 1e-9 * (1e-3 + abs(a) + abs(b))


def winner(votes, exact=False):
    """Label of the highest vote, the smallest label in a tie."""
    labels = sorted(votes)
    best = max(labels, key=lambda k: (votes[k], -k))
    for k in labels:
        if k != best and near(votes[k], votes[best]) and not exact and votes[k] != 0:
            raise Skip()
    return best


class DWM:
    def __init__(self, c):
        self.c, self.t, self.experts = c, 0, [[toy.make()(c['width']), 1.0]]
        self.made = self.removed = 0
        self.exact = c['beta'] == 0.5

    def fit(self, x, y, w, classes):
        c = self.c
        self.t += 1
        due = self.t % c['period'] == 0
        votes = {}
        for e in self.experts:
            p = int(e[0].predict([x])[0])
            if due and p != y:
                e[1] *= c['beta']
            votes[p] = votes.get(p, 0.0) + e[1]
        if due:
            guess = winner(votes, self.exact)
            low = min(e[1] for e in self.experts)
            weak = [e for e in self.experts if near(e[1], low)]
            top = max(e[1] for e in self.experts)
            for e in self.experts:
                e[1] /= top
                if near(e[1], c['theta']) and not (self.exact and e[1] == c['theta']):
                    raise Skip()
            kept = [e for e in self.experts if e[1] >= c['theta']]
            self.removed += len(self.experts) - len(kept)
            if guess != y:
                if len(kept) == c['n_est']:
                    if len(weak) > 1 and not self.exact:
                        raise Skip()
                    kept = [e for e in kept if e is not weak[0]]
                    self.removed += 1
                kept.append([toy.make()(c['width']), 1.0])
                self.made += 1
            self.experts = kept
        for e in self.experts:
            e[0].partial_fit([x], [y], classes, None if w is None else [w])

    def predict(self, x):
        votes = {}
        for e in self.experts:
            p = int(e[0].predict([x])[0])
            votes[p] = votes.get(p, 0.0) + e[1]
        return winner(votes, self.exact)

    def members(self):
        return [e[0] for e in self.experts]


class AddExp(DWM):
    def __init__(self, c):
        super().__init__(c)
        self.exact = False

    def fit(self, x, y, w, classes):
        c = self.c
        votes = {}
        for e in self.experts:
            p = int(e[0].predict([x])[0])
            votes[p] = votes.get(p, 0.0) + e[1]
            if p != y:
                e[1] *= c['beta']
        guess = winner(votes)
        new = None
        if guess != y:
            new = [toy.make()(c['width']), c['gamma'] * sum(e[1] for e in self.experts)]
            self.experts.append(new)            # in order of age
            self.made += 1
        if len(self.experts) > c['n_est']:
            k = 0
            if c['pruning'] == 'weakest':
                ws = [e[1] for e in self.experts]
                k = ws.index(min(ws))
                if sum(near(v, min(ws)) for v in ws) > 1:
                    raise Skip()
            self.experts.pop(k)
            self.removed += 1
        t = sum(e[1] for e in self.experts)
        for e in self.experts:
            e[1] /= t
            e[0].partial_fit([x], [y], classes, None if w is None else [w])


class Chunks:
    def __init__(self, c):
        self.c, self.buf, self.n = c, [], 0
        self.made = self.removed = 0
        self.pool = []
        self.classes = None
        self.r = np.random.RandomState(c['rs'])

    def fit(self, x, y, w, classes):
        self.classes = [int(k) for k in classes]
        self.buf.append((np.array(x), int(y), 1.0 if w is None else w))
        if len(self.buf) == self.c['window']:
            X, y, w = (np.array(v) for v in zip(*self.buf))
            self.buf = []
            self.n += 1
            self.chunk(X, y, w)
            self.made += 1

    def model(self, X, y, w=None):
        return toy.make()(self.c['width']).fit(X, y, self.classes, w)


class AWE(Chunks):
    def score(self, m, seen, X, y):
        P = m.predict_proba(X)
        return sum((1.0 - (P[i][v] if v in seen else 0.0)) ** 2 for i, v in enumerate(y)) / len(y)

    def chunk(self, X, y, w):
        from sklearn.model_selection import KFold
        seen = sorted(set(y.tolist()))
        shares = [np.mean(y == k) for k in seen]
        base = sum(p * (1 - p) ** 2 for p in shares)
        s = 0.0
        for tr, te in KFold(n_splits=self.c['splits'], shuffle=True, random_state=0).split(X):
            s += self.score(self.model(X[tr], y[tr]), seen, X[te], y[te]) / self.c['splits']
        def gain(v):
            if base > 0 and abs(v) < 1e-12:
                raise Skip()      # rounding decides whether the member counts as no better than guessing
            return max(0.0, v)

        new = [self.model(X, y), gain(base - s), seen]
        for e in self.pool:
            e[1] = gain(base - self.score(e[0], e[2], X, y))
        if len(self.pool) < self.c['kept']:
            self.pool.append(new)
        else:
            low = min(e[1] for e in self.pool)
            tied = [e for e in self.pool if near(e[1], low)]
            if near(new[1], low) and new[1] != low or len(tied) > 1 and low > 0:
                raise Skip()
            if new[1] > low:
                self.pool = [e for e in self.pool if e is not tied[0]] + [new]
                self.removed += 1

    def predict(self, x):
        if not self.pool:
            return 0
        K = self.c['n_est']
        best = sorted(self.pool, key=lambda e: -e[1])
        if len(best) > K and near(best[K - 1][1], best[K][1]) and best[K][1] > 0:
            raise Skip()
        best = best[:K]
        votes, order = {}, []
        for e in best:
            p = int(e[0].predict([x])[0])
            votes[p] = votes.get(p, 0.0) + e[1]
            order.append(p)
        if max(votes.values()) == 0:
            if len(votes) > 1:
                raise Skip()
            return order[0]
        return winner(votes)

    def members(self):
        return [e[0] for e in self.pool]


class NSE(Chunks):
    def votes(self, x):
        out = {k: 0.0 for k in self.classes}
        for m, v in zip(self.pool, self.weights):
            if v > 0:
                p = m.predict_proba([x])[0]
                for k in self.classes:
                    out[k] += v * (p[k] if k < len(p) else 0.0) / (p.sum() or 1.0)
        return out

    def predict(self, x):
        return winner(self.votes(x)) if self.pool else 0

    def chunk(self, X, y, w):
        c, n = self.c, len(y)
        D = np.ones(n) / n
        if not self.pool:
            self.b, self.w, self.weights = [], [], []
        else:
            hit = np.array([self.predict(x) for x in X]) == y
            D[hit] *= np.mean(~hit)
            if D.sum() > 0:
                D = D / D.sum()
        self.pool.append(self.model(X, y))
        self.b.append([])
        self.w.append([])
        self.weights = []
        t = len(self.pool)
        errs = []
        for k, m in enumerate(self.pool):
            e = D[m.predict(X) != y].sum()
            if near(e, 0.5) or near(e, 1.0):
                raise Skip()
            if e > 0.5 and k < t - 1:
                e = 0.5
            errs.append(e)
            self.b[k].append(e / (1 - e))
            s = 1 / (1 + math.exp(-c['slope'] * (t - 1 - k - c['cross'])))
            self.w[k].append(s / (sum(self.w[k]) + s))
            z = sum(u * v for u, v in zip(self.b[k], self.w[k])) + 1e-50
            if near(z, 1.0):
                raise Skip()
            self.weights.append(math.log(1 / z))
        if c['nse'] and t > c['n_est']:
            k = 0
            if c['nse'] == 'error':
                k = errs.index(max(errs))
                if sum(near(e, errs[k]) and e != errs[k] for e in errs):
                    raise Skip()
            for v in (self.pool, self.b, self.w, self.weights):
                v.pop(k)
            self.removed += 1

    def members(self):
        return self.pool


class LPP(Chunks):
    def vote(self, ens, x):
        out = {k: 0.0 for k in self.classes}
        for m, e in ens:
            out[int(m.predict([x])[0])] += math.log(1 / (e + 1e-50))
        return out

    def chunk(self, X, y, w):
        c, n = self.c, len(y)
        D = np.ones(n) / n
        ens = []
        for t in range(c['n_est']):
            if D.sum() == 0:
                break
            D = D / D.sum()
            for tries in range(40):
                tr = self.r.choice(n, n // 2, p=D)
                te = self.r.choice(n, n // 2, p=D)
                m = self.model(X[tr], y[tr])
                err = D[te][m.predict(X[te]) != y[te]].sum() / D[te].sum()
                if near(err, c['thr']):
                    raise Skip()
                if err >= c['thr']:
                    continue
                comp = ens + [(m, err / (1 - err))]
                hit = np.array([winner(self.vote(comp, x)) for x in X]) == y
                total = D[~hit].sum() / D.sum()
                if near(total, c['thr']):
                    raise Skip()
                if total < c['thr']:
                    break
            else:
                raise Skip()
            ens = comp
            if t < c['n_est'] - 1:
                D = np.where(hit, D * (total / (1 - total)), D)
        self.pool.append(ens)
        if len(self.pool) > c['kept']:
            self.pool.pop(0)
            self.removed += 1

    def predict(self, x):
        if not self.pool:
            return 0
        out = {k: 0.0 for k in self.classes}
        for ens in self.pool:
            for k, v in self.vote(ens, x).items():
                out[k] += v
        return winner(out)


class Batch(Chunks):
    def chunk(self, X, y, w):
        if len(self.pool) >= self.c['n_est']:
            self.pool.pop(0)
            self.removed += 1
        self.pool.append(self.model(X, y, w))

    def predict(self, x):
        if not self.pool:
            return 0
        v = np.mean([m.predict([x])[0] for m in self.pool])
        if near(v, 0.5) and len(self.pool) not in (1, 2, 4, 8):
            raise Skip()          # a tie that sums of 1 / size may miss by rounding
        return int(v >= 0.5)

    def members(self):
        return self.pool


def build(c):
    from skmultiflow import meta
    base = toy.make()(c['width'])
    k = c['kind']
    if k == 'dwm':
        return meta.DynamicWeightedMajorityClassifier(n_estimators=c['n_est'], base_estimator=base, period=c['period'],
                                                      beta=c['beta'], theta=c['theta']), DWM(c)
    if k == 'addexp':
        return meta.AdditiveExpertEnsembleClassifier(n_estimators=c['n_est'], base_estimator=base, beta=c['beta'],
                                                     gamma=c['gamma'], pruning=c['pruning']), AddExp(c)
    if k == 'awe':
        return meta.AccuracyWeightedEnsembleClassifier(n_estimators=c['n_est'], n_kept_estimators=c['kept'],
                                                       base_estimator=base, window_size=c['window'],
                                                       n_splits=c['splits']), AWE(c)
    if k == 'nse':
        return meta.LearnPPNSEClassifier(base_estimator=base, window_size=c['window'], slope=c['slope'],
                                         crossing_point=c['cross'], n_estimators=c['n_est'],
                                         pruning=c['nse'] or None), NSE(c)
    if k == 'lpp':
        return meta.LearnPPClassifier(base_estimator=base, error_threshold=c['thr'], n_estimators=c['n_est'],
                                      n_ensembles=c['kept'], window_size=c['window'], random_state=c['rs']), LPP(c)
    return meta.BatchIncrementalClassifier(base_estimator=base, window_size=c['window'], n_estimators=c['n_est']), \
        Batch(c)


def run_ens(c, ctx):
    r = rng_of(c['seed'])
    n, k = c['n'], c['k']
    binary = c['kind'] == 'batch'
    labels = np.arange(2) if binary else np.array(sorted(r.choice(k + c['gap'], k, replace=False)))
    X = np.round(r.randn(n, c['f']) * 2, 3)
    key = np.floor(X[:, 0] / c['width']).astype(int) % len(labels)
    flip = r.rand(n) < c['noise']
    key[flip] = r.randint(0, len(labels), flip.sum())
    for cut in c['cuts']:
        key[int(cut * n):] = (key[int(cut * n):] + 1) % len(labels)
    y = labels[key]
    m, ref = build(c)
    w = r.randint(1, 4, n).astype(float) if c['weights'] else None
    i = 0
    while i < n:
        s = min(c['sizes'][i % len(c['sizes'])], n - i)
        for j in range(i, i + s):
            ref.fit(X[j], int(y[j]), None if w is None else w[j], labels)
        m.partial_fit(X[i:i + s], y[i:i + s], classes=labels, **({} if w is None else dict(sample_weight=w[i:i + s])))
        i += s
        if r.rand() < 0.08 or i >= n:
            what = '%s after %d samples (%d added, %d removed)' % (c['kind'], i, ref.made, ref.removed)
            Q = np.vstack([X[r.randint(0, n, 5)], r.randn(2, c['f']) * 6])
            if c['kind'] in ('dwm', 'addexp'):
                got = sorted(tuple(int(v) for v in p) for p in m.get_expert_predictions(Q))
                want = sorted(tuple(int(v) for v in e.predict(Q)) for e in ref.members())
                require(got == want, '%s: the experts predict %s, expected %s', what, short(got), short(want))
            p = np.asarray(m.predict(Q))
            require(p.shape == (len(Q),), '%s: shape %s', what, p.shape)
            if c['kind'] in ('nse', 'lpp'):
                P = np.asarray(m.predict_proba(Q))
                require(P.shape[0] == len(Q) and (not ref.pool or P.shape[1] == len(labels)), '%s: votes of shape %s',
                        what, P.shape)
            for j, q in enumerate(Q):
                try:
                    want = ref.predict(q)
                except Skip:
                    continue
                require(int(p[j]) == want, '%s: predicts %s for %s, expected %s', what, p[j], short(q), want)
                if c['kind'] == 'nse' and ref.pool:
                    v = ref.votes(q)
                    require_close(P[j], [v[k] for k in labels], '%s: votes for %s' % (what, short(q)), rtol=1e-6,
                                  atol=1e-9)
    ctx.label(c['kind'])
    if ref.removed:
        ctx.label('removed in ' + c['kind'])
    return ref.made > 1


cfg = dict(
    seed=seeds, rs=st.integers(0, 2 ** 31 - 1), kind=st.sampled_from(['dwm', 'dwm', 'addexp', 'addexp', 'awe', 'nse', 'nse',
                                                                    'lpp', 'batch']),
    n_est=st.integers(1, 5), k=st.integers(2, 4), gap=st.integers(0, 2), f=st.integers(1, 3),
    width=st.sampled_from([0.5, 1.0, 2.0]), noise=st.sampled_from([0.0, 0.1, 0.4]),
    cuts=st.lists(st.sampled_from([0.25, 0.5, 0.75]), max_size=2), beta=st.sampled_from([0.5, 0.5, 0.7]),
    theta=st.sampled_from([0.01, 0.2, 0.6, 0.25, 0.5]), period=st.integers(1, 8), gamma=st.sampled_from([0.1, 0.37]),
    pruning=st.sampled_from(['weakest', 'oldest']), window=st.sampled_from([6, 10, 25]), splits=st.sampled_from([2, 3, 5]),
    kept=st.integers(1, 4), slope=st.sampled_from([0.5, 2.0]), cross=st.sampled_from([1, 10, 3]),
    nse=st.sampled_from(['', 'age', 'error']), thr=st.sampled_from([0.5, 0.6]), weights=st.sampled_from([False, False, True]),
    n=st.sampled_from([20, 60, 150]), sizes=st.lists(st.integers(1, 12), min_size=1, max_size=3))
SUBS = [
    Sub('experts', st.fixed_dictionaries(cfg), run_ens, 2500, thorough=15000,
        rule='at least two members were added'),
    # large ensembles over longer streams
    Sub('many', st.fixed_dictionaries(dict(
        cfg, n_est=st.integers(4, 14), kept=st.integers(4, 14), period=st.integers(1, 3), window=st.sampled_from([6, 10]),
        gamma=st.sampled_from([0.1, 0.37, 0.8]), noise=st.sampled_from([0.1, 0.4]), n=st.sampled_from([150, 250]),
        cuts=st.lists(st.sampled_from([0.2, 0.4, 0.6, 0.8]), max_size=3))), run_ens, 400, thorough=4000,
        rule='at least two members were added'),
]
