"""k-nearest-neighbour learners against brute force over a model of the window."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Skip, Sub, require, require_close, rng_of, short
from vp.gen import seeds

PROP = 'C20'
SCALE = 3
META = dict(
    title='k-NN learners answer from exactly the k nearest of the last samples',
    statement='For any stream, batch schedule, metric, leaf size and query: KNNClassifier gives each '
              'class the fraction of the n_neighbors nearest (in the chosen metric) among the most '
              'recent max_window_size training samples that carry its label, and predicts the smallest '
              'label with the largest fraction; KNNRegressor gives the mean or the median of their '
              'targets. With fewer stored samples than n_neighbors the answer is 0. KNNADWINClassifier '
              'answers like KNNClassifier over its window, feeds its ADWIN detector with whether the '
              'model (trained on the sample) classifies each sample correctly (0 while there are too few '
              'samples) and, when the last sample of a call shows a change, keeps only the newest '
              'samples, as many as the ADWIN width. reset() empties the window.',
    quantifier=dict(over=['inputs', 'histories', 'schedules', 'configurations'],
                    text='all streams, ties of distances included, groupings into calls, '
                         'interleaved queries and resets'),
    why_tests_cant='Tests compare one stream of one generator with recorded predictions.',
    anchors=dict(files=['src/skmultiflow/lazy/base_neighbors.py', 'src/skmultiflow/lazy/knn_classifier.py',
                        'src/skmultiflow/lazy/knn_regressor.py', 'src/skmultiflow/lazy/knn_adwin.py'],
                 mechanism=[dict(name='neighbours', where='BaseNeighbors._get_neighbors'),
                            dict(name='vote', where='KNNClassifier.predict_proba, KNNRegressor.predict'),
                            dict(name='adaptive window', where='KNNADWINClassifier.partial_fit')]),
    technique='PBT, stateful: brute-force reference model over the sliding window',
)
ASSUMPTIONS = ['neighbours at exactly tied distances may be chosen freely',
               'the ADWIN of the reference is the one of the library (decided by C06)']

METRICS = {'euclidean': lambda d: np.sqrt((d ** 2).sum(1)), 'manhattan': lambda d: np.abs(d).sum(1),
           'chebyshev': lambda d: np.abs(d).max(1), 'minkowski': lambda d: np.sqrt((d ** 2).sum(1))}
hist = st.lists(st.fixed_dictionaries(dict(
    op=st.sampled_from(['fit'] * 9 + ['query'] * 6 + ['reset']), n=st.sampled_from([1, 1, 1, 2, 3, 7, 25]))),
    min_size=6, max_size=25)


def points(r, n, f, grid):
    return r.randint(0, 4, (n, f)).astype(float) if grid else r.randn(n, f)


def split(win, q, k, metric):
    """(certain, candidates, how many of the candidates) of the k nearest."""
    d = METRICS[metric](np.array([x for x, _ in win]) - q)
    o = np.sort(d)
    kth = o[k - 1]
    eps = 1e-9 * (1 + kth)
    sure = [i for i in range(len(d)) if d[i] < kth - eps]
    tie = [i for i in range(len(d)) if abs(d[i] - kth) <= eps]
    return sure, tie, k - len(sure)


def check_votes(win, q, k, metric, row, pred, what):
    ncol = len(row)
    sure, tie, need = split(win, q, k, metric)
    lo, cand = np.zeros(60), np.zeros(60)
    for i in sure:
        lo[int(win[i][1])] += 1
    for i in tie:
        cand[int(win[i][1])] += 1
    p = np.zeros(60)
    p[:ncol] = row
    require_close(p.sum(), 1.0, what + ': sum of the probabilities')
    v = p * k
    require(np.all(v >= lo - 1e-6) and np.all(v <= lo + np.minimum(cand, need) + 1e-6),
            '%s: votes %s of k=%d, expected %s plus %d of %s', what, short(v[:8]), k, short(lo[:8]), need,
            short(cand[:8]))
    if len(tie) == need:
        require_close(v, lo + cand, what + ': votes', rtol=1e-6, atol=1e-6)
    best = np.flatnonzero(v > v.max() - 1e-6)
    require(int(pred) in best, '%s: predicts %s, votes %s', what, pred, short(v[:8]))
    if len(tie) == need:
        require(int(pred) == best[0], '%s: predicts %s, expected %s (votes %s)', what, pred, best[0],
                short(v[:8]))




def run_clf(c, ctx):
    from skmultiflow.lazy import KNNClassifier
    r = rng_of(c['seed'])
    k, W, f = c['k'], c['w'], c['f']
    m = KNNClassifier(n_neighbors=k, max_window_size=W, leaf_size=c['leaf'], metric=c['metric'])
    win, declared, full = [], False, 0
    labels = np.array(sorted(r.choice(12, c['ncl'], replace=False)))
    for step in c['ops']:
        n = step['n']
        if step['op'] == 'fit':
            X = points(r, n, f, c['grid'])
            y = labels[r.randint(0, len(labels), n)]
            kw = {}
            if c['classes'] and not declared:
                kw['classes'] = list(labels)
                declared = True
            require(m.partial_fit(X, y, **kw) is m, 'partial_fit returns another object')
            win = (win + [(X[i].copy(), y[i]) for i in range(n)])[-W:]
            X[:] = 99.0      # the caller reuses the array
            y[:] = labels[0]
        elif step['op'] == 'reset':
            require(m.reset() is m, 'reset returns another object')
            win, declared = [], False
        else:
            Q = points(r, n, f, c['grid'])
            if win and r.rand() < 0.5:
                Q[0] = win[r.randint(len(win))][0]
            P, p = m.predict_proba(Q), m.predict(Q)
            require(P.shape[0] == n and p.shape == (n,), 'shapes %s, %s for %d rows', P.shape, p.shape, n)
            for i in range(n):
                what = 'k=%d, window %d of %d, %s, row %d' % (k, len(win), W, c['metric'], i)
                if len(win) < k:
                    require(not np.any(P[i]) and p[i] == 0, '%s: too few samples, but %s, %s', what,
                            short(P[i]), p[i])
                else:
                    full += 1
                    check_votes(win, Q[i], k, c['metric'], P[i], p[i], what)
    return full > 1


def run_reg(c, ctx):
    from skmultiflow.lazy import KNNRegressor
    r = rng_of(c['seed'])
    k, W, f = c['k'], c['w'], c['f']
    agg = 'median' if c['classes'] else 'mean'
    m = KNNRegressor(n_neighbors=k, max_window_size=W, leaf_size=c['leaf'], metric=c['metric'],
                     aggregation_method=agg)
    win, full = [], 0
    for step in c['ops']:
        n = step['n']
        if step['op'] == 'fit':
            X = points(r, n, f, c['grid'])
            y = r.randn(n) * 10
            require(m.partial_fit(X, y) is m, 'partial_fit returns another object')
            win = (win + [(X[i].copy(), y[i]) for i in range(n)])[-W:]
            X[:] = 99.0
            y[:] = 0
        elif step['op'] == 'reset':
            m.reset()
            win = []
        else:
            Q = points(r, n, f, c['grid'])
            p = m.predict(Q)
            require(np.shape(p) == (n,), 'predict of %d rows has shape %s', n, np.shape(p))
            for i in range(n):
                what = 'k=%d, window %d of %d, %s, %s, row %d' % (k, len(win), W, c['metric'], agg, i)
                if len(win) < k:
                    require(p[i] == 0, '%s: too few samples, but %s', what, p[i])
                    continue
                full += 1
                sure, tie, need = split(win, Q[i], k, c['metric'])
                sv, tv = [win[j][1] for j in sure], sorted(win[j][1] for j in tie)
                fn = np.median if agg == 'median' else np.mean
                lo, hi = fn(sv + tv[:need]), fn(sv + tv[len(tv) - need:])
                require(lo - 1e-7 <= p[i] <= hi + 1e-7, '%s: predicts %r, expected %r .. %r', what, p[i], lo,
                        hi)
    return full > 1


def run_adwin(c, ctx):
    from skmultiflow.lazy import KNNADWINClassifier
    from skmultiflow.drift_detection import ADWIN
    r = rng_of(c['seed'])
    k, W, f = c['k'], c['w'], c['f']
    m = KNNADWINClassifier(n_neighbors=k, max_window_size=W, leaf_size=c['leaf'], metric=c['metric'])
    win, ad, cuts, i, asked = [], ADWIN(), 0, 0, 0
    n = c['n']
    flip = int(n * c['at'])

    def vote(x):
        sure, tie, need = split(win, x, k, c['metric'])
        if len(tie) != need:
            raise Skip()
        v = np.zeros(10)
        for j in sure + tie:
            v[int(win[j][1])] += 1
        return v / k

    while i < n:
        s = min(c['sizes'][i % len(c['sizes'])], n - i)
        X = r.randn(s, f)
        base = (X[:, 0] > 0).astype(int)
        # noisy labels before, clean after (or the reverse): the accuracy changes
        noise = np.array([(c['e0'] if i + j < flip else c['e1']) for j in range(s)])
        y = np.where(r.rand(s) < noise, r.randint(0, 3, s), base)
        m.partial_fit(X, y, classes=[0, 1, 2])
        for j in range(s):
            win = (win + [(X[j].copy(), y[j])])[-W:]
            if len(win) >= k:
                ad.add_element(1 if int(np.argmax(vote(X[j]))) == y[j] else 0)
            else:
                ad.add_element(0)
        if len(win) >= k and ad.detected_change() and ad.width < len(win):
            win = win[len(win) - ad.width:]
            cuts += 1
        i += s
        if r.rand() < 0.15 and len(win) >= k:
            asked += 1
            q = r.randn(f)
            v = vote(q)
            P, p = m.predict_proba([q.tolist()] if c['aslist'] else q.reshape(1, -1)), m.predict(
                q.reshape(1, -1))
            require_close(np.pad(P[0], (0, 10 - P.shape[1])), v,
                          'KNNADWIN after %d samples (window %d, ADWIN width %d, %d cuts): votes' % (
                              i, len(win), ad.width, cuts), rtol=1e-6, atol=1e-6)
            require(int(p[0]) == int(np.argmax(v)), 'KNNADWIN predicts %s, votes %s', p[0], short(v))
    ctx.label('cuts' if cuts else 'no cut')
    return asked > 2


base = dict(seed=seeds, k=st.sampled_from([1, 2, 3, 5, 8]), w=st.sampled_from([4, 8, 20, 60, 60]),
            f=st.integers(1, 4), leaf=st.sampled_from([1, 2, 5, 30]), metric=st.sampled_from(sorted(METRICS)),
            grid=st.booleans(), classes=st.booleans(), ncl=st.integers(1, 5), ops=hist)
SUBS = [
    Sub('classifier', st.fixed_dictionaries(base), run_clf, 700, rule='a query with enough neighbours'),
    Sub('regressor', st.fixed_dictionaries(base), run_reg, 500, rule='a query with enough neighbours'),
    Sub('adwin', st.fixed_dictionaries(dict(
        seed=seeds, k=st.sampled_from([1, 3, 5]), w=st.sampled_from([30, 100, 300]), f=st.integers(1, 3),
        leaf=st.sampled_from([2, 30]), metric=st.sampled_from(['euclidean', 'manhattan']),
        n=st.sampled_from([60, 300, 400]), at=st.sampled_from([0.4, 0.6]),
        e0=st.sampled_from([0.0, 0.9]), e1=st.sampled_from([0.0, 0.5, 0.9]), aslist=st.booleans(),
        sizes=st.lists(st.sampled_from([1, 1, 1, 2, 4]), min_size=1, max_size=4))), run_adwin, 100,
        thorough=1500, rule='several queries'),
]
