"""Multi-label metrics against recomputation from the raw results."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close
from vp.gen import seeds

PROP = 'C11'
SCALE = 3
META = dict(
    title='Multi-label metrics equal their definition on the results added so far',
    statement='After any sequence of multi-label results (binary indicator vectors over at least two '
              'labels), the cumulative multi-label evaluator reports the Hamming score (fraction of '
              'labels predicted correctly), Hamming loss (its complement), exact-match score and '
              'Jaccard score (samples without true or predicted labels count 0) of exactly the '
              'results added since creation or reset, and the window evaluator those of exactly the '
              'last window_size results, whatever the caller does with its arrays '
              'afterwards. Results containing NaN are skipped entirely. With nothing '
              'observed, the scores are 0. The stand-alone hamming_score, exact_match and j_index '
              'functions return their definition on the matrices given (j_index counting an empty '
              'prediction of an empty label set as 1), and so do the measurement classes of '
              'earlier releases.',
    quantifier=dict(over=['histories', 'inputs', 'configurations'],
                    text='all result sequences, label counts, window sizes, NaN positions and resets'),
    why_tests_cant='The tested sequences have all true labels set and no NaN, no reset and reuse.',
    anchors=dict(files=['src/skmultiflow/metrics/_classification_performance_evaluator.pyx',
                        'src/skmultiflow/metrics/_confusion_matrix.pyx',
                        'src/skmultiflow/metrics/measure_collection.py'],
                 mechanism=[dict(name='per-label confusion', where='MultiLabelConfusionMatrix'),
                            dict(name='window eviction', where='WindowMultiLabelClassification'
                                                               'PerformanceEvaluator.add_result')]),
    technique='differential PBT against recomputation from the raw result list',
)


def expected(rows):
    if not rows:
        return 0.0, 1.0, 0.0, 0.0
    ham = float(np.mean([[a == b for a, b in zip(t, p)] for t, p in rows]))
    ex = float(np.mean([t == p for t, p in rows]))
    ja = []
    for t, p in rows:
        u = sum(a or b for a, b in zip(t, p))
        ja.append(sum(a and b for a, b in zip(t, p)) / u if u else 0.0)
    return ham, 1 - ham, ex, float(np.mean(ja))


def compare(ev, rows, where):
    got = (ev.hamming_score(), ev.hamming_loss_score(), ev.exact_match_score(), ev.jaccard_score())
    for name, g, e in zip(('hamming_score', 'hamming_loss_score', 'exact_match_score',
                           'jaccard_score'), got, expected(rows)):
        require_close(g, e, '%s: %s' % (where, name), atol=1e-8)
    require(ev.n_samples == len(rows), '%s: n_samples %s, expected %s', where, ev.n_samples,
            len(rows))
    if rows:
        t, p = ev.get_last()
        require(list(t) == rows[-1][0] and list(p) == rows[-1][1], '%s: get_last %s', where, (t, p))


case_s = st.fixed_dictionaries(dict(
    window=st.sampled_from([None, 1, 2, 5, 20]), declared=st.sampled_from([None, 2, 3, 5]),
    labels=st.integers(2, 6), n=st.integers(1, 60), seed=seeds,
    density=st.sampled_from([0.1, 0.5, 0.9]), acc=st.sampled_from([0.3, 0.8, 1.0]),
    nan=st.sampled_from([0.0, 0.0, 0.1]), ints=st.booleans(),
    resets=st.lists(st.integers(0, 55), max_size=2), every=st.just(1), reuse=st.booleans()))
long_s = st.fixed_dictionaries(dict(
    window=st.sampled_from([None, 60, 100, 200, 200, 300]), declared=st.sampled_from([None, 3]),
    labels=st.integers(2, 9), n=st.integers(250, 700), seed=seeds,
    density=st.sampled_from([0.1, 0.5, 0.9]), acc=st.sampled_from([0.3, 0.8, 0.98]),
    nan=st.sampled_from([0.0, 0.05]), ints=st.booleans(),
    resets=st.lists(st.integers(100, 400), max_size=1), every=st.sampled_from([37, 53]),
    reuse=st.booleans()))


def data(c):
    r = np.random.RandomState(c['seed'])
    for _ in range(c['n']):
        t = (r.rand(c['labels']) < c['density']).astype(float)
        p = np.where(r.rand(c['labels']) < c['acc'], t, r.randint(2, size=c['labels']))
        bad = r.rand() < c['nan']
        if bad:
            (t if r.rand() < 0.5 else p)[r.randint(c['labels'])] = np.nan
        elif c['ints']:
            t, p = t.astype(int), p.astype(int)
        yield t, p, bad


def run(c, ctx):
    from skmultiflow.metrics import (MultiLabelClassificationPerformanceEvaluator,
                                     WindowMultiLabelClassificationPerformanceEvaluator)
    kw = {} if c['declared'] is None or c['declared'] > c['labels'] else {'n_labels': c['declared']}
    if c['window']:
        ev = WindowMultiLabelClassificationPerformanceEvaluator(window_size=c['window'], **kw)
    else:
        ev = MultiLabelClassificationPerformanceEvaluator(**kw)
    rows, ba, bb = [], None, None
    compare(ev, rows, 'new evaluator')
    for i, (t, p, bad) in enumerate(data(c)):
        if i in c['resets']:
            ev.reset()
            rows = []
            compare(ev, rows, 'after reset')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if c['reuse'] and not bad:     # the caller keeps one pair of arrays
                if ba is None:
                    ba, bb = t.astype(float), p.astype(float)
                ba[:], bb[:] = t, p
                ev.add_result(ba, bb)
            else:
                ev.add_result(t, p)
        if not bad:
            rows = (rows + [(t.tolist(), p.tolist())])[-(c['window'] or 10 ** 9):]
            if i % c['every'] == 0 or i == c['n'] - 1:
                compare(ev, rows, 'after result %d' % i)
        else:
            ctx.label('nan')
            require(ev.n_samples == len(rows), 'a result with NaN was counted')
    from skmultiflow.metrics import exact_match, hamming_score, j_index
    if rows:
        T, P = np.array([a for a, _ in rows]), np.array([b for _, b in rows])
        h, _, e, _ = expected(rows)
        require_close(hamming_score(T, P), h, 'hamming_score()')
        require_close(exact_match(T, P), e, 'exact_match()')
        j = []
        for t, p in rows:
            u = sum(a or b for a, b in zip(t, p))
            j.append(sum(a and b for a, b in zip(t, p)) / u if u else 1.0)
        require_close(j_index(T, P), float(np.mean(j)), 'j_index()')
    return c['n'] > (c['window'] or 1) and any(t != p for t, p in rows)


def run_weight(c, ctx):
    """known finding: weights are not honoured by the multi-label evaluator"""
    from skmultiflow.metrics import MultiLabelClassificationPerformanceEvaluator
    ev = MultiLabelClassificationPerformanceEvaluator()
    ev.add_result(np.array([1., 0.]), np.array([1., 0.]), c['w'])
    require_close(ev.hamming_score(), 1.0, 'hamming score of one correct sample of weight %s' % c['w'])
    return True


legacy_s = st.fixed_dictionaries(dict(
    window=st.sampled_from([None, 1, 2, 5, 20, 100]), labels=st.integers(1, 5),
    declared=st.booleans(), n=st.integers(1, 150), seed=seeds,
    density=st.sampled_from([0.1, 0.5, 0.9]), acc=st.sampled_from([0.3, 0.8, 1.0]),
    nan=st.just(0.0), ints=st.booleans(), resets=st.lists(st.integers(0, 55), max_size=2)))


def run_legacy(c, ctx):
    """the measurement classes of earlier releases, still exported"""
    from skmultiflow.metrics import (MultiTargetClassificationMeasurements,
                                     WindowMultiTargetClassificationMeasurements)
    kw = dict(targets=list(range(c['labels']))) if c['declared'] or c['window'] else {}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ev = WindowMultiTargetClassificationMeasurements(window_size=c['window'], **kw) \
            if c['window'] else MultiTargetClassificationMeasurements(**kw)
    rows, start = [], 0
    for i, (t, p, _) in enumerate(data(c)):
        if i in c['resets']:
            ev.reset()
            rows, start = [], i
        ev.add_result(t, p)
        rows = (rows + [(t.tolist(), p.tolist())])[-(c['window'] or 10 ** 9):]
        w = 'after result %d' % i
        ham, loss, ex, _ = expected(rows)
        ja = []
        for a, b in rows:
            u = sum(x or y for x, y in zip(a, b))
            ja.append(sum(x and y for x, y in zip(a, b)) / u if u else 1.0)
        require_close(ev.get_hamming_score(), ham, w + ': Hamming score', atol=1e-9)
        require_close(ev.get_hamming_loss(), loss, w + ': Hamming loss', atol=1e-9)
        require_close(ev.get_exact_match(), ex, w + ': exact match', atol=1e-9)
        require_close(ev.get_j_index(), float(np.mean(ja)), w + ': Jaccard index', atol=1e-9)
        require(ev.sample_count == len(rows), '%s: sample_count %s, expected %s', w,
                ev.sample_count, len(rows))
        if not c['window'] or c.get('matrix') or i - start < c['window']:   # beyond it: known finding
            require(ev.get_total_sum() == len(rows) * c['labels'], '%s: get_total_sum() %s', w,
                    ev.get_total_sum())
        require(np.array_equal(ev.get_last()[0], t) and np.array_equal(ev.get_last()[1], p),
                '%s: get_last %s', w, ev.get_last())
    return c['n'] > (c['window'] or 1)


SUBS = [Sub('legacy', legacy_s, run_legacy, n=150, thorough=4000,
            rule='more results than fit the window (or more than one)'),
        Sub('history', case_s, run, n=500, thorough=20000,
            rule='more results than fit the window (or more than one), some not exact'),
        Sub('long', long_s, run, n=40, thorough=1000,
            rule='more results than fit the window (or more than one), some not exact'),
        Sub('legacy_matrix', st.nothing(), run_legacy, n=0, thorough=0, rule='known finding only'),
        Sub('weights', st.just({'w': 2.0}), run_weight, n=0, thorough=0, rule='known finding only')]
ASSUMPTIONS = ['unit weights (see the known finding); at least two labels']
