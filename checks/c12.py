"""Regression metrics against recomputation from the raw results."""
import time

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close
from vp.gen import seeds

PROP = 'C12'
SCALE = 3
META = dict(
    title='Regression metrics equal their definition on the results added so far',
    statement='After any sequence of regression results, the single- and multi-target measurements '
              'report the mean squared error, mean absolute error (and, with several targets, their '
              'averages over targets and the average root mean squared error) of exactly the results '
              'added since creation or reset; the window variants those of exactly the last '
              'window_size results. The sample count and the last result are reported, 0 is '
              'returned when nothing was added, and a reset object behaves like a new one. The running '
              'time measurements are the sums of the spans measured, the total that of the last update.',
    quantifier=dict(over=['histories', 'inputs', 'configurations'],
                    text='all finite result sequences, scales, target counts, window sizes, resets'),
    why_tests_cant='One fixed sequence per class is tested, no reset and reuse, no long eviction.',
    anchors=dict(files=['src/skmultiflow/metrics/measure_collection.py'],
                 mechanism=[dict(name='running sums', where='RegressionMeasurements.add_result'),
                            dict(name='eviction corrections',
                                 where='Window(MultiTarget)RegressionMeasurements.add_result')]),
    technique='differential PBT against recomputation from the raw result list',
)
case_s = st.fixed_dictionaries(dict(
    window=st.sampled_from([None, 1, 2, 3, 10, 30]), targets=st.integers(0, 4), n=st.integers(1, 80),
    seed=seeds, scale=st.sampled_from([1e-3, 1.0, 1.0, 1e4]), bias=st.sampled_from([0.0, 1.0, -50.0]),
    bursts=st.booleans(), ints=st.booleans(), resets=st.lists(st.integers(0, 70), max_size=2), every=st.just(1)))
long_s = st.fixed_dictionaries(dict(
    window=st.sampled_from([None, 60, 100, 200, 200, 300]), targets=st.integers(0, 3),
    n=st.integers(250, 900), seed=seeds, scale=st.sampled_from([1.0, 1e4]),
    bias=st.sampled_from([0.0, 1.0, -50.0]), bursts=st.booleans(), ints=st.booleans(),
    resets=st.lists(st.integers(100, 400), max_size=1), every=st.sampled_from([37, 53])))


def run(c, ctx):
    from skmultiflow.metrics import (MultiTargetRegressionMeasurements, RegressionMeasurements,
                                     WindowMultiTargetRegressionMeasurements,
                                     WindowRegressionMeasurements)
    multi, win = c['targets'] > 0, c['window']
    if multi:
        m = WindowMultiTargetRegressionMeasurements(window_size=win) if win else \
            MultiTargetRegressionMeasurements()
    else:
        m = WindowRegressionMeasurements(window_size=win) if win else RegressionMeasurements()
    rows, mx = [], 0.0

    def compare(where):
        tol = 1e-10 * max(mx * mx, mx) + 1e-12
        if not rows:
            exp = dict(mse=0.0, mae=0.0, rmse=0.0)
        else:
            e = np.array([np.atleast_1d(t - p) for t, p in rows], dtype=float)
            exp = dict(mse=np.mean(e ** 2), mae=np.mean(np.abs(e)),
                       rmse=np.mean(np.sqrt(np.mean(e ** 2, axis=0))))
        if multi:
            require_close(m.get_average_mean_square_error(), exp['mse'], where + ': MSE', atol=tol)
            require_close(m.get_average_absolute_error(), exp['mae'], where + ': MAE', atol=tol)
            require_close(m.get_average_root_mean_square_error(), exp['rmse'], where + ': RMSE',
                          rtol=1e-6, atol=max(np.sqrt(tol), 1e-6))
            cnt = m._sample_count
        else:
            require_close(m.get_mean_square_error(), exp['mse'], where + ': MSE', atol=tol)
            require_close(m.get_average_error(), exp['mae'], where + ': MAE', atol=tol)
            cnt = m.sample_count
        require(cnt == len(rows), '%s: sample count %s, expected %d', where, cnt, len(rows))
        t, p = m.get_last()
        if rows:
            require_close(t, rows[-1][0], where + ': last true')
            require_close(p, rows[-1][1], where + ': last prediction')
        else:
            require(t is None and p is None, '%s: get_last %s with nothing added', where, (t, p))

    r = np.random.RandomState(c['seed'])
    compare('new')
    for i in range(c['n']):
        if i in c['resets']:
            m.reset()
            rows, mx = [], 0.0
            compare('after reset')
        size = (c['targets'],) if multi else ()
        s = c['scale'] * (100.0 if c['bursts'] and r.rand() < 0.05 else 1.0)
        t = r.randn(*size) * s
        p = t + r.randn(*size) * s * 0.3 + c['bias'] * c['scale']
        if c['ints']:
            t, p = np.round(t), np.round(p)
        if not multi:
            t, p = float(t), float(p)
        mx = max(mx, float(np.max(np.abs(np.asarray(t) - p))))
        m.add_result(t if not multi else t.copy(), p if not multi else p.copy())
        rows = (rows + [(t, p)])[-(win or 10 ** 9):]
        if i % c['every'] == 0 or i == c['n'] - 1:
            compare('after %d results' % (i + 1))
    return c['n'] > (win or 1)


times_s = st.fixed_dictionaries(dict(
    ops=st.lists(st.tuples(st.sampled_from(['train', 'test', 'train', 'test', 'update', 'reset']),
                           st.sampled_from([0, 0, 1, 3])), min_size=2, max_size=12)))


def run_times(c, ctx):
    """the reported times lie between a clock inside and a clock outside the measured span"""
    from skmultiflow.metrics import RunningTimeMeasurements
    m = RunningTimeMeasurements()
    lo, hi, tot = dict(train=0.0, test=0.0), dict(train=0.0, test=0.0), (0.0, 0.0)
    spans = 0
    for op, ms in c['ops']:
        if op == 'reset':
            m.reset()
            lo, hi, tot = dict(train=0.0, test=0.0), dict(train=0.0, test=0.0), (0.0, 0.0)
        elif op == 'update':
            m.update_time_measurements(ms)
            tot = (sum(lo.values()), sum(hi.values()))
        else:
            a = time.perf_counter()
            (m.compute_training_time_begin if op == 'train' else m.compute_testing_time_begin)()
            b = time.perf_counter()
            time.sleep(ms / 1000)
            d = time.perf_counter()
            (m.compute_training_time_end if op == 'train' else m.compute_testing_time_end)()
            e = time.perf_counter()
            lo[op] += d - b
            hi[op] += e - a
            spans += 1
        for what, got, (x, y) in (
                ('training', m.get_current_training_time(), (lo['train'], hi['train'])),
                ('testing', m.get_current_testing_time(), (lo['test'], hi['test'])),
                ('total', m.get_current_total_running_time(), tot)):
            require(x - 1e-4 <= got <= y + 1e-4, 'after %s: %s time %s outside [%s, %s]', op, what,
                    got, x, y)
    return spans > 1


SUBS = [Sub('times', times_s, run_times, n=60, thorough=600, rule='at least two spans measured'),
        Sub('history', case_s, run, n=500, thorough=20000,
            rule='more results than fit the window (or more than one)'),
        Sub('long', long_s, run, n=60, thorough=1000,
            rule='more results than fit the window (or more than one)')]
ASSUMPTIONS = ['finite values; tolerance scales with the largest error seen (running sums)']
