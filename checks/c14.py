"""Holdout evaluation: separation of test and training data, test moments, accounting."""
import numpy as np
from hypothesis import strategies as st

from vp import evalh
from vp.engine import Sub, require
from vp.gen import seeds

PROP = 'C14'
SCALE = 3
META = dict(
    title='Holdout evaluation never trains on its test samples and tests when due',
    statement='EvaluateHoldout with a fixed test set holds out the first test_size samples, trains '
              'every model on all following samples once and in order, batch by batch, and tests all '
              'models on the whole held-out set each time another n_wait training samples (n_wait a '
              'multiple of the batch size) have been used, and when the sample limit or the end of '
              'the stream is reached. With a dynamic test set each test uses the next test_size '
              'samples of the stream (fewer at its end), which are never used for training. Test '
              'samples are never trained on; predictions are made by models trained on all training '
              'samples delivered so far. Mean measurements cover all tests, current measurements the '
              'last test_size predictions. The first training call of a classification task carries '
              'all class values; regressors are never given classes. partial_fit and predict of the '
              'evaluator itself go to every model with all they were given.',
    quantifier=dict(over=['inputs', 'configurations'],
                    text='all finite streams, task types, test sizes, batch sizes, n_wait, limits, '
                         'numbers of models, both test-set modes'),
    why_tests_cant='One stream with one configuration per mode is compared with a stored result.',
    anchors=dict(files=['src/skmultiflow/evaluation/evaluate_holdout.py',
                        'src/skmultiflow/evaluation/base_evaluator.py'],
                 mechanism=[dict(name='holdout loop', where='EvaluateHoldout._periodic_holdout')]),
    technique='PBT with recording models: the observed call log is compared with the prescribed one, '
              'metrics are recomputed from it',
)
cfg_s = st.fixed_dictionaries(dict(
    task=st.sampled_from(['clf', 'clf', 'reg', 'mlc', 'mtr']), n=st.integers(40, 200),
    k=st.integers(2, 4), m=st.integers(2, 3), seed=seeds, batch=st.sampled_from([1, 1, 2, 5]),
    waits=st.integers(1, 12), test_size=st.sampled_from([1, 3, 10, 15]),
    max_samples=st.sampled_from([10 ** 6, 10 ** 6, 100, 61]), models=st.sampled_from([1, 1, 2, 2, 3, 4]),
    dynamic=st.booleans(), restart=st.booleans(), file=st.booleans()))


def plan(c):
    """expected calls: list of (kind, lo, hi) and the sample count at each test"""
    n, b, ts = c['n'], c['batch'], c['test_size']
    stop = min(c['max_samples'], n)
    wait = c['waits'] * b
    pos = count = 0
    calls, tests = [], []
    if not c['dynamic']:
        held = (0, ts)
        pos = count = ts
    while count < stop and pos < n:
        calls.append(('fit', pos, min(pos + b, n)))
        pos += b
        count += b
        if c['dynamic']:
            due = count >= wait * (len(tests) + 1) + ts * len(tests)
        else:
            due = (count - ts) % wait == 0
        if due or count >= stop:
            if c['dynamic']:
                held = (min(pos, n), min(pos + ts, n))
                pos += ts
                count += held[1] - held[0]
            calls.append(('predict',) + held)
            tests.append(count)
    return calls, tests, pos


def run_holdout(c, path=None, metrics=None):
    from skmultiflow.data import DataStream
    from skmultiflow.evaluation import EvaluateHoldout
    X, y = evalh.data(c['task'], c['n'], c['k'], c['m'], c['seed'])
    stream = DataStream(X.copy(), y.copy(), n_targets=1 if y.ndim == 1 else y.shape[1])
    metrics = metrics or list(evalh.METRICS[c['task']])
    ev = EvaluateHoldout(n_wait=c['waits'] * c['batch'], max_samples=c['max_samples'],
                         batch_size=c['batch'], metrics=list(metrics), output_file=path,
                         restart_stream=c['restart'], test_size=c['test_size'],
                         dynamic_test_set=c['dynamic'])
    models = [evalh.Rec(i, c['task'], c['k'], c['m']) for i in range(c['models'])]
    got = ev.evaluate(stream=stream, model=models if len(models) > 1 else models[0])
    require(isinstance(got, list) and len(got) == len(models)
            and all(a is b for a, b in zip(got, models)), 'evaluate returned other models')
    return ev, stream, models, X, y, metrics


def run(c, ctx):
    ev, stream, models, X, y, metrics = run_holdout(c)
    calls, tests, pos = plan(c)
    cls = evalh.classes_of(c['task'], y)
    for mi, mdl in enumerate(models):
        log = [e for e in mdl.log if e[1]]
        exp = [(k, list(range(a, b))) for k, a, b in calls if b > a]
        require([(e[0], e[1]) for e in log] == exp, 'model %d: calls %s, expected %s', mi,
                [(e[0], (e[1][0], e[1][-1])) for e in log][:25], [(k, a, b) for k, a, b in calls][:25])
        seen, res = 0, []
        for e in log:
            if e[0] == 'fit':
                require(np.array_equal(e[2], y[e[1]]), 'labels %s for samples %s', e[2].tolist(), e[1])
                if seen == 0 and cls is not None:
                    require(e[3] is not None and sorted(e[3]) == cls,
                            'first training call got classes %s, expected %s', e[3], cls)
                seen += len(e[1])
            else:
                require(e[2] == seen, 'tested with a model trained on %d of %d', e[2], seen)
                res += [(y[i], p) for i, p in zip(e[1], e[3])]
        evalh.check_measurements(ev, mi, c['task'], res, metrics, c['test_size'], 'after evaluate')
    require(stream.n_remaining_samples() == (c['n'] if c['restart'] else c['n'] - pos),
            '%d samples remain, expected %d', stream.n_remaining_samples(), c['n'] - pos)
    evalh.direct(ev, models, c['task'], X, y, c['k'], 'after evaluate')
    ctx.label('dynamic' if c['dynamic'] else 'fixed')
    return len(tests) > 1


SUBS = [Sub('order', cfg_s, run, n=320, thorough=8000, rule='at least two tests were made')]
ASSUMPTIONS = ['n_wait is a multiple of batch_size', 'at least 20 samples are processed',
               'no time limit']
