"""Prequential evaluation: order of testing and training, accounting."""
import time

import numpy as np
from hypothesis import strategies as st

from vp import evalh
from vp.engine import Sub, require
from vp.gen import seeds

PROP = 'C13'
SCALE = 3
META = dict(
    title='Prequential evaluation tests every sample before training on it, once',
    statement='EvaluatePrequential trains every model on the first pretrain_size samples (never '
              'testing on them), then takes the stream in batches: every sample is predicted exactly '
              'once by every model, before any model is trained on it, and is then used for training '
              'exactly once, in stream order, until max_samples is reached (ending with the batch '
              'that reaches it) or the stream ends. All compared models see the same data. The first '
              'training call of a classification task carries all class values of the stream. The '
              'mean measurements are those of all predictions made, the current ones those of the '
              'last n_wait. The stream is rewound at the end if restart_stream, else left where it '
              'is; the models passed in are the ones trained and returned; an evaluator can be used '
              'again and then starts from nothing. Regressors are never given classes. partial_fit and '
              'predict of the evaluator itself go to every model with all they were given.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'],
                    text='all streams (finite or endless), task types, batch and pretrain sizes, '
                         'limits, numbers of models, repeated use'),
    why_tests_cant='Tests evaluate fixed pairs of stream and learner with default sizes and compare '
                   'final scores; order and accounting are only visible to an instrumented model '
                   'under many size combinations.',
    anchors=dict(files=['src/skmultiflow/evaluation/evaluate_prequential.py',
                        'src/skmultiflow/evaluation/base_evaluator.py'],
                 mechanism=[dict(name='test-then-train loop',
                                 where='EvaluatePrequential._train_and_test')]),
    technique='PBT with recording models: the observed call log is compared with the order the '
              'statement prescribes and metrics are recomputed from it',
)
cfg_s = st.fixed_dictionaries(dict(
    task=st.sampled_from(['clf', 'clf', 'reg', 'mlc', 'mtr']), n=st.integers(25, 160),
    k=st.integers(2, 4), m=st.integers(2, 3), seed=seeds, batch=st.sampled_from([1, 1, 2, 3, 7, 20]),
    pretrain=st.sampled_from([0, 0, 1, 5, 20]), n_wait=st.sampled_from([1, 4, 10, 30, 200]),
    max_samples=st.sampled_from([10 ** 6, 10 ** 6, 60, 41, 20]), models=st.integers(1, 4),
    restart=st.booleans(), warm=st.sampled_from([0, 0, 4]), again=st.booleans(),
    endless=st.sampled_from([False, False, False, True])))

large_s = st.fixed_dictionaries(dict(
    task=st.sampled_from(['clf', 'reg', 'mlc', 'mtr']), n=st.integers(620, 900),
    k=st.integers(2, 4), m=st.integers(2, 3), seed=seeds, batch=st.sampled_from([1, 7, 50]),
    pretrain=st.sampled_from([0, 30]), n_wait=st.sampled_from([250, 300, 512]),
    max_samples=st.just(10 ** 6), models=st.integers(1, 2), restart=st.booleans(), warm=st.just(0),
    again=st.booleans(), endless=st.just(False)))


def endless_stream(X, y, k):
    from skmultiflow.data.base_stream import Stream

    class S(Stream):
        def __init__(self):
            super().__init__()
            self.n_targets, self.n_features, self.n_classes = 1, 3, k
            self.target_values = list(range(k))
            self.i = 0

        def next_sample(self, batch_size=1):
            idx = np.arange(self.i, self.i + batch_size)
            self.i += batch_size
            A = X[idx % len(X)].copy()
            A[:, 0] = idx
            self.current_sample_x, self.current_sample_y = A, y[idx % len(X)]
            return self.current_sample_x, self.current_sample_y

        def n_remaining_samples(self):
            return -1

        def has_more_samples(self):
            return True

        def restart(self):
            self.i = 0

        def get_data_info(self):
            return 'S'

        def get_info(self):
            return 'S'

        def _prepare_for_use(self):
            pass

        def is_restartable(self):
            return True
    return S()


def batches(start, stop_at, limit, size):
    """index ranges handed out from `start` until the count reaches stop_at or the data ends"""
    out, pos = [], start
    while pos < stop_at and pos < limit:
        out.append((pos, min(pos + size, limit)))
        pos += size
    return out


def make_stream(c, X, y):
    from skmultiflow.data import DataStream
    if c['endless'] and c['task'] == 'clf':
        return endless_stream(X, y, c['k'])
    return DataStream(X.copy(), y.copy(), n_targets=1 if y.ndim == 1 else y.shape[1])


def once(c, ev, stream, models, X, y, first, metrics):
    """One evaluation starting at the stream position `first`; returns index ranges tested."""
    endless = c['endless'] and c['task'] == 'clf'
    n = len(X)
    limit = 10 ** 9 if endless else n
    remaining = limit - first
    stop = min(c['max_samples'], remaining) if not endless else c['max_samples']
    stop = min(stop, 10 ** 9)
    for mdl in models:
        mdl.log = []
    got = ev.evaluate(stream=stream, model=models if len(models) > 1 else models[0])
    require(isinstance(got, list) and len(got) == len(models)
            and all(a is b for a, b in zip(got, models)), 'evaluate returned other models')
    pre = (first, min(first + c['pretrain'], limit))
    bl = batches(first + c['pretrain'], first + stop, limit, c['batch'])
    Y = (lambda i: y[i % n])
    cls = evalh.classes_of(c['task'], y) if not endless else list(range(c['k']))
    for mi, mdl in enumerate(models):
        log = mdl.log
        exp = []
        if c['pretrain']:
            exp.append(('fit', pre))
        for b in bl:
            exp.append(('predict', b))
            exp.append(('fit', b))
        require([(e[0], e[1]) for e in log] == [(k, list(range(*b))) for k, b in exp],
                'model %d: calls %s, expected %s', mi, brief(log), [(k, b) for k, b in exp][:12])
        fits = [e for e in log if e[0] == 'fit']
        for e in fits:
            require(np.array_equal(e[2], np.array([Y(i) for i in e[1]])),
                    'model %d trained on %s with labels %s', mi, e[1], e[2].tolist())
        if cls is not None and fits:
            got_c = fits[0][3]
            require(got_c is not None and sorted(got_c) == cls,
                    'first training call of model %d got classes %s, expected %s', mi, got_c, cls)
    res = []
    for mi, mdl in enumerate(models):
        r = []
        for e in mdl.log:
            if e[0] == 'predict':
                r += [(Y(i), p) for i, p in zip(e[1], e[3])]
        res.append(r)
        evalh.check_measurements(ev, mi, c['task'], r, metrics, c['n_wait'], 'after evaluate')
    # the models were trained on everything before
    for mdl in models:
        seen = mdl.base
        for e in mdl.log:
            if e[0] == 'predict':
                require(e[2] == seen, 'prediction made with a model trained on %d samples, expected '
                                      '%d', e[2], seen)
            else:
                seen += len(e[1])
        mdl.base = seen
    return bl, res


def brief(log):
    return [(e[0], (e[1][0], e[1][-1]) if e[1] else ()) for e in log[:12]]


def run(c, ctx):
    from skmultiflow.evaluation import EvaluatePrequential
    X, y = evalh.data(c['task'], c['n'], c['k'], c['m'], c['seed'])
    endless = c['endless'] and c['task'] == 'clf'
    if endless:
        c['max_samples'] = min(c['max_samples'], 90)
    warm = 0 if c['n'] - c['warm'] < 25 else c['warm']
    if c['pretrain'] >= min(c['max_samples'], c['n'] - warm):
        c['pretrain'] = 0
    stream = make_stream(c, X, y)
    if warm:
        stream.next_sample(warm)
    metrics = [m for m in evalh.METRICS[c['task']]]
    given = list(metrics)
    ev = EvaluatePrequential(n_wait=c['n_wait'], max_samples=c['max_samples'],
                             batch_size=c['batch'], pretrain_size=c['pretrain'], metrics=given,
                             restart_stream=c['restart'])
    models = [evalh.Rec(i, c['task'], c['k'], c['m']) for i in range(c['models'])]
    for mdl in models:
        mdl.base = 0
    bl, _ = once(c, ev, stream, models, X, y, warm, metrics)
    if not endless:
        exp = len(X) if c['restart'] else len(X) - warm - c['pretrain'] - len(bl) * c['batch']
        require(max(stream.n_remaining_samples(), 0) == max(exp, 0),
                '%s samples remain after evaluation, expected %s', stream.n_remaining_samples(), exp)
        require(stream.has_more_samples() == (exp > 0), 'has_more_samples %s',
                stream.has_more_samples())
    else:
        require(stream.i == (0 if c['restart'] else warm + c['pretrain'] + len(bl) * c['batch']),
                'stream left at %d', stream.i)
    if c['again'] and c['restart']:
        ctx.label('reused')
        once(c, ev, stream, models, X, y, 0, metrics)
    ctx.label(c['task'])
    if not endless:
        evalh.direct(ev, models, c['task'], X, y, c['k'], 'after evaluate')
    return len(bl) > 1


time_s = st.fixed_dictionaries(dict(
    which=st.sampled_from(['preq', 'hold', 'delay']), batch=st.sampled_from([1, 5]),
    limit=st.sampled_from([0.05, 0.1, 0.2]), n=st.just(3000)))


def run_time(c, ctx):
    """no batch is started once the time is over, none is left out before"""
    from skmultiflow import evaluation as E
    from skmultiflow.data import DataStream, TemporalDataStream
    X, y = evalh.data('clf', c['n'], 2, 2, 1)
    at, left = [], []

    class Slow(evalh.Rec):
        def partial_fit(self, X, y, classes=None, sample_weight=None):
            time.sleep(0.004)
            return super().partial_fit(X, y, classes, sample_weight)

    class S(TemporalDataStream if c['which'] == 'delay' else DataStream):
        def next_sample(self, batch_size=1):
            at.append(time.perf_counter())
            left.append(self.n_remaining_samples())
            return super().next_sample(batch_size)

    kw = dict(max_time=c['limit'], batch_size=c['batch'], n_wait=50, metrics=['accuracy'],
              restart_stream=False)
    if c['which'] == 'delay':
        t = np.datetime64('2020-01-01T00:00:00') + np.arange(c['n']).astype('timedelta64[s]')
        stream = S(X, y, time=t, sample_delay=t + np.timedelta64(1, 's'))
        ev = E.EvaluatePrequentialDelayed(pretrain_size=0, **kw)
    else:
        stream = S(X, y)
        ev = E.EvaluatePrequential(pretrain_size=0, **kw) if c['which'] == 'preq' else \
            E.EvaluateHoldout(test_size=20, **kw)
    begin = time.perf_counter()
    ev.evaluate(stream=stream, model=Slow(0, 'clf', 2, 2))
    end = time.perf_counter()
    require(stream.n_remaining_samples() > 0, 'the whole stream (12 s) was used in %s s', end - begin)
    # the evaluation starts its clock after begin; a batch takes about 4 ms, so 2 s is generous
    require(at[-1] - begin < c['limit'] + 2.0, 'a batch was drawn %.3f s into an evaluation of at '
            'most %.3f s', at[-1] - begin, c['limit'])
    require(end - begin >= c['limit'], 'stopped after %.4f of %s s', end - begin, c['limit'])
    return True


def run_unused(c, ctx):
    from skmultiflow import evaluation as E
    ev = {'preq': E.EvaluatePrequential, 'hold': E.EvaluateHoldout, 'delay': E.EvaluatePrequentialDelayed}[c['which']]()
    require(ev.predict(np.zeros((2, 2))) is None, 'an evaluator without a model predicts')
    require(ev.partial_fit(np.zeros((2, 2)), np.zeros(2)) is ev, 'partial_fit of an evaluator without a model')
    return True


SUBS = [Sub('order', cfg_s, run, n=320, thorough=8000,
            rule='the evaluation took more than one batch after pre-training'),
        Sub('large', large_s, run, n=20, thorough=300, rule='the evaluation took more than one batch after pre-training'),
        Sub('time', time_s, run_time, n=9, thorough=60, rule='every evaluation, stopped by its time limit'),
        Sub('unused', st.fixed_dictionaries(dict(which=st.sampled_from(['preq', 'hold', 'delay']))), run_unused,
            n=6, thorough=6, rule='every evaluator')]
ASSUMPTIONS = ['at least 20 samples are processed (documented minimum)',
               'at least one sample is left after pre-training',
               'a time limit is judged with a slack of 2 s']
