"""Prequential evaluation with delayed labels: causality and accounting."""
import numpy as np
from hypothesis import strategies as st

from vp import evalh
from vp.engine import Sub, require
from vp.gen import seeds

PROP = 'C15'
SCALE = 3
META = dict(
    title='Delayed evaluation never trains on a label before it is available',
    statement='EvaluatePrequentialDelayed over a TemporalDataStream trains on the first '
              'pretrain_size samples, then predicts every later sample exactly once on arrival, and '
              'scores and trains on it exactly once: before the first batch whose (last) arrival '
              'time is not before the label time of the sample, or when the stream has ended. A '
              'model never receives a label earlier, receives it with the features and weight of its '
              'own sample, and before the next batch is predicted all labels that are due have been '
              'learnt. Mean measurements are those of all predictions, each made at arrival; '
              'released samples are taken in label-time order. No sample is drawn once max_samples have been '
              'learnt. Regressors are never given classes; partial_fit and predict of the evaluator itself '
              'go to every model with all they were given.',
    quantifier=dict(over=['inputs', 'schedules', 'configurations'],
                    text='all arrival times and delays (zero, equal, out of order), batch and '
                         'pretrain sizes, weights, numbers of models'),
    why_tests_cant='Two data sets with constant delay are compared with stored results.',
    anchors=dict(files=['src/skmultiflow/evaluation/evaluate_prequential_delayed.py',
                        'src/skmultiflow/data/time_manager.py',
                        'src/skmultiflow/data/temporal_data_stream.py'],
                 mechanism=[dict(name='delayed loop and drain',
                                 where='EvaluatePrequentialDelayed._train_and_test')]),
    technique='PBT with recording models over generated delay schedules; a simulation of the '
              'documented schedule is the oracle',
)
cfg_s = st.fixed_dictionaries(dict(
    task=st.sampled_from(['clf', 'clf', 'reg', 'mlc', 'mtr']), n=st.integers(25, 110),
    k=st.integers(2, 4), m=st.integers(2, 3), seed=seeds, batch=st.sampled_from([1, 1, 2, 5, 9]),
    pretrain=st.sampled_from([0, 1, 6, 15]), n_wait=st.sampled_from([1, 7, 20, 200]),
    models=st.sampled_from([1, 1, 2, 2, 3, 4]), weighted=st.booleans(), restart=st.booleans(),
    gap=st.sampled_from([0, 1, 3]), delay=st.sampled_from([0, 1, 6, 40, 1000]),
    const=st.booleans(), max_samples=st.sampled_from([10 ** 6, 10 ** 6, 60, 33])))


def run(c, ctx):
    from skmultiflow.data import TemporalDataStream
    from skmultiflow.evaluation import EvaluatePrequentialDelayed
    n = c['n']
    X, y = evalh.data(c['task'], n, c['k'], c['m'], c['seed'])
    r = np.random.RandomState(c['seed'] ^ 0x5bd1e995)
    arrive = np.cumsum(r.randint(0, c['gap'] + 1, n)) if c['gap'] else np.arange(n)
    d = np.full(n, c['delay']) if c['const'] else r.randint(0, c['delay'] + 1, n)
    avail = arrive + d
    t0 = np.datetime64('2020-01-01T00:00:00')
    w = np.round(r.rand(n) + 0.5, 3)
    stream = TemporalDataStream(
        X.copy(), y.copy(), time=np.array([t0 + np.timedelta64(int(v), 's') for v in arrive]),
        sample_delay=np.array([t0 + np.timedelta64(int(v), 's') for v in avail]),
        sample_weight=w.copy() if c['weighted'] else None,
        n_targets=1 if y.ndim == 1 else y.shape[1])
    metrics = list(evalh.METRICS[c['task']])
    ev = EvaluatePrequentialDelayed(n_wait=c['n_wait'], batch_size=c['batch'], max_samples=c['max_samples'],
                                    pretrain_size=c['pretrain'], metrics=list(metrics),
                                    restart_stream=c['restart'])
    models = [evalh.Rec(i, c['task'], c['k'], c['m']) for i in range(c['models'])]
    got = ev.evaluate(stream=stream, model=models if len(models) > 1 else models[0])
    require(all(a is b for a, b in zip(got, models)), 'evaluate returned other models')
    # expected schedule: list of ('fit', set) / ('predict', ids)
    exp, waiting = [], []
    if c['pretrain']:
        exp.append(('fit', list(range(c['pretrain']))))
    pos, late = c['pretrain'], False
    learnt = c['pretrain']
    while pos < n and learnt < c['max_samples']:
        ids = list(range(pos, min(pos + c['batch'], n)))
        due = sorted([i for i in waiting if avail[i] <= arrive[ids[-1]]], key=lambda i: avail[i])
        if due:
            exp.append(('fit', due))
            learnt += len(due)
            waiting = [i for i in waiting if i not in due]
            late = late or bool(waiting)
        exp.append(('predict', ids))
        waiting += ids
        pos += c['batch']
    drain = sorted(waiting, key=lambda i: avail[i])
    cls = evalh.classes_of(c['task'], y)
    for mi, mdl in enumerate(models):
        log = mdl.log
        head = log[:len(exp)]
        for q, (e, (kind, ids)) in enumerate(zip(head, exp)):
            require(e[0] == kind, 'model %d call %d: %s %s, expected %s %s', mi, q, e[0], e[1], kind,
                    ids)
            if kind == 'fit' and q > 0 or (kind == 'fit' and not c['pretrain']):
                require(sorted(e[1]) == sorted(ids) and
                        [avail[i] for i in e[1]] == [avail[i] for i in ids],
                        'model %d call %d: trained on %s, expected %s', mi, q, e[1], ids)
            else:
                require(e[1] == ids, 'model %d call %d: %s %s, expected %s', mi, q, kind, e[1], ids)
        tail = log[len(exp):]
        require(len(head) == len(exp), 'model %d: only %d of %d calls', mi, len(head), len(exp))
        require(all(e[0] == 'fit' for e in tail), 'prediction after the end of the stream')
        td = [i for e in tail for i in e[1]]
        require(sorted(td) == sorted(drain) and [avail[i] for i in td] == [avail[i] for i in drain],
                'drained %s, expected %s', td, drain)
        first = True
        made, order = {}, []
        seen = 0
        for q, e in enumerate(log):
            if e[0] == 'predict':
                require(e[2] == seen, 'predicted with %d samples learnt, expected %d', e[2], seen)
                made.update(zip(e[1], e[3]))
            else:
                require(np.array_equal(e[2], y[e[1]]), 'samples %s trained with labels %s', e[1],
                        e[2].tolist())
                if c['weighted']:
                    require(e[4] is not None and np.allclose(e[4], w[e[1]]),
                            'samples %s trained with weights %s', e[1], e[4])
                if first and cls is not None:
                    require(e[3] is not None and sorted(e[3]) == cls,
                            'first training call got classes %s, expected %s', e[3], cls)
                first = False
                seen += len(e[1])
                if not (c['pretrain'] and q == 0):
                    order += e[1]
        res = [(y[i], made[i]) for i in order]
        evalh.check_measurements(ev, mi, c['task'], res, metrics, c['n_wait'], 'after evaluate')
    if c['restart']:
        require(stream.n_remaining_samples() == n, 'stream not rewound')
    else:
        require(max(stream.n_remaining_samples(), 0) == max(n - pos, 0), '%s samples remain, expected %s',
                stream.n_remaining_samples(), max(n - pos, 0))
    evalh.direct(ev, models, c['task'], X, y, c['k'], 'after evaluate')
    if pos < n:
        ctx.label('stopped by max_samples')
    if late:
        ctx.label('labels outstanding while others are released')
    return len(drain) < n - c['pretrain'] and len(drain) > 0


SUBS = [Sub('schedule', cfg_s, run, n=260, thorough=6000,
            rule='some labels were released during the stream and some at its end')]
ASSUMPTIONS = ['the stream is ordered by arrival time', 'no time limit',
               'max_samples is read as: no further samples are drawn once that many have been learnt; those drawn are '
               'still scored and learnt']
