"""The evaluators' output file."""
import os

import numpy as np
from hypothesis import strategies as st

from checks import c13, c14
from vp import evalh
from vp.engine import Sub, require
from vp.gen import seeds

PROP = 'C16'
SCALE = 2
META = dict(
    title='The evaluation log records every due measurement once, with true values',
    statement='The output file of a prequential or holdout evaluation has one commented '
              'configuration block, one header naming the requested metrics for every model in '
              'order, and one row per measurement with strictly increasing ids. Prequential: there '
              'is a row for every sample count that is a multiple of n_wait at a batch boundary and '
              'for the end of the evaluation (and in between whenever the log has fallen behind one row per '
              'n_wait samples), its id is the number of samples processed before the '
              'last batch, its mean columns are the metrics over all predictions up to that point '
              'and its current columns those of the last n_wait predictions (to 6 decimals). '
              'Holdout: there is exactly one row per test, with the number of samples used so far. '
              'Delayed: rows are due by the number of labels learnt and cover all labels scored. '
              'Rows are complete whatever their number, also when an evaluator is used again. The data buffer behind the log '
              'returns exactly what was stored for the current sample and nothing from an earlier one.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'],
                    text='all metric selections, model counts, n_wait, batch and pretrain sizes, '
                         'row counts beyond the write buffer'),
    why_tests_cant='Stored output files of a few configurations are compared.',
    anchors=dict(files=['src/skmultiflow/evaluation/base_evaluator.py',
                        'src/skmultiflow/evaluation/evaluation_data_buffer.py',
                        'src/skmultiflow/evaluation/evaluate_prequential.py',
                        'src/skmultiflow/evaluation/evaluate_holdout.py'],
                 mechanism=[dict(name='rows', where='_update_metrics, _update_file'),
                            dict(name='write buffer', where='_flush_file_buffer')]),
    technique='PBT: generated evaluations with recording models; every row of the file is recomputed '
              'from the recorded predictions',
)


def metrics_s(task):
    return st.lists(st.sampled_from(evalh.METRICS[task] + ['running_time', 'model_size']),
                    min_size=1, max_size=6, unique=True)


def pick(task):
    return st.tuples(st.just(task), metrics_s(task))


case_s = st.fixed_dictionaries(dict(
    tm=st.sampled_from(['clf', 'clf', 'reg', 'mlc', 'mtr']).flatmap(pick),
    n=st.sampled_from([30, 60, 150, 260]), k=st.integers(2, 4), m=st.integers(2, 3), seed=seeds,
    batch=st.sampled_from([1, 1, 2, 3, 7]), pretrain=st.sampled_from([0, 0, 3, 20]),
    n_wait=st.sampled_from([1, 2, 5, 10, 10, 64]), max_samples=st.sampled_from([10 ** 6, 100, 41]),
    models=st.integers(1, 4), names=st.booleans(), again=st.booleans(),
    holdout=st.sampled_from([False, False, True]), waits=st.integers(1, 9),
    test_size=st.sampled_from([2, 6, 12]), dynamic=st.booleans()))


def usable(c):
    ms = [m for m in c['metrics'] if m not in ('running_time', 'model_size')]
    if not [m for m in ms if m != 'true_vs_predicted']:
        c['metrics'] = [evalh.METRICS[c['task']][0]] + c['metrics']


def run(c, ctx):
    from skmultiflow.data import DataStream
    from skmultiflow.evaluation import EvaluatePrequential
    c['task'], c['metrics'] = c['tm']
    usable(c)
    path = os.path.join(ctx.tmpdir(), 'out.csv')
    if c['holdout']:
        return run_holdout(c, path, ctx)
    X, y = evalh.data(c['task'], c['n'], c['k'], c['m'], c['seed'])
    if c['pretrain'] >= min(c['max_samples'], c['n']):
        c['pretrain'] = 0
    names = ['m-%d' % i for i in range(c['models'])] if c['names'] else \
        ['M%d' % i for i in range(c['models'])]
    ev = EvaluatePrequential(n_wait=c['n_wait'], max_samples=c['max_samples'],
                             batch_size=c['batch'], pretrain_size=c['pretrain'],
                             metrics=list(c['metrics']), output_file=path)
    stop = min(c['max_samples'], c['n'])
    for rep in range(2 if c['again'] else 1):
        models = [evalh.Rec(i, c['task'], c['k'], c['m']) for i in range(c['models'])]
        stream = DataStream(X.copy(), y.copy(), n_targets=1 if y.ndim == 1 else y.shape[1])
        ev.evaluate(stream=stream, model=models, model_names=list(names) if c['names'] else None)
        header, rows = evalh.read_file(path)
        want = evalh.header_of(c['metrics'], names)
        require(header == want, 'header %s, expected %s', header, want)
        bl = c13.batches(c['pretrain'], stop, c['n'], c['batch'])
        counts = [c['pretrain'] + (i + 1) * c['batch'] for i in range(len(bl))]
        ids = [r[0] for r in rows]
        require(all(a < b for a, b in zip(ids, ids[1:])), 'row ids %s', ids)
        due = [q for q in counts if q % c['n_wait'] == 0 or q == counts[-1]]
        miss = [q for q in due if q - c['batch'] not in ids]
        require(not miss, 'no row at sample counts %s (rows %s)', miss, ids[:40])
        extra = [q for q in ids if q + c['batch'] not in counts]
        require(not extra, 'rows at ids %s which are not batch boundaries', extra)
        # between the multiples, rows are written only (and always) when the log has fallen behind
        # one row per n_wait samples
        written = []
        for q in counts:
            if q in due or q / c['n_wait'] > len(written) + 1:
                written.append(q - c['batch'])
        require(ids == written, 'row ids %s, expected %s', ids[:40], written[:40])
        res = []
        for mdl in models:
            res.append([(y[i], p) for e in mdl.log if e[0] == 'predict' for i, p in zip(e[1], e[3])])
        r = np.random.RandomState(c['seed'])
        for q, row in enumerate(rows):
            if len(rows) > 25 and q not in (0, len(rows) - 1) and r.rand() > 25.0 / len(rows):
                continue
            upto = min(row[0] + c['batch'], c['n']) - c['pretrain']
            evalh.check_row(header, row, c['task'], c['metrics'], names, [a[:upto] for a in res],
                            c['n_wait'], 'row id %d' % row[0])
    if os.path.getsize(path) > 9000:
        ctx.label('beyond the write buffer')
    return len(rows) > 2


def run_holdout(c, path, ctx):
    c['restart'] = True
    if c['n'] < 60:
        c['n'] = 60
    ev, stream, models, X, y, metrics = c14.run_holdout(c, path, list(c['metrics']))
    calls, tests, pos = c14.plan(c)
    header, rows = evalh.read_file(path)
    names = ['M%d' % i for i in range(c['models'])]
    want = evalh.header_of(c['metrics'], names)
    require(header == want, 'header %s, expected %s', header, want)
    sizes = [b - a for k, a, b in calls if k == 'predict']
    require([r[0] for r in rows] == tests, 'holdout row ids %s, expected %s', [r[0] for r in rows],
            tests)
    for q, row in enumerate(rows):
        if q and sizes[q] == 0:
            continue
        upto = sum(sizes[:q + 1])
        if not upto:
            continue
        res = [[(y[i], p) for e in mdl.log if e[0] == 'predict' for i, p in zip(e[1], e[3])][:upto]
               for mdl in models]
        evalh.check_row(header, row, c['task'], c['metrics'], names, res, c['test_size'],
                        'test %d' % q)
    ctx.label('holdout')
    return len(rows) > 1


delayed_s = st.fixed_dictionaries(dict(
    tm=st.sampled_from(['clf', 'reg', 'mlc', 'mtr']).flatmap(pick),
    n=st.sampled_from([30, 60, 120]), k=st.integers(2, 3), m=st.integers(2, 3), seed=seeds,
    batch=st.sampled_from([1, 1, 2, 3, 7]), pretrain=st.sampled_from([0, 0, 3, 12]),
    n_wait=st.sampled_from([1, 2, 5, 10, 64, 200]), models=st.integers(1, 3), names=st.booleans(),
    delay=st.sampled_from([0, 1, 9, 1000]), const=st.booleans()))


def run_delayed(c, ctx):
    """delayed evaluation: rows follow the labels scored, not the samples predicted"""
    from skmultiflow.data import TemporalDataStream
    from skmultiflow.evaluation import EvaluatePrequentialDelayed
    c['task'], c['metrics'] = c['tm']
    c['metrics'] = [m for m in c['metrics'] if m != 'running_time']
    usable(c)
    path = os.path.join(ctx.tmpdir(), 'out.csv')
    n = c['n']
    X, y = evalh.data(c['task'], n, c['k'], c['m'], c['seed'])
    r = np.random.RandomState(c['seed'] ^ 0x5bd1e995)
    d = np.full(n, c['delay']) if c['const'] else r.randint(0, c['delay'] + 1, n)
    t0 = np.datetime64('2020-01-01T00:00:00')
    stream = TemporalDataStream(
        X.copy(), y.copy(), time=np.array([t0 + np.timedelta64(i, 's') for i in range(n)]),
        sample_delay=np.array([t0 + np.timedelta64(int(i + d[i]), 's') for i in range(n)]),
        n_targets=1 if y.ndim == 1 else y.shape[1])
    names = ['m-%d' % i for i in range(c['models'])] if c['names'] else \
        ['M%d' % i for i in range(c['models'])]
    ev = EvaluatePrequentialDelayed(n_wait=c['n_wait'], batch_size=c['batch'],
                                    pretrain_size=c['pretrain'], metrics=list(c['metrics']),
                                    output_file=path)
    models = [evalh.Rec(i, c['task'], c['k'], c['m']) for i in range(c['models'])]
    ev.evaluate(stream=stream, model=models, model_names=list(names) if c['names'] else None)
    header, rows = evalh.read_file(path)
    want = evalh.header_of(c['metrics'], names)
    require(header == want, 'header %s, expected %s', header, want)
    # groups of samples whose labels were released together: scored, then learnt
    groups = [e[1] for e in models[0].log if e[0] == 'fit'][1 if c['pretrain'] else 0:]
    learnt, scored, exp = c['pretrain'], 0, []
    for g in groups:
        scored += len(g)
        if learnt % c['n_wait'] == 0 or learnt >= n or learnt / c['n_wait'] > len(exp) + 1:
            exp.append((learnt - c['batch'], scored))
        learnt += len(g)
    if not exp:
        exp.append((learnt - c['batch'], scored))
    require([q[0] for q in rows] == [q[0] for q in exp], 'row ids %s, expected %s',
            [q[0] for q in rows][:40], [q[0] for q in exp][:40])
    res = []
    for mdl in models:
        made = {i: p for e in mdl.log if e[0] == 'predict' for i, p in zip(e[1], e[3])}
        res.append([(y[i], made[i]) for g in groups for i in g])
    for q, row in enumerate(rows):
        if len(rows) > 25 and q not in (0, len(rows) - 1) and r.rand() > 25.0 / len(rows):
            continue
        evalh.check_row(header, row, c['task'], c['metrics'], names, [a[:exp[q][1]] for a in res],
                        c['n_wait'], 'row id %d' % row[0])
    return len(rows) > 1


def run_buffer(c, ctx):
    from skmultiflow.evaluation.evaluation_data_buffer import EvaluationDataBuffer
    for bad, err in (({}, ValueError), ([], TypeError), (None, TypeError)):
        try:
            EvaluationDataBuffer(bad)
        except err:
            continue
        require(False, 'EvaluationDataBuffer(%r) is accepted', bad)
    layout = {'m%d' % i: ['d%d' % j for j in range(k)] for i, k in enumerate(c['layout'])}
    buf = EvaluationDataBuffer({k: list(v) for k, v in layout.items()})
    want, now, cleared = {}, None, False
    for sid, mi, di, val in c['ops']:
        m = 'm%d' % (mi % len(layout))
        d = layout[m][di % len(layout[m])]
        if sid != now:
            cleared = cleared or bool(want)
            want, now = {}, sid
        value = [val, val + 1] if val % 2 else val
        buf.update_data(sample_id=sid, metric_id=m, data_id=d, value=value)
        want[m, d] = value
        for a in layout:
            for b in layout[a]:
                got = buf.get_data(metric_id=a, data_id=b)
                require(got == want.get((a, b)), 'sample %s: %s/%s is %s, stored %s', sid, a, b, got, want.get((a, b)))
    return cleared


SUBS = [Sub('buffer', st.fixed_dictionaries(dict(
            layout=st.lists(st.integers(1, 3), min_size=1, max_size=4),
            ops=st.lists(st.tuples(st.integers(-1, 3), st.integers(0, 5), st.integers(0, 5), st.integers(-9, 9)),
                         min_size=1, max_size=25))), run_buffer, n=300, thorough=3000, rule='a later sample follows'),
        Sub('file', case_s, run, n=260, thorough=6000, rule='more than two rows (holdout: one)'),
        Sub('delayed', delayed_s, run_delayed, n=120, thorough=3000, rule='more than one row')]
ASSUMPTIONS = ['of long logs about 25 rows are recomputed per case, ids of all rows are checked']
