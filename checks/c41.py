"""The plots drawn while an evaluation runs."""
import os
import warnings

import numpy as np
from hypothesis import strategies as st

from vp import evalh
from vp.engine import Sub, require
from vp.gen import seeds

PROP = 'C41'
SCALE = 2
META = dict(
    title='Evaluation plots show the measurements that were taken, and change nothing',
    statement='With show_plot=True an evaluation (prequential, holdout or with delayed labels) makes exactly the same '
              'calls to the models and writes the same log as without. Its figure has one plot per plottable metric, in '
              'the requested order and with a title of its own; every mean and current line, and the lines of true and predicted values, belongs to '
              'the model its label names and runs through the measured values at the measured sample counts, one point per '
              'measurement (those written in the log); the table beside a plot '
              'shows the latest values. Points plotted for classification are the last sample of each measurement, '
              'with the first two features as coordinates, in the group of the class predicted for that sample (at most the last '
              '100 of each class), for any class labels. A visualizer that was drawn into is not reused by a later evaluation.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'],
                    text='all metric selections, numbers and names of models, measurement intervals, batch sizes, class '
                         'labels and tasks'),
    why_tests_cant='Tests never plot: the visualizer is exercised by none of them.',
    anchors=dict(files=['src/skmultiflow/visualization/evaluation_visualizer.py',
                        'src/skmultiflow/visualization/base_listener.py',
                        'src/skmultiflow/evaluation/base_evaluator.py',
                        'src/skmultiflow/evaluation/evaluation_data_buffer.py'],
                 mechanism=[dict(name='plot update', where='EvaluationVisualizer.on_new_train_step'),
                            dict(name='measurement', where='StreamEvaluator._update_metrics, _update_outputs')]),
    technique='PBT over generated evaluations: differential (with and without plots) and the lines, texts and '
              'points of the figure read back and compared with the log',
)
ASSUMPTIONS = ['drawn with the non-interactive Agg backend', 'at most nine plots per figure', 'points for classification: one model']


def pick(task):
    return st.tuples(st.just(task), st.lists(st.sampled_from(evalh.METRICS[task] + ['running_time', 'model_size']),
                                             min_size=1, max_size=4, unique=True))


case_s = st.fixed_dictionaries(dict(
    tm=st.sampled_from(['clf', 'clf', 'reg', 'mlc', 'mtr']).flatmap(pick), how=st.sampled_from(['pre', 'pre', 'hold', 'delay']),
    n=st.integers(30, 90), k=st.integers(2, 4), m=st.integers(2, 3), seed=seeds, batch=st.sampled_from([1, 1, 2, 3, 7]),
    pretrain=st.sampled_from([0, 4, 11]), n_wait=st.sampled_from([6, 10, 14, 35]), models=st.integers(1, 3),
    names=st.booleans(), again=st.booleans()))

point_s = st.fixed_dictionaries(dict(
    n=st.integers(30, 300), labels=st.lists(st.integers(-3, 12), min_size=2, max_size=4, unique=True), seed=seeds,
    batch=st.sampled_from([1, 1, 2, 3]), pretrain=st.sampled_from([0, 5]), n_wait=st.sampled_from([1, 4, 12]),
    extra=st.booleans()))


def evaluator(c, path, plot):
    from skmultiflow.evaluation import EvaluateHoldout, EvaluatePrequential, EvaluatePrequentialDelayed
    kw = dict(n_wait=c['n_wait'], batch_size=c['batch'], metrics=list(c['metrics']), output_file=path, show_plot=plot)
    if c['how'] == 'hold':
        return EvaluateHoldout(test_size=8, max_samples=c['n'] - 10, **kw)
    cls = EvaluatePrequentialDelayed if c['how'] == 'delay' else EvaluatePrequential
    return cls(pretrain_size=c['pretrain'], **kw)


def make_stream(c, X, y):
    from skmultiflow.data import DataStream, TemporalDataStream
    nt = 1 if y.ndim == 1 else y.shape[1]
    if c['how'] != 'delay':
        return DataStream(X.copy(), y.copy(), n_targets=nt)
    t0 = np.datetime64('2020-01-01T00:00:00')
    d = np.random.RandomState(c['seed']).randint(0, 15, len(X))
    return TemporalDataStream(X.copy(), y.copy(), time=np.array([t0 + np.timedelta64(i, 's') for i in range(len(X))]),
                              sample_delay=np.array([t0 + np.timedelta64(int(i + e), 's') for i, e in enumerate(d)]),
                              n_targets=nt)


class Plots:
    def __enter__(self):
        import matplotlib
        matplotlib.use('Agg', force=True)
        import matplotlib.pyplot as plt
        plt.close('all')
        self.rc = dict(matplotlib.rcParams)
        self.cw = warnings.catch_warnings()
        self.cw.__enter__()
        warnings.simplefilter('ignore')
        return plt

    def __exit__(self, *a):
        import matplotlib
        import matplotlib.pyplot as plt
        plt.close('all')
        plt.ioff()
        matplotlib.rcParams.update(self.rc)
        self.cw.__exit__(*a)


def same_calls(a, b, where):
    require(len(a.log) == len(b.log), '%s: %d calls with plots, %d without', where, len(b.log), len(a.log))
    for e, f in zip(a.log, b.log):
        require(e[0] == f[0] and e[1] == f[1] and np.array_equal(np.asarray(e[2]), np.asarray(f[2])),
                '%s: with plots %s, without %s', where, f[:2], e[:2])


def line_of(ax, label):
    got = [ln for ln in ax.get_lines() if ln.get_label() == label]
    require(len(got) == 1, 'plot %r: %d lines called %r (lines: %s)', ax.get_title(), len(got), label,
            [ln.get_label() for ln in ax.get_lines()])
    return got[0]


def check_line(ax, label, ids, vals):
    ln = line_of(ax, label)
    x, v = np.asarray(ln.get_xdata(), float), np.asarray(ln.get_ydata(), float)
    require(x.tolist() == [float(i) for i in ids], 'plot %r, line %r: x %s, logged ids %s', ax.get_title(), label, x.tolist(), ids)
    require(len(v) == len(vals) and np.allclose(v, vals, rtol=1e-6, atol=2e-6), 'plot %r, line %r: y %s, logged %s',
            ax.get_title(), label, v.tolist(), vals)


def run(c, ctx):
    c['task'], c['metrics'] = c['tm']
    if not [m for m in c['metrics'] if m not in ('running_time', 'model_size', 'true_vs_predicted')]:
        c['metrics'] = [evalh.METRICS[c['task']][0]] + c['metrics']
    X, y = evalh.data(c['task'], c['n'], c['k'], c['m'], c['seed'])
    names = ['a', 'bb-longer-name', 'c'][:c['models']] if c['names'] else None
    shown = names or ['M%d' % i for i in range(c['models'])]
    d = ctx.tmpdir()
    window = 8 if c['how'] == 'hold' else c['n_wait']
    with Plots() as plt:
        ev = evaluator(c, os.path.join(d, 'b.csv'), True)
        for rep in range(2 if c['again'] else 1):
            plain = [evalh.Rec(i, c['task'], c['k'], c['m']) for i in range(c['models'])]
            drawn = [evalh.Rec(i, c['task'], c['k'], c['m']) for i in range(c['models'])]
            evaluator(c, os.path.join(d, 'a.csv'), False).evaluate(make_stream(c, X, y), plain, names and list(names))
            plt.close('all')
            ev.evaluate(make_stream(c, X, y), drawn, names and list(names))
            for a, b in zip(plain, drawn):
                same_calls(a, b, 'plots')
            header, rows = evalh.read_file(os.path.join(d, 'a.csv'))
            header2, rows2 = evalh.read_file(os.path.join(d, 'b.csv'))
            keep = [i for i, h in enumerate(header) if 'time_' not in h and 'model_size' not in h]
            require(header == header2 and [[r[i] for i in keep] for r in rows] == [[r[i] for i in keep] for r in rows2],
                    'the log differs with plots: %s / %s', rows[:5], rows2[:5])
            require(len(plt.get_fignums()) == 1, '%d figures', len(plt.get_fignums()))
            fig = plt.figure(plt.get_fignums()[0])
            plotted = [m for m in c['metrics'] if m not in ('running_time', 'model_size')]
            axes = fig.get_axes()
            require(len(axes) == len(plotted), '%d plots for metrics %s', len(axes), plotted)
            ids = [r[0] for r in rows2]
            col = {h: [r[i] for r in rows2] for i, h in enumerate(header2)}
            titles = [ax.get_title() for ax in axes]
            require(all(titles) and len(set(titles)) == len(titles) and 'Unknown metric' not in titles,
                    'plots of %s are called %s', plotted, titles)
            for ax, metric in zip(axes, plotted):
                if metric == 'true_vs_predicted':
                    check_line(ax, 'True value', ids, col['true_value'])
                    for nm in shown:
                        check_line(ax, 'Predicted %s' % nm, ids, col['predicted_value_[%s]' % nm])
                    continue
                s = evalh.SHORT.get(metric, metric)
                texts = [t.get_text() for t in ax.texts]
                for nm in shown:
                    mean, cur = col['mean_%s_[%s]' % (s, nm)], col['current_%s_[%s]' % (s, nm)]
                    check_line(ax, '%s (mean)' % nm, ids, mean)
                    check_line(ax, '%s  (current, %d samples)' % (nm, window), ids, cur)
                table = [[float(v) for v in t.split()] for t in texts if len(t.split()) == 2 and numbers(t)]
                want = [[col['mean_%s_[%s]' % (s, nm)][-1], col['current_%s_[%s]' % (s, nm)][-1]] for nm in shown]
                require(len(table) == len(want) and np.allclose(table, want, rtol=0, atol=6e-5),
                        'plot %r: table %s, last measurements %s', ax.get_title(), texts, want)
                require([t.strip() for t in texts if t.strip() in [nm[:6] for nm in shown]] == [nm[:6] for nm in shown],
                        'plot %r: models named %s, expected %s', ax.get_title(), texts, shown)
    ctx.label(c['how'])
    ctx.label('models %d' % c['models'])
    return len(rows) > 2 and len(plotted) > 0


def numbers(t):
    try:
        [float(v) for v in t.split()]
        return True
    except ValueError:
        return False


class Clf(evalh.Rec):
    labels = ()

    def pred(self, i, trained):
        return self.labels[super().pred(i, trained)]


def run_points(c, ctx):
    from skmultiflow.data import DataStream
    from skmultiflow.evaluation import EvaluatePrequential
    labels = c['labels']
    k = len(labels)
    X, y = evalh.data('clf', c['n'], k, 2, c['seed'])
    y = np.array(labels)[y]
    path = os.path.join(ctx.tmpdir(), 'p.csv')
    with Plots() as plt:
        mdl = Clf(0, 'clf', k, 2)
        mdl.labels = labels
        real = plt.pause
        plt.pause = lambda *a: None             # many measurements: the figure is read, not rendered
        try:
            ev = EvaluatePrequential(n_wait=c['n_wait'], batch_size=c['batch'], pretrain_size=c['pretrain'],
                                     metrics=['accuracy'] if c['extra'] else ['kappa', 'accuracy'], output_file=path,
                                     show_plot=True, data_points_for_classification=True)
            ev.evaluate(DataStream(X.copy(), y.copy()), mdl)
        finally:
            plt.pause = real
        header, rows = evalh.read_file(path)
        made = {}
        for e in mdl.log:
            if e[0] == 'predict':
                made.update(zip(e[1], e[3]))
        want = {}
        for r in rows:
            i = min(r[0] + c['batch'], c['n']) - 1          # last sample of the batch measured
            want.setdefault(made[i], []).append((float(X[i, 0]), float(X[i, 1])))
        fig = plt.figure(plt.get_fignums()[-1])
        axes = [ax for ax in fig.get_axes() if ax.collections]
        require(len(axes) == 1, '%d plots with points', len(axes))
        got = {}
        for s in axes[0].collections:
            require(s.get_label() not in got, 'two groups called %s', s.get_label())
            got[s.get_label()] = [tuple(map(float, p)) for p in s.get_offsets()]
        exp = {'Class %s' % q: p[-100:] for q, p in want.items()}
        require(sorted(got) == sorted(exp), 'groups %s, classes predicted %s', sorted(got), sorted(exp))
        for q in exp:
            require(sorted(got[q]) == sorted(exp[q]), '%s: points %s, expected %s', q, got[q][:8], exp[q][:8])
    if max(len(p) for p in want.values()) > 100:
        ctx.label('beyond 100 points')
    if sorted(labels) != list(range(k)):
        ctx.label('labels not 0..k-1')
    return len(want) > 1 and len(rows) > 3


SUBS = [Sub('lines', case_s, run, n=70, thorough=1500, rule='more than two measurements plotted'),
        Sub('points', point_s, run_points, n=40, thorough=800, rule='at least two classes predicted, over three measurements')]
