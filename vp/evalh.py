"""Recording models, generated data and metric recomputation shared by the evaluator checks."""
import numpy as np

from vp.engine import Violation, require, require_close

METRICS = {
    'clf': ['accuracy', 'kappa', 'kappa_t', 'kappa_m', 'f1', 'gmean', 'precision', 'recall',
            'true_vs_predicted'],
    'reg': ['mean_square_error', 'mean_absolute_error', 'true_vs_predicted'],
    'mlc': ['hamming_score', 'hamming_loss', 'exact_match', 'j_index'],
    'mtr': ['average_mean_square_error', 'average_mean_absolute_error',
            'average_root_mean_square_error'],
}
GETTERS = {
    'accuracy': 'accuracy_score', 'kappa': 'kappa_score', 'kappa_t': 'kappa_t_score',
    'kappa_m': 'kappa_m_score', 'f1': 'f1_score', 'gmean': 'geometric_mean_score',
    'precision': 'precision_score', 'recall': 'recall_score', 'hamming_score': 'hamming_score',
    'hamming_loss': 'hamming_loss_score', 'exact_match': 'exact_match_score',
    'j_index': 'jaccard_score', 'mean_square_error': 'get_mean_square_error',
    'mean_absolute_error': 'get_average_error',
    'average_mean_square_error': 'get_average_mean_square_error',
    'average_mean_absolute_error': 'get_average_absolute_error',
    'average_root_mean_square_error': 'get_average_root_mean_square_error',
}
SHORT = {'accuracy': 'acc', 'mean_square_error': 'mse', 'mean_absolute_error': 'mae',
         'average_mean_square_error': 'amse', 'average_mean_absolute_error': 'amae',
         'average_root_mean_square_error': 'armse'}


class Rec:
    """Records what it is trained on and asked; predictions depend on the sample, the model and
    how much it was trained, so a result can be attributed to one moment of the evaluation."""

    def __init__(self, salt, task, k, m):
        self.salt, self.task, self.k, self.m = salt, task, k, m
        self.log, self.trained = [], 0

    def partial_fit(self, X, y, classes=None, sample_weight=None):
        if classes is not None and self.task in ('reg', 'mtr'):
            raise TypeError('a regressor was given classes')
        self.log.append(('fit', [int(round(v)) for v in np.asarray(X)[:, 0]], np.array(y, copy=True),
                         None if classes is None else np.asarray(classes).tolist(),
                         None if sample_weight is None else np.array(sample_weight, copy=True)))
        self.trained += len(X)
        return self

    def predict(self, X):
        X = np.asarray(X)
        ids = [int(round(v)) for v in X[:, 0]] if len(X) else []
        out = [self.pred(i, self.trained) for i in ids]
        self.log.append(('predict', ids, self.trained, out))
        return np.array(out)

    def pred(self, i, trained):
        h = (i * 2654435761 + self.salt * 40503 + trained * 97) & 0xffffffff
        h ^= h >> 13
        if self.task == 'clf':
            return (h >> 3) % self.k
        if self.task == 'reg':
            return ((h >> 3) % 1000) / 100.0
        if self.task == 'mlc':
            return [(h >> (3 + j)) & 1 for j in range(self.m)]
        return [((h >> (3 + j)) % 1000) / 100.0 for j in range(self.m)]

    def get_info(self):
        return 'Rec'


def data(task, n, k, m, seed):
    r = np.random.RandomState(seed)
    X = np.round(r.randn(n, 3), 4)
    X[:, 0] = np.arange(n)
    if task == 'clf':
        y = r.randint(0, k, n)
        y[:k] = np.arange(k)
    elif task == 'reg':
        y = np.round(r.rand(n) * 10, 4)
    elif task == 'mlc':
        y = r.randint(0, 2, (n, m))
        if seed % 3 == 0:
            y[:, 0] = 1                 # a label that never varies
        else:
            y[0], y[1] = 0, 1
    else:
        y = np.round(r.rand(n, m) * 10, 4)
    return X, y


def classes_of(task, y):
    return sorted(set(np.asarray(y).ravel().tolist())) if task in ('clf', 'mlc') else None


def values(task, results, metrics, window):
    """metric name -> value over the last `window` results (None: all)."""
    out = {}
    metrics = [k for k in metrics if k in GETTERS]
    if task == 'clf':
        from checks.c10 import Model
        m = Model(2, window)
        for t, p in results:
            m.add(int(t), int(p), 1.0)
        v = m.metrics()
        for k in metrics:
            out[k] = v[GETTERS[k]]
        return out
    rows = results[-window:] if window else results
    if task == 'mlc':
        from checks.c11 import expected
        h, hl, ex, ja = expected([(list(map(float, t)), list(map(float, p))) for t, p in rows])
        out = dict(hamming_score=h, hamming_loss=hl, exact_match=ex, j_index=ja)
    elif rows:
        e = np.array([np.atleast_1d(np.asarray(t, float) - np.asarray(p, float)) for t, p in rows])
        mse, mae = float(np.mean(e ** 2)), float(np.mean(np.abs(e)))
        rm = float(np.mean(np.sqrt(np.mean(e ** 2, axis=0))))
        out = dict(mean_square_error=mse, mean_absolute_error=mae, average_mean_square_error=mse,
                   average_mean_absolute_error=mae, average_root_mean_square_error=rm)
    else:
        out = {k: 0.0 for k in GETTERS}
    return {k: out[k] for k in metrics if k in out}


def check_measurements(ev, i, task, results, metrics, window, where):
    mean, cur = ev.get_measurements(i)
    require(mean is ev.get_mean_measurements(i) and cur is ev.get_current_measurements(i),
            '%s: get_measurements is inconsistent', where)
    for kind, obj, w in (('mean', mean, None), ('current', cur, window)):
        for k, v in values(task, results, metrics, w).items():
            require_close(getattr(obj, GETTERS[k])(), v, '%s: %s %s of model %d' % (where, kind, k, i),
                          rtol=1e-6, atol=1e-7)


def read_file(path):
    with open(path) as f:
        lines = f.read().split('\n')
    end = [i for i, ln in enumerate(lines) if 'TEST CONFIGURATION END' in ln]
    require(len(end) == 1, 'output file: %d configuration blocks', len(end))
    require(all(ln.startswith('#') for ln in lines[:end[0] + 1]), 'configuration block not commented')
    header = lines[end[0] + 1].split(',')
    rows = [ln.split(',') for ln in lines[end[0] + 2:] if ln != '']
    for r in rows:
        require(len(r) == len(header), 'row %s does not match header %s', r, header)
    try:
        return header, [[int(r[0])] + [float(v) for v in r[1:]] for r in rows]
    except ValueError as e:
        raise Violation('output file is not numeric: %s' % e)


def header_of(metrics, names):
    """Columns; metrics without a plot (time, size) come last."""
    order = [m for m in metrics if m not in ('running_time', 'model_size')] + \
            [m for m in metrics if m in ('running_time', 'model_size')]
    h = ['id']
    for m in order:
        if m == 'true_vs_predicted':
            h += ['true_value'] + ['predicted_value_[%s]' % n for n in names]
        elif m == 'running_time':
            for n in names:
                h += ['training_time_[%s]' % n, 'testing_time_[%s]' % n, 'total_running_time_[%s]' % n]
        elif m == 'model_size':
            h += ['model_size_[%s]' % n for n in names]
        else:
            s = SHORT.get(m, m)
            for n in names:
                h += ['mean_%s_[%s]' % (s, n), 'current_%s_[%s]' % (s, n)]
    return h


def check_row(header, row, task, metrics, names, results_per_model, window, where):
    d = dict(zip(header, row))
    for n, res in zip(names, results_per_model):
        for kind, w in (('mean', None), ('current', window)):
            for k, v in values(task, res, metrics, w).items():
                col = '%s_%s_[%s]' % (kind, SHORT.get(k, k), n)
                require(abs(d[col] - v) <= 2e-6 + 1e-7 * abs(v), '%s: %s is %s, expected %.6f',
                        where, col, d[col], v)
        if 'true_vs_predicted' in metrics:
            require(abs(d['true_value'] - float(res[-1][0])) < 2e-6
                    and abs(d['predicted_value_[%s]' % n] - float(res[-1][1])) < 2e-6,
                    '%s: true/predicted %s/%s, expected %s', where, d['true_value'],
                    d['predicted_value_[%s]' % n], res[-1])
        if 'running_time' in metrics:
            a, b, c = (d['%s_time_[%s]' % (x, n)] for x in ('training', 'testing', 'total_running'))
            require(a >= 0 and b >= 0 and abs(a + b - c) < 5e-6, '%s: times %s', where, (a, b, c))
        if 'model_size' in metrics:
            require(d['model_size_[%s]' % n] > 0, '%s: model size %s', where,
                    d['model_size_[%s]' % n])


def direct(ev, models, task, X, y, k, where):
    """partial_fit and predict of the evaluator go to every model, with everything they were given."""
    for mdl in models:
        mdl.log = []
    q, w = X[1:4].copy(), np.array([0.5, 1.0, 2.0])
    cls = classes_of(task, y) if task in ('clf', 'mlc') else None
    got = ev.predict(q)
    require(isinstance(got, list) and len(got) == len(models), '%s: evaluator predicts %s', where, got)
    for mdl, g in zip(models, got):
        require(np.array_equal(np.asarray(g), np.array([mdl.pred(i, mdl.trained) for i in (1, 2, 3)])),
                '%s: the evaluator\'s predictions are not those of the model', where)
        mdl.log = []
    require(ev.partial_fit(q, y[1:4], classes=cls, sample_weight=w) is ev, '%s: partial_fit returned another object',
            where)
    for mdl in models:
        fits = [e for e in mdl.log if e[0] == 'fit']
        require(len(fits) == 1 == len(mdl.log) and fits[0][1] == [1, 2, 3]
                and np.array_equal(fits[0][2], y[1:4]) and (cls is None or sorted(fits[0][3]) == cls)
                and fits[0][4] is not None and np.array_equal(fits[0][4], w),
                '%s: partial_fit of the evaluator reached a model as %s', where, mdl.log)
