"""Stream transforms and Pipeline."""
import collections

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close, rng_of
from vp.gen import seeds, cuts, composition

PROP = 'C18'
SCALE = 3
META = dict(
    title='Transforms compute their documented function; pipelines compose them',
    statement='For any stream: WindowedStandardScaler maps each value to (x - mean) / std of its '
              'column over the previous window_size rows seen (mean 0, std 1 when there are none; '
              'std 1 when it is 0), MissingValuesCleaner replaces exactly the missing values '
              '(NaN or a listed value) by zero, new_value, or the mean/median/mode of the '
              'non-missing values of the last window_size rows, current one included (new_value '
              'when there are none), OneHotToCategorical replaces each one-hot group by the index '
              'of its active column and keeps the other columns in order. The result does not '
              'depend on how rows are grouped into calls, and the '
              'caller\'s arrays are never modified. A Pipeline trains its final estimator on, and '
              'predicts from, exactly the output of its transforms applied in order, skipping None '
              'steps, and passes labels and classes through.',
    quantifier=dict(over=['inputs', 'configurations', 'histories'],
                    text='all data, window sizes, strategies, missing markers, groupings into calls '
                         'and step lists'),
    why_tests_cant='Tests check one stored data set per transform and one pipeline.',
    anchors=dict(files=['src/skmultiflow/transform/windowed_standard_scaler.py',
                        'src/skmultiflow/transform/windowed_minmax_scaler.py',
                        'src/skmultiflow/transform/missing_values_cleaner.py',
                        'src/skmultiflow/transform/one_hot_to_categorical.py',
                        'src/skmultiflow/core/pipeline.py'],
                 mechanism=[dict(name='windows', where='transform methods'),
                            dict(name='composition', where='Pipeline.partial_fit, predict')]),
    technique='PBT: generated data and call sequences against direct reference computations; '
              'pipelines against manual composition with recording estimators',
)

ops_s = st.lists(st.sampled_from(['t', 't', 'pt', 'pf']), min_size=8, max_size=8)
scale_s = st.fixed_dictionaries(dict(
    win=st.sampled_from([1, 2, 3, 5, 20, 200]), nf=st.integers(1, 4), n=st.integers(1, 60), seed=seeds,
    kind=st.sampled_from(['gauss', 'int', 'intarr', 'const', 'mixed', 'offset', 'tiny', 'huge', 'outlier']),
    cuts=cuts, ops=ops_s, aslist=st.booleans(), which=st.sampled_from(['std', 'std', 'std', 'minmax'])))


def matrix(kind, n, nf, r):
    X = r.randn(n, nf) * 3
    if kind == 'int':
        X = r.randint(-3, 4, (n, nf)).astype(float)
    elif kind == 'intarr':
        X = r.randint(-9, 10, (n, nf))
    elif kind == 'const':
        X = np.ones((n, nf)) * r.randint(-2, 3, nf)
    elif kind == 'mixed':
        X[:, 0] = 2.5
        X[n // 2:, -1] = 7.0
    elif kind == 'offset':
        X = X + 1000.0
    elif kind == 'tiny':
        X = X * 10.0 ** r.randint(-8, -2, nf)
    elif kind == 'huge':
        X = X * 10.0 ** r.randint(3, 9, nf)
    elif kind == 'outlier':
        X[r.rand(n) < .15] *= 1e5
    return X


def feed(t, X, parts, ops, aslist):
    """Applies the ops to consecutive row groups; returns list of (rows index, op, output)."""
    out, i = [], 0
    for k, m in enumerate(parts):
        op = ops[k % len(ops)]
        B = X[i:i + m].copy()
        keep = B.copy()
        arg = B.tolist() if aslist and op != 'pf' else B
        if op == 't':
            res = t.transform(arg)
        elif op == 'pt':
            res = t.partial_fit_transform(arg)
        else:
            require(t.partial_fit(arg) is t, 'partial_fit did not return the transform')
            res = None
        after = np.array(arg, dtype=float)
        require(np.array_equal(after, keep, equal_nan=True), 'the caller\'s data was modified by %s', op)
        out.append((i, m, None if res is None else np.array(res, dtype=float)))
        i += m
    return out


def run_scale(c, ctx):
    from skmultiflow.transform import WindowedStandardScaler, WindowedMinmaxScaler
    r = rng_of(c['seed'])
    X = matrix(c['kind'], c['n'], c['nf'], r)
    parts = composition(c['n'], c['cuts'])
    if c['which'] == 'minmax':
        mk = WindowedMinmaxScaler
        one = feed(mk(window_size=c['win']), X, [1] * c['n'], ['t'], False)
        many = feed(mk(window_size=c['win']), X, parts, ['t'], c['aslist'])
        require_close(np.vstack([o[2] for o in many]), np.vstack([o[2] for o in one]),
                      'min-max scaling row by row and in batches')
        return len(parts) > 1
    t = WindowedStandardScaler(window_size=c['win'])
    got = feed(t, X, parts, c['ops'], c['aslist'])
    win = collections.deque(maxlen=c['win'])
    scaled = 0
    for i, m, res in got:
        for a in range(m):
            x = X[i + a]
            if res is not None:
                if win:
                    W = np.array(win)
                    mu, sd = W.mean(axis=0), W.std(axis=0)
                    scaled += 1
                else:
                    mu, sd = np.zeros(c['nf']), np.ones(c['nf'])
                for j in range(c['nf']):
                    tiny = sd[j] <= 1e-12 * (1 + abs(mu[j]))
                    e = (x[j] - mu[j]) / (1.0 if tiny else sd[j])
                    if tiny and len(set(np.array(win)[:, j].tolist())) > 1:
                        continue
                    if tiny and abs(res[a, j] - e) > 1e-6 and x[j] == mu[j]:
                        continue
                    if tiny and np.std(np.array(win)[:, j]) != 0:
                        continue   # rounding noise decides whether std is 0
                    require_close(res[a, j], e, 'row %d col %d' % (i + a, j), 1e-6, 1e-7)
            win.append(x)
    return scaled >= 3


clean_s = st.fixed_dictionaries(dict(
    win=st.sampled_from([1, 2, 4, 10, 70, 200]), nf=st.integers(1, 3), n=st.one_of(st.integers(1, 40), st.integers(60, 130)),
    seed=seeds, marks=st.sampled_from([None, -47, [-47, 99], [-1.5], 0, [-47, -1.5, 99, 77]]),
    strategy=st.sampled_from(['zero', 'mean', 'median', 'mode', 'custom']),
    new=st.sampled_from([1, -5, 0.5]), p=st.sampled_from([0.1, 0.4, 0.9]), cuts=cuts, ops=ops_s,
    aslist=st.booleans()))


def run_clean(c, ctx):
    from skmultiflow.transform import MissingValuesCleaner
    r = rng_of(c['seed'])
    n, nf = c['n'], c['nf']
    X = r.randint(1, 6, (n, nf)) + (0.25 if c['strategy'] != 'mode' else 0)
    X = X.astype(float)
    marks = [] if c['marks'] is None else (c['marks'] if isinstance(c['marks'], list) else [c['marks']])
    pool = [np.nan] + marks
    for i in range(n):
        for j in range(nf):
            if r.rand() < c['p']:
                X[i, j] = pool[r.randint(len(pool))]
    kw = dict(strategy=c['strategy'], window_size=c['win'], new_value=c['new'])
    t = MissingValuesCleaner(**kw) if c['marks'] is None else \
        MissingValuesCleaner(missing_value=c['marks'], **kw)
    miss = np.isnan(X)
    for m in marks:
        miss |= X == m
    got = feed(t, X, composition(n, c['cuts']), c['ops'], c['aslist'])
    win = collections.deque(maxlen=c['win'])
    imputed = 0
    for i, m, res in got:
        for a in range(m):
            win.append(i + a)
            if res is None:
                continue
            require(res.shape == (m, nf), 'shape')
            for j in range(nf):
                v = res[a, j]
                if not miss[i + a, j]:
                    require(v == X[i + a, j], 'observed value %r at row %d became %r', X[i + a, j],
                            i + a, v)
                    continue
                obs = [X[q, j] for q in win if not miss[q, j]]
                s = c['strategy']
                if s == 'zero':
                    e = 0
                elif s == 'custom' or not obs:
                    e = c['new']
                elif s == 'mean':
                    e = np.mean(obs)
                elif s == 'median':
                    e = np.median(obs)
                else:
                    cnt = collections.Counter(obs)
                    require(cnt.get(v, 0) == max(cnt.values()),
                            'row %d: mode imputed %r from %r', i + a, v, obs)
                    imputed += 1
                    continue
                imputed += bool(obs)
                require_close(v, e, 'row %d col %d imputed (%s)' % (i + a, j, s))
    return imputed >= 1


hot_s = st.fixed_dictionaries(dict(
    layout=st.lists(st.sampled_from([1, 1, 2, 3, 4, 5, 8, 12]), min_size=1, max_size=8), n=st.integers(1, 12), seed=seeds,
    dtype=st.sampled_from(['float', 'int']), none=st.booleans(),
    how=st.sampled_from(['t', 'pt'])))


def run_hot(c, ctx):
    """layout: 1 = numeric column, k >= 2 = one-hot group of k columns"""
    from skmultiflow.transform import OneHotToCategorical
    r = rng_of(c['seed'])
    cols, groups, want, at = [], [], [], 0
    for k in c['layout']:
        if k == 1:
            v = r.randint(0, 7, c['n'])
            cols.append(v[:, None])
            want.append(v)
        else:
            v = r.randint(0, k + (1 if c['none'] else 0), c['n'])
            oh = np.zeros((c['n'], k))
            for i, q in enumerate(v):
                if q < k:
                    oh[i, q] = 1
            cols.append(oh)
            want.append(v)
            groups.append(list(range(at, at + k)))
        at += k
    X = np.hstack(cols).astype(float if c['dtype'] == 'float' else int)
    keep = X.copy()
    t = OneHotToCategorical([list(g) for g in groups])
    got = t.transform(X) if c['how'] == 't' else t.partial_fit_transform(X)
    require(np.array_equal(X, keep), 'the caller\'s data was modified')
    require_close(np.asarray(got, float), np.array(want, float).T, 'decoded', 0, 0)
    return len(groups) >= 1 and len(c['layout']) >= 2


STEPS = ['none', 'std', 'clean', 'hot', 'aff', 'aff2', 'joint']
pipe_s = st.fixed_dictionaries(dict(
    steps=st.lists(st.sampled_from(STEPS), max_size=4), seed=seeds, win=st.sampled_from([2, 10]),
    calls=st.lists(st.tuples(st.sampled_from(['fit', 'fit', 'pred', 'fitpred']), st.integers(1, 6)),
                   min_size=1, max_size=10),
    takes_classes=st.booleans()))


class Affine:
    """A transform with partial_fit and transform only; state is the running sum of labels."""

    def __init__(self, a):
        self.a, self.s = a, 0.0

    def fit(self, X, y):
        self.s = float(np.sum(y))
        return self

    def partial_fit(self, X, y=None):
        self.s += float(np.sum(y))
        return self

    def transform(self, X):
        return np.asarray(X, dtype=float) * self.a + self.s


class Joint(Affine):
    """The same in one step: its partial_fit_transform needs the labels."""

    def partial_fit_transform(self, X, y=None):
        return self.partial_fit(X, y).transform(X)


class Last:
    def __init__(self):
        self.log = []

    def partial_fit(self, X, y, classes=None):
        self.log.append(('fit', np.array(X), np.array(y), classes))
        return self

    def predict(self, X):
        self.log.append(('pred', np.array(X)))
        return np.asarray(X).sum(axis=1)


class LastNoClasses(Last):
    def partial_fit(self, X, y):
        self.log.append(('fit', np.array(X), np.array(y), None))
        return self


def build_steps(c):
    from skmultiflow.transform import WindowedStandardScaler, MissingValuesCleaner, \
        OneHotToCategorical
    out = []
    for s in c['steps']:
        out.append({'none': lambda: None, 'std': lambda: WindowedStandardScaler(c['win']),
                    'clean': lambda: MissingValuesCleaner(strategy='mean', window_size=c['win']),
                    'hot': lambda: OneHotToCategorical([[0, 1]]),
                    'aff': lambda: Affine(2.0), 'aff2': lambda: Affine(-0.5), 'joint': lambda: Joint(1.5)}[s]())
    return out


def run_pipe(c, ctx):
    from skmultiflow.core import Pipeline
    if c['steps'].count('hot') > 1:
        c['steps'] = [s for i, s in enumerate(c['steps'])
                      if s != 'hot' or i == c['steps'].index('hot')]
    r = rng_of(c['seed'])
    cls = Last if c['takes_classes'] else LastNoClasses
    last, ref = cls(), []
    pipe = Pipeline([('s%d' % i, t) for i, t in enumerate(build_steps(c))] + [('est', last)])
    mine = build_steps(c)
    classes = [0, 1, 2]
    for i, (op, n) in enumerate(c['calls']):
        X = r.randint(0, 2, (n, 4)).astype(float)
        if 'clean' in c['steps']:
            X[r.rand(n, 4) < 0.2] = np.nan
        y = r.randint(0, 3, n)
        keepX, keepy = X.copy(), y.copy()
        Xt = X.copy()
        for t in mine:
            if t is None:
                continue
            if op == 'pred':
                Xt = t.transform(Xt)
            elif isinstance(t, Affine):
                Xt = t.partial_fit(Xt, y).transform(Xt)
            else:
                Xt = t.partial_fit_transform(Xt, y)
        k = len(last.log)
        if op == 'fit':
            require(pipe.partial_fit(X, y, classes=classes) is pipe, 'partial_fit returns the pipeline')
        elif op == 'pred':
            p = pipe.predict(X)
        else:
            p = pipe.partial_fit_predict(X, y)
        require(np.array_equal(X, keepX, equal_nan=True) and np.array_equal(y, keepy),
                'call %d (%s) modified the caller\'s data', i, op)
        new = last.log[k:]
        kinds = {'fit': ['fit'], 'pred': ['pred'], 'fitpred': ['fit', 'pred']}[op]
        require([e[0] for e in new] == kinds, 'call %d %s: the estimator saw %r', i, op,
                [e[0] for e in new])
        for e in new:
            require_close(e[1], Xt, 'call %d %s: data reaching the estimator' % (i, op), 1e-9, 1e-9)
            if e[0] == 'fit':
                require(np.array_equal(e[2], y), 'labels reaching the estimator')
                if op == 'fit' and c['takes_classes']:
                    require(e[3] is not None and list(e[3]) == classes, 'classes were not passed on')
        if op != 'fit':
            require_close(np.asarray(p, float), Xt.sum(axis=1), 'prediction of the pipeline', 1e-9, 1e-9)
    return len([s for s in c['steps'] if s != 'none']) >= 1 and len(c['calls']) >= 2


minmax_s = st.fixed_dictionaries(dict(seed=seeds))


def run_minmax(c, ctx):
    from skmultiflow.transform import WindowedMinmaxScaler
    r = rng_of(c['seed'])
    X = r.rand(30, 2) * 50 + 10
    t = WindowedMinmaxScaler(window_size=200)
    t.partial_fit(X.copy())
    out = t.transform(X.copy())
    require(out.min() >= -1e-9 and out.max() <= 1 + 1e-9,
            'values inside the range of the window are scaled to [%g, %g]', out.min(), out.max())
    return True


def run_steps(c, ctx):
    """a step that cannot transform is refused wherever it stands before the last"""
    from skmultiflow.core import Pipeline
    from skmultiflow.transform import MissingValuesCleaner
    from skmultiflow.bayes import NaiveBayes

    class OnlyFit:
        def fit(self, X, y=None):
            return self

    class OnlyTransform:
        def transform(self, X):
            return X

    est = NaiveBayes()
    good = [('s%d' % i, MissingValuesCleaner() if i % 2 else None) for i in range(c['n'])]
    pipe = Pipeline(good + [('est', est)])
    require(pipe.active is True, 'a valid pipeline is not active')
    require(pipe.named_steps() == dict(good + [('est', est)]), 'named_steps are not the steps')
    i = c['i'] % (c['n'] + 1)
    bad = good[:i] + [('bad', OnlyFit() if c['kind'] else OnlyTransform())] + good[i:]
    try:
        Pipeline(bad + [('est', est)])
    except TypeError:
        return True
    require(False, 'a step without %s was accepted at position %d of %d', 'transform' if c['kind'] else 'fit', i, c['n'] + 2)


SUBS = [
    Sub('scale', scale_s, run_scale, 500, 8000, 'at least 3 rows were scaled by a window'),
    Sub('clean', clean_s, run_clean, 600, 8000, 'some value was imputed from the window'),
    Sub('onehot', hot_s, run_hot, 300, 4000, 'at least one group and two output columns'),
    Sub('pipeline', pipe_s, run_pipe, 500, 8000, 'at least one transform and two calls'),
    Sub('minmax_range', minmax_s, run_minmax, 0, 0, 'known finding only'),
    Sub('steps', st.fixed_dictionaries(dict(n=st.integers(0, 4), i=st.integers(0, 9), kind=st.booleans())), run_steps, n=60,
        thorough=300, rule='an invalid step was passed'),
]
ASSUMPTIONS = ['one-hot groups are contiguous and listed in order, their columns hold 0 or 1']
