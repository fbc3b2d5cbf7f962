"""Finite streams deliver every row exactly once and in order."""
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

from vp.engine import Sub, expecting, require, rng_of
from vp.gen import seeds

PROP = 'C01'
SCALE = 3
META = dict(
    title='Finite streams deliver every row exactly once, in order, for any batch schedule',
    statement='However a caller slices its requests, a stream over an in-memory table, a CSV file '
              'or timestamped data hands out every row exactly once, features, targets, timestamps, '
              'delays and weights staying together, in row order (in time order when asked to sort '
              'unordered data), never inventing rows and never altering the caller\'s data. The '
              'remaining-sample count and the more-samples flag agree with what was delivered, the '
              'last sample is the last batch delivered (none before the first and after a restart), and '
              'a restart replays the same rows. '
              'The declared numbers and names of features, targets and classes, and the task, are '
              'those of the data.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all tables, target positions, container types, time/delay/weight '
                         'encodings and all sequences of requests, look-backs and restarts'),
    why_tests_cant='Tests read a few fixed files with one batch size; the guarantee ranges over '
                   'all layouts and request schedules.',
    anchors=dict(files=['src/skmultiflow/data/data_stream.py', 'src/skmultiflow/data/file_stream.py',
                        'src/skmultiflow/data/temporal_data_stream.py'],
                 mechanism=[dict(name='cursor', where='next_sample, restart, n_remaining_samples'),
                            dict(name='column split', where='_load_data, _load_X_y'),
                            dict(name='time ordering', where='TemporalDataStream.__init__')]),
    technique='stateful PBT: generated tables and request schedules against a list-slicing model',
)

ops_s = st.lists(st.one_of(st.integers(1, 7), st.sampled_from([1, 1, 2, 13, 70, 'restart', 'last'])),
                 min_size=1, max_size=25)
base = dict(
    n=st.one_of(st.integers(1, 24), st.integers(1, 24), st.integers(25, 160)), f=st.integers(1, 5), t=st.integers(1, 3), seed=seeds,
    frame=st.booleans(), int_y=st.booleans(), labels=st.sampled_from([None, None, 'far', 'neg']),
    wide=st.booleans(), ops=ops_s, names=st.booleans(),
    cat=st.lists(st.integers(0, 4), max_size=3, unique=True))
table_s = st.fixed_dictionaries(dict(base, kind=st.sampled_from(['xy', 'data', 'file', 'file']),
                                     pos=st.integers(0, 7), neg=st.booleans(),
                                     y1d=st.booleans(), default_idx=st.booleans()))
temporal_s = st.fixed_dictionaries(dict(
    base, xy=st.booleans(), time=st.sampled_from(['np', 'series', 'none']),
    delay=st.sampled_from(['int', 'td', 'np', 'series']), d=st.integers(0, 9),
    weight=st.sampled_from(['none', 'np', 'series']), ordered=st.booleans(),
    ties=st.booleans()))


def make(c):
    r = rng_of(c['seed'])
    n, f, t = c['n'], c['f'], c['t']
    X = np.round(r.randn(n, f) * 64) / 64      # exact in text form
    X[:, 0] = np.arange(n) + 0.5     # identity of the row
    Y = r.randint(0, 4, size=(n, t)) if c['int_y'] else (np.round(r.randn(n, t) * 64) / 64)
    if c.get('labels') and c['int_y']:
        Y = {'far': np.array([7, 40, 1000, 123456789]), 'neg': np.array([-3, -1, 0, 2])}[c['labels']][Y]
    if c.get('wide') and c.get('kind') != 'file':      # all digits of a double
        X[:, 1:] = r.randn(n, f - 1) * 10.0 ** r.randint(-6, 7, f - 1)
        if not c['int_y']:
            Y = Y + r.randn(n, t)
    return X, Y


def names(c, pre, k):
    return ['%s%d' % (pre, i) for i in range(k)] if c['names'] else list(range(k))


def check_meta(s, c, X, Y, fn, tn, int_y):
    t = Y.shape[1]
    require(s.n_samples == len(X), 'n_samples %s for %d rows', s.n_samples, len(X))
    require(s.n_features == X.shape[1], 'n_features %s, expected %s', s.n_features, X.shape[1])
    require(s.n_targets == t, 'n_targets %s, expected %s', s.n_targets, t)
    if fn is not None:
        require(list(s.feature_names) == fn, 'feature names %s expected %s', s.feature_names, fn)
        require(list(s.target_names) == tn, 'target names %s expected %s', s.target_names, tn)
    cat = [k for k in c['cat'] if k < X.shape[1]]
    require(s.n_cat_features == len(cat) and s.n_num_features == X.shape[1] - len(cat),
            'categorical/numeric counts %s/%s', s.n_cat_features, s.n_num_features)
    if int_y:
        require(s.task_type == 'classification', 'task %s for integer targets', s.task_type)
        require(s.n_classes == len(np.unique(Y)), 'n_classes %s', s.n_classes)
        ev = (sorted(set(Y[:, 0].tolist())) if t == 1 else
              [sorted(set(Y[:, i].tolist())) for i in range(t)])
        require(s.target_values == ev, 'target values %s, expected %s', s.target_values, ev)
    else:
        require(s.task_type == 'regression', 'task %s for real targets', s.task_type)


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(a == b))


def drive(s, ops, cols, ctx):
    """cols: list of arrays (X, y, [time, delay, weight]); None = must be None."""
    n = len(cols[0])
    pos = 0
    last = None
    nontriv = set()
    for op in ops:
        require(s.has_more_samples() == (pos < n), 'has_more_samples=%s at row %d of %d',
                s.has_more_samples(), pos, n)
        if pos <= n:
            require(s.n_remaining_samples() == n - pos, 'n_remaining %s at row %d of %d',
                    s.n_remaining_samples(), pos, n)
        else:
            require(s.n_remaining_samples() <= 0, 'n_remaining > 0 past the end')
        if op == 'restart':
            s.restart()
            pos, last = 0, None
            nontriv.add('restart')
            continue
        if op == 'last':
            got = s.last_sample()
            if pos == 0:
                require(all(g is None for g in got), 'last sample %s before any was delivered', got)
            if last is not None:
                for g, e in zip(got, last):
                    require((g is None) == (e is None) and (g is None or same(g, e)),
                            'last_sample %s, expected %s', g, e)
            continue
        got = s.next_sample(op)
        if pos >= n:
            require(got[0] is None or len(got[0]) == 0, 'rows delivered past the end')
            pos += op
            last = None
            continue
        if pos + op > n:
            ctx.label('short last batch')
        exp = []
        for name, g, e in zip(('features', 'targets', 'time', 'delay', 'weight'), got, cols):
            if e is None:
                require(g is None, '%s should be None', name)
                exp.append(None)
                continue
            e = e[pos:pos + op]
            require(same(g, e), 'request of %d at row %d: %s %s, expected %s', op, pos, name,
                    np.asarray(g).tolist(), e.tolist())
            exp.append(np.array(e))
        last = exp
        pos += op
        nontriv.add('next')
    return len(nontriv) == 2 or len(ops) > 4


def run_table(c, ctx):
    from skmultiflow.data import DataStream, FileStream
    X, Y = make(c)
    n, t = len(X), Y.shape[1]
    fn, tn = names(c, 'f', c['f']), names(c, 't', t)
    cat = [k for k in c['cat'] if k < c['f']] or None
    if c['kind'] == 'xy':
        if c['frame']:
            dx, dy = pd.DataFrame(X, columns=fn), pd.DataFrame(Y, columns=tn)
        else:
            dx, dy = X.copy(), Y.copy()
            fn, tn = list(range(c['f'])), list(range(t))
            if t == 1 and c['y1d']:
                dy = dy[:, 0].copy()
        kx, ky = dx.copy(), dy.copy()
        s = DataStream(dx, dy, cat_features=cat)
        check_meta(s, c, X, Y, fn, tn, c['int_y'])
        out = drive(s, c['ops'], (X, Y[:, 0] if t == 1 else Y), ctx)
        require(same(kx, dx) and same(ky, dy), 'the caller\'s data was modified')
        return out
    # one table: targets at a generated position
    fn, tn = ['f%d' % i for i in range(c['f'])], ['t%d' % i for i in range(t)]
    pos = c['pos'] % (c['f'] + 1)
    if c['default_idx']:
        pos = c['f']
    cols = fn[:pos] + tn + fn[pos:]
    df = pd.DataFrame({k: (X[:, fn.index(k)] if k in fn else Y[:, tn.index(k)]) for k in cols},
                      columns=cols)
    idx = pos - (c['f'] + t) if c['neg'] else pos
    if c['kind'] == 'file':
        f = os.path.join(ctx.tmpdir(), 'tab.le.csv')
        df.to_csv(f, index=False)
        with expecting('FileStream'):
            s = (FileStream(f, n_targets=t, cat_features=cat) if c['default_idx'] else
                 FileStream(f, target_idx=idx, n_targets=t, cat_features=cat))
        int_y = c['int_y']
    elif c['frame']:
        keep = df.copy()
        s = DataStream(df, target_idx=idx, n_targets=t, cat_features=cat)
        require(keep.equals(df), 'the caller\'s data was modified')
        int_y = c['int_y']
    else:
        arr = df.values.copy()
        keep = arr.copy()
        s = DataStream(arr, target_idx=idx, n_targets=t, cat_features=cat)
        require(same(keep, arr), 'the caller\'s data was modified')
        fn = tn = None
        int_y = False                 # a float matrix carries real-valued targets
    check_meta(s, c, X, Y, fn, tn, int_y)
    if c['kind'] == 'file':
        ax, ay = s.get_all_samples()
        require(same(ax, X) and same(np.asarray(ay).reshape(n, t), Y), 'get_all_samples differs')
    return drive(s, c['ops'], (X, Y[:, 0] if t == 1 else Y), ctx)


def run_temporal(c, ctx):
    from skmultiflow.data import TemporalDataStream
    X, Y = make(c)
    n, t = len(X), Y.shape[1]
    r = rng_of(c['seed'] + 1)
    t0 = np.datetime64('2020-01-01T00:00:00')
    if c['ties']:
        secs = r.randint(0, max(2, n // 2), n)
    else:
        secs = r.permutation(n * 3)[:n]
    if c['ordered']:
        secs = np.sort(secs)
    times = t0 + secs.astype('timedelta64[s]')
    kind, ordered = c['time'], c['ordered']
    delay = c['delay']
    if kind == 'none':
        ordered, delay = True, 'int'
    tm = None
    if kind == 'np':
        tm = times.copy()
    elif kind == 'series':
        tm = pd.Series(times)
    keep_t = None if tm is None else tm.copy()
    darr = times + r.randint(0, 30, n).astype('timedelta64[s]')
    if delay == 'int':
        dl = c['d']
    elif delay == 'td':
        dl = np.timedelta64(c['d'], 's')
        darr = times + dl
    elif delay == 'np':
        dl = darr.copy()
    else:
        dl = pd.Series(darr)
    w = np.round(r.rand(n) + 0.25, 3)
    ws = {'none': None, 'np': w.copy(), 'series': pd.Series(w)}[c['weight']]
    if c['xy']:
        if c['frame']:
            dx, dy = pd.DataFrame(X), pd.DataFrame(Y)
        else:
            dx, dy = X.copy(), (Y[:, 0].copy() if t == 1 else Y.copy())
        kx, ky = dx.copy(), dy.copy()
        args = (dx, dy)
    else:
        dx = pd.DataFrame(np.hstack([X, Y]), columns=['c%d' % i for i in range(c['f'] + t)])
        if not c['frame']:
            dx = dx.values
        kx = dx.copy()
        args = (dx,)
        dy = ky = 0
    with expecting('TemporalDataStream'):
        s = TemporalDataStream(*args, time=tm, sample_weight=ws, sample_delay=dl, n_targets=t,
                               target_idx=-t, ordered=ordered)
    order = np.arange(n) if ordered else np.argsort(secs, kind='mergesort')
    if not ordered and c['ties']:
        # order inside one timestamp is free: read it off the row identities
        got = np.asarray(s.X)[:, 0].astype(int).tolist()
        require(sorted(got) == list(range(n)), 'rows lost or repeated by ordering: %s', got)
        require(all(secs[a] <= secs[b] for a, b in zip(got, got[1:])), 'rows not in time order')
        order = np.array(got)
    if delay == 'int':
        et, ed = np.arange(n), np.arange(n) + c['d']
    else:
        et, ed = times[order], darr[order]
    cols = (X[order], Y[order][:, 0] if t == 1 else Y[order], et, ed,
            None if ws is None else w[order])
    out = drive(s, c['ops'], cols, ctx)
    require(same(kx, dx) and same(ky, dy), 'the caller\'s data was modified')
    require(tm is None or same(keep_t, tm), 'the caller\'s timestamps were modified')
    require(ws is None or same(ws, w), 'the caller\'s weights were modified')
    if not ordered:
        ctx.label('unordered')
    return out


def _bad(X, allow):
    from skmultiflow.data import DataStream
    try:
        DataStream(X, np.zeros(len(X), dtype=int), allow_nan=allow)
    except ValueError:
        return True
    return False


def run_reject(c, ctx):
    """non-numeric data is always rejected; missing values unless explicitly allowed"""
    r = rng_of(c['seed'])
    X = r.randn(c['n'], c['f'])
    i, j = c['i'] % c['n'], c['j'] % c['f']
    require(not _bad(X.copy(), c['allow']), 'clean numeric data rejected')
    Z = X.copy()
    Z[i, j] = np.nan
    require(_bad(Z, c['allow']) == (not c['allow']), 'NaN at (%d,%d) with allow_nan=%s', i, j,
            c['allow'])
    D = pd.DataFrame(X)
    D[j] = D[j].astype(object)
    D.iat[i, j] = 'a'
    require(_bad(D, c['allow']), 'non-numeric cell at (%d,%d) accepted', i, j)
    # containers, columns and time information of the wrong kind
    from skmultiflow.data import DataStream, FileStream, TemporalDataStream
    y = np.zeros(c['n'], dtype=int)
    t = pd.Series(pd.to_datetime(np.arange(c['n']), unit='s'))
    bad = [(ValueError, lambda: DataStream(X.tolist(), y)), (ValueError, lambda: DataStream(X, np.zeros(c['n'] + 1 + i))),
           (IndexError, lambda: DataStream(X, y, cat_features=[c['f'] + j])),
           (ValueError, lambda: FileStream('data.txt')), (FileNotFoundError, lambda: FileStream('missing.csv')),
           (TypeError, lambda: TemporalDataStream(X.tolist(), y, t)), (TypeError, lambda: TemporalDataStream(X, y, 'today')),
           (TypeError, lambda: TemporalDataStream(X, y, t.tolist())), (TypeError, lambda: TemporalDataStream(X, y, None, sample_delay=t)),
           (TypeError, lambda: TemporalDataStream(X, y, t, sample_delay='later')), (TypeError, lambda: TemporalDataStream(X, y, t, sample_delay=1.5))]
    for k, (err, fn) in enumerate(bad):
        try:
            fn()
        except err:
            continue
        except Exception as e:
            require(False, 'invalid construction %d raises %s, not %s', k, type(e).__name__, err.__name__)
        require(False, 'invalid construction %d is accepted', k)
    return True


SUBS = [
    Sub('table', table_s, run_table, n=1600, thorough=40000,
        rule='schedule has a restart and a request, or more than 4 operations'),
    Sub('temporal', temporal_s, run_temporal, n=1600, thorough=40000,
        rule='schedule has a restart and a request, or more than 4 operations'),
    Sub('reject', st.fixed_dictionaries(dict(n=st.integers(1, 9), f=st.integers(1, 4),
                                             i=st.integers(0, 8), j=st.integers(0, 3),
                                             seed=seeds, allow=st.booleans())),
        run_reject, n=160, rule='always'),
]
