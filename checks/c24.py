"""Hoeffding tree regressors against a reference."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close, rng_of, short
from vp.gen import seeds
from vp.regref import RefHTR, Split

PROP = 'C24'
META = dict(
    title='Hoeffding regression trees split on the best variance reduction and predict it',
    statement='For any stream (weighted or not, numeric and nominal attributes) and configuration, '
              'HoeffdingTreeRegressor and the multi-target trees iSOUPTreeRegressor and '
              'StackedSingleTargetHoeffdingTreeRegressor route each sample to one leaf; every grace_period of weight '
              'the leaf compares the best variance reduction of each attribute (any observed value may be the cut; '
              'each side needs weight 5) and splits exactly when the reduction is positive and the ratio of the '
              'second best to the best is below 1 minus the Hoeffding bound, or the bound is below tie_threshold. The children '
              'start with the target statistics of their side and, for linear leaves, with the weights of their '
              'parent. A query gets the mean target of its leaf, the output of its leaf\'s linear model '
              '(trained by gradient steps, once per unit of weight, on inputs and targets standardised by the whole '
              'stream), the stacked output, or whichever had the smaller faded error (adaptive); a query with an '
              'unknown nominal value gets the mean of the split node. Measurements describe this tree; '
              'over its memory limit the tree stops growing and its leaves go on learning.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all streams, weights, parameter settings and queries'),
    why_tests_cant='Tests compare the predictions of a few parameter settings on fixed streams.',
    anchors=dict(files=['src/skmultiflow/trees/hoeffding_tree_regressor.py', 'src/skmultiflow/trees/isoup_tree.py',
                        'src/skmultiflow/trees/stacked_single_target_hoeffding_tree_regressor.py',
                        'src/skmultiflow/trees/_nodes', 'src/skmultiflow/trees/_split_criterion',
                        'src/skmultiflow/trees/_attribute_observer'],
                 mechanism=[dict(name='growth', where='HoeffdingTreeRegressor._attempt_to_split'),
                            dict(name='cuts', where='NumericAttributeRegressionObserver'),
                            dict(name='leaf models', where='_nodes/htr_nodes.py, isouptr_nodes.py, sst_htr_nodes.py')]),
    technique='PBT, stateful: differential against a reference tree',
)
ASSUMPTIONS = ['decisions that hang on rounding are left out',
               'weights are whole numbers; at least two candidate splits per leaf']


def stream(c, r):
    n, f, t = c['n'], c['f'], c['t']
    nom = sorted({a for a in c['nom'] if a < f})
    X = r.randn(n, f)
    for a in range(f):
        X[:, a] = X[:, a] * [1.0, 0.3, 20.0][a % 3] + [0.0, 5.0, -40.0][a % 3]
        if a in c['coarse']:
            X[:, a] = np.round(X[:, a] * [2, 10, 0.1][a % 3])
    for a in nom:
        X[:, a] = r.randint(0, c['card'], n)
        if c['late']:
            X[n // 2:, a] += r.randint(0, 3, n - n // 2) * (r.rand(n - n // 2) < 0.4)
    Z = (X - X.mean(0)) / (X.std(0) + 1e-9)
    Y = np.zeros((n, t))
    for j in range(t):
        a, b = r.randint(0, f, 2)
        Y[:, j] = np.where(Z[:, a] > r.randn() * 0.5, 3.0, -1.0) + r.randn() * Z[:, b]
        if c['shape'] == 'linear':
            Y[:, j] = Z @ r.randn(f)
        if c.get('deep'):
            table = r.randn(*(3,) * c['deep']) * 3
            cols = [(Z[:, (j + i) % f] > 0.2 - 0.3 * i).astype(int) + (Z[:, (j + i) % f] > 0.8 - 0.1 * i)
                    for i in range(c['deep'])]
            Y[:, j] = table[tuple(cols)]
        Y[:, j] = (Y[:, j] + c['noise'] * r.randn(n)) * c['yscale'] + c['yshift']
    return X, Y, nom


def make(c, nom, kind, pred, **kw):
    from skmultiflow.trees import (HoeffdingTreeRegressor, StackedSingleTargetHoeffdingTreeRegressor,
                                   iSOUPTreeRegressor)
    cls = dict(htr=HoeffdingTreeRegressor, isoup=iSOUPTreeRegressor,
               sst=StackedSingleTargetHoeffdingTreeRegressor)[kind]
    return cls(grace_period=c['grace'], split_confidence=c['conf'], tie_threshold=c['tie'],
               binary_split=c['binary'], remove_poor_atts=c['poor'] and not c['nopre'], no_preprune=c['nopre'],
               leaf_prediction=pred, nominal_attributes=nom or None, learning_ratio_perceptron=c['lr'],
               learning_ratio_decay=c['decay'], learning_ratio_const=c['const'], random_state=c['rs'],
               stop_mem_management=c['stop'], **kw)


def run_tree(c, ctx):
    r = rng_of(c['seed'])
    kind, pred = c['model'].split('-')
    if kind == 'htr':
        c = dict(c, t=1)
    X, Y, nom = stream(c, r)
    n, i = len(X), 0
    period = c.get('period')
    kw = dict(max_byte_size=100, memory_estimate_period=period) if period else {}
    m = make(c, nom, kind, pred, **kw)
    ref = RefHTR(kind, c['t'], c['grace'], c['conf'], c['tie'], c['binary'], c['poor'] and not c['nopre'],
                 c['nopre'], pred, nom, c['lr'], c['decay'], c['const'], c['rs'], c['stop'])
    w = r.randint(0, 4, n) * (c['wscale'] if pred == 'mean' and not period else 1.0) if c['weights'] else np.ones(n)
    total = 0.0
    tol = 1e-6 * (abs(c['yshift']) + c['yscale'])
    while i < n:
        s = min(c['sizes'][i % len(c['sizes'])], n - i)
        m.partial_fit(X[i:i + s], Y[i:i + s, 0] if kind == 'htr' else Y[i:i + s],
                      **(dict(sample_weight=w[i:i + s]) if c['weights'] else {}))
        for j in range(i, i + s):
            ref.fit(X[j], Y[j], w[j])
            total += w[j]
            if period and w[j] and total % period == 0:
                ref.deactivate_all()
        i += s
        if r.rand() < (0.02 if c.get('deep') else 0.12) or i >= n:
            what = '%s after %d samples (%d splits)' % (c['model'], i, ref.n_split)
            Q = np.vstack([X[r.randint(0, n, 4)], X[r.randint(0, n, 2)] + r.randn(2, c['f']) * 0.5])
            got = np.asarray(m.predict(Q), dtype=float)
            if ref.root is None:
                want = np.zeros((len(Q), 1))
            else:
                want = np.array([ref.predict(q) for q in Q])
            require(got.shape == ((len(Q),) if kind == 'htr' else (len(Q), want.shape[1])) or ref.root is None,
                    '%s: predictions of shape %s', what, got.shape)
            require_close(got.reshape(len(Q), -1)[:, :want.shape[1]], want, '%s: predictions' % what, rtol=1e-5,
                          atol=tol)
            mm, ct = m.model_measurements, ref.counts()
            have = dict(nodes=mm['Tree size (nodes)'], leaves=mm['Tree size (leaves)'],
                        active=mm['Active learning nodes'], depth=mm['Tree depth'])
            require(have == ct, '%s: tree %s, expected %s', what, have, ct)
    ctx.label('%s splits: %d' % (kind, min(ref.n_split, 3)))
    if c.get('deep'):
        ctx.label('depth %d' % min(ref.counts()['depth'], 6))
    if ref.n_pruned:
        ctx.label('cuts pruned')
    return ref.n_split > 0


cfg = dict(seed=seeds, wscale=st.sampled_from([1.0, 0.37, 2.3]), f=st.integers(2, 4), t=st.integers(1, 3), nom=st.lists(st.integers(0, 3), max_size=2, unique=True),
           coarse=st.lists(st.integers(0, 3), max_size=3), card=st.integers(2, 3), late=st.booleans(),
           shape=st.sampled_from(['step', 'linear']), noise=st.sampled_from([0.01, 0.1, 1.0]),
           yscale=st.sampled_from([1.0, 100.0]), yshift=st.sampled_from([0.0, 3.0]),
           conf=st.sampled_from([1e-7, 0.01, 0.3]), tie=st.sampled_from([0.0, 0.05, 0.3]),
           binary=st.booleans(), poor=st.booleans(), nopre=st.booleans(),
           model=st.sampled_from(['htr-mean', 'htr-mean', 'htr-perceptron', 'isoup-mean', 'isoup-perceptron',
                                  'isoup-adaptive', 'sst-perceptron', 'sst-adaptive']),
           lr=st.sampled_from([0.02, 0.2]), decay=st.sampled_from([0.001, 0.1]), const=st.booleans(),
           rs=st.integers(0, 1000), stop=st.sampled_from([False, False, True]),
           grace=st.sampled_from([9.5, 19.5, 40.5]), weights=st.sampled_from([False, False, True]),
           sizes=st.lists(st.integers(1, 9), min_size=1, max_size=3))
SUBS = [
    Sub('tree', st.fixed_dictionaries(dict(cfg, n=st.sampled_from([40, 120, 250]))), run_tree, 1500,
        thorough=8000, rule='at least one split'),
    Sub('deep', st.fixed_dictionaries(dict(
        cfg, n=st.sampled_from([800, 1500, 2500]), f=st.integers(2, 6), deep=st.sampled_from([2, 3]), noise=st.sampled_from(
            [0.01, 0.1]), conf=st.sampled_from([1e-7, 0.01, 0.3]), tie=st.sampled_from([0.05, 0.15, 0.3]), stop=st.just(False),
        grace=st.sampled_from([25.5, 50.5, 200.5]), sizes=st.lists(st.sampled_from([1, 7, 50, 200]), min_size=1, max_size=3))),
        run_tree, 200, thorough=1200, rule='at least one split'),
    Sub('nominal', st.fixed_dictionaries(dict(
        cfg, n=st.sampled_from([120, 250, 400]), f=st.integers(2, 3), nom=st.sampled_from([[0], [0, 1]]), late=st.just(True),
        binary=st.just(False), conf=st.just(0.3), tie=st.sampled_from([0.05, 0.3]), weights=st.booleans(),
        coarse=st.just([]), grace=st.sampled_from([9.5, 19.5]))), run_tree, 300, thorough=2000, rule='at least one split'),
    Sub('memory', st.fixed_dictionaries(dict(cfg, n=st.sampled_from([40, 120]), period=st.sampled_from(
        [5, 10, 50]))), run_tree, 400, thorough=3000, rule='at least one split'),
]
