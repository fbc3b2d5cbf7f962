"""Adaptive trees: EFDT and the Hoeffding adaptive tree against references."""
import numpy as np
from hypothesis import strategies as st

from checks import c24
from checks.c23 import cfg, compare, stream
from vp.engine import Sub, require, require_close, rng_of
from vp.regref import RefHTR
from vp.treeref import RefEFDT, RefHAT

PROP = 'C25'
META = dict(
    title='EFDT revises its splits, the adaptive tree replaces branches only by better ones',
    statement='For any stream and configuration: ExtremelyFastDecisionTreeClassifier splits a leaf as soon as its '
              'best split beats no split by the Hoeffding bound (or the bound is below tie_threshold), keeps '
              'learning at split nodes, and, once min_samples_reevaluate weight has passed a split node, '
              'replaces its split (and drops the subtree) when another attribute is better by the bound or in a '
              'tie, and turns it back into a leaf when no split is better by the bound. '
              'HoeffdingAdaptiveTreeClassifier grows like the Hoeffding tree; every node watches its own '
              'error with ADWIN, a split node whose error rises starts an alternate tree beside it, which '
              'learns from the same samples and answers no query; after more than 300 monitored samples on '
              'both sides the alternate takes the place of the node when its error is lower by the bound, '
              'and is dropped when it is higher. The counters of alternate trees report exactly that. A '
              'query with an unknown nominal value gets the class weights of the split node it ends at.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all streams with and without drift, weights, parameter settings and queries'),
    why_tests_cant='Tests compare a few predictions and the description of a tree on fixed streams; the '
                   'life cycle of alternate trees depends on the history.',
    anchors=dict(files=['src/skmultiflow/trees/extremely_fast_decision_tree.py',
                        'src/skmultiflow/trees/hoeffding_adaptive_tree.py',
                        'src/skmultiflow/trees/hoeffding_adaptive_tree_regressor.py',
                        'src/skmultiflow/trees/_nodes/efdtc_nodes.py', 'src/skmultiflow/trees/_nodes/hatc_nodes.py'],
                 mechanism=[dict(name='re-evaluation', where='_reevaluate_best_split'),
                            dict(name='alternate trees', where='AdaSplitNode.learn_one')]),
    technique='PBT, stateful: differential against sample-keeping reference trees',
)
ASSUMPTIONS = ['decisions that hang on rounding are left out',
               'ADWIN itself is checked by its own property; the reference uses it as a component',
               'node counts of an adaptive tree are compared until its first alternate tree',
               'HoeffdingAdaptiveTreeRegressor is compared until its first alternate tree']


def batches(c, r, n):
    i = 0
    while i < n:
        s = min(c['sizes'][i % len(c['sizes'])], n - i)
        yield i, i + s
        i += s


def have(m):
    mm = m.model_measurements
    return dict(nodes=mm['Tree size (nodes)'], leaves=mm['Tree size (leaves)'],
                active=mm['Active learning nodes'], depth=mm['Tree depth'])


def run_efdt(c, ctx):
    from skmultiflow.trees import ExtremelyFastDecisionTreeClassifier
    r = rng_of(c['seed'])
    X, y, nom, labels = stream(c, r)
    if c['flip']:
        h = len(X) // 2
        X[h:, 0], X[h:, -1] = X[h:, -1].copy(), X[h:, 0].copy()
        if nom:
            X[:, nom] = np.abs(np.round(X[:, nom])) % 5
    m = ExtremelyFastDecisionTreeClassifier(
        grace_period=c['grace'], min_samples_reevaluate=c['reeval'], split_criterion=c['crit'],
        split_confidence=c['conf'], tie_threshold=c['tie'], binary_split=c['binary'],
        leaf_prediction=c['pred'], nb_threshold=c['nbt'], nominal_attributes=nom or None)
    ref = RefEFDT(c['grace'], c['reeval'], c['crit'], c['conf'], c['tie'], c['binary'], c['pred'], c['nbt'], nom)
    w = r.randint(0, 4, len(X)) * (1.0 if c.get('period') else c['wscale']) if c['weights'] else np.ones(len(X))
    for a, b in batches(c, r, len(X)):
        m.partial_fit(X[a:b], y[a:b], classes=labels, **(dict(sample_weight=w[a:b]) if c['weights'] else {}))
        for j in range(a, b):
            ref.fit(X[j], int(y[j]), w[j])
        if r.rand() < (0.02 if c.get('deep') else 0.12) or b >= len(X):
            what = 'after %d samples (%d splits, %d revised, %d undone)' % (b, ref.n_split, ref.n_revised,
                                                                           ref.n_killed)
            Q = np.vstack([X[r.randint(0, len(X), 4)], X[r.randint(0, len(X), 2)] + r.randn(2, c['f']) * 0.5])
            compare(m, ref, Q, what, labels)
            require(have(m) == ref.counts(), '%s: tree %s, expected %s', what, have(m), ref.counts())
    for k in ('n_split', 'n_revised', 'n_killed', 'n_retest'):
        if getattr(ref, k):
            ctx.label(k)
    return ref.n_split > 0


def run_hat(c, ctx, drift=False):
    from skmultiflow.trees import HoeffdingAdaptiveTreeClassifier
    r = rng_of(c['seed'])
    X, y, nom, labels = stream(c, r)
    n = len(X)
    if drift:
        for cut in c['cuts']:
            h = int(cut * n)
            perm = labels[r.permutation(len(labels))]
            part = y[h:].copy()
            for u, v in zip(labels, perm):
                y[h:][part == u] = v
    kw = dict(grace_period=c['grace'], split_criterion=c['crit'], split_confidence=c['conf'],
              tie_threshold=c['tie'], binary_split=c['binary'], remove_poor_atts=c['poor'],
              no_preprune=c['nopre'], leaf_prediction=c['pred'], nominal_attributes=nom or None,
              bootstrap_sampling=c['boot'], random_state=c['rs'])
    m = HoeffdingAdaptiveTreeClassifier(**kw)
    ref = RefHAT(c['grace'], c['crit'], c['conf'], c['tie'], c['binary'], c['poor'], c['nopre'], c['pred'], nom,
                 c['rs'] if c['boot'] else None)
    w = r.randint(0, 4, n) * (1.0 if c.get('period') else c['wscale']) if c['weights'] else np.ones(n)
    rate = 0.005 if drift else 0.02 if c.get('deep') else 0.12
    for a, b in batches(c, r, n):
        m.partial_fit(X[a:b], y[a:b], classes=labels, **(dict(sample_weight=w[a:b]) if c['weights'] else {}))
        for j in range(a, b):
            ref.fit(X[j], int(y[j]), w[j])
        got = (m.alternate_trees_cnt, m.switch_alternate_trees_cnt, m.pruned_alternate_trees_cnt)
        require(got == (ref.n_alt, ref.n_switch, ref.n_drop), 'after %d samples: counters of alternate trees '
                '(started, switched, pruned) %s, expected %s', b, got, (ref.n_alt, ref.n_switch, ref.n_drop))
        if r.rand() < rate or b >= n:
            what = 'after %d samples (%d splits, %d alternates, %d switched, %d dropped)' % (
                b, ref.n_split, ref.n_alt, ref.n_switch, ref.n_drop)
            Q = np.vstack([X[r.randint(0, n, 4)], X[r.randint(0, n, 2)] + r.randn(2, c['f']) * 0.5])
            compare(m, ref, Q, what, labels)
            if not ref.n_alt:
                require(have(m) == ref.counts(), '%s: tree %s, expected %s', what, have(m), ref.counts())
            require(ref.root is None or m.get_model_description().count('Leaf = ') == ref.counts()['leaves'],
                    '%s: the description does not show %d leaves', what, ref.counts()['leaves'])
    for k in ('n_split', 'n_alt', 'n_switch', 'n_drop'):
        if getattr(ref, k):
            ctx.label(k)
    return (ref.n_alt if drift else ref.n_split) > 0


def run_drift(c, ctx):
    return run_hat(c, ctx, True)


def run_hatr(c, ctx):
    """The adaptive regression tree, until its first alternate tree."""
    from skmultiflow.trees import HoeffdingAdaptiveTreeRegressor
    r = rng_of(c['seed'])
    c = dict(c, t=1)
    X, Y, nom = c24.stream(c, r)
    n = len(X)
    poor = c['poor'] and not c['nopre']
    m = HoeffdingAdaptiveTreeRegressor(
        grace_period=c['grace'], split_confidence=c['conf'], tie_threshold=c['tie'], binary_split=c['binary'],
        remove_poor_atts=poor, no_preprune=c['nopre'], leaf_prediction=c['rpred'], nominal_attributes=nom or None,
        learning_ratio_perceptron=c['lr'], learning_ratio_decay=c['decay'], learning_ratio_const=c['const'],
        bootstrap_sampling=c['boot'], random_state=c['rs'])
    ref = RefHTR('htr', 1, c['grace'], c['conf'], c['tie'], c['binary'], poor, c['nopre'], c['rpred'], nom,
                 c['lr'], c['decay'], c['const'], c['rs'])
    ref.boot = c['boot']
    w = r.randint(0, 4, n) * (c['wscale'] if c['rpred'] == 'mean' else 1.0) if c['weights'] else np.ones(n)
    for a, b in batches(c, r, n):
        m.partial_fit(X[a:b], Y[a:b, 0], **(dict(sample_weight=w[a:b]) if c['weights'] else {}))
        for j in range(a, b):
            ref.fit(X[j], Y[j], w[j])
        if m.alternate_trees_cnt:
            ctx.label('alternate')
            break
        if (r.rand() < 0.12 or b >= n) and ref.root is not None:
            what = 'regressor after %d samples (%d splits)' % (b, ref.n_split)
            Q = X[r.randint(0, n, 6)]
            require_close(m.predict(Q), [ref.predict(q)[0] for q in Q], '%s: predictions' % what, rtol=1e-5,
                          atol=1e-6 * (abs(c['yshift']) + c['yscale']))
            require(have(m) == ref.counts(), '%s: tree %s, expected %s', what, have(m), ref.counts())
    return ref.n_split > 0


def run_hatr_alternate(c, ctx):
    """known finding: the first split of a regression tree's alternate replaces the main tree"""
    from skmultiflow.trees import HoeffdingAdaptiveTreeRegressor
    r = np.random.RandomState(c['seed'])
    X = r.rand(3000, 2)
    y = np.where(X[:, 0] > .5, 1., 0.) + np.where(X[:, 1] > .5, .4, 0) + r.randn(3000) * .05
    y[1500:] = np.where(X[1500:, 1] > .5, 3., 0.) + r.randn(1500) * .5
    m = HoeffdingAdaptiveTreeRegressor(grace_period=100, leaf_prediction='mean', random_state=1)
    most = 0
    for i in range(0, 3000, 10):
        m.partial_fit(X[i:i + 10], y[i:i + 10])
        k = m.get_model_description().count('Leaf')
        require(k >= most or m.switch_alternate_trees_cnt, 'after %d samples the tree went from %d to %d leaves, '
                'no alternate tree has been switched in', i + 10, most, k)
        most = k


more = dict(weights=st.sampled_from([False, False, True]), sizes=st.lists(st.integers(1, 9), min_size=1, max_size=3))
hat = dict(cfg, boot=st.booleans(), rs=st.integers(0, 1000), **more)
SUBS = [
    Sub('efdt', st.fixed_dictionaries(dict(cfg, n=st.sampled_from([40, 120, 250]), reeval=st.sampled_from(
        [10.5, 30.5, 80.5]), flip=st.booleans(), **more)), run_efdt, 800, thorough=6000, rule='at least one split'),
    Sub('hat', st.fixed_dictionaries(dict(hat, n=st.sampled_from([40, 120, 250]))), run_hat, 1500, thorough=5000,
        rule='at least one split'),
    Sub('efdt_deep', st.fixed_dictionaries(dict(
        dict(cfg, **more), n=st.sampled_from([800, 1500, 2500]), f=st.integers(2, 6), k=st.integers(2, 6), deep=st.sampled_from([2, 3]),
        drift=st.booleans(), conf=st.sampled_from([1e-7, 0.01, 0.2]), tie=st.sampled_from([0.05, 0.15, 0.3]),
        noise=st.sampled_from([0.0, 0.05]), grace=st.sampled_from([25.5, 50.5, 200.5]), poor=st.sampled_from(
            [False, False, False, True]),
        reeval=st.sampled_from([60.5, 250.5, 600.5]), flip=st.booleans(),
        sizes=st.lists(st.sampled_from([1, 7, 50, 200]), min_size=1, max_size=3))), run_efdt, 60, thorough=600,
        rule='at least one split'),
    Sub('hat_deep', st.fixed_dictionaries(dict(
        hat, n=st.sampled_from([800, 1500, 2500]), f=st.integers(2, 6), k=st.integers(2, 6), deep=st.sampled_from([2, 3]),
        drift=st.booleans(), conf=st.sampled_from([1e-7, 0.01, 0.2]), tie=st.sampled_from([0.05, 0.15, 0.3]),
        noise=st.sampled_from([0.0, 0.05]), grace=st.sampled_from([25.5, 50.5, 200.5]), poor=st.sampled_from(
            [False, False, False, True]),
        sizes=st.lists(st.sampled_from([1, 7, 50]), min_size=1, max_size=3))), run_hat, 120, thorough=600,
        rule='at least one split'),
    Sub('hat_nominal', st.fixed_dictionaries(dict(
        hat, n=st.sampled_from([250, 400]), f=st.integers(2, 3), nom=st.sampled_from([[0], [0, 1]]), late=st.just(True),
        binary=st.just(False), two=st.just(False), conf=st.just(0.2), tie=st.sampled_from([0.25, 0.6]), weights=st.just(True),
        grace=st.sampled_from([9.5, 19.5]), noise=st.sampled_from([0.05, 0.3]))), run_hat, 300, thorough=2000,
        rule='at least one split'),
    Sub('hatr', st.fixed_dictionaries(dict(c24.cfg, n=st.sampled_from([40, 120, 250]), boot=st.booleans(),
        rpred=st.sampled_from(['mean', 'perceptron']))), run_hatr, 800, thorough=4000, rule='at least one split'),
    Sub('drift', st.fixed_dictionaries(dict(
        hat, n=st.sampled_from([1000, 2000, 3500]), pred=st.sampled_from(['mc', 'mc', 'mc', 'nb']),
        grace=st.sampled_from([40.5, 100.5]), conf=st.sampled_from([0.01, 0.2]), tie=st.sampled_from([0.05, 0.25]),
        crit=st.sampled_from(['info_gain', 'gini']), noise=st.sampled_from([0.0, 0.05, 0.15]), k=st.sampled_from([2, 2, 3]),
        sizes=st.sampled_from([[5], [1, 3], [20, 50]]), weights=st.just(False),
        cuts=st.lists(st.sampled_from([0.2, 0.3, 0.5, 0.55, 0.7]), min_size=1, max_size=3, unique=True))),
        run_drift, 260, thorough=1500, rule='an alternate tree was started'),
    Sub('hatr_alternate', st.nothing(), run_hatr_alternate, n=0, thorough=0, rule='known finding only'),
]
