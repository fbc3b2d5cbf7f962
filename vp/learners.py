"""Registry of the library's learners: small, fast configurations that exercise their machinery.

Each entry: name -> dict(task, make(seed, **variant)).  Tasks: clf (int labels 0..k-1), reg,
mlc (binary label matrix), mtr (real target matrix), anom."""
import numpy as np


def _base(kind):
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.lazy import KNNClassifier
    from skmultiflow.trees import HoeffdingTreeClassifier
    return {'nb': lambda: NaiveBayes(), 'knn': lambda: KNNClassifier(n_neighbors=3, max_window_size=50),
            'ht': lambda: HoeffdingTreeClassifier(grace_period=20, split_confidence=0.1,
                                                  tie_threshold=0.2)}[kind]()


def registry():
    import skmultiflow.trees as T
    import skmultiflow.meta as M
    import skmultiflow.lazy as L
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.drift_detection import ADWIN
    from skmultiflow.rules import VeryFastDecisionRulesClassifier
    from skmultiflow.neural_networks import PerceptronMask
    from skmultiflow.prototype import RobustSoftLearningVectorQuantization
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    from sklearn.linear_model import Perceptron, SGDClassifier, SGDRegressor
    from sklearn.tree import DecisionTreeClassifier
    ht = dict(grace_period=20, split_confidence=0.1, tie_threshold=0.2)
    reg = {}

    def add(name, task, make, **flags):
        reg[name] = dict(task=task, make=make, **flags)
    add('NaiveBayes', 'clf', lambda s: NaiveBayes())
    add('KNN', 'clf', lambda s: L.KNNClassifier(n_neighbors=3, max_window_size=60, leaf_size=5))
    add('KNNADWIN', 'clf', lambda s: L.KNNADWINClassifier(n_neighbors=3, max_window_size=60, leaf_size=5))
    add('SAMKNN', 'clf', lambda s: L.SAMKNNClassifier(n_neighbors=3, max_window_size=100, min_stm_size=10))
    for lp in ('mc', 'nb', 'nba'):
        add('HT-' + lp, 'clf', lambda s, lp=lp: T.HoeffdingTreeClassifier(leaf_prediction=lp, **ht))
    add('HT-gini', 'clf', lambda s: T.HoeffdingTreeClassifier(split_criterion='gini', binary_split=True,
                                                             **ht))
    add('HT-hellinger', 'clf', lambda s: T.HoeffdingTreeClassifier(split_criterion='hellinger', **ht))
    add('HAT', 'clf', lambda s: T.HoeffdingAdaptiveTreeClassifier(random_state=s, **ht))
    add('EFDT', 'clf', lambda s: T.ExtremelyFastDecisionTreeClassifier(min_samples_reevaluate=20, **ht))
    add('HT-opts', 'clf', lambda s: T.HoeffdingTreeClassifier(
        nominal_attributes=[0], remove_poor_atts=True, no_preprune=True, leaf_prediction='nb', **ht),
        kinds=['int'])
    add('HT-mem', 'clf', lambda s: T.HoeffdingTreeClassifier(
        max_byte_size=6000, memory_estimate_period=15, **ht))
    add('HAT-noboot', 'clf', lambda s: T.HoeffdingAdaptiveTreeClassifier(
        bootstrap_sampling=False, leaf_prediction='mc', nominal_attributes=[1], random_state=s, **ht),
        kinds=['int'])
    add('EFDT-nb', 'clf', lambda s: T.ExtremelyFastDecisionTreeClassifier(
        min_samples_reevaluate=15, leaf_prediction='nb', nominal_attributes=[0], **ht), kinds=['int'])
    add('VFDR-opts', 'clf', lambda s: VeryFastDecisionRulesClassifier(
        grace_period=15, expand_confidence=0.3, tie_threshold=0.5, ordered_rules=False,
        rule_prediction='weighted_sum', drift_detector=ADWIN(), nominal_attributes=[0], remove_poor_atts=True,
        nb_prediction=False), kinds=['int'])
    add('VFDR', 'clf', lambda s: VeryFastDecisionRulesClassifier(grace_period=20, expand_confidence=0.1,
                                                                 tie_threshold=0.2))
    add('PerceptronMask', 'clf', lambda s: PerceptronMask(random_state=s))
    add('RSLVQ', 'clf', lambda s: RobustSoftLearningVectorQuantization(random_state=s))
    for b in ('nb', 'ht', 'knn'):
        add('OzaBagging-' + b, 'clf', lambda s, b=b: M.OzaBaggingClassifier(
            _base(b), n_estimators=3, random_state=s))
        add('OzaBaggingADWIN-' + b, 'clf', lambda s, b=b: M.OzaBaggingADWINClassifier(
            _base(b), n_estimators=3, random_state=s))
        add('LevBag-' + b, 'clf', lambda s, b=b: M.LeveragingBaggingClassifier(
            _base(b), n_estimators=3, random_state=s))
    for a in ('leveraging_bag_me', 'leveraging_bag_half', 'leveraging_bag_wt', 'leveraging_subag'):
        add('LevBag-' + a[11:], 'clf', lambda s, a=a: M.LeveragingBaggingClassifier(
            _base('nb'), n_estimators=3, leverage_algorithm=a, random_state=s))
    add('LevBag-codes', 'clf', lambda s: M.LeveragingBaggingClassifier(
        _base('nb'), n_estimators=4, enable_code_matrix=True, random_state=s))
    add('OnlineBoosting', 'clf', lambda s: M.OnlineBoostingClassifier(
        _base('nb'), n_estimators=3, random_state=s))
    add('OnlineAdaC2', 'clf', lambda s: M.OnlineAdaC2Classifier(
        _base('nb'), n_estimators=3, random_state=s))
    add('OnlineCSB2', 'clf', lambda s: M.OnlineCSB2Classifier(
        _base('nb'), n_estimators=3, random_state=s))
    for a in (1, 2, 3):
        add('OnlineRUSBoost-%d' % a, 'clf', lambda s, a=a: M.OnlineRUSBoostClassifier(
            _base('nb'), n_estimators=3, algorithm=a, random_state=s))
    add('OnlineSMOTEBagging', 'clf', lambda s: M.OnlineSMOTEBaggingClassifier(
        _base('nb'), n_estimators=3, random_state=s))
    add('OnlineUnderOverBagging', 'clf', lambda s: M.OnlineUnderOverBaggingClassifier(
        _base('nb'), n_estimators=3, random_state=s))
    for nm, cl in (('OnlineBoosting', M.OnlineBoostingClassifier),
                   ('OnlineAdaC2', M.OnlineAdaC2Classifier), ('OnlineCSB2', M.OnlineCSB2Classifier),
                   ('OnlineRUSBoost-1', M.OnlineRUSBoostClassifier),
                   ('OnlineSMOTEBagging', M.OnlineSMOTEBaggingClassifier),
                   ('OnlineUnderOverBagging', M.OnlineUnderOverBaggingClassifier)):
        add(nm + '-nodrift', 'clf', lambda s, cl=cl: cl(
            _base('nb'), n_estimators=3, drift_detection=False, random_state=s))
    add('DWM', 'clf', lambda s: M.DynamicWeightedMajorityClassifier(
        n_estimators=3, base_estimator=_base('nb'), period=10))
    add('AddExp-weakest', 'clf', lambda s: M.AdditiveExpertEnsembleClassifier(
        n_estimators=3, base_estimator=_base('nb'), pruning='weakest'))
    add('AddExp-oldest', 'clf', lambda s: M.AdditiveExpertEnsembleClassifier(
        n_estimators=3, base_estimator=_base('nb'), pruning='oldest'))
    add('AWE', 'clf', lambda s: M.AccuracyWeightedEnsembleClassifier(
        n_estimators=4, n_kept_estimators=6, base_estimator=_base('nb'), window_size=20, n_splits=3))
    add('LearnNSE', 'clf', lambda s: M.LearnPPNSEClassifier(
        _base('nb'), window_size=25, n_estimators=3, pruning='age'))
    add('LearnPP', 'clf', lambda s: M.LearnPPClassifier(
        DecisionTreeClassifier(max_depth=2, random_state=0), n_estimators=3, n_ensembles=2,
        window_size=30, random_state=s))
    add('BatchIncremental', 'clf', lambda s: M.BatchIncrementalClassifier(
        DecisionTreeClassifier(max_depth=2, random_state=0), window_size=15, n_estimators=3))
    add('ARF', 'clf', lambda s: M.AdaptiveRandomForestClassifier(
        n_estimators=3, grace_period=20, split_confidence=0.1, random_state=s))
    add('ARF-opts', 'clf', lambda s: M.AdaptiveRandomForestClassifier(
        n_estimators=2, grace_period=20, split_confidence=0.1, drift_detection_method=None,
        warning_detection_method=None, leaf_prediction='nb', disable_weighted_vote=True, lambda_value=2,
        max_features=None, random_state=s))
    add('SRP-ht', 'clf', lambda s: M.StreamingRandomPatchesClassifier(
        _base('ht'), n_estimators=3, subspace_size=50, drift_detection_method=ADWIN(0.05),
        warning_detection_method=ADWIN(0.3), random_state=s))
    for t in ('randomsubspaces', 'resampling', 'randompatches'):
        add('SRP-' + t, 'clf', lambda s, t=t: M.StreamingRandomPatchesClassifier(
            _base('nb'), n_estimators=3, training_method=t, random_state=s))
    # regression
    add('KNNRegressor', 'reg', lambda s: L.KNNRegressor(n_neighbors=3, max_window_size=60, leaf_size=5))
    for lp in ('mean', 'perceptron'):
        add('HTR-' + lp, 'reg', lambda s, lp=lp: T.HoeffdingTreeRegressor(
            leaf_prediction=lp, random_state=s, **ht))
        add('HATR-' + lp, 'reg', lambda s, lp=lp: T.HoeffdingAdaptiveTreeRegressor(
            leaf_prediction=lp, random_state=s, **ht))
    add('HTR-opts', 'reg', lambda s: T.HoeffdingTreeRegressor(
        nominal_attributes=[0], binary_split=True, leaf_prediction='mean', remove_poor_atts=True,
        random_state=s, **ht), kinds=['int'])
    add('KNNRegressor-median', 'reg', lambda s: L.KNNRegressor(
        n_neighbors=4, max_window_size=25, leaf_size=3, aggregation_method='median', metric='manhattan'))
    add('ARFR-opts', 'reg', lambda s: M.AdaptiveRandomForestRegressor(
        n_estimators=2, grace_period=20, split_confidence=0.1, aggregation_method='mean',
        leaf_prediction='mean', max_features=2, weighted_vote_strategy='mse', random_state=s))
    add('ARFR', 'reg', lambda s: M.AdaptiveRandomForestRegressor(
        n_estimators=3, grace_period=20, split_confidence=0.1, random_state=s))
    # multi-target
    for lp in ('mean', 'perceptron', 'adaptive'):
        add('iSOUP-' + lp, 'mtr', lambda s, lp=lp: T.iSOUPTreeRegressor(
            leaf_prediction=lp, random_state=s, **ht))
    add('SST-perceptron', 'mtr', lambda s: T.StackedSingleTargetHoeffdingTreeRegressor(
        leaf_prediction='perceptron', random_state=s, **ht))
    add('SST-adaptive', 'mtr', lambda s: T.StackedSingleTargetHoeffdingTreeRegressor(
        leaf_prediction='adaptive', random_state=s, **ht))
    add('RegressorChain-random', 'mtr', lambda s: M.RegressorChain(
        SGDRegressor(random_state=1, eta0=1e-3), order='random', random_state=s))
    add('MultiOutput-reg', 'mtr', lambda s: M.MultiOutputLearner(
        SGDRegressor(random_state=1, eta0=1e-3)))
    add('RegressorChain', 'mtr', lambda s: M.RegressorChain(
        SGDRegressor(random_state=1, eta0=1e-3), random_state=s))
    # multi-label
    add('MultiOutput-nb', 'mlc', lambda s: M.MultiOutputLearner(_base('nb')))
    add('MultiOutput-perc', 'mlc', lambda s: M.MultiOutputLearner(Perceptron(random_state=1)))
    add('ClassifierChain', 'mlc', lambda s: M.ClassifierChain(
        SGDClassifier(loss='log', random_state=1), random_state=s))
    add('ClassifierChain-random', 'mlc', lambda s: M.ClassifierChain(
        SGDClassifier(loss='log', random_state=1), order='random', random_state=s))
    add('ProbCC', 'mlc', lambda s: M.ProbabilisticClassifierChain(
        SGDClassifier(loss='log', random_state=1), random_state=s))
    add('MonteCarloCC', 'mlc', lambda s: M.MonteCarloClassifierChain(
        SGDClassifier(loss='log', random_state=1), M=4, random_state=s))
    for lp in ('mc', 'nb', 'nba'):
        add('LCHT-' + lp, 'mlc', lambda s, lp=lp: T.LabelCombinationHoeffdingTreeClassifier(
            n_labels=3, leaf_prediction=lp, **ht), n_labels=3)
    add('HST', 'anom', lambda s: HalfSpaceTrees(n_estimators=4, window_size=20, depth=4,
                                                random_state=s))
    return reg


def data(task, n, seed, nf=4, k=2, m=3, kind='sep'):
    """Deterministic data; kind 'sep' (learnable), 'drift' (concept inverts at half), 'noise', 'int'."""
    r = np.random.RandomState(seed % (2 ** 32))
    X = r.rand(n, nf) * 10
    if kind == 'int':
        X = r.randint(0, 4, (n, nf)).astype(float)
    base = X[:, 0] + 0.3 * X[:, -1]
    half = np.arange(n) >= n // 2
    if task in ('clf', 'anom'):
        q = np.quantile(base, np.linspace(0, 1, k + 1)[1:-1]) if n else []
        y = np.searchsorted(q, base).astype(int) if k > 1 else np.zeros(n, int)
        if kind == 'noise':
            y = r.randint(0, k, n)
        flip = r.rand(n) < 0.08
        y = np.where(flip, r.randint(0, k, n), y)
        if kind == 'drift':
            y = np.where(half, k - 1 - y, y)
        if task == 'anom':
            y = (r.rand(n) < 0.05).astype(int)
            X[y == 1] += 6
        return X, y
    if task == 'reg':
        y = base + 0.1 * r.randn(n)
        if kind == 'drift':
            y = np.where(half, 20 - y, y)
        if kind == 'noise':
            y = r.randn(n)
        return X, y
    if task == 'mtr':
        Y = np.column_stack([base * (j + 1) + X[:, j % nf] + 0.1 * r.randn(n) for j in range(m)])
        if kind == 'drift':
            Y[half] = -Y[half]
        return X, Y
    Y = np.column_stack([(X[:, j % nf] + 0.3 * base > 7) for j in range(m)]).astype(int)
    Y = np.where(r.rand(n, m) < 0.08, 1 - Y, Y)
    if kind == 'drift':
        Y[half] = 1 - Y[half]
    return X, Y


def classes_of(task, k):
    return list(range(k)) if task == 'clf' else ([0, 1] if task in ('mlc', 'anom') else None)


def fit(model, task, X, y, classes, weights=None, first=True):
    """One partial_fit call in the way the evaluators do it."""
    kw = {}
    if weights is not None:
        kw['sample_weight'] = weights
    if task in ('reg', 'mtr'):
        return model.partial_fit(X, y, **kw)
    return model.partial_fit(X, y, classes=classes, **kw)
