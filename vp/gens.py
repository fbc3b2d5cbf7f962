"""Configurations of every synthetic generator."""
from hypothesis import strategies as st

seed_s = st.integers(0, 2 ** 20)


def _d(**kw):
    return st.fixed_dictionaries(kw)


b = st.booleans()
CONFIGS = {
    'AGRAWALGenerator': _d(classification_function=st.integers(0, 9), random_state=seed_s,
                           balance_classes=b, perturbation=st.sampled_from([0.0, 0.0, 0.1, 0.6])),
    'AnomalySineGenerator': _d(n_samples=st.integers(30, 80), n_anomalies=st.integers(1, 20),
                               contextual=b, n_contextual=st.integers(1, 15),
                               shift=st.integers(0, 6), noise=st.sampled_from([0.0, 0.5]),
                               replace=b, random_state=seed_s),
    'HyperplaneGenerator': _d(random_state=seed_s, n_features=st.integers(2, 8),
                              n_drift_features=st.integers(0, 2),
                              mag_change=st.sampled_from([0.0, 0.01, 0.3]),
                              noise_percentage=st.sampled_from([0.0, 0.05, 0.4]),
                              sigma_percentage=st.sampled_from([0.0, 0.1, 0.9])),
    'LEDGenerator': _d(random_state=seed_s, noise_percentage=st.sampled_from([0.0, 0.1, 0.5]),
                       has_noise=b),
    'LEDGeneratorDrift': _d(random_state=seed_s, noise_percentage=st.sampled_from([0.0, 0.1, 0.5]),
                            has_noise=b, n_drift_features=st.integers(0, 7)),
    'MIXEDGenerator': _d(classification_function=st.integers(0, 1), random_state=seed_s,
                         balance_classes=b),
    'MultilabelGenerator': _d(n_samples=st.sampled_from([30, 47, 60, 101, 160]), n_features=st.integers(2, 6),
                              n_targets=st.integers(1, 4), n_labels=st.integers(1, 3),
                              random_state=seed_s),
    'RandomRBFGenerator': _d(model_random_state=seed_s, sample_random_state=seed_s,
                             n_classes=st.integers(2, 4), n_features=st.integers(1, 5),
                             n_centroids=st.integers(1, 8)),
    'RandomRBFGeneratorDrift': _d(model_random_state=seed_s, sample_random_state=seed_s,
                                  n_classes=st.integers(2, 4), n_features=st.integers(1, 5),
                                  n_centroids=st.integers(1, 8),
                                  change_speed=st.sampled_from([0.0, 0.05, 0.87, 2.0]),
                                  num_drift_centroids=st.integers(0, 10)),
    'RandomTreeGenerator': _d(tree_random_state=seed_s, sample_random_state=seed_s,
                              n_classes=st.integers(2, 4), n_cat_features=st.integers(1, 4),
                              n_num_features=st.integers(0, 4),
                              n_categories_per_cat_feature=st.integers(2, 4),
                              max_tree_depth=st.integers(1, 4), min_leaf_depth=st.integers(0, 3),
                              fraction_leaves_per_level=st.sampled_from([0.0, 0.15, 0.5, 1.0])),
    'RegressionGenerator': _d(n_samples=st.sampled_from([30, 47, 60, 101, 160]), n_features=st.integers(2, 8),
                              n_informative=st.integers(1, 8), n_targets=st.integers(1, 3),
                              random_state=seed_s),
    'SEAGenerator': _d(classification_function=st.integers(0, 3), random_state=seed_s,
                       balance_classes=b, noise_percentage=st.sampled_from([0.0, 0.0, 0.1, 0.6])),
    'SineGenerator': _d(classification_function=st.integers(0, 3), random_state=seed_s,
                        balance_classes=b, has_noise=b),
    'STAGGERGenerator': _d(classification_function=st.integers(0, 2), random_state=seed_s,
                           balance_classes=b),
    'WaveformGenerator': _d(random_state=seed_s, has_noise=b),
}
FINITE = ('AnomalySineGenerator', 'MultilabelGenerator', 'RegressionGenerator')


def make(name, kw):
    import skmultiflow.data as D
    kw = dict(kw)
    if name == 'RandomTreeGenerator' and kw['n_num_features'] == 0:
        # a nominal attribute is used at most once on a path
        kw['max_tree_depth'] = min(kw['max_tree_depth'], kw['n_cat_features'])
    if name == 'HyperplaneGenerator':
        kw['n_drift_features'] = min(kw['n_drift_features'], kw['n_features'])
    if name == 'RegressionGenerator':
        kw['n_informative'] = min(kw['n_informative'], kw['n_features'])
    return getattr(D, name)(**kw), kw


def any_config(names=None):
    return st.sampled_from(names or sorted(CONFIGS)).flatmap(
        lambda n: st.tuples(st.just(n), CONFIGS[n]))
