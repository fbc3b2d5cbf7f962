"""Parameter interface, clone, repr, pickling version, default fit and score of the base classes."""
import copy
import inspect
import warnings

import numpy as np
from hypothesis import strategies as st

from vp import xl
from vp.engine import Sub, Violation, require, require_close, rng_of, short
from vp.gen import seeds

PROP = 'C19'
META = dict(
    title='Estimators expose, set, copy and print exactly their constructor parameters',
    statement='For every object of the library (learners, streams, transforms) and every user class '
              'built on BaseSKMObject: get_params lists exactly the constructor parameters, with the '
              'values given or set last, and (deep) those of nested estimators as name__param; '
              'set_params with any valid plain or nested names changes exactly these, returns the '
              'object, and raises ValueError for an unknown name; clone builds a new object of the same class '
              'with equal parameters, itself and all estimators inside it (nested or in lists and '
              'tuples) being independent of the original, refuses an object that is not an estimator and a '
              'constructor that alters a parameter; the representation (repr, get_info) of an object names its '
              'class and all its parameters and, for literal parameters and up to 700 printed '
              'characters, evaluates back to an object with equal parameters. A deprecated name '
              'builds an object of the new class with the same parameters. The default fit of a '
              'user learner is partial_fit with the same arguments, its score is the (weighted) '
              'accuracy, or the variance-weighted R2, of its predictions, and is_classifier and '
              'is_regressor tell the two kinds apart.',
    quantifier=dict(over=['configurations', 'inputs', 'histories'],
                    text='all nestings of estimators, parameter values, set_params sequences, and all '
                         'label, target and weight vectors'),
    why_tests_cant='Tests clone and print a few fixed objects; the interface must hold for any '
                   'nesting, value and sequence of updates.',
    anchors=dict(files=['src/skmultiflow/core/base.py', 'src/skmultiflow/utils/_pprint.py'],
                 mechanism=[dict(name='parameters', where='BaseEstimator.get_params / set_params'),
                            dict(name='clone', where='core/base.py clone'),
                            dict(name='repr', where='BaseEstimator.__repr__'),
                            dict(name='defaults', where='ClassifierMixin / RegressorMixin')]),
    technique='PBT: generated estimator trees against a dict model; round trips; score oracles',
)
ASSUMPTIONS = ['documented defaults as in the docstrings of core/base.py']

# ---------------------------------------------------------------- generated estimators
_CLS = {}


def cls_of(kind):
    """User estimator classes over the library's base classes."""
    if not _CLS:
        from skmultiflow.core import BaseSKMObject, ClassifierMixin, RegressorMixin

        class Leafy(BaseSKMObject):
            def __init__(self, alpha=1, b='x'):
                self.alpha = alpha
                self.b = b
                self.learned = []

        class Nest(BaseSKMObject):
            def __init__(self, base_estimator=None, n_estimators=3, extra=None, zeta=0.5):
                self.base_estimator = base_estimator
                self.n_estimators = n_estimators
                self.extra = extra
                self.zeta = zeta
                self.learned = []

        class Pair(BaseSKMObject):
            def __init__(self, left=None, right=None, a_long_parameter_name='q'):
                self.left = left
                self.right = right
                self.a_long_parameter_name = a_long_parameter_name
                self.learned = []

        class Bare(BaseSKMObject):
            pass

        class ZeroArg(BaseSKMObject):
            def __init__(self):
                self.learned = []

        class Alters(BaseSKMObject):
            def __init__(self, items=(1, 2)):
                self.items = list(items)

        class Forgets(BaseSKMObject):
            def __init__(self, w=3):
                self.other = w

        class Clf(BaseSKMObject, ClassifierMixin):
            def __init__(self, answers=None):
                self.answers = answers
                self.calls = []

            def partial_fit(self, X, y, classes=None, sample_weight=None):
                self.calls.append((X, y, classes, sample_weight))
                return self

            def predict(self, X):
                return np.asarray(self.answers)[np.asarray(X)[:, 0].astype(int)]

            def predict_proba(self, X):
                raise NotImplementedError

        class Reg(BaseSKMObject, RegressorMixin):
            def __init__(self, answers=None):
                self.answers = answers
                self.calls = []

            def partial_fit(self, X, y, sample_weight=None):
                self.calls.append((X, y, sample_weight))
                return self

            def predict(self, X):
                return np.asarray(self.answers)[np.asarray(X)[:, 0].astype(int)]

            def predict_proba(self, X):
                raise NotImplementedError

        for c in (Leafy, Nest, Pair, Bare, ZeroArg, Alters, Forgets, Clf, Reg):
            _CLS[c.__name__] = c
    return _CLS[kind]


NAMES = dict(Leafy=['alpha', 'b'], Nest=['base_estimator', 'n_estimators', 'extra', 'zeta'],
             Pair=['left', 'right', 'a_long_parameter_name'], ZeroArg=[], Bare=[])
literals = st.one_of(
    st.none(), st.booleans(), st.integers(-10 ** 6, 10 ** 6), st.floats(allow_nan=False, allow_infinity=False),
    st.text('abcXYZ_ -.', max_size=12),
    st.lists(st.integers(-9, 9), max_size=6),
    st.dictionaries(st.sampled_from(['a', 'b', 'c']), st.integers(0, 9), max_size=3),
).map(lambda v: {'lit': v})
arrays = st.lists(st.integers(-9, 9), max_size=5).map(lambda v: {'arr': v})
leaf = st.one_of(literals, arrays)


def est(child):
    return st.sampled_from(['Leafy', 'Nest', 'Pair', 'ZeroArg', 'Bare']).flatmap(
        lambda k: st.fixed_dictionaries({n: child for n in NAMES[k]}).map(
            lambda p: {'est': k, 'p': p}))


def tree(lf):
    return est(st.recursive(lf, lambda ch: st.one_of(
        est(ch), st.lists(est(lf), min_size=1, max_size=3).map(lambda v: {'list': v}),
        st.lists(est(lf), min_size=1, max_size=2).map(lambda v: {'tuple': v})), max_leaves=8))


def build(spec):
    if 'lit' in spec:
        return copy.deepcopy(spec['lit'])
    if 'arr' in spec:
        return np.array(spec['arr'])
    if 'list' in spec:
        return [build(s) for s in spec['list']]
    if 'tuple' in spec:
        return tuple(build(s) for s in spec['tuple'])
    return cls_of(spec['est'])(**{k: build(v) for k, v in spec['p'].items()})


def equal(a, b):
    """Structural equality of parameter values (estimators: same class, equal parameters)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        return type(a) is type(b) and a.shape == b.shape and bool((a == b).all())
    if hasattr(a, 'get_params') or hasattr(b, 'get_params'):
        return type(a) is type(b) and matches(a, {k: getattr(b, k) for k in NAMES.get(
            type(b).__name__, [])})
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def matches(obj, want):
    return all(equal(getattr(obj, k), v) for k, v in want.items())


def flat(obj):
    """The model of get_params(deep=True), from the attributes alone."""
    out = {}
    for k in NAMES[type(obj).__name__]:
        v = getattr(obj, k)
        out[k] = v
        if type(v).__name__ in NAMES:
            for kk, vv in flat(v).items():
                out[k + '__' + kk] = vv
    return out


def inner(v):
    """All mutable pieces of a value."""
    out = []
    if type(v).__name__ in NAMES:
        out.append(v)
        out.append(v.__dict__)
        for k in NAMES[type(v).__name__]:
            out += inner(getattr(v, k))
    elif isinstance(v, (list, tuple)):
        if isinstance(v, list):
            out.append(v)
        for x in v:
            out += inner(x)
    elif isinstance(v, (dict, np.ndarray)):
        out.append(v)
    return out


def same_map(got, want, what):
    require(isinstance(got, dict) and set(got) == set(want), '%s: names %s, expected %s', what,
            sorted(got), sorted(want))
    for k in want:
        require(got[k] is want[k], '%s: the value of %s is %s, expected %s', what, k, short(got[k]),
                short(want[k]))


def run_params(c, ctx):
    obj = build(c['tree'])
    for step in c['sets']:
        want = flat(obj)
        same_map(obj.get_params(), want, 'get_params()')
        same_map(obj.get_params(deep=True), want, 'get_params(deep=True)')
        same_map(obj.get_params(deep=False), {k: v for k, v in want.items() if '__' not in k},
                 'get_params(deep=False)')
        names = sorted(want)
        if not names:
            break
        sel = sorted({names[i % len(names)] for i, _ in step['upd']})
        upd = {n: build(step['upd'][i % len(step['upd'])][1]) for i, n in enumerate(sel)}
        # a nested name together with its own prefix is left out (which goes first is unspecified
        # for the deeper levels)
        upd = {n: v for n, v in upd.items() if not any(n.startswith(m + '__') for m in upd)}
        if step['bad']:
            bad = dict(upd)
            bad['no_such_parameter'] = 1
            try:
                copy.deepcopy(obj).set_params(**bad)
            except ValueError:
                pass
            else:
                raise Violation('set_params accepts an unknown name')
        model = {}
        for n, v in upd.items():
            o = obj
            path = n.split('__')
            for p in path[:-1]:
                o = getattr(o, p)
            model[n] = (o, path[-1], v)
        before = {n: v for n, v in want.items()
                  if not any(n == m or n.startswith(m + '__') for m in upd)}
        r = obj.set_params(**upd)
        require(r is obj, 'set_params returns %s', short(r))
        for n, (o, a, v) in model.items():
            require(getattr(o, a) is v, 'set_params(%s=...) leaves %s', n, short(getattr(o, a)))
        after = flat(obj)
        for n, v in before.items():
            require(n in after and after[n] is v, 'set_params(%s) changes %s', sorted(upd), n)
        ctx.label('nested' if any('__' in n for n in upd) else 'flat')
    require(obj.set_params() is obj, 'set_params() returns another object')
    same_map(obj.get_params(), flat(obj), 'get_params()')
    return len(flat(obj)) > 2


def run_clone(c, ctx):
    from skmultiflow.core import clone
    obj = build(c['tree'])
    ids = inner(obj)
    for o in ids:
        if type(o).__name__ in NAMES and hasattr(o, 'learned'):
            o.learned.append('something')
    ref = copy.deepcopy(obj)
    ref_params = {k: getattr(ref, k) for k in NAMES[type(ref).__name__]}
    if c['wrap'] == 'list':
        got = clone([obj, obj])
        require(isinstance(got, list) and len(got) == 2, 'clone of a list: %s', short(got))
        require(got[0] is not got[1], 'clone of a list shares elements')
        news = got
    elif c['wrap'] == 'tuple':
        got = clone((obj,))
        require(isinstance(got, tuple) and len(got) == 1, 'clone of a tuple: %s', short(got))
        news = list(got)
    else:
        news = [clone(obj, safe=c['safe'])]
    for new in news:
        require(type(new) is type(obj), 'clone of a %s is a %s', type(obj).__name__, type(new).__name__)
        require(matches(new, ref_params), 'clone has other parameters: %s, expected %s',
                short(flat(new)), short(flat(ref)))
        require(matches(obj, ref_params), 'clone changes the original')
        orig = {id(o) for o in ids}
        for o in inner(new):
            require(id(o) not in orig, 'the clone shares %s with the original', short(o))
            if type(o).__name__ in NAMES and hasattr(o, 'learned'):
                require(o.learned == [], 'the clone of a nested estimator keeps what was learned')
    return len(ids) > 2


def run_refuse(c, ctx):
    from skmultiflow.core import clone
    v = build(c['value'])
    if isinstance(v, (list, tuple)) and not v:
        return False
    if not (isinstance(v, (list, tuple)) or hasattr(v, 'get_params')):
        try:
            clone(v)
        except TypeError:
            pass
        else:
            raise Violation('clone(%s) of a non-estimator does not raise TypeError' % short(v))
        w = clone(v, safe=False)
        require(equal(v, w), 'clone(%s, safe=False) gives %s', short(v), short(w))
        if isinstance(v, (dict, np.ndarray)):
            require(v is not w, 'clone(safe=False) returns the object itself')
    for name in ('Alters',):
        try:
            clone(cls_of(name)())
        except RuntimeError:
            pass
        else:
            raise Violation('clone accepts a constructor that does not keep its parameter (%s)' % name)
    try:
        clone(cls_of('Leafy'))
    except TypeError:
        pass
    else:
        raise Violation('clone accepts a class')
    return True


def run_repr(c, ctx):
    obj = build(c['tree'])
    r = repr(obj)
    require(isinstance(r, str), 'repr gives %s', type(r))
    require(obj.get_info() == r, 'get_info %s differs from repr %s', short(obj.get_info()), short(r))
    require(r.startswith(type(obj).__name__ + '('), 'repr %s does not start with the class', short(r))
    text = eval_text(obj)
    if len(''.join(r.split())) > 700 or '...' in r or len(''.join(text.split())) > 690:
        ctx.label('long')
        return False
    env = {k: cls_of(k) for k in NAMES}
    try:
        back = eval(r, {'__builtins__': {}}, env)
    except Exception as e:
        raise Violation('repr does not evaluate: %s: %s' % (e, r))
    require(type(back) is type(obj), 'repr of a %s evaluates to %s', type(obj).__name__, type(back))
    require(matches(back, {k: getattr(obj, k) for k in NAMES[type(obj).__name__]}),
            'repr evaluates to other parameters: %s', r)
    import re
    for k in NAMES[type(obj).__name__]:
        require(re.search(r'\b%s\s*=' % re.escape(k), r), 'repr %s does not name %s', r, k)
    return len(flat(obj)) > 2


def eval_text(obj):
    if type(obj).__name__ in NAMES:
        return '%s(%s)' % (type(obj).__name__, ','.join('%s=%s' % (
            k, eval_text(getattr(obj, k))) for k in NAMES[type(obj).__name__]))
    if isinstance(obj, (list, tuple)):
        return '[%s]' % ','.join(eval_text(x) for x in obj)
    return repr(obj)


# ---------------------------------------------------------------- library objects
def lib_objects():
    from skmultiflow import transform as TR, data as G
    out = {}
    for n, e in xl.reg().items():
        out[n] = e['make']
    for n in ('MissingValuesCleaner', 'WindowedMinmaxScaler', 'WindowedStandardScaler',
              'OneHotToCategorical'):
        cl = getattr(TR, n)
        out[n] = (lambda s, cl=cl: cl([[0, 1]])) if n == 'OneHotToCategorical' else (lambda s, cl=cl: cl())
    for n in ('SEAGenerator', 'SineGenerator', 'AGRAWALGenerator', 'HyperplaneGenerator', 'LEDGenerator',
              'MIXEDGenerator', 'RandomRBFGenerator', 'RandomTreeGenerator', 'RegressionGenerator',
              'STAGGERGenerator', 'WaveformGenerator', 'MultilabelGenerator', 'LEDGeneratorDrift',
              'RandomRBFGeneratorDrift', 'AnomalySineGenerator'):
        out[n] = lambda s, n=n: getattr(G, n)()
    return out


_LIB = None


def lib():
    global _LIB
    if _LIB is None:
        _LIB = lib_objects()
    return _LIB


def run_lib(c, ctx):
    names = sorted(lib())
    name = names[c['i'] % len(names)]
    m = lib()[name](c['seed'] % 1000)
    sig = {p.name: p for p in inspect.signature(type(m).__init__).parameters.values()
           if p.name != 'self' and p.kind != p.VAR_KEYWORD}
    require(set(m.get_params(deep=False)) == set(sig), '%s: get_params lists %s, the constructor '
            'takes %s', name, sorted(m.get_params(deep=False)), sorted(sig))
    deep = m.get_params()
    want = {}

    def walk(prefix, o):
        for k in type(o)._get_param_names():
            v = getattr(o, k, None)
            want[prefix + k] = v
            if hasattr(v, 'get_params') and not isinstance(v, type):
                if hasattr(type(v), '_get_param_names'):
                    walk(prefix + k + '__', v)
    walk('', m)
    require(set(deep) == set(want), '%s: get_params names %s, expected %s', name, sorted(deep), sorted(want))
    r = repr(m)
    require(r.startswith(type(m).__name__ + '(') and r.rstrip().endswith(')'), '%s: repr %s', name, r)
    if '...' not in r:
        for k in sig:
            require(k + '=' in r, '%s: repr does not name %s: %s', name, k, r)
    keys = sorted(sig)
    if keys and name not in ('OnlineBoosting', 'OnlineSMOTEBagging'):
        k = keys[c['seed'] % len(keys)]
        v = object()
        m2 = lib()[name](c['seed'] % 1000)
        if isinstance(getattr(type(m2), k, None), property):
            ctx.label('property-backed parameter')
        else:
            require(m2.set_params(**{k: v}) is m2, '%s: set_params returns another object', name)
            require(m2.get_params(deep=False)[k] is v, '%s: set_params(%s) has no effect', name, k)
            for kk in keys:
                if kk != k and not hasattr(m.get_params()[kk], 'get_params') \
                        and isinstance(m.get_params()[kk], (int, float, str, type(None))):
                    require(m2.get_params()[kk] == m.get_params()[kk] or kk.startswith('_'),
                            '%s: set_params(%s) changes %s', name, k, kk)
    return bool(keys)


# ---------------------------------------------------------------- default fit, score
def run_score(c, ctx):
    from skmultiflow.core import is_classifier, is_regressor
    r = rng_of(c['seed'])
    n, k = c['n'], c['k']
    X = np.arange(n).reshape(-1, 1).astype(float)
    w = None if not c['w'] else r.randint(0, 4, n).astype(float)
    if w is not None and w.sum() == 0:
        w[0] = 1.0
    ww = np.ones(n) if w is None else w
    if c['clf']:
        y, p = r.randint(0, k, n), r.randint(0, k, n)
        p = np.where(r.rand(n) < c['agree'], y, p)
        m = cls_of('Clf')(answers=p)
        got = m.score(X, y, sample_weight=w) if w is not None else m.score(X, y)
        require_close(got, (ww * (y == p)).sum() / ww.sum(), 'score of a classifier')
    else:
        d = c['d']
        y = r.randn(n, d) * (1 + 5 * np.arange(d)) + 3
        p = y + r.randn(n, d) * r.rand(d) * 3
        yy, pp = (y[:, 0], p[:, 0]) if d == 1 else (y, p)
        m = cls_of('Reg')(answers=pp)
        if n < 3 or (ww > 0).sum() < 2:
            return False
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            got = m.score(X, yy, sample_weight=w) if w is not None else m.score(X, yy)
        mu = (ww[:, None] * y).sum(0) / ww.sum()
        res = (ww[:, None] * (y - p) ** 2).sum(0)
        tot = (ww[:, None] * (y - mu) ** 2).sum(0)
        require_close(got, 1 - res.sum() / tot.sum(), 'score of a regressor', rtol=1e-6)
    require(is_classifier(m) is c['clf'] and is_regressor(m) is (not c['clf']),
            'is_classifier %s, is_regressor %s of a %s', is_classifier(m), is_regressor(m), type(m))
    args = (X, y)
    kw = {}
    if c['clf'] and c['cl']:
        kw['classes'] = list(range(k))
    if w is not None:
        kw['sample_weight'] = w
    require(m.fit(*args, **kw) is m, 'fit returns another object')
    require(len(m.calls) == 1, 'fit trains %d times', len(m.calls))
    call = m.calls[0]
    require(call[0] is X and call[1] is y and call[-1] is kw.get('sample_weight'),
            'fit passes other data to partial_fit')
    if c['clf']:
        require(call[2] is kw.get('classes'), 'fit passes classes %s', short(call[2]))
    return True


# ---------------------------------------------------------------- constructor values
OPTIONS = dict(
    split_criterion=['info_gain', 'gini', 'hellinger'], leaf_prediction=['mc', 'nb', 'nba'],
    weighting=['uniform', 'distance'], stm_size_option=['maxACC', 'maxACCApprox'],
    pruning=['oldest', 'weakest'], rule_prediction=['first_hit', 'weighted_sum', 'weighted_max'],
    expand_criterion=['info_gain', 'hellinger'], metric=['euclidean', 'manhattan'],
    aggregation_method=['mean', 'median'], performance_metric=['acc', 'kappa'],
    weighted_vote_strategy=['mse', 'mae'], drift_detection_criteria=['mse', 'mae', 'predictions'],
    leverage_algorithm=['leveraging_bag', 'leveraging_bag_me', 'leveraging_subag'],
    strategy=['zero', 'mean', 'median', 'mode', 'custom'], gradient_descent=['vanilla', 'adadelta'],
    subspace_mode=['constant', 'percentage'], training_method=['randompatches', 'resampling'],
    nominal_attributes=[[0], [1, 2]], random_state=[3, 11], model_random_state=[2, 5],
    sample_random_state=[4, 6], tree_random_state=[8, 9], order=['random'], n_labels=[2, 4],
    classification_function=[0, 1, 2], algorithm=[1, 2, 3], missing_value=[-1, 7.5],
    penalty=['l1', 'l2'], n_jobs=[1, 2], class_weight=['balanced'], metrics=None, data=None,
    alpha=[0.01, 0.2], n_splits=[3, 4], n_drift_features=[1, 2], n_samples=[3000, 5000],
    n_anomalies=[100, 200], n_contextual=[10, 20], num_drift_centroids=[3, 4], stat_size=[10, 20],
    window_size=[60, 77], n_informative=[3, 5], initial_prototypes=None, name=['stream name'],
    cat_features=None, drift_detector=None, warning_level=[1.5, 2.5], out_control_level=[3.5, 4.5])
PER_CLASS = {
    'PageHinkley': dict(alpha=[0.9, 0.99]), 'LearnPPNSEClassifier': dict(pruning=['age', 'error']),
    'RegressionGenerator': dict(n_features=[20, 30]), 'ConceptDriftStream': dict(
        width=[10, 50], position=[20, 300], alpha=None),
    'SEAGenerator': dict(classification_function=[0, 1, 2, 3]), 'SineGenerator': dict(
        classification_function=[0, 1, 2, 3]), 'AGRAWALGenerator': dict(
        classification_function=list(range(10))), 'MIXEDGenerator': dict(classification_function=[0, 1]),
    'StreamingRandomPatchesClassifier': dict(subspace_mode=['m', 'sqrtM1', 'MsqrtM1', 'percentage']),
    'VeryFastDecisionRulesClassifier': dict(nominal_attributes=[[], [0], [1, 2]]),
    'HalfSpaceTrees': dict(depth=[3, 4], n_estimators=[2, 3]),
}
for _n in ('HoeffdingTreeRegressor', 'HoeffdingAdaptiveTreeRegressor', 'AdaptiveRandomForestRegressor',
           'ARFHoeffdingTreeRegressor'):
    PER_CLASS[_n] = dict(leaf_prediction=['mean', 'perceptron'])
for _n in ('iSOUPTreeRegressor', 'StackedSingleTargetHoeffdingTreeRegressor'):
    PER_CLASS[_n] = dict(leaf_prediction=['adaptive', 'perceptron'])
# parameters not kept under their name (the test-suite pins the resulting description)
NOT_KEPT = {('OnlineBoostingClassifier', 'n_estimators'), ('OnlineSMOTEBaggingClassifier', 'random_state'),
            ('AdaptiveRandomForestClassifier', 'max_features'),
            ('AdaptiveRandomForestRegressor', 'max_features'), ('SAMKNNClassifier', 'max_window_size'),
            ('DDM', 'min_num_instances'), ('MissingValuesCleaner', 'missing_value')}
MODS = ['data', 'trees', 'meta', 'lazy', 'bayes', 'rules', 'neural_networks', 'prototype',
        'anomaly_detection', 'drift_detection', 'transform', 'evaluation', 'trees.arf_hoeffding_tree',
        'trees.arf_hoeffding_tree_regressor']
RENAMED = dict(
    HAT='HoeffdingAdaptiveTreeClassifier', HATT='ExtremelyFastDecisionTreeClassifier',
    HoeffdingTree='HoeffdingTreeClassifier', LCHT='LabelCombinationHoeffdingTreeClassifier',
    MultiTargetRegressionHoeffdingTree='iSOUPTreeRegressor',
    RegressionHAT='HoeffdingAdaptiveTreeRegressor', RegressionHoeffdingTree='HoeffdingTreeRegressor',
    AccuracyWeightedEnsemble='AccuracyWeightedEnsembleClassifier',
    AdaptiveRandomForest='AdaptiveRandomForestClassifier',
    AdditiveExpertEnsemble='AdditiveExpertEnsembleClassifier',
    DynamicWeightedMajority='DynamicWeightedMajorityClassifier', LearnNSE='LearnPPNSEClassifier',
    LearnPP='LearnPPClassifier', LeverageBagging='LeveragingBaggingClassifier',
    OnlineAdaC2='OnlineAdaC2Classifier', OnlineBoosting='OnlineBoostingClassifier',
    OnlineCSB2='OnlineCSB2Classifier', OnlineRUSBoost='OnlineRUSBoostClassifier',
    OnlineSMOTEBagging='OnlineSMOTEBaggingClassifier',
    OnlineUnderOverBagging='OnlineUnderOverBaggingClassifier', OzaBagging='OzaBaggingClassifier',
    OzaBaggingAdwin='OzaBaggingADWINClassifier', KNN='KNNClassifier', KNNAdwin='KNNADWINClassifier',
    SAMKNN='SAMKNNClassifier', VFDR='VeryFastDecisionRulesClassifier')
_PUB = {}


def public():
    if not _PUB:
        import importlib
        from skmultiflow.core import BaseSKMObject
        for m in MODS:
            try:
                mod = importlib.import_module('skmultiflow.' + m)
            except ImportError:
                continue
            for n in dir(mod):
                o = getattr(mod, n)
                if inspect.isclass(o) and issubclass(o, BaseSKMObject) \
                        and o.__module__ != 'skmultiflow.core.base' and not inspect.isabstract(o):
                    _PUB[n] = o
                elif n in RENAMED and callable(o):
                    _PUB[n] = o
    return _PUB


def value(cname, p, r):
    """A valid value for the parameter, mostly another one than its default; None: leave it."""
    opts = PER_CLASS.get(cname, {}).get(p.name, OPTIONS.get(p.name, 0))
    d = p.default
    if opts is None:
        return None
    if opts != 0:
        return opts[r.randint(len(opts))]
    if isinstance(d, bool):
        return not d
    if isinstance(d, int):
        return d + int(r.randint(1, 4))
    if isinstance(d, float) and np.isfinite(d):
        return d * [0.5, 0.75, 0.9][r.randint(3)] if d else 0.125
    if isinstance(d, float):
        return 12.5
    if p.name == 'base_estimator':
        from skmultiflow.bayes import NaiveBayes
        return NaiveBayes(nominal_attributes=[int(r.randint(9))])
    if p.name in ('drift_detection_method', 'warning_detection_method'):
        from skmultiflow.drift_detection import ADWIN
        return ADWIN(float([0.03, 0.3][r.randint(2)]))
    return None


def chosen(f, cname, r, frac):
    sig = inspect.signature(f.__init__ if inspect.isclass(f) else f).parameters
    kw = {}
    for p in sig.values():
        if p.name == 'self' or p.kind == p.VAR_KEYWORD or p.default is p.empty:
            continue
        if r.rand() < frac:
            v = value(cname, p, r)
            if v is not None:
                kw[p.name] = v
    if cname == 'VeryFastDecisionRulesClassifier':
        kw.setdefault('nominal_attributes', [])      # None is stored as the empty list
        if kw.get('ordered_rules', True):            # announced: ordered rules imply first_hit
            kw.pop('rule_prediction', None)
    if cname == 'LabelCombinationHoeffdingTreeClassifier':
        kw.setdefault('n_labels', 3)
    return sig, kw


def run_stored(c, ctx):
    names = sorted(n for n in public() if n not in RENAMED and n not in (
        'DataStream', 'FileStream', 'TemporalDataStream', 'OneHotToCategorical'))
    cname = names[c['i'] % len(names)]
    r = rng_of(c['seed'])
    sig, kw = chosen(public()[cname], cname, r, c['frac'])
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        m = public()[cname](**kw)
        got = m.get_params(deep=False)
        plain = public()[cname](**({'n_labels': 3} if 'n_labels' in sig and cname.startswith('Label')
                                   else {})).get_params(deep=False)
    for k, v in kw.items():
        if (cname, k) in NOT_KEPT:
            continue
        require(k in got and (got[k] is v or (type(got[k]) is type(v) and got[k] == v)),
                '%s(%s=%s) has %s', cname, k, short(v), short(got.get(k)))
    for k, p in sig.items():
        if k in kw or k == 'self' or (cname, k) in NOT_KEPT or p.kind == p.VAR_KEYWORD:
            continue
        if isinstance(plain[k], (int, float, str, bool, type(None))) and plain[k] == plain[k]:
            require(got[k] == plain[k], '%s(%s): %s is %s, by default %s', cname, kw, k, short(got[k]),
                    short(plain[k]))
    ctx.label(cname)
    return len(kw) > 0


def run_renamed(c, ctx):
    names = sorted(n for n in public() if n in RENAMED)
    if not names:
        return False
    name = names[c['i'] % len(names)]
    cname = RENAMED[name]
    sig, kw = chosen(public()[name], cname, rng_of(c['seed']), c['frac'])
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        m = public()[name](**kw)
    require(any(issubclass(w.category, FutureWarning) and cname in str(w.message) for w in ws),
            '%s does not announce its new name %s', name, cname)
    require(type(m) is public()[cname], '%s gives a %s, not a %s', name, type(m).__name__, cname)
    got = m.get_params(deep=False)
    for k, p in sig.items():
        want = kw.get(k, p.default)
        if (cname, k) in NOT_KEPT:
            continue
        require(k in got and (got[k] is want or repr(got[k]) == repr(want)),
                '%s(%s): %s is %s, expected %s', name, short(kw), k, short(got.get(k)), short(want))
    ctx.label(name)
    return len(kw) > 0


idx = st.integers(0, 50)
SUBS = [
    Sub('params', st.fixed_dictionaries(dict(tree=tree(leaf), sets=st.lists(st.fixed_dictionaries(dict(
        upd=st.lists(st.tuples(idx, st.one_of(leaf, est(leaf))), min_size=1, max_size=3),
        bad=st.booleans())), min_size=1, max_size=4))), run_params, 700, rule='more than two parameters'),
    Sub('clone', st.fixed_dictionaries(dict(tree=tree(leaf), wrap=st.sampled_from(['', '', 'list', 'tuple']),
                                            safe=st.booleans())), run_clone, 700,
        rule='something mutable inside'),
    Sub('refuse', st.fixed_dictionaries(dict(value=leaf)), run_refuse, 100, rule='always'),
    Sub('repr', st.fixed_dictionaries(dict(tree=tree(literals))), run_repr, 700,
        rule='short enough for the round trip, more than two parameters'),
    Sub('library', st.fixed_dictionaries(dict(i=st.integers(0, 200), seed=seeds)), run_lib, 250,
        rule='has parameters'),
    Sub('stored', st.fixed_dictionaries(dict(i=st.integers(0, 400), seed=seeds, frac=st.sampled_from(
        [0.3, 0.7, 1.0]))), run_stored, 500, rule='at least one parameter given'),
    Sub('renamed', st.fixed_dictionaries(dict(i=st.integers(0, 400), seed=seeds, frac=st.sampled_from(
        [0.3, 0.7, 1.0]))), run_renamed, 250, rule='at least one parameter given'),
    Sub('score', st.fixed_dictionaries(dict(
        seed=seeds, n=st.integers(1, 40), k=st.integers(2, 4), d=st.integers(1, 3), clf=st.booleans(),
        w=st.booleans(), cl=st.booleans(), agree=st.sampled_from([0.0, 0.5, 0.9]))), run_score, 500,
        rule='score defined'),
]
