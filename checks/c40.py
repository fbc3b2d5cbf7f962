"""C40: PerceptronMask against scikit-learn's Perceptron and the perceptron rule itself."""
import warnings

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, Skip, require, require_close, rng_of, short

PROP = 'C40'
SCALE = 3
META = {
    'title': 'PerceptronMask learns the perceptron rule with all of its parameters',
    'statement': (
        'PerceptronMask trained by any sequence of partial_fit calls is the perceptron with the parameters it was '
        'constructed with: a sample that is misclassified or lies on the boundary moves the weights of its class by '
        'eta0 times its sample weight (times its class weight) towards it and those of the other classes away from '
        'it, the intercept moves only with fit_intercept, the penalty shrinks the weights by eta0 * alpha, and '
        'nothing else is changed; with shuffle the rows of one call are visited in an order that depends on '
        'random_state only. fit trains from scratch with max_iter, tol, early stopping and warm_start as '
        'scikit-learn does. predict gives one declared class per row, the one of the largest decision value; '
        'predict_proba has one column per declared class, in sorted order, holding the logistic function of the '
        'decision values normalised to sum to 1. Classes declared in the first call may appear later; samples of a '
        'class that was not declared are refused and leave the model as it was.'),
    'quantifier': {'over': ['inputs', 'histories', 'configurations'],
                   'text': 'penalties, alpha, eta0, intercept, class and sample weights, 2-4 classes appearing at any '
                           'call, call sizes 1-10, 1-4 features'},
    'why_tests_cant': (
        'The repository test trains one default configuration on one stream; the parameters and the order in which '
        'classes and samples arrive span a space a test cannot enumerate.'),
    'anchors': {'files': ['src/skmultiflow/neural_networks/perceptron.py'],
                'mechanism': [{'name': '__init__, fit, partial_fit, predict, predict_proba',
                               'where': 'src/skmultiflow/neural_networks/perceptron.py'}]},
    'technique': 'property-based testing: differential against an independent perceptron and against '
                 'scikit-learn over generated histories',
}
ASSUMPTIONS = [
    "scikit-learn's Perceptron is the documented reference for the order of shuffled rows, fit and the l1 and "
    'elastic-net penalties.',
    'The independent perceptron judges decisions through predict and predict_proba only; cases whose decision value '
    'is within 1e-9 of a tie are skipped.',
]

params = st.fixed_dictionaries(dict(
    penalty=st.sampled_from([None, None, 'l2', 'l1', 'elasticnet']), alpha=st.sampled_from([1e-4, 0.01, 0.1]),
    fit_intercept=st.booleans(), eta0=st.sampled_from([1.0, 0.1, 0.5, 3.0]), shuffle=st.booleans(),
    random_state=st.integers(0, 50), class_weight=st.sampled_from([None, None, 'half'])))
base = dict(seed=st.integers(0, 2 ** 20), k=st.integers(2, 4), gap=st.integers(1, 3), nf=st.integers(1, 4),
            scale=st.sampled_from([0.1, 1.0, 5.0]), weights=st.booleans(), p=params)
history = st.fixed_dictionaries(dict(base, sizes=st.lists(st.integers(1, 10), min_size=1, max_size=8),
                                     late=st.booleans(), how=st.sampled_from(['none', 'none', 'reset', 'twin'])))
single = st.fixed_dictionaries(dict(base, n=st.integers(1, 60), late=st.booleans()))
fits = st.fixed_dictionaries(dict(base, n=st.integers(12, 60), max_iter=st.sampled_from([1, 2, 5, 1000]),
                                  tol=st.sampled_from([1e-3, None, 0.1]), early=st.booleans(),
                                  frac=st.sampled_from([0.1, 0.3]), nic=st.sampled_from([1, 5]), warm=st.booleans(),
                                  twice=st.booleans()))


def data(c, n, late):
    r = rng_of(c['seed'])
    labels = np.arange(c['k']) * c['gap'] + (c['seed'] % 3)
    X = r.randn(n, c['nf']) * c['scale']
    lim = np.ones(n, int) * c['k']
    if late:
        lim = 1 + np.minimum(c['k'] - 1, (np.arange(n) * c['k'] // max(n, 1)))
    z = (X @ r.randn(c['nf'], c['k'])).argmax(1)
    z = np.where(r.rand(n) < .2, r.randint(0, c['k'], n), z) % lim
    w = np.round(r.rand(n) * 3, 2) if c['weights'] else None
    return X, labels[z], labels, w, r


def args_of(c, labels):
    p = dict(c['p'])
    if p['class_weight'] == 'half':
        p['class_weight'] = {int(v): 0.5 + 0.25 * i for i, v in enumerate(labels)}
    return p


def logistic(D):
    with np.errstate(over='ignore'):
        P = 1 / (1 + np.exp(-np.asarray(D, float)))
    if P.ndim == 1:
        return np.column_stack([1 - P, P])
    return P / P.sum(axis=1, keepdims=True)


def run_history(c, ctx):
    from sklearn.linear_model import Perceptron
    from skmultiflow.neural_networks import PerceptronMask
    n = sum(c['sizes'])
    X, y, labels, w, r = data(c, n, c['late'])
    p = args_of(c, labels)
    m, ref = PerceptronMask(**p), Perceptron(**p)
    if c['how'] == 'reset':
        m.partial_fit(X[::-1], y[::-1], classes=labels)
        m.reset()
    if c['how'] == 'twin':
        m.partial_fit(X[::-1], y[::-1], classes=labels)
        m = PerceptronMask(**m.get_params())
    i, Q = 0, r.randn(7, c['nf']) * c['scale']
    first = True
    for k in c['sizes']:
        kw = dict(classes=labels) if first else {}
        sw = None if w is None else w[i:i + k]
        m.partial_fit(X[i:i + k], y[i:i + k], sample_weight=sw, **kw)
        ref.partial_fit(X[i:i + k], y[i:i + k], sample_weight=sw, **kw)
        i, first = i + k, False
        require(np.array_equal(m.predict(Q), ref.predict(Q)), 'after %d samples: predicts %s, the perceptron %s', i,
                short(m.predict(Q)), short(ref.predict(Q)))
        P, want = m.predict_proba(Q), logistic(ref.decision_function(Q))
        require(P.shape == (len(Q), c['k']), 'probabilities of %d classes have shape %s', c['k'], P.shape)
        ok = np.isfinite(want).all(axis=1)
        require_close(P[ok], want[ok], 'probabilities after %d samples' % i, 1e-9, 1e-12)
    return len(c['sizes']) > 1 and len(set(y)) > 1


def run_single(c, ctx):
    from skmultiflow.neural_networks import PerceptronMask
    if c['p']['penalty'] not in (None, 'l2'):
        c = dict(c, p=dict(c['p'], penalty='l2'))
    X, y, labels, w, r = data(c, c['n'], c['late'])
    p = args_of(c, labels)
    m = PerceptronMask(**p)
    nb = 1 if c['k'] == 2 else c['k']
    W, b = np.zeros((nb, c['nf'])), np.zeros(nb)
    Q = r.randn(9, c['nf']) * c['scale']
    cw = p['class_weight'] or {}
    moved = 0
    for i in range(c['n']):
        kw = dict(classes=labels) if i == 0 else {}
        sw = 1.0 if w is None else w[i]
        m.partial_fit(X[i:i + 1], y[i:i + 1], sample_weight=None if w is None else w[i:i + 1], **kw)
        for j in range(nb):
            pos = labels[1] if nb == 1 else labels[j]
            s = 1.0 if y[i] == pos else -1.0
            d = W[j] @ X[i] + b[j]
            if abs(d) < 1e-9 and (W[j].any() or b[j]):
                raise Skip('decision within rounding of the boundary')
            if nb == 1:
                v = cw.get(int(y[i]), 1.0)
            else:
                v = cw.get(int(pos), 1.0) if s > 0 else 1.0
            if c['p']['penalty'] == 'l2':
                W[j] *= max(0.0, 1 - c['p']['eta0'] * c['p']['alpha'])
            if d * s <= 0:
                moved += 1
                W[j] += c['p']['eta0'] * s * sw * v * X[i]
                if c['p']['fit_intercept']:
                    b[j] += c['p']['eta0'] * s * sw * v
        if i % 5 == 0 or i == c['n'] - 1:
            D = Q @ W.T + b
            D = D[:, 0] if nb == 1 else D
            P = m.predict_proba(Q)
            fine = (D > -600) if nb == 1 else (D.max(axis=1) > -600)
            require_close(P[fine], logistic(D)[fine], 'probabilities after %d samples' % (i + 1), 1e-6, 1e-9)
            pr = m.predict(Q)
            for a in range(len(Q)):
                if nb == 1:
                    if abs(D[a]) > 1e-9 or not W.any():
                        require(pr[a] == labels[int(D[a] > 0)], 'predicts %s at decision value %s', pr[a], D[a])
                else:
                    best = np.sort(D[a])
                    if best[-1] - best[-2] > 1e-9:
                        require(pr[a] == labels[np.argmax(D[a])], 'predicts %s, decision values %s', pr[a], short(D[a]))
    return moved > 1


def run_fit(c, ctx):
    from sklearn.linear_model import Perceptron
    from skmultiflow.neural_networks import PerceptronMask
    X, y, labels, w, r = data(c, c['n'], False)
    if len(set(y)) < 2 or (c['early'] and min(np.sum(y == v) for v in set(y)) < 3):
        raise Skip('too few samples per class to fit')
    p = dict(args_of(c, np.unique(y)), max_iter=c['max_iter'], tol=c['tol'], early_stopping=c['early'],
             validation_fraction=c['frac'], n_iter_no_change=c['nic'], warm_start=c['warm'])
    m, ref = PerceptronMask(**p), Perceptron(**p)
    Q = r.randn(9, c['nf']) * c['scale']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for _ in range(2 if c['twice'] else 1):
            try:
                ref.fit(X, y, sample_weight=w)
            except ValueError as e:
                raise Skip('scikit-learn cannot fit this: %s' % str(e)[:40])
            require(m.fit(X, y, classes=labels, sample_weight=w) is m, 'fit did not return the model')
    require(np.array_equal(m.predict(Q), ref.predict(Q)), 'predicts %s, the perceptron %s', short(m.predict(Q)),
            short(ref.predict(Q)))
    want = logistic(ref.decision_function(Q))
    ok = np.isfinite(want).all(axis=1)
    require_close(m.predict_proba(Q)[ok], want[ok], 'probabilities', 1e-9, 1e-12)
    return True


def run_refuse(c, ctx):
    from skmultiflow.neural_networks import PerceptronMask
    n = sum(c['sizes'])
    X, y, labels, w, r = data(c, n, False)
    m = PerceptronMask(**args_of(c, labels))
    m.partial_fit(X, y, classes=labels, sample_weight=w)
    Q = r.randn(9, c['nf']) * c['scale']
    before = m.predict_proba(Q)
    bad = y.copy()
    bad[-1] = labels[-1] + 1 + c['seed'] % 4
    try:
        m.partial_fit(X, bad, sample_weight=w, classes=None if c['late'] else list(labels) + [bad[-1]])
    except ValueError:
        pass
    else:
        require(False, 'a sample of class %s was accepted; declared %s', bad[-1], short(labels))
    require_close(m.predict_proba(Q), before, 'probabilities after a refused call', 0, 0)
    return n > 1


SUBS = [
    Sub('history', history, run_history, 500, 6000, 'at least two calls and two classes seen'),
    Sub('single', single, run_single, 500, 6000, 'the weights moved at least twice'),
    Sub('fit', fits, run_fit, 300, 3000, 'fit ran'),
    Sub('refuse', history, run_refuse, 150, 1500, 'more than one sample before the refusal'),
]
