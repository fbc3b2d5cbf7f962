"""Multi-output learners and chains against stand-alone estimators trained by hand."""
import copy
import itertools
import warnings
from inspect import signature

import numpy as np
from hypothesis import strategies as st

from vp import toy
from vp.engine import Skip, Sub, require, require_close, rng_of, short
from vp.gen import seeds

PROP = 'C31'
SCALE = 2
META = dict(
    title='Multi-output learners and chains equal stand-alone estimators',
    statement='For any base estimator, stream and cut into calls: MultiOutputLearner predicts for every target what a '
              'stand-alone copy of the base estimator predicts that was given the same samples, classes and weights with '
              'that target alone, whatever the other targets are. In classifier and regressor chains the estimator at '
              'each place of the chain sees the features and the true values of the targets before it when it '
              'learns, and their predicted values when it predicts; order=\'random\' draws one order per fit and the '
              'columns come back in the order of the targets. ProbabilisticClassifierChain returns the label '
              'combination of highest joint probability; MonteCarloClassifierChain one at least as probable as the '
              'greedy chain\'s, and the best one when it draws enough. fit and reset start over; predicting '
              'changes nothing.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all base estimators, target counts, chain orders, streams, weights and batch cuts'),
    why_tests_cant='Tests compare predictions of SGD models in the default order and unit weights on one stream.',
    anchors=dict(files=['src/skmultiflow/meta/multi_output_learner.py', 'src/skmultiflow/meta/classifier_chains.py',
                        'src/skmultiflow/meta/regressor_chains.py'],
                 mechanism=[dict(name='targets', where='MultiOutputLearner'), dict(name='chains', where='ClassifierChain'),
                            dict(name='joint mode', where='ProbabilisticClassifierChain.predict')]),
    technique='PBT, stateful: differential against stand-alone base estimators; metamorphic relations',
)
ASSUMPTIONS = ['the first call of partial_fit trains the base estimators with their fit method (existing tests pin this)',
               'probabilities: base estimators whose predict_proba has a column for every label (Hoeffding trees that '
               'were not told the classes, as in chains, have fewer)',
               'the first call has samples of every class for every target']


def base_of(c):
    b = c['base']
    if c['reg']:
        if b == 'toy':
            return toy.regressor()(c['width'])
        if b == 'tree':
            from skmultiflow.trees import HoeffdingTreeRegressor
            return HoeffdingTreeRegressor(grace_period=20, random_state=3)
        if b == 'knn':
            from skmultiflow.lazy import KNNRegressor
            return KNNRegressor(n_neighbors=3, max_window_size=30)
        from sklearn.linear_model import SGDRegressor
        return SGDRegressor(random_state=2, max_iter=5, tol=None, eta0=0.001)
    if b == 'toy':
        return toy.make()(c['width'], True)
    if b == 'tree':
        from skmultiflow.trees import HoeffdingTreeClassifier
        return HoeffdingTreeClassifier(grace_period=20)
    if b == 'knn':
        from skmultiflow.lazy import KNNClassifier
        return KNNClassifier(n_neighbors=3, max_window_size=30)
    if b == 'nb':
        from skmultiflow.bayes import NaiveBayes
        return NaiveBayes()
    if b == 'mlp':
        from sklearn.neural_network import MLPClassifier
        return MLPClassifier(hidden_layer_sizes=(3,), max_iter=3, random_state=1)
    from sklearn.linear_model import SGDClassifier
    return SGDClassifier(random_state=2, max_iter=5, tol=None, loss='log')


def call(f, X, y, classes, w):
    kw = {}
    ps = signature(f).parameters
    if 'classes' in ps and classes is not None:
        kw['classes'] = classes
    if 'sample_weight' in ps and w is not None:
        kw['sample_weight'] = w
    f(X, y, **kw)


class Ref:
    """Stand-alone estimators; order None: independent targets."""

    def __init__(self, c, order):
        self.c, self.order = c, order
        self.models = [copy.deepcopy(base_of(c)) for _ in range(c['L'])]

    def learn(self, X, Y, classes, w, first):
        if self.order is None:
            for j, m in enumerate(self.models):
                call(m.fit if first else m.partial_fit, X, Y[:, j], classes, w)
            return
        Z = np.array(X, dtype=float)
        for j, m in zip(self.order, self.models):
            (m.fit if first else m.partial_fit)(Z.copy(), Y[:, j].copy())
            Z = np.hstack([Z, Y[:, [j]].astype(float)])

    def predict(self, X, proba=False):
        out = np.zeros((len(X), self.c['L']))
        Z = np.array(X, dtype=float)
        for j, m in zip(self.order if self.order is not None else range(self.c['L']), self.models):
            out[:, j] = np.asarray(m.predict_proba(Z))[:, 1] if proba else m.predict(Z)
            if self.order is not None:
                Z = np.hstack([Z, out[:, [j]]])
        return out

    def joint(self, x, ys):
        """Probability of the labels ys (given in target order) for x."""
        z, p = np.array(x, dtype=float).reshape(1, -1), 1.0
        for j, m in zip(self.order, self.models):
            p *= float(np.asarray(m.predict_proba(z))[0][int(ys[j])])
            z = np.hstack([z, [[float(ys[j])]]])
        return p


def learner(c):
    from skmultiflow import meta as M
    b = base_of(c)
    if c['kind'] == 'multi':
        return M.MultiOutputLearner(b)
    if c['reg']:
        return M.RegressorChain(b, order=c['order'], random_state=c['rs'])
    if c['kind'] == 'chain':
        return M.ClassifierChain(b, order=c['order'], random_state=c['rs'])
    if c['kind'] == 'pcc':
        return M.ProbabilisticClassifierChain(b, order=c['order'], random_state=c['rs'])
    return M.MonteCarloClassifierChain(b, M=c['M'], random_state=c['rs'])


def run_out(c, ctx):
    warnings.simplefilter('ignore')
    c = dict(c)
    r = rng_of(c['seed'])
    L, f, k = c['L'], c['f'], c['k']
    if c['reg']:
        c['kind'] = 'multi' if c['kind'] == 'multi' else 'chain'
        if c['base'] in ('nb', 'mlp'):
            c['base'] = 'toy'
    if c['kind'] in ('pcc', 'mcc') or c['base'] in ('sgd', 'mlp'):
        k = 2
    if c['kind'] in ('pcc', 'mcc'):
        L = c['L'] = min(L, 4 if c['kind'] == 'pcc' else 3)
        if c['base'] in ('knn', 'tree'):
            c['base'] = 'nb'
    n = c['n']
    head = max(8, c['head'])
    X = np.round(r.randn(head + n, f) * 2, 2)
    A = r.randn(f, L) + 0.01
    if c['reg']:
        Y = X @ A + c['noise'] * r.randn(head + n, L)
        for j in range(1, L):
            Y[:, j] += 0.7 * Y[:, j - 1]
    else:
        Y = np.zeros((head + n, L), dtype=int)
        S = X @ A + c['noise'] * 3 * r.randn(head + n, L)
        for j in range(L):
            s = S[:, j] + (2.0 * Y[:, j - 1] - 1.5 if j else 0.0)
            Y[:, j] = np.digitize(s, [-1.0, 1.0][:k - 1] if k == 3 else [0.0])
        for j in range(L):                   # every class appears in the first call
            Y[:k, j] = (np.arange(k) + j) % k
    if c['float']:
        Y = Y.astype(float)
    classes = np.arange(k) if not c['reg'] else None
    w = None
    if c['weights']:
        w = r.choice([0.5, 1.0, 2.0, 3.0], head + n)
    m = learner(c)
    snap = c['probe'] == 'reset'
    ref = None
    changed = 0

    def feed(i, s, first, how):
        nonlocal ref
        kw = {}
        if w is not None and c['kind'] == 'multi':
            kw['sample_weight'] = w[i:i + s]
        if not c['reg']:
            kw['classes'] = classes
        if c['reg'] and c['kind'] == 'multi' and c['pass_classes']:
            kw['classes'] = None
        xb, yb = X[i:i + s].copy(), Y[i:i + s].copy()
        out = getattr(m, how)(xb, yb, **kw)
        require(out is m, '%s did not return the learner', how)
        require(np.array_equal(xb, X[i:i + s]) and np.array_equal(yb, Y[i:i + s]), '%s changed its arguments', how)
        if first:
            order = None
            if c['kind'] != 'multi':
                order = [int(v) for v in m.chain]
                require(sorted(order) == list(range(L)), 'the chain %s is no order of %d targets', order, L)
                require(c['order'] == 'random' or order == list(range(L)), 'default order is %s', order)
            ref = Ref(c, order)
        ref.learn(X[i:i + s], Y[i:i + s], classes, w[i:i + s] if w is not None and c['kind'] == 'multi' else None, first)

    def compare(i):
        nonlocal changed
        what = '%s(%s) after %d samples' % (type(m).__name__, c['base'], i)
        Q = np.vstack([X[r.randint(0, head + n, 4)], np.round(r.randn(2, f) * 3, 2)])
        got = np.asarray(m.predict(Q))
        require(got.shape == (len(Q), L), '%s: predictions of shape %s for %d targets', what, got.shape, L)
        again = np.asarray(m.predict(Q))
        if c['kind'] in ('multi', 'chain', 'pcc'):
            require(np.array_equal(got, again, equal_nan=True), '%s: predicts %s, then %s', what, short(got), short(again))
        if c['kind'] in ('multi', 'chain'):
            want = ref.predict(Q)
            if c['reg']:
                require_close(got, want, '%s: predictions (order %s)' % (what, ref.order), rtol=1e-9, atol=1e-9)
            else:
                require(np.array_equal(got, want), '%s: predicts %s, expected %s (order %s)', what, short(got), short(want),
                        ref.order)
            if not c['reg'] and (c['kind'] == 'multi' or k == 2) and c['base'] not in ('knn', 'tree'):
                pw = ref.predict(Q, proba=True)
                require_close(m.predict_proba(Q), pw, '%s: probabilities of label 1' % what, rtol=1e-9, atol=1e-12)
            changed += len({tuple(v) for v in want.tolist()}) > 1
        else:
            greedy = ref.predict(Q)
            for q, g, row in zip(Q, got, greedy):
                ps = [ref.joint(q, ys) for ys in itertools.product([0, 1], repeat=L)]
                p, pg, top = ref.joint(q, g), ref.joint(q, row), max(ps)
                if not 0.5 < sum(ps) < 1.5 or top <= 1e-12:
                    continue
                if c['kind'] == 'pcc' or (c['M'] >= 300 and top > 0.124):
                    require(p >= top - 1e-9, '%s: returns %s of joint probability %.6g, the best is %.6g', what, g, p, top)
                require(p >= pg - 1e-9, '%s: returns %s of probability %.6g, the greedy chain\'s has %.6g', what, g, p, pg)
                changed += top > pg + 1e-9
            ctx.label('beats greedy') if changed else None

    i, first, how = 0, True, 'partial_fit' if c['start'] else 'fit'
    for step in range(2):
        feed(i, head, True, how)
        i = head
        while i < head + n:
            s = min(c['sizes'][i % len(c['sizes'])], head + n - i)
            feed(i, s, False, 'partial_fit')
            i += s
            if r.rand() < 0.05:
                compare(i)
        compare(i)
        if step or not snap:
            break
        if c['reset']:
            require(m.reset() is m, 'reset did not return the learner')
            how = 'partial_fit'
        else:
            how = 'fit'
        i = 0
        X, Y = X[::-1].copy(), Y[::-1].copy()
        if not c['reg']:
            for j in range(L):
                Y[:k, j] = (np.arange(k) + j) % k
    ctx.label(c['kind'] + ('-reg ' if c['reg'] else ' ') + c['base'])
    if ref.order is not None and ref.order != list(range(L)):
        ctx.label('shuffled')
    return bool(changed) and L > 1


def run_orders(c, ctx):
    """order='random' draws different orders for different seeds, the same for the same seed."""
    from skmultiflow import meta as M
    r = rng_of(c['seed'])
    X = r.randn(12, 2)
    Y = (r.rand(12, 4) > 0.5).astype(int)
    Y[:2] = [[0] * 4, [1] * 4]
    cls, base = (M.RegressorChain, toy.regressor()) if c['reg'] else (M.ClassifierChain, toy.make())
    seen = {}
    for s in range(30):
        rs = (c['rs'] + s) % 2 ** 31
        a, b = (cls(base(), order='random', random_state=rs).fit(X, Y) for _ in range(2))
        require(list(a.chain) == list(b.chain), 'orders %s and %s from the same seed', a.chain, b.chain)
        seen[tuple(int(v) for v in a.chain)] = 1
    require(len(seen) > 3, '30 seeds give the orders %s only', list(seen))
    return True


cfg = dict(
    seed=seeds, rs=st.integers(0, 2 ** 31 - 1), kind=st.sampled_from(['multi', 'chain', 'chain', 'pcc', 'mcc']),
    reg=st.sampled_from([False, False, True]), base=st.sampled_from(['toy', 'toy', 'tree', 'knn', 'nb', 'sgd', 'mlp']),
    L=st.integers(1, 5), f=st.integers(1, 3), k=st.sampled_from([2, 2, 3]), order=st.sampled_from([None, 'random', 'random']),
    width=st.sampled_from([1.0, 2.0]), noise=st.sampled_from([0.0, 0.3]), M=st.sampled_from([0, 1, 5, 300]),
    weights=st.booleans(), float=st.booleans(), probe=st.sampled_from(['none', 'reset']), reset=st.booleans(),
    start=st.booleans(), pass_classes=st.booleans(), head=st.sampled_from([8, 20]), n=st.sampled_from([0, 15, 60]),
    sizes=st.lists(st.sampled_from([1, 2, 5, 20]), min_size=1, max_size=3))
SUBS = [
    Sub('outputs', st.fixed_dictionaries(cfg), run_out, 500, thorough=5000,
        rule='at least two targets and predictions that differ between samples (chains of joint modes: beat the greedy one)'),
    Sub('orders', st.fixed_dictionaries(dict(seed=seeds, rs=st.integers(0, 2 ** 31 - 1), reg=st.booleans())), run_orders, 20,
        thorough=100, rule='all cases'),
]
