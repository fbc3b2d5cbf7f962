"""Prediction is a read-only, row-wise query of the model (all learners)."""
import numpy as np
from hypothesis import strategies as st

from vp import xl
from vp.engine import Sub, require, short

PROP = 'C34'
SCALE = 2
META = dict(
    title='Predicting never changes a learner and treats every row on its own',
    statement='For every learner of the library and any training history: calls of predict and '
              'predict_proba, on any data, before the first or between any two partial_fit calls, '
              'leave the model unchanged (all later predictions are the ones of a twin that was never '
              'queried); asking twice gives the same answer; the answer for a batch of rows is the '
              'stack of the answers for each row alone, in any row order, with one entry per row '
              '(one row of n_targets entries for multi-output learners); the queried array and the '
              'training arrays are not modified, and the memory layout of the arrays does not matter. '
              '(MonteCarloClassifierChain, whose predict is documented as random sampling, is '
              'excepted.)',
    quantifier=dict(over=['configurations', 'inputs', 'histories'],
                    text='every learner class (about 90 configurations), all data and all interleavings '
                         'of training and prediction calls'),
    why_tests_cant='Tests predict along one fixed stream; none trains an un-queried twin or compares '
                   'row-wise with batch prediction.',
    anchors=dict(files=['src/skmultiflow/trees', 'src/skmultiflow/meta', 'src/skmultiflow/lazy',
                        'src/skmultiflow/bayes', 'src/skmultiflow/rules',
                        'src/skmultiflow/neural_networks', 'src/skmultiflow/prototype',
                        'src/skmultiflow/anomaly_detection'],
                 mechanism=[dict(name='queries', where='predict, predict_proba of every learner')]),
    technique='PBT: metamorphic twins (queried vs never queried; batch vs row by row; permuted rows)',
)
NAMES = sorted(set(xl.reg_names()) - xl.RANDOM_PREDICT)

case = xl.case_s(NAMES, every=st.sampled_from([1, 2, 5]), sizes=st.lists(
    st.integers(1, 9), min_size=1, max_size=4), qn=st.integers(1, 4), proba=st.booleans(),
    layout=st.sampled_from(['C', 'F', 'view']), perm=st.integers(0, 10 ** 6))


def lay(A, kind):
    if kind == 'F':
        return np.asfortranarray(A)
    if kind == 'view':
        big = np.full((2 * A.shape[0], 2 * A.shape[1]), -3.0)
        big[::2, ::2] = A
        return big[::2, ::2]
    return A.copy()


def run(c, ctx):
    e = xl.Env(c)
    twin = e.train(e.make(), sizes=c['sizes'])
    m = e.make()
    if e.name not in xl.NEEDS_FIT:
        p = m.predict(e.Q)
        require(len(p) == len(e.Q), '%s: untrained predict returned %d entries for %d rows',
                e.name, len(p), len(e.Q))
    queries = 0
    for i, (a, b) in enumerate(e.batches(e.X, c['sizes'])):
        X, y = lay(e.X[a:b], c['layout']), e.y[a:b].copy()
        e.fit(m, X, y)
        require(np.array_equal(X, e.X[a:b]) and np.array_equal(y, e.y[a:b]),
                '%s: partial_fit modified its arguments', e.name)
        if i % c['every'] == 0:
            Q = lay(np.roll(e.Q, i, axis=0)[:c['qn']], c['layout'])
            keep = Q.copy()
            p1 = np.asarray(m.predict(Q), dtype=float)
            if c['proba'] and e.has_proba():
                q1 = e.proba(m, Q)
                require(xl.same_rows(q1, e.proba(m, Q)), '%s: predict_proba twice differs', e.name)
            require(np.array_equal(Q, keep), '%s: a query modified its argument', e.name)
            require(xl.same(p1, np.asarray(m.predict(Q), dtype=float)),
                    '%s: predict twice differs', e.name)
            queries += 1
    want = e.predict(twin)
    got = e.predict(m)
    require(xl.same(want, got), '%s: predictions of the queried model %s, of its twin %s', e.name,
            short(got), short(want))
    shape = (len(e.Q),) if e.y.ndim == 1 else (len(e.Q), e.y.shape[1])
    require(got.shape == shape, '%s: shape of the predictions %s, expected %s', e.name, got.shape, shape)
    if e.has_proba():
        pa, pb = e.proba(m), e.proba(twin)
        require(xl.same_rows(pa, pb), '%s: probabilities of the queried model %s, of its twin %s',
                e.name, short(pa), short(pb))
        rows = [e.proba(m, e.Q[i:i + 1])[0] for i in range(len(e.Q))]
        for i in range(len(e.Q)):
            x, y = pa[i], rows[i]
            n = max(len(x), len(y))
            require(xl.same(np.pad(x, (0, n - len(x))), np.pad(y, (0, n - len(y)))),
                    '%s: probabilities of row %d in a batch %s, alone %s', e.name, i, short(x), short(y))
    one = np.concatenate([np.atleast_1d(e.predict(m, e.Q[i:i + 1])) for i in range(len(e.Q))])
    require(xl.same(one, got), '%s: predictions row by row %s, in one call %s', e.name, short(one),
            short(got))
    pi = np.random.RandomState(c['perm']).permutation(len(e.Q))
    pp = e.predict(m, lay(e.Q[pi], c['layout']))
    require(xl.same(pp, got[pi]), '%s: predictions of permuted rows %s, expected %s', e.name, short(pp),
            short(got[pi]))
    ctx.label(e.name)
    return queries > 1


SUBS = [Sub('query', case, run, n=960, thorough=8000,
            rule='the model was queried at least twice between training calls')]
ASSUMPTIONS = ['registry of small configurations of every learner (vp/learners.py)']
