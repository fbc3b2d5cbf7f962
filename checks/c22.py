"""Naive Bayes against its definition, computed from all samples."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close, rng_of, short
from vp.gen import seeds
from vp.treeref import Stat, nb_votes

PROP = 'C22'
SCALE = 3
META = dict(
    title='Naive Bayes equals its definition on the weighted samples seen so far',
    statement='For any history of partial_fit calls (weighted, in any grouping) and any query, '
              'NaiveBayes gives each class the product of its weight share and, per attribute, the '
              'density of a normal distribution with the weighted mean and the unbiased (weight sum '
              'minus one) variance of the values seen with that class - or, without spread, 1 for '
              'exactly that value and 0 for others - for numeric attributes, and (weight of the '
              'value + 1) / (weight of the class + number of values seen with the class) for nominal '
              'ones, normalised over the classes (all zero when every product is zero, or before '
              'training), and predicts the class with the largest. Samples of weight zero are ignored; an '
              'integer weight is the same as repeating the sample; reset() forgets everything.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all streams, weights, nominal/numeric attribute mixes and queries'),
    why_tests_cant='Tests compare one generated stream with stored predictions.',
    anchors=dict(files=['src/skmultiflow/bayes', 'src/skmultiflow/trees/gaussian_estimator.py',
                        'src/skmultiflow/trees/_attribute_observer'],
                 mechanism=[dict(name='posterior', where='do_naive_bayes_prediction'),
                            dict(name='densities', where='GaussianEstimator, '
                                                         'NominalAttributeClassObserver')]),
    technique='PBT, stateful: batch recomputation from all samples; weight/repetition relation',
)
ASSUMPTIONS = ['sample weights of at least 1 (or 0)']


def sample(r, n, c):
    f = c['f']
    X = r.randn(n, f) * c['scale'] + c['shift'] * r.randint(0, 3, (n, f))
    for a in c['nom']:
        if a < f:
            X[:, a] = r.randint(0, 4, n)
    if c['const']:
        X[:, 0] = 2.5
    return X


def run_nb(c, ctx):
    from skmultiflow.bayes import NaiveBayes
    r = rng_of(c['seed'])
    nom = [a for a in c['nom'] if a < c['f']]
    m = NaiveBayes(nominal_attributes=nom if nom else None)
    labels = sorted(r.choice(8, c['k'], replace=False).tolist())
    data, asked, declared = [], 0, False
    for step in c['ops']:
        n = step['n']
        if step['op'] == 'fit':
            X = sample(r, n, c)
            y = np.array(labels)[r.randint(0, c['k'], n)]
            w = None
            if step['w']:
                w = r.choice([0.0, 1.0, 1.0, 2.0, 3.0, 1.5], n)
            kw = {}
            if not declared and c['classes']:
                kw['classes'] = labels
                declared = True
            require(m.partial_fit(X, y, sample_weight=w, **kw) is m, 'partial_fit returns another object')
            for i in range(n):
                if w is None or w[i] != 0:
                    data.append((X[i].copy(), int(y[i]), 1.0 if w is None else float(w[i])))
        elif step['op'] == 'reset':
            require(m.reset() is m, 'reset returns another object')
            data, declared = [], False
        else:
            Q = sample(r, n, c)
            if data and step['w']:
                Q[0] = data[r.randint(len(data))][0]
            P, p = m.predict_proba(Q), m.predict(Q)
            require(np.ndim(P) == 2 and len(P) == n and np.shape(p) == (n,), 'shapes %s and %s for %d rows',
                    np.shape(P), np.shape(p), n)
            prior = {}
            for _, y, w in data:
                prior[y] = prior.get(y, 0.0) + w
            stat = Stat(data, set(nom))
            for i in range(n):
                want = np.zeros(10)
                v = nb_votes(Q[i], prior, stat, range(c['f'])) if data else {}
                t = sum(v.values())
                if 0 < t < 1e-290:
                    continue        # underflow: the order of the products matters
                for k, u in v.items():
                    want[k] = u / t if t else 0.0
                got = np.zeros(10)
                got[:P.shape[1]] = P[i]
                require_close(got, want, 'predict_proba of %s after %d samples' % (short(Q[i]), len(data)),
                              rtol=1e-6, atol=1e-9)
                best = np.flatnonzero(want >= want.max() - 1e-9)
                require(int(p[i]) in best or int(p[i]) == np.argmax(got), 'predicts %s, probabilities %s', p[i],
                        short(want))
                asked += len(v) > 1
    return asked > 0


def run_rep(c, ctx):
    """An integer weight equals repetition, in any order of the samples."""
    from skmultiflow.bayes import NaiveBayes
    r = rng_of(c['seed'])
    nom = [a for a in c['nom'] if a < c['f']]
    a, b = (NaiveBayes(nominal_attributes=nom if nom else None) for _ in range(2))
    n = c['n']
    X, w = sample(r, n, c), r.randint(0, 4, n)
    y = r.randint(0, c['k'], n)
    a.partial_fit(X, y, classes=list(range(c['k'])), sample_weight=w.astype(float))
    idx = r.permutation(np.repeat(np.arange(n), w))
    for i in idx:
        b.partial_fit(X[i:i + 1], y[i:i + 1], classes=list(range(c['k'])))
    Q = sample(r, 6, c)
    require_close(a.predict_proba(Q), b.predict_proba(Q), 'weights against repetitions', rtol=1e-6, atol=1e-9)
    return len(idx) > 3


base = dict(seed=seeds, f=st.integers(1, 4), k=st.integers(1, 4), nom=st.lists(
    st.integers(0, 3), max_size=3, unique=True), scale=st.sampled_from([1.0, 0.1, 50.0]),
    shift=st.sampled_from([0.0, 1.0, 100.0]), const=st.sampled_from([False, False, True]))
SUBS = [
    Sub('posterior', st.fixed_dictionaries(dict(base, classes=st.booleans(), ops=st.lists(
        st.fixed_dictionaries(dict(op=st.sampled_from(['fit'] * 8 + ['query'] * 6 + ['reset']),
                                   n=st.sampled_from([1, 1, 2, 5, 20]), w=st.booleans())),
        min_size=4, max_size=20))), run_nb, 500, rule='a query with several classes seen'),
    Sub('repeat', st.fixed_dictionaries(dict(base, n=st.integers(1, 60))), run_rep, 250,
        rule='more than three effective samples'),
]
