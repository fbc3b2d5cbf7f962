"""Label combination Hoeffding tree against the reference tree on coded label sets."""
import numpy as np
from hypothesis import strategies as st

from checks.c23 import cfg, reference, structure
from vp.engine import Sub, require, require_close, rng_of, short

PROP = 'C26'
META = dict(
    title='The label-combination tree is a Hoeffding tree over the label sets',
    statement='For any multi-label stream and configuration, LabelCombinationHoeffdingTreeClassifier treats every '
              'set of labels as one class, the binary number its indicator row spells (first label most '
              'significant), and is the Hoeffding tree on these classes: predict_proba gives the probability '
              'of each number, predict gives one row of n_labels zeros and ones per query, which spells '
              'the most probable number, whatever combinations were or were not seen, and however the '
              'stream is cut into batches. Over its memory limit the tree stops growing and its leaves go on '
              'counting label sets.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all multi-label streams, weights, parameter settings and queries'),
    why_tests_cant='Tests compare the predictions of three settings on one fixed stream.',
    anchors=dict(files=['src/skmultiflow/trees/label_combination_hoeffding_tree.py',
                        'src/skmultiflow/trees/_nodes/lc_htc_nodes.py'],
                 mechanism=[dict(name='coding', where='transform_label'),
                            dict(name='decoding', where='LabelCombinationHoeffdingTreeClassifier.predict')]),
    technique='PBT, stateful: differential against a sample-keeping reference tree',
)
ASSUMPTIONS = ['decisions that hang on rounding (ties within 1e-9) are left out']


def data(c, r):
    n, f, L = c['n'], c['f'], c['L']
    nom = sorted({a for a in c['nom'] if a < f})
    X = r.randn(n, f)
    for a in range(f):
        X[:, a] = X[:, a] * [1.0, 0.3, 20.0][a % 3] + [0.0, 5.0, -40.0][a % 3]
    for a in nom:
        X[:, a] = r.randint(0, c['card'], n)
    Z = (X - X.mean(0)) / (X.std(0) + 1e-9)
    Y = np.zeros((n, L), dtype=int)
    for j in range(L):
        Y[:, j] = Z[:, j % f] > r.randn() * 0.5
    if c.get('deep'):
        D = [(Z[:, i % f] > 0.2 - 0.3 * i).astype(int) + (Z[:, i % f] > 0.8 - 0.1 * i) for i in range(c['deep'])]
        for j in range(L):
            Y[:, j] = r.randint(0, 2, (3,) * c['deep'])[tuple(D)]
    flip = r.rand(n, L) < c['noise']
    Y[flip] = 1 - Y[flip]
    Y[:, :c['zero']] = 0            # labels that never occur
    return X, Y, nom


def code(row):
    v = 0
    for e in row:
        v = 2 * v + int(e)
    return v


def run_tree(c, ctx):
    from skmultiflow.trees import LabelCombinationHoeffdingTreeClassifier
    r = rng_of(c['seed'])
    X, Y, nom = data(c, r)
    L = c['L']
    m = LabelCombinationHoeffdingTreeClassifier(
        grace_period=c['grace'], split_criterion=c['crit'], split_confidence=c['conf'], tie_threshold=c['tie'],
        binary_split=c['binary'], remove_poor_atts=c['poor'], no_preprune=c['nopre'], leaf_prediction=c['pred'],
        nb_threshold=c['nbt'], nominal_attributes=nom or None, stop_mem_management=c['stop'], n_labels=L,
        **(dict(max_byte_size=100, memory_estimate_period=c['period']) if c.get('period') else {}))
    ref = reference(c, nom)
    n, i = len(X), 0
    require(np.array_equal(m.predict(X[:3]), np.zeros((3, L))), 'untrained: predicts %s', short(m.predict(X[:3])))
    w = r.randint(0, 4, n) * (1.0 if c.get('period') else c['wscale']) if c['weights'] else np.ones(n)
    combos, total, after = set(), 0.0, 0
    while i < n:
        s = min(c['sizes'][i % len(c['sizes'])], n - i)
        yy = Y[i:i + s].astype(float) if c['asfloat'] else Y[i:i + s]
        m.partial_fit(X[i:i + s], yy, **(dict(sample_weight=w[i:i + s]) if c['weights'] else {}))
        for j in range(i, i + s):
            ref.fit(X[j], code(Y[j]), w[j])
            combos.add(code(Y[j]))
            total += w[j]
            after += ref.full
            if c.get('period') and w[j] and total % c['period'] == 0:
                ref.deactivate_all()
        i += s
        if r.rand() < (0.02 if c.get('deep') else 0.12) or i >= n:
            what = 'after %d samples (%d splits)' % (i, ref.n_split)
            Q = np.vstack([X[r.randint(0, n, 4)], X[r.randint(0, n, 2)] + r.randn(2, c['f']) * 0.5])
            P, p = m.predict_proba(Q), m.predict(Q)
            require(np.shape(p) == (len(Q), L), '%s: predict has shape %s', what, np.shape(p))
            for q, row, pred in zip(Q, P, p):
                v = ref.votes(q)
                t = sum(v.values())
                if v and 0 < t < 1e-290:
                    continue
                want, got = np.zeros(2 ** L), np.zeros(2 ** L)
                for k, u in ref.proba(q).items():
                    want[k] = u
                require(len(row) <= 2 ** L, '%s: %d probabilities for %d labels', what, len(row), L)
                got[:len(row)] = row
                require_close(got, want, '%s: probabilities of %s' % (what, short(q)), rtol=1e-6, atol=1e-8)
                require(set(np.unique(pred)) <= {0, 1}, '%s: predicts %s', what, pred)
                require(got[code(pred)] >= got.max() and code(pred) == int(np.argmax(got)),
                        '%s: predicts %s, probabilities %s', what, pred, short(got))
            structure(m, ref, Q, what)
    ctx.label('splits: %d' % min(ref.n_split, 4))
    return (after > 5 if c.get('period') else ref.n_split > 0) and len(combos) > 2


base = dict({k: v for k, v in cfg.items() if k not in ('k', 'gap', 'two', 'late')}, L=st.integers(1, 4),
            zero=st.sampled_from([0, 0, 0, 1]), asfloat=st.booleans(), n=st.sampled_from([40, 120, 250, 400]),
            weights=st.sampled_from([False, False, True]), sizes=st.lists(st.integers(1, 9), min_size=1, max_size=3))
SUBS = [
    Sub('tree', st.fixed_dictionaries(base), run_tree, 1500, thorough=6000,
        rule='at least one split and three label sets'),
    Sub('deep', st.fixed_dictionaries(dict(
        base, n=st.sampled_from([1200, 2000, 3000]), f=st.integers(2, 6), L=st.integers(2, 6), deep=st.sampled_from([2, 3]),
        conf=st.sampled_from([1e-7, 0.01, 0.2]), tie=st.sampled_from([0.05, 0.15, 0.3]), noise=st.sampled_from([0.0, 0.02]),
        grace=st.sampled_from([25.5, 50.5, 200.5]), stop=st.just(False), poor=st.sampled_from([False, False, True]),
        sizes=st.lists(st.sampled_from([1, 7, 50, 200]), min_size=1, max_size=3))), run_tree, 200, thorough=1000,
        rule='at least one split and three label sets'),
    Sub('memory', st.fixed_dictionaries(dict(base, n=st.sampled_from([40, 120, 250]), weights=st.booleans(),
                                             period=st.sampled_from([5, 10, 50, 100]))), run_tree, 300, thorough=3000,
        rule='three label sets, more than five samples after the limit was reached'),
]
