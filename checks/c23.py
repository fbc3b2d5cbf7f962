"""Hoeffding tree classifier against a reference tree that keeps all samples."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close, rng_of, short
from vp.gen import seeds
from vp.treeref import RefHT

PROP = 'C23'
META = dict(
    title='The Hoeffding tree splits exactly when its bound allows, on the best attribute',
    statement='For any stream (weighted or not, numeric and nominal attributes) and configuration, '
              'HoeffdingTreeClassifier routes each sample to one leaf, which counts class weights; '
              'every grace_period of weight an impure leaf compares, per attribute, the best of the '
              'candidate splits (10 equidistant cuts under per-class normal estimates; one-against-rest '
              'and multiway for nominal attributes) by the chosen criterion (information gain, Gini, '
              'Hellinger), and splits exactly when the best merit beats the second by the Hoeffding '
              'bound sqrt(R^2 ln(1/delta) / 2n), or the bound is below tie_threshold. The children start with the '
              'class weights the split predicts. A query is answered by the leaf it reaches with its '
              'class weights, Naive Bayes (from nb_threshold weight on), or whichever of the two was '
              'right for more weight at that leaf (nba); a new value of a nominal attribute opens a new '
              'branch when trained on, and is answered by the split node\'s own weights. The measurements '
              'and rules of the model describe exactly this tree: one rule per leaf, each query covered '
              'by exactly the rule of its leaf. A tree over its memory limit deactivates the leaves '
              'with the least weight outside their majority class: they stop growing and keep counting classes. '
              'reset() starts over.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all streams, weights, parameter settings and queries'),
    why_tests_cant='Tests compare the predictions of a few parameter settings on fixed streams.',
    anchors=dict(files=['src/skmultiflow/trees/hoeffding_tree.py', 'src/skmultiflow/trees/_nodes/base.py',
                        'src/skmultiflow/trees/_nodes/htc_nodes.py',
                        'src/skmultiflow/trees/_split_criterion', 'src/skmultiflow/trees/_attribute_observer',
                        'src/skmultiflow/trees/_attribute_test'],
                 mechanism=[dict(name='growth', where='HoeffdingTreeClassifier._attempt_to_split'),
                            dict(name='leaf models', where='_nodes/htc_nodes.py'),
                            dict(name='rules', where='get_model_rules')]),
    technique='PBT, stateful: differential against a sample-keeping reference tree',
)
ASSUMPTIONS = ['decisions that hang on rounding (ties within 1e-9) are left out',
               'the reference follows the published algorithm with the conventions of the docstrings']


def stream(c, r):
    n, f, k = c['n'], c['f'], c['k']
    nom = sorted({a for a in c['nom'] if a < f})
    X = r.randn(n, f)
    for a in range(f):
        X[:, a] = X[:, a] * [1.0, 0.3, 20.0][a % 3] + [0.0, 5.0, -40.0][a % 3]
    card = c['card']
    for j, a in enumerate(nom):
        X[:, a] = r.randint(0, card, n)
        if c['late']:
            X[n // 2:, a] += r.randint(0, 3, n - n // 2) * (r.rand(n - n // 2) < 0.4)
    for a in set(c['grid']):
        if a < f and a not in nom:
            X[:, a] = np.clip(np.round((X[:, a] - X[:, a].mean()) / X[:, a].std() * [2, 4][a % 2] + 5), 0, [11, 22][a % 2])
            X[:2, a] = [0, [11, 22][a % 2]]
    thr = r.randn(k) * 0.6
    key = (X[:, 0] - X[:, 0].mean()) / (X[:, 0].std() + 1e-9)
    if c['two'] and f > 1:
        k2 = (X[:, 1] - X[:, 1].mean()) / (X[:, 1].std() + 1e-9)
        key = np.where(k2 > 0.3, key, -key)
    y = np.searchsorted(np.sort(thr)[:k - 1], key)
    if c.get('deep'):
        D = np.zeros((n, c['deep']), dtype=int)
        for j in range(c['deep']):
            a = j % f
            if a in nom:
                D[:, j] = X[:, a].astype(int) % 3
            else:
                lo, hi = np.quantile(X[:, a], [0.35 + 0.1 * j, 0.75 + 0.05 * j])
                D[:, j] = (X[:, a] > lo).astype(int) + (X[:, a] > hi)
        table = r.choice(k, (3,) * c['deep'])
        y = table[tuple(D.T)]
        if c['drift']:
            y[n // 2:] = (y[n // 2:] + D[n // 2:, 0]) % k
    flip = r.rand(n) < c['noise']
    y[flip] = r.randint(0, k, flip.sum())
    labels = np.array(sorted(r.choice(k + c['gap'], k, replace=False)))
    return X, labels[y], nom, labels


def compare(m, ref, Q, what, labels):
    P, p = m.predict_proba(Q), m.predict(Q)
    require(np.ndim(P) == 2 and len(P) == len(Q) and np.shape(p) == (len(Q),), '%s: shapes %s, %s', what,
            np.shape(P), np.shape(p))
    for i, q in enumerate(Q):
        v = ref.votes(q)
        t = sum(v.values())
        if v and 0 < t < 1e-290:
            continue
        want, got = np.zeros(14), np.zeros(14)
        for k, u in ref.proba(q).items():
            want[int(k)] = u
        got[:P.shape[1]] = P[i]
        require_close(got, want, '%s: probabilities of %s' % (what, short(q)), rtol=1e-6, atol=1e-8)
        require(int(p[i]) == int(np.argmax(got)), '%s: predicts %s, probabilities %s', what, p[i], short(got))


def structure(m, ref, Q, what):
    mm, ct = m.model_measurements, ref.counts()
    got = dict(nodes=mm['Tree size (nodes)'], leaves=mm['Tree size (leaves)'],
               active=mm['Active learning nodes'], depth=mm['Tree depth'])
    require(got == ct, '%s: tree %s, expected %s', what, got, ct)
    if ref.root is None:
        return
    d = m.get_model_description()
    require(d.count('Leaf = ') == ct['leaves'], '%s: the description shows %d leaves, expected %d', what,
            d.count('Leaf = '), ct['leaves'])
    if any(not lf.stats for lf, _ in ref.leaves()):
        return
    rules = m.get_model_rules()
    require(len(rules) == ct['leaves'], '%s: %d rules for %d leaves', what, len(rules), ct['leaves'])
    require(len(m.get_rules_description().strip('\n').split('\n')) == ct['leaves'] or ct['leaves'] == 1,
            '%s: the rules description has another number of lines', what)
    for q in Q:
        cov = [r for r in rules if r.covers_instance(q)]
        node, _, _ = ref.find(np.asarray(q, dtype=float))
        if hasattr(node, 'kids'):
            require(not cov, '%s: %s is covered by %d rules, it has no branch', what, short(q), len(cov))
            continue
        require(len(cov) == 1, '%s: %s is covered by %d rules', what, short(q), len(cov))
        dist = {int(k): v for k, v in cov[0].observed_class_distribution.items()}
        require(set(dist) == set(int(k) for k in node.stats), '%s: rule classes %s, leaf %s', what, short(dist),
                short(node.stats))
        require_close([dist[k] for k in sorted(dist)], [node.stats[k] for k in sorted(node.stats)],
                      '%s: class weights of the rule of %s' % (what, short(q)), rtol=1e-6, atol=1e-7)
        best = max(dist.values())
        require(dist[int(cov[0].class_idx)] >= best - 1e-9, '%s: rule for class %s, weights %s', what,
                cov[0].class_idx, short(dist))


def make(c, nom, **kw):
    from skmultiflow.trees import HoeffdingTreeClassifier
    return HoeffdingTreeClassifier(
        grace_period=c['grace'], split_criterion=c['crit'], split_confidence=c['conf'],
        tie_threshold=c['tie'], binary_split=c['binary'], remove_poor_atts=c['poor'],
        no_preprune=c['nopre'], leaf_prediction=c['pred'], nb_threshold=c['nbt'],
        nominal_attributes=nom or None, stop_mem_management=c['stop'], **kw)


def reference(c, nom):
    return RefHT(c['grace'], c['crit'], c['conf'], c['tie'], c['binary'], c['poor'], c['nopre'], c['pred'],
                 c['nbt'], nom, c['stop'])


def run_tree(c, ctx):
    r = rng_of(c['seed'])
    X, y, nom, labels = stream(c, r)
    period = c.get('period')
    m = make(c, nom, **(dict(max_byte_size=100, memory_estimate_period=period) if period else {}))
    n = len(X)
    w = r.randint(0, 4, n) * (1.0 if period else c['wscale']) if c['weights'] else None
    good = walk(m, c, X, y, w, nom, labels, r, ctx, '')
    if c['again']:
        m.reset()
        p = r.permutation(n)[:min(n, 400)]
        walk(m, c, X[p], y[p], w if w is None else w[p], nom, labels, r, ctx, 'reset, ')
    return good


def walk(m, c, X, y, w, nom, labels, r, ctx, what):
    ref = reference(c, nom)
    n, i, total, after, period, when = len(X), 0, 0.0, 0, c.get('period'), what
    while i < n:
        s = min(c['sizes'][i % len(c['sizes'])], n - i)
        kw = {} if w is None else dict(sample_weight=w[i:i + s])
        m.partial_fit(X[i:i + s], y[i:i + s], classes=labels, **kw)
        for j in range(i, i + s):
            u = 1.0 if w is None else w[j]
            ref.fit(X[j], int(y[j]), u)
            total += u
            after += ref.full
            if period and u and total % period == 0:
                ref.deactivate_all()
        i += s
        if r.rand() < (0.015 if c.get('deep') else 0.12) or i >= n:
            what = '%safter %d samples (%d splits)' % (when, i, ref.n_split)
            Q = np.vstack([X[r.randint(0, n, 4)], X[r.randint(0, n, 2)] + r.randn(2, c['f']) * 0.5])
            compare(m, ref, Q, what, labels)
            structure(m, ref, Q, what)
    ctx.label('splits: %d' % min(ref.n_split, 4))
    if c.get('deep'):
        ctx.label('depth %s' % min(ref.counts()['depth'], 6))
    if ref.n_pre:
        ctx.label('pre-pruned')
    if period:
        ctx.label('over the limit with %s nodes' % min(ref.counts()['nodes'], 5))
    return after > 5 if period else ref.n_split > 0


def run_limit(c, ctx):
    """Under a limit that some leaves fit, the least promising leaves are the inactive ones after each growth."""
    r = rng_of(c['seed'])
    X, y, _, labels = stream(c, r)
    free = make(c, [])
    free.partial_fit(X, y, classes=labels)
    m = make(c, [], max_byte_size=max(1, int(c['frac'] * free.measure_byte_size())), memory_estimate_period=c['period'])
    leaves, seen = 0, 0
    for i in range(len(X)):
        m.partial_fit(X[i:i + 1], y[i:i + 1], classes=labels)
        mm = m.model_measurements
        grown, leaves = mm['Tree size (leaves)'] > leaves > 0, mm['Tree size (leaves)']
        active = mm['Active learning nodes']
        require(0 <= active <= leaves, 'after %d samples: %d of %d leaves are active', i + 1, active, leaves)
        if not grown or active == leaves:
            continue
        what = 'after %d samples (%d of %d leaves active)' % (i + 1, active, leaves)
        rules = m.get_model_rules()
        require(len(rules) == leaves, '%s: %d rules', what, len(rules))
        promise = [sum(q.observed_class_distribution.values()) - max(q.observed_class_distribution.values()) for q in rules]
        least = sorted(promise)[leaves - active] if active else np.inf
        for q, u in zip(rules, promise):
            dist = q.observed_class_distribution
            total = sum(dist.values())
            x = next((v for v in X[:i + 1][::-1] if q.covers_instance(v)), None)
            if x is None or total <= 0:
                continue
            want = np.zeros(14)
            for k, v in dist.items():
                want[int(k)] = v / total
            got = np.zeros(14)
            p = m.predict_proba(x.reshape(1, -1))[0]
            got[:len(p)] = p
            if np.abs(got - want).max() > 1e-6:      # not what an inactive leaf answers
                seen += 1
                require(u >= least - 1e-6 * (1 + total), '%s: the leaf %s with promise %.6g is active, its promise is '
                        'not among the %d largest of %s', what, short(dist), u, active, short(sorted(promise)))
    ctx.label('leaves: %d' % min(leaves, 8))
    if seen:
        ctx.label('active leaves under the limit')
    return seen > 0


cfg = dict(seed=seeds, f=st.integers(1, 4), k=st.integers(2, 4), gap=st.integers(0, 3), nom=st.lists(
    st.integers(0, 3), max_size=2, unique=True), again=st.sampled_from([False, False, True]), card=st.integers(2, 4), wscale=st.sampled_from([1.0, 0.37, 2.3]),
           grid=st.sampled_from([[], [], [], [0], [1], [0, 1, 2]]), late=st.booleans(),
    two=st.booleans(), noise=st.sampled_from([0.0, 0.05, 0.3]), crit=st.sampled_from(
        ['info_gain', 'info_gain', 'gini', 'hellinger']), conf=st.sampled_from([1e-7, 0.01, 0.2]),
    tie=st.sampled_from([0.0, 0.05, 0.25, 0.6]), binary=st.booleans(), poor=st.sampled_from([False, False, True]),
    nopre=st.booleans(), pred=st.sampled_from(['mc', 'nb', 'nba']), nbt=st.sampled_from([0, 0, 15]),
    stop=st.sampled_from([False, False, True]), grace=st.sampled_from([9.5, 19.5, 40.5]))
SUBS = [
    Sub('tree', st.fixed_dictionaries(dict(cfg, n=st.sampled_from([40, 120, 250, 400]), weights=st.sampled_from(
        [False, False, True]), sizes=st.lists(st.integers(1, 9), min_size=1, max_size=3))), run_tree, 2400,
        thorough=6000, rule='at least one split'),
    Sub('nominal', st.fixed_dictionaries(dict(
        cfg, n=st.sampled_from([250, 400]), f=st.integers(2, 3), nom=st.sampled_from([[0], [0, 1]]), late=st.just(True),
        binary=st.just(False), two=st.just(False), conf=st.just(0.2), tie=st.sampled_from([0.25, 0.6]), weights=st.booleans(),
        grace=st.sampled_from([9.5, 19.5]), noise=st.sampled_from([0.05, 0.3]), sizes=st.lists(
            st.integers(1, 9), min_size=1, max_size=3))), run_tree, 300, thorough=2000, rule='at least one split'),
    Sub('memory', st.fixed_dictionaries(dict(cfg, n=st.sampled_from([40, 120, 250]), period=st.sampled_from(
        [5, 10, 50, 100]), weights=st.booleans(), sizes=st.lists(st.integers(1, 9), min_size=1, max_size=3))), run_tree, 600,
        thorough=3000, rule='more than five samples after the limit was reached'),
    Sub('deep', st.fixed_dictionaries(dict(
        cfg, n=st.sampled_from([1200, 2000, 3000]), f=st.integers(2, 7), k=st.integers(2, 6), deep=st.sampled_from([2, 3]),
        drift=st.booleans(), conf=st.sampled_from([1e-7, 0.01, 0.2]), tie=st.sampled_from([0.05, 0.15, 0.3]),
        noise=st.sampled_from([0.0, 0.05]), grace=st.sampled_from([25.5, 50.5, 200.5]), weights=st.sampled_from(
            [False, False, True]), stop=st.just(False), poor=st.sampled_from([False, False, False, True]),
        sizes=st.lists(st.sampled_from([1, 7, 50, 200]), min_size=1, max_size=3))), run_tree, 160,
        thorough=600, rule='at least one split'),
    Sub('limit', st.fixed_dictionaries(dict(
        cfg, n=st.sampled_from([300, 600, 1000]), f=st.integers(2, 5), deep=st.sampled_from([2, 3]), drift=st.just(False),
        nom=st.just([]), conf=st.sampled_from([0.01, 0.2]), tie=st.sampled_from([0.25, 0.4]), grace=st.sampled_from(
            [19.5, 40.5]), noise=st.sampled_from([0.05, 0.2]), pred=st.just('nb'), nbt=st.just(0), stop=st.just(False),
        frac=st.sampled_from([0.2, 0.4, 0.6, 0.8]), period=st.sampled_from([10, 50]))), run_limit, 120, thorough=1000,
        rule='after a growth under the limit some leaf is certainly active'),
]
