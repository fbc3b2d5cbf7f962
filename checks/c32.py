"""C32: HalfSpaceTrees scores against an independent recount of window masses."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, Skip, require, require_close, rng_of, short

PROP = 'C32'
SCALE = 3
META = {
    'title': 'HalfSpaceTrees scores come from the mass of the last completed window',
    'statement': (
        'HalfSpaceTrees builds n_estimators random complete binary trees of the configured depth, each '
        'node halving the work range of one feature around a random centre in [0, 1] (a left descent '
        'halves the distance to the lower bound each time). While learning, for the first window_size + 1 '
        'samples, predict_proba answers (0.5, 0.5), and an unfitted model answers zeros. From the second '
        'completed window on, the score of an instance depends only on the samples of the last completed '
        'window (windows of window_size consecutive samples): descending each tree from its root and '
        'stopping at the first node that is a leaf or through which at most size_limit of those samples '
        'passed, the score is mass * 2^depth, the probability of being anomalous is the mean over the trees '
        'of 1 - score / (window_size * 2^max_depth), and predict answers 1 exactly when it exceeds '
        'anomaly_threshold. Order inside the window, earlier history, labels, weights and how the stream is '
        'cut into partial_fit calls are all irrelevant; scoring changes nothing; reset starts afresh.'),
    'quantifier': {'over': ['inputs', 'histories', 'configurations'],
                   'text': 'window sizes 1-30, depths 1-7, ensembles 1-6, size limits 0-40, thresholds, streams in, '
                               'around and far outside [0, 1], duplicates, every number of completed windows up to 6'},
    'why_tests_cant': (
        'The repository test trains one model on one stream and compares a few predictions; the mass profile swap '
        'at every window boundary, the size limit cut and the role of each sample depend on the position in the '
        'stream, the parameters and the data.'),
    'anchors': {'files': ['src/skmultiflow/anomaly_detection/half_space_trees.py'],
                'mechanism': [{'name': 'HalfSpaceTrees._partial_fit, HalfSpaceTree.update_mass, update_model',
                               'where': 'src/skmultiflow/anomaly_detection/half_space_trees.py'},
                              {'name': 'HalfSpaceTree.anomaly_score, build_tree',
                               'where': 'src/skmultiflow/anomaly_detection/half_space_trees.py'}]},
    'technique': 'property-based testing: recount of node masses from the raw samples of the window as a reference '
                 'model of the score; metamorphic relations over history, order, labels and batch cuts',
}
ASSUMPTIONS = [
    'Tree shape is read from the public node attributes left, right, split_attribute, split_value, depth and '
    'internal_node; masses are recounted, never read.',
    'The first reference window (between window_size + 2 and 2 * window_size samples), one-feature data, the last '
    'feature and the lower bounds of right-hand ranges are known findings and are left out of the general search.',
]


def hst(c):
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    return HalfSpaceTrees(window_size=c['w'], depth=c['depth'], n_estimators=c['n_est'], size_limit=c['limit'],
                          anomaly_threshold=c['thr'], random_state=c['seed'])


@st.composite
def cases(draw, extra=None):
    w = draw(st.integers(1, 30))
    c = {'w': w, 'depth': draw(st.integers(1, 7)), 'n_est': draw(st.integers(1, 6) | st.integers(7, 14)),
         'limit': draw(st.sampled_from([0, 0, 1, 1, 2, 3, 5, 10, 40])),
         'thr': draw(st.sampled_from([0.0, 0.1, 0.3, 0.5, 0.7, 0.9, 0.95, 0.99])),
         'seed': draw(st.integers(0, 10 ** 6)), 'dseed': draw(st.integers(0, 10 ** 6)),
         'nf': draw(st.integers(2, 5)),
         'n': draw(st.integers(2 * w + 1, 6 * w + 2)),
         'kind': draw(st.sampled_from(['unit', 'unit', 'tight', 'wide', 'grid', 'two'])),
         'cuts': draw(st.lists(st.integers(1, 40), min_size=1, max_size=6))}
    return c


def data(rng, kind, n, nf):
    if kind == 'unit':
        return rng.uniform(size=(n, nf))
    if kind == 'tight':
        return 0.3 + 0.05 * rng.normal(size=(n, nf))
    if kind == 'wide':
        return rng.normal(scale=3, size=(n, nf))
    if kind == 'grid':
        return rng.randint(0, 3, size=(n, nf)) / 2.
    m = rng.randint(0, 2, size=(n, 1))
    return 0.2 + 0.6 * m + 0.03 * rng.normal(size=(n, nf))


def feed(m, X, cuts, y=None):
    i = k = 0
    while i < len(X):
        j = min(len(X), i + cuts[k % len(cuts)])
        if y is None:
            m.partial_fit(X[i:j])
        else:
            m.partial_fit(X[i:j], y[i:j])
        i, k = j, k + 1
    return m


def window(X, w):
    k = (len(X) - 1) // w
    return X[(k - 1) * w + 1:k * w + 1]


def score_tree(root, max_depth, win, x, limit):
    node, here = root, np.arange(len(win))
    while True:
        if node.left is None and node.right is None:
            break
        if len(here) <= limit:
            break
        f, s = node.split_attribute, node.split_value
        if x[f] > s:
            here = here[win[here, f] > s]
            node = node.right
        else:
            here = here[~(win[here, f] > s)]
            node = node.left
    return len(here) * 2. ** node.depth, len(here) <= limit and node.left is not None


def reference(m, c, win, Q):
    out, stops, inner = [], 0, 0
    for x in Q:
        vals = []
        for t in m.ensemble:
            s, stop = score_tree(t.root, c['depth'], win, x, c['limit'])
            stops += bool(stop)
            inner += 0 < s < c['w'] * 2 ** c['depth']
            vals.append(1 - s / (c['w'] * 2. ** c['depth']))
        out.append(np.mean(vals))
    return np.array(out), stops, inner


def answers(m, c, Q, ref):
    p = m.predict_proba(Q)
    require(p.shape == (len(Q), 2), lambda: 'predict_proba has shape %s' % (p.shape,))
    require_close(p[:, 1], ref, 'probability of being anomalous', rtol=1e-9, atol=1e-12)
    require_close(p[:, 0], 1 - ref, 'probability of being normal', rtol=1e-9, atol=1e-12)
    got = m.predict(Q)
    require(len(got) == len(Q), 'predict answers one label per row')
    for i, v in enumerate(ref):
        if abs(v - c['thr']) > 1e-9:
            require(int(got[i]) == int(v > c['thr']),
                    lambda: 'predict %s with probability %r and threshold %r' % (got[i], v, c['thr']))
    return p


def run_score(c, ctx):
    rng = rng_of(c['dseed'])
    X = data(rng, c['kind'], c['n'], c['nf'])
    m = feed(hst(c), X, c['cuts'])
    win = window(X, c['w'])
    Q = np.vstack([X[rng.randint(len(X), size=8)], rng.uniform(size=(4, c['nf'])), rng.normal(size=(4, c['nf'])) * 3])
    require(len(m.ensemble) == c['n_est'], lambda: '%d trees built, %d asked for' % (len(m.ensemble), c['n_est']))
    ref, stops, inner = reference(m, c, win, Q)
    answers(m, c, Q, ref)
    # a second reading says the same, and so does every later moment before the window is full
    answers(m, c, Q, ref)
    more = data(rng, 'wide', 2 * c['w'], c['nf'])
    allx = X
    for x in more:
        m.partial_fit(x[None, :])
        allx = np.vstack([allx, x[None, :]])
        if len(allx) % c['w'] in (0, 1, 2) or rng.uniform() < 0.15:
            r2, _, _ = reference(m, c, window(allx, c['w']), Q)
            answers(m, c, Q, r2)
    return inner > 0 and len(np.unique(ref)) > 1


def run_history(c, ctx):
    """Same last window, everything else different."""
    rng = rng_of(c['dseed'])
    w = c['w']
    X = data(rng, c['kind'], c['n'], c['nf'])
    k = (c['n'] - 1) // w
    lo, hi = (k - 1) * w + 1, k * w + 1
    X2 = data(rng, 'wide', c['n'], c['nf'])
    X2[lo:hi] = X[lo:hi][rng.permutation(w)]
    k2 = 2 if c['dseed'] % 2 and k > 2 else k          # a shorter history too
    X2 = X2[lo - 1 - (k2 - 1) * w:] if k2 != k else X2
    a = feed(hst(c), X, c['cuts'])
    b = feed(hst(c), X2, [int(rng.randint(1, 30)) for _ in range(5)], rng.randint(0, 3, size=len(X2)))
    Q = np.vstack([X[rng.randint(len(X), size=6)], rng.uniform(size=(6, c['nf']))])
    pa, pb = a.predict_proba(Q), b.predict_proba(Q)
    require_close(pb, pa, 'score with the same last window', rtol=1e-12, atol=1e-12)
    require(np.array_equal(a.predict(Q), b.predict(Q)), 'predictions with the same last window')
    # reset then replay
    b.reset()
    z = b.predict_proba(Q)
    require(z.shape == (len(Q), 2) and not z.any(), lambda: 'reset model answers %s' % short(z))
    feed(b, X, [len(X)])
    require_close(b.predict_proba(Q), pa, 'score after reset and replay', rtol=1e-12, atol=1e-12)
    return len(np.unique(pa[:, 1])) > 1


@st.composite
def phase_cases(draw):
    c = draw(cases())
    c['n'] = draw(st.integers(1, c['w'] + 1))
    return c


def run_phase(c, ctx):
    rng = rng_of(c['dseed'])
    Q = rng.uniform(size=(5, c['nf']))
    m = hst(c)
    z = m.predict_proba(Q)
    require(z.shape == (5, 2) and not z.any(), lambda: 'unfitted model answers %s' % short(z))
    require(np.array_equal(m.predict(Q), np.zeros(5)), 'unfitted model predicts normal')
    X = data(rng, c['kind'], c['w'] + 1, c['nf'])[:c['n']]
    for i in range(len(X)):
        m.partial_fit(X[i:i + 1])
        if i in (0, len(X) - 1) or rng.uniform() < 0.3:
            p = m.predict_proba(Q)
            require_close(p, np.full((5, 2), 0.5), 'learning-phase answer', rtol=0, atol=1e-12)
            want = np.full(5, int(0.5 > c['thr']))
            require(np.array_equal(m.predict(Q), want), lambda: 'learning-phase predict %s' % short(m.predict(Q)))
            require(m.is_learning_phase_on is True, 'learning phase is on')
    for x in data(rng, c['kind'], 2 * c['w'] + 1 - len(X), c['nf']):
        m.partial_fit(x[None, :])
    require(m.is_learning_phase_on is False, 'learning phase is over after two windows')
    require(m.samples_seen == 2 * c['w'] + 1, lambda: 'samples_seen is %r' % m.samples_seen)
    return True


def run_structure(c, ctx):
    rng = rng_of(c['dseed'])
    m = hst(c)
    m.partial_fit(data(rng, c['kind'], 1, c['nf']))
    require(len(m.ensemble) == c['n_est'], 'number of trees')
    used, spines = set(), 0
    for t in m.ensemble:
        def walk(node, depth):
            require(node.depth == depth, lambda: 'node depth %r at level %d' % (node.depth, depth))
            if depth == c['depth']:
                require(node.left is None and node.right is None and not node.internal_node,
                        'a node at the full depth is a leaf')
                return
            require(node.left is not None and node.right is not None and node.internal_node,
                    lambda: 'a node at depth %d of %d splits' % (depth, c['depth']))
            require(0 <= node.split_attribute < c['nf'], lambda: 'splits feature %r' % node.split_attribute)
            require(-2 <= node.split_value <= 3, lambda: 'split value %r' % node.split_value)
            used.add(int(node.split_attribute))
            # the same feature again straight below: the parent's value bounds the child's range
            for child, side in ((node.left, -1), (node.right, 1)):
                if child.internal_node and child.split_attribute == node.split_attribute:
                    require((child.split_value - node.split_value) * side > 0,
                            lambda: 'child of %r on side %d splits at %r' % (node.split_value, side, child.split_value))
            walk(node.left, depth + 1)
            walk(node.right, depth + 1)
        walk(t.root, 1)
        seen = {}
        node = t.root
        while node.internal_node:
            f = node.split_attribute
            if f not in seen:
                sq = node.split_value
                require(-1e-12 <= sq <= 1 + 1e-12, lambda: 'first split of feature %d at %r, centre outside [0, 1]' % (f, sq))
                seen[f] = (sq, 1)
            else:
                sq, i = seen[f]
                span = 2 * max(sq, 1 - sq)
                want = sq - span * (1 - 0.5 ** i)
                require_close(node.split_value, want, 'split %d of feature %d down the left side' % (i + 1, f), rtol=1e-9)
                seen[f] = (sq, i + 1)
                spines += 1
            node = node.left
    if c['depth'] >= 6 and c['n_est'] >= 4:
        require(used >= set(range(c['nf'] - 1)), lambda: 'features %s never split on in %d trees of depth %d'
                % (set(range(c['nf'] - 1)) - used, c['n_est'], c['depth']))
        roots = {round(float(t.root.split_value), 12) for t in m.ensemble}
        require(len(roots) > 1, 'the trees of the ensemble are all the same')
    return spines > 0


# ---------------------------------------------------------------- known findings

def run_last_feature(c, ctx):
    from skmultiflow.anomaly_detection import HalfSpaceTrees
    m = HalfSpaceTrees(window_size=5, depth=c['depth'], n_estimators=20, random_state=c['seed'])
    m.partial_fit(np.zeros((1, c['nf'])))
    used = set()

    def walk(node):
        if node.left is not None:
            used.add(int(node.split_attribute))
            walk(node.left)
            walk(node.right)
    for t in m.ensemble:
        walk(t.root)
    require(c['nf'] - 1 in used, lambda: 'the last of %d features is never split on' % c['nf'])
    return True


def run_ranges(c, ctx):
    m = hst(c)
    m.partial_fit(np.zeros((1, c['nf'])))
    for t in m.ensemble:
        centres = {}

        def walk(node, above):
            if node.left is None:
                return
            f = int(node.split_attribute)
            if f not in above:
                centres.setdefault(f, set()).add(round(float(node.split_value), 9))
            walk(node.left, above | {f})
            walk(node.right, above | {f})
        walk(t.root, frozenset())
        require(all(len(v) == 1 for v in centres.values()),
                lambda: 'nodes with the full range of a feature split it at different places: %s' % centres)
    return True


def run_first_window(c, ctx):
    rng = rng_of(c['dseed'])
    X = data(rng, c['kind'], c['n'], c['nf'])
    m = feed(hst(c), X, [1])
    Q = rng.uniform(size=(8, c['nf']))
    ref, _, _ = reference(m, c, window(X, c['w']), Q)
    answers(m, c, Q, ref)
    return True


SUBS = [
    Sub('score', cases(), run_score, n=120, thorough=2000,
        rule='some query stops with a mass strictly between nothing and everything, and the queries score differently'),
    Sub('history', cases(), run_history, n=120, thorough=2500, rule='the queries do not all score the same'),
    Sub('phase', phase_cases(), run_phase, n=80, thorough=1000, rule='every case'),
    Sub('structure', cases(), run_structure, n=200, thorough=4000,
        rule='a left descent splits a feature for the second time'),
    Sub('last_feature', st.nothing(), run_last_feature, n=0, thorough=0, rule='known finding only'),
    Sub('ranges', st.nothing(), run_ranges, n=0, thorough=0, rule='known finding only'),
    Sub('first_window', st.nothing(), run_first_window, n=0, thorough=0, rule='known finding only'),
]
