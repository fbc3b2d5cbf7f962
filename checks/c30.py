"""Adaptive random forests and streaming random patches against reference forests."""
import collections
import itertools
import math
import re
import warnings

import numpy as np
from hypothesis import strategies as st

from vp import toy
from vp.engine import Skip, Sub, require, require_close, rng_of, short
from vp.gen import seeds

PROP = 'C30'
META = dict(
    title='Adaptive forests and random patches train, replace and vote as specified',
    statement='For any stream, cut into calls and configuration of AdaptiveRandomForestClassifier, '
              'AdaptiveRandomForestRegressor and StreamingRandomPatchesClassifier: every member is trained on every sample '
              'with the sample weight times its own Poisson(lambda) draw (none with random subspaces). A '
              'warning starts a background member (fresh subset of features for patches) that learns the same samples '
              'from then on; a drift replaces the member by it, or by a fresh one when there is none, and '
              'restarts its performance estimate; other members are untouched. Without detectors nothing '
              'is ever replaced. Votes of the classifiers are the members\' class probabilities times '
              'their prequential accuracy (or kappa); regressors take the median or the (error-weighted) mean. Leaves of '
              'the trees look at exactly the number of distinct features that max_features stands for; '
              'each patch has the number of distinct features that subspace_mode and subspace_size stand for (up to 20 '
              'features, patches repeat only when there are more members than subsets, and then evenly), and nominal '
              'attributes follow their features.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all streams, batch cuts, weights, seeds, detectors and parameter settings'),
    why_tests_cant='Tests compare the predictions of one or two settings on a single fixed stream.',
    anchors=dict(files=['src/skmultiflow/meta/adaptive_random_forests.py',
                        'src/skmultiflow/meta/adaptive_random_forest_regressor.py',
                        'src/skmultiflow/meta/streaming_random_patches.py',
                        'src/skmultiflow/trees/_nodes/arf_htc_nodes.py'],
                 mechanism=[dict(name='forest', where='ARFBaseLearner.partial_fit'),
                            dict(name='regression forest', where='ARFRegBaseLearner.partial_fit'),
                            dict(name='patches', where='StreamingRandomPatchesBaseLearner.partial_fit'),
                            dict(name='random leaves', where='RandomActiveLeafClass')]),
    technique='PBT, stateful: differential against reference forests; recorded random draws, transparent members',
)
ASSUMPTIONS = ['all features at every leaf (then the trees are plain Hoeffding trees), except in the leaves sub-check',
               'kappa votes: only while no kappa is negative (see the known finding)',
               'votes that are tied up to rounding are left out']


class Accuracy:
    def __init__(self):
        self.n = self.ok = 0.0
        self.t, self.p = {}, {}

    def add(self, y, p, w):
        self.n += w
        self.ok += w * (y == p)
        self.t[y] = self.t.get(y, 0.0) + w
        self.p[p] = self.p.get(p, 0.0) + w

    def acc(self):
        return self.ok / self.n if self.n else 0.0

    def kappa(self):
        if not self.n:
            return 0.0
        pc = sum(self.t.get(k, 0.0) * self.p.get(k, 0.0) for k in set(self.t) | set(self.p)) / self.n ** 2
        return 1.0 if pc == 1 else (self.acc() - pc) / (1.0 - pc)


def detector(c, which):
    from skmultiflow import drift_detection as D
    kind = c[which]
    if kind == 'none':
        return None
    if kind == 'toy':
        return toy.detector()(c[which + '_limit'])
    if kind == 'adwin':
        return D.ADWIN(0.3 if which == 'drift' else 0.9)
    if kind == 'ddm':
        return D.DDM(min_num_instances=10)
    return D.EDDM()


class Twin:
    """A tree and its copy that gets the features in reverse: they differ when candidate splits tie."""

    def __init__(self, make, f, nominal):
        self.f = f
        self.a = make(nominal)
        self.b = make(None if nominal is None else [f - 1 - j for j in nominal])

    def partial_fit(self, X, y, **kw):
        self.a.partial_fit(X, y, **kw)
        self.b.partial_fit(X[:, ::-1].copy(), y, **kw)
        a, b = ([re.findall(r'(\d+) *(=|<=|>) ', re.sub('[^-0-9=<>.e ]', '', line)) for line in
                 t.get_model_description().splitlines() if line.lstrip().startswith('if')] for t in (self.a, self.b))
        if a != [[(str(self.f - 1 - int(j)), op) for j, op in line] for line in b]:
            raise Skip()

    def ask(self, X, what):
        p, q = (np.asarray(getattr(t, what)(x)) for t, x in ((self.a, X), (self.b, X[:, ::-1].copy())))
        if p.shape != q.shape or not np.allclose(p, q, rtol=1e-6, atol=1e-9):
            raise Skip()
        return p

    def predict(self, X):
        return self.ask(X, 'predict')

    def predict_proba(self, X):
        return self.ask(X, 'predict_proba')


class Member:
    def __init__(self, forest, fresh=True):
        self.f = forest
        self.tree = forest.new_tree()
        self.bg = None
        self.ev = Accuracy()
        self.w, self.d = detector(forest.c, 'warn'), detector(forest.c, 'drift')
        self.feats = None
        self.k = 0

    def event(self, x, val):
        """Feeds the detectors; returns after replacing the model if needed."""
        if self.d is None:
            return
        if self.w is not None:
            self.w.add_element(val)
            if self.w.detected_change():
                self.f.warnings += 1
                self.bg = Member(self.f)
                self.bg.feats = self.f.new_feats(self)
                self.w.reset()
        self.d.add_element(val)
        if self.d.detected_change():
            self.f.drifts += 1
            if self.bg is not None:
                b = self.bg
                self.tree, self.w, self.d, self.feats = b.tree, b.w, b.d, b.feats
                self.ev = b.ev if self.f.keep_ev else Accuracy()
                self.bg = None
                self.f.swaps += 1
            else:
                self.tree = self.f.new_tree()
                self.d.reset()
                self.ev = Accuracy()
                self.feats = self.f.new_feats(self)
            self.k = 0


class RefARF:
    keep_ev = False

    def __init__(self, c, rec):
        self.c, self.rec = c, rec
        self.warnings = self.drifts = self.swaps = 0
        self.members = [Member(self) for _ in range(c['n_est'])]

    def new_tree(self):
        from skmultiflow.trees import HoeffdingTreeClassifier
        c = self.c
        return Twin(lambda nominal: HoeffdingTreeClassifier(
            grace_period=c['grace'], split_confidence=0.05, tie_threshold=c['tie'], leaf_prediction=c['leaf'],
            nominal_attributes=nominal), c['f'], c['nominal'])

    def new_feats(self, m):
        return None

    def draw(self):
        require(self.rec.poissons, 'fewer Poisson draws than members times samples')
        return self.rec.poissons.pop(0)

    def fit(self, x, y, w, classes):
        X = np.asarray([x])
        if w == 0:
            return
        for m in self.members:
            m.ev.add(y, int(m.tree.predict(X)[0]), w)
            k = self.draw()
            if k == 0:
                continue
            for t in [m.tree] + ([m.bg.tree] if m.bg else []):
                t.partial_fit(X, np.array([y]), classes=classes, sample_weight=np.array([k * w], dtype=float))
            m.event(x, int(int(m.tree.predict(X)[0]) != y))

    def votes(self, x):
        v = {}
        for m in self.members:
            p = np.asarray(m.tree.predict_proba(np.asarray([x])))[0]
            s = p.sum()
            if s <= 0:
                continue
            g = 1.0
            if self.c['weighted']:
                g = m.ev.acc() if self.c['metric'] == 'acc' else m.ev.kappa()
                if g < 0 or (self.c['metric'] == 'kappa' and m.ev.n and g < 1e-9):      # no kappa is exactly 0
                    raise Skip()
                g = g or 1.0
            for k in range(len(p)):
                v[k] = v.get(k, 0.0) + g * p[k] / s
        return v


class RefSRP(RefARF):
    def __init__(self, c, rec, feats):
        self.bases = 0
        super().__init__(c, rec)
        for m, f in zip(self.members, feats):
            m.feats = f

    def new_tree(self):
        t = toy.make()(self.c['width'], True)
        t.trained = False
        return t

    def new_feats(self, m):
        if m.feats is None:
            return None
        if not self.rec.choices:
            raise Skip()
        f = self.rec.choices.pop(0)
        require(len(f) == len(m.feats) and len(set(f.tolist())) == len(f) and 0 <= min(f) and max(f) < self.c['f'],
                'a new subset of features is %s (size %d of %d features expected)', f, len(m.feats), self.c['f'])
        return f

    def part(self, m, x):
        return np.asarray([x if m.feats is None else x[m.feats]])

    def fit(self, x, y, w, classes):
        for m in self.members:
            m.ev.add(y, int(np.argmax(m.tree.predict_proba(self.part(m, x)))), w)
            k = 1 if self.c['method'] == 'randomsubspaces' and m.feats is not None else self.draw()
            if k == 0:
                continue
            for t in [m] + ([m.bg] if m.bg else []):
                t.tree.partial_fit(self.part(t, x), [y], classes=classes, sample_weight=[k * w])
                t.tree.trained = True
            bad = int(m.tree.predict(self.part(m, x))[0]) != y
            m.event(x, int(bad))

    def votes(self, x):
        v = {}
        for m in self.members:
            p = m.tree.predict_proba(self.part(m, x))[0]
            if p.sum() <= 0:
                continue
            g = (m.ev.acc() or 1.0) if self.c['weighted'] else 1.0
            for k in range(len(p)):
                v[k] = v.get(k, 0.0) + g * p[k] / p.sum()
        return v


class RegError:
    def __init__(self):
        self.n, self.a, self.s = 0, 0.0, 0.0

    def add(self, y, p):
        self.n += 1
        self.a += abs(y - p)
        self.s += (y - p) ** 2


class RefARFR(RefARF):
    keep_ev = True

    def __init__(self, c, rec):
        super().__init__(c, rec)
        for m in self.members:
            m.ev = RegError()

    def new_tree(self):
        from skmultiflow.trees import HoeffdingTreeRegressor
        c = self.c
        return Twin(lambda nominal: HoeffdingTreeRegressor(
            grace_period=c['grace'], split_confidence=0.05, tie_threshold=c['tie'], leaf_prediction='mean',
            nominal_attributes=nominal, random_state=1), c['f'], c['nominal'])

    def fit(self, x, y, w, classes):
        X = np.asarray([x])
        for m in self.members:
            if not isinstance(m.ev, RegError):
                m.ev = RegError()
            k = self.draw()
            if k == 0:
                continue
            p = float(m.tree.predict(X)[0])
            m.ev.add(y, p)
            m.tree.partial_fit(X, np.array([y]), sample_weight=np.array([float(k)]))
            if m.bg:
                if not isinstance(m.bg.ev, RegError):
                    m.bg.ev = RegError()
                m.bg.ev.add(y, float(m.bg.tree.predict(X)[0]))
                m.bg.tree.partial_fit(X, np.array([y]), sample_weight=np.array([float(k)]))
            v = {'mse': (y - p) ** 2, 'mae': abs(y - p), 'predictions': p}[self.c['criteria']]
            m.event(x, self.normal(m, v))

    def normal(self, m, v):
        m.k += 1
        if m.k == 1:
            m.vals = [v]
            return 0.0
        m.vals.append(v)
        a = np.array(m.vals)
        mu, sd = a.mean(), a.std(ddof=1)
        if sd < 1e-9 * (1e-300 + abs(a).max()):
            if sd and np.ptp(a) > 0:
                raise Skip()
            return 0.5
        return ((v - mu) / sd + 3) / 6

    def predict(self, x):
        c = self.c
        ps = np.array([float(m.tree.predict(np.asarray([x]))[0]) for m in self.members])
        if c['agg'] == 'median':
            return float(np.median(ps))
        if c['vote']:
            es = np.array([(0.0 if not isinstance(m.ev, RegError) or not m.ev.n else
                            (m.ev.s if c['vote'] == 'mse' else m.ev.a) / m.ev.n) for m in self.members])
            g = es.sum() - es
            if es.sum() > 0 and g.sum() > 0:
                return float((ps * g).sum() / g.sum())
        return float(ps.mean())


def stream(c, r):
    X = np.round(r.randn(c['n'], c['f']) * 2, 3)
    for j in c['nominal'] or []:
        X[:, j] = r.randint(0, 3, c['n'])
    a = r.randn(c['f'])
    cut = [int(q * c['n']) for q in c['cuts']]
    s = np.zeros(c['n'])
    for i in range(c['n']):
        if i in cut:
            a = r.randn(c['f'])
        s[i] = X[i] @ a
    if c['kind'] == 'arfr':
        return X, np.round(s + c['noise'] * r.randn(c['n']), 3)
    y = (np.digitize(s, [-1.5, 1.5]) % c['k']).astype(int)
    flip = r.rand(c['n']) < c['noise']
    y[flip] = r.randint(0, c['k'], flip.sum())
    return X, y


def subspace(c):
    """Expected number of features, None: all (resampling)."""
    f, k = c['f'], c['size']
    if c['method'] == 'resampling':
        return None
    root = int(np.round(np.sqrt(f)) + 1)
    if c['mode'] == 'sqrtM1':
        k = root
    elif c['mode'] == 'MsqrtM1':
        k = f - root
    elif c['mode'] == 'percentage':
        q = f * ((100.0 + k) / 100.0 if k < 0 else k / 100.0)
        k = int(np.round(q))
        if k < 2:
            k += 1
    if k < 0:
        k += f
    if k == 0 or k >= f:
        return None
    if k < 0:
        raise Skip()
    if k == 1 and f > 2:
        return 2
    return k


def make(c, rec):
    from skmultiflow import meta as M
    kw = dict(n_estimators=c['n_est'], random_state=rec, drift_detection_method=detector(c, 'drift'),
              warning_detection_method=detector(c, 'warn'))
    if c['kind'] == 'srp':
        kw['lam'] = c['lam']
        if kw['drift_detection_method'] is None:
            kw['drift_detection_method'] = toy.detector()(1.0)
            kw['disable_drift_detection'] = True
        if kw['warning_detection_method'] is None:
            kw['warning_detection_method'] = toy.detector()(1.0)
            kw['disable_background_learner'] = True
        return M.StreamingRandomPatchesClassifier(
            toy.make()(c['width'], True), subspace_mode=c['mode'], subspace_size=c['size'], training_method=c['method'],
            disable_weighted_vote=not c['weighted'], nominal_attributes=c['nominal'], **kw)
    kw.update(max_features=None, lambda_value=c['lam'], grace_period=c['grace'], split_confidence=0.05,
              tie_threshold=c['tie'], nominal_attributes=c['nominal'])
    if c['kind'] == 'arf':
        return M.AdaptiveRandomForestClassifier(performance_metric=c['metric'], leaf_prediction=c['leaf'],
                                                disable_weighted_vote=not c['weighted'], **kw)
    return M.AdaptiveRandomForestRegressor(aggregation_method=c['agg'], weighted_vote_strategy=c['vote'],
                                           drift_detection_criteria=c['criteria'], leaf_prediction='mean', **kw)


def run_forest(c, ctx):
    warnings.simplefilter('ignore')
    c = dict(c)
    r = rng_of(c['seed'])
    c['nominal'] = sorted({j % c['f'] for j in c['nominal']}) or None
    if c['kind'] != 'arf' and c['drift'] == 'ddm':          # DDM: for errors only, and it cannot be cloned (known finding)
        c['drift'] = 'adwin' if c['kind'] == 'arfr' else 'eddm'
    X, y = stream(c, r)
    n, k = c['n'], c['k']
    w = r.choice([0.5, 1.0, 2.0, 3.0] + [0.0] * (c['kind'] == 'arf'), n) if c['weights'] and c['kind'] != 'arfr' else None
    rec = toy.Recorder(c['rs'])
    m = make(c, rec)
    size = subspace(c) if c['kind'] == 'srp' else None
    ref = {'arf': RefARF, 'arfr': RefARFR}[c['kind']](c, rec) if c['kind'] != 'srp' else None
    classes = list(range(k)) if c['classes'] and c['kind'] != 'arfr' else None
    i = 0
    while i < n:
        s = min(c['sizes'][i % len(c['sizes'])], n - i) if i else 1
        kw = {}
        if classes is not None:
            kw['classes'] = classes
        if w is not None:
            kw['sample_weight'] = w[i:i + s]
        m.partial_fit(X[i:i + s].copy(), y[i:i + s].copy(), **kw)
        if ref is None:
            # the first sample cannot have replaced anybody's features: limits are above 1
            feats = [None if e.feature_indexes is None else np.array(e.feature_indexes) for e in m.ensemble]
            require(len(feats) == c['n_est'], '%d members instead of %d', len(feats), c['n_est'])
            for g in feats:
                require((size is None) == (g is None), 'members use the features %s, %s expected', g, size)
                if g is not None:
                    require(len(set(g.tolist())) == size == len(g) and 0 <= min(g) and max(g) < c['f'],
                            'patch %s, expected %d of %d features', g, size, c['f'])
            if size is not None and c['f'] <= 20 and math.comb(c['f'], size) >= c['n_est']:
                require(len({tuple(sorted(g.tolist())) for g in feats}) == c['n_est'], 'patches repeat: %s', short(feats))
            elif size is not None and c['f'] <= 20:
                have = collections.Counter(tuple(sorted(g.tolist())) for g in feats)
                q, t = divmod(c['n_est'], math.comb(c['f'], size))
                require(sorted(have.values(), reverse=True) == [q + 1] * t + [q] * (math.comb(c['f'], size) - t),
                        '%d members on the %d subsets of %d features use %s', c['n_est'], math.comb(c['f'], size), size, dict(have))
            rec.choices.clear()
            ref = RefSRP(c, rec, feats)
        for j in range(i, i + s):
            ref.fit(X[j], y[j].item(), 1.0 if w is None else float(w[j]), classes)
        require(not rec.poissons, '%d Poisson draws too many', len(rec.poissons))
        i += s
        if r.rand() < 0.06 or i >= n:
            check(c, m, ref, X, r, 'after %d samples, %d warnings, %d drifts' % (i, ref.warnings, ref.drifts))
    require(rec.lams <= {float(c['lam'])}, 'Poisson draws with lambda %s', rec.lams)
    ctx.label(c['kind'])
    if ref.swaps:
        ctx.label('background used')
    elif ref.drifts:
        ctx.label('drift')
    return ref.drifts > 0 or c['drift'] == 'none'


def check(c, m, ref, X, r, what):
    what = '%s %s' % (type(m).__name__, what)
    Q = np.vstack([X[r.randint(0, len(X), 5)], np.round(r.randn(2, c['f']) * 3, 2)])
    if c['nominal']:
        Q[:, c['nominal']] = r.randint(0, 3, (len(Q), len(c['nominal'])))
    p = np.asarray(m.predict(Q))
    require(p.shape == (len(Q),), '%s: predictions of shape %s', what, p.shape)
    if c['kind'] == 'arfr':
        require_close(p, [ref.predict(q) for q in Q], '%s: predictions' % what, rtol=1e-7, atol=1e-7)
        return
    if c['kind'] == 'srp':
        for a, b in zip(m.ensemble, ref.members):
            require((b.feats is None) == (a.feature_indexes is None) and
                    (b.feats is None or list(a.feature_indexes) == list(b.feats)), '%s: a member uses the features %s, '
                    'expected %s', what, a.feature_indexes, b.feats)
            require(a.base_estimator.log == b.tree.log, '%s: a member was trained on %s, expected %s', what,
                    short(a.base_estimator.log[-3:]), short(b.tree.log[-3:]))
            if b.tree.trained:
                want = c['nominal'] if b.feats is None else [t for t, g in enumerate(b.feats) if g in (c['nominal'] or [])]
                require(list(a.base_estimator.nominal_attributes or []) == list(want or []),
                        '%s: nominal attributes %s with the features %s, expected %s', what,
                        a.base_estimator.nominal_attributes, b.feats, want)
    P = np.asarray(m.predict_proba(Q))
    require(P.ndim == 2 and len(P) == len(Q), '%s: probabilities of shape %s', what, P.shape)
    for j, q in enumerate(Q):
        try:
            v = ref.votes(q)
        except Skip:
            continue
        t = sum(v.values()) if c['kind'] == 'arf' else 1.0
        got = {z: P[j][z] for z in range(len(P[j]))}
        for z in set(got) | set(v):
            require_close(got.get(z, 0.0), v.get(z, 0.0) / (t or 1.0), '%s: vote for class %d of %s' % (what, z, short(q)),
                          rtol=1e-6, atol=1e-9)
        top = sorted(v.values(), reverse=True)
        if len(top) > 1 and top[0] - top[1] < 1e-9:
            continue
        want = max(v, key=v.get) if v else 0
        require(int(p[j]) == want, '%s: predicts %s for %s, expected %s', what, p[j], short(q), want)


def run_leaves(c, ctx):
    """A leaf with Naive Bayes predictions uses exactly max_features distinct features."""
    warnings.simplefilter('ignore')
    from skmultiflow.bayes import NaiveBayes
    from skmultiflow.meta import AdaptiveRandomForestClassifier
    r = rng_of(c['seed'])
    f, mf = c['f'], c['max_features']
    want = {'auto': round(math.sqrt(f)), 'sqrt': round(math.sqrt(f)), 'log2': round(math.log2(f)), None: f}.get(mf, mf) \
        if not isinstance(mf, float) else int(mf * f)
    if want < 0:
        want += f
    want = min(max(want, 1), f)
    n = 40
    y = r.randint(0, 2, n)
    X = np.round(r.randn(n, f) + 1.5 * y[:, None] * r.choice([-1, 1], f), 2)
    rec = toy.Recorder(c['rs'])
    m = AdaptiveRandomForestClassifier(n_estimators=1, max_features=mf, lambda_value=20, grace_period=10 ** 6,
                                       leaf_prediction='nb', drift_detection_method=None, warning_detection_method=None,
                                       random_state=rec)
    m.partial_fit(X, y, classes=[0, 1])
    ks = list(rec.poissons)
    require(len(ks) == n, '%d Poisson draws for %d samples', len(ks), n)
    Q = np.round(r.randn(6, f) * 1.5, 2)
    P = np.asarray(m.predict_proba(Q))
    fits = []
    for S in itertools.combinations(range(f), want):
        nb = NaiveBayes()
        for i in range(n):
            if ks[i]:
                nb.partial_fit(X[i:i + 1, list(S)], y[i:i + 1], classes=[0, 1], sample_weight=[float(ks[i])])
        if np.allclose(nb.predict_proba(Q[:, list(S)]), P, rtol=1e-6, atol=1e-9):
            fits.append(S)
    require(fits, 'max_features=%r of %d features: the leaf predicts %s, which no Naive Bayes on %d features does', mf, f,
            short(P), want)
    ctx.label('%d of %d' % (want, f))
    return want < f


def run_kappa(c, ctx):
    from skmultiflow.meta import AdaptiveRandomForestClassifier
    r = np.random.RandomState(c['seed'])
    X, y = r.rand(60, 2), np.arange(60) % 2
    m = AdaptiveRandomForestClassifier(n_estimators=3, performance_metric='kappa', leaf_prediction='mc',
                                       drift_detection_method=None, warning_detection_method=None, random_state=1)
    m.partial_fit(X, y, classes=[0, 1])
    for i in range(20):
        P = np.asarray(m.predict_proba(r.rand(5, 2)))
        require((P >= -1e-9).all(), 'negative class probabilities %s', short(P))
        m.partial_fit(r.rand(3, 2), r.randint(0, 2, 3))
    return True


def run_ddm(c, ctx):
    from skmultiflow.drift_detection import DDM
    from skmultiflow.meta import StreamingRandomPatchesClassifier
    m = StreamingRandomPatchesClassifier(n_estimators=2, drift_detection_method=DDM(min_num_instances=c['min']),
                                         random_state=c['seed'])
    X = np.arange(80.0).reshape(40, 2) % 7
    m.partial_fit(X, np.arange(40) % 2, classes=[0, 1])
    require(np.asarray(m.predict(X)).shape == (40,), 'no predictions')
    return True


def run_spread(c, ctx):
    from skmultiflow.meta import StreamingRandomPatchesClassifier
    used = set()
    for s in range(40):
        m = StreamingRandomPatchesClassifier(toy.make()(), n_estimators=3, subspace_mode='m', subspace_size=3,
                                             random_state=c['seed'] + s)
        m.partial_fit(np.zeros((1, 10)), np.array([0]), classes=[0, 1])
        for e in m.ensemble:
            used |= {int(v) for v in e.feature_indexes}
    require(len(used) == 10, 'of 10 features, patches of 3 in 40 ensembles of 3 members only ever use %s', sorted(used))
    return True


cfg = dict(
    seed=seeds, rs=st.integers(0, 2 ** 31 - 1), kind=st.sampled_from(['arf', 'arf', 'arfr', 'srp', 'srp']),
    n_est=st.integers(1, 4), f=st.integers(1, 5), k=st.integers(2, 3), noise=st.sampled_from([0.0, 0.1, 0.4]),
    cuts=st.lists(st.sampled_from([0.3, 0.5, 0.75]), max_size=2), lam=st.sampled_from([1, 3, 6]),
    drift=st.sampled_from(['toy', 'toy', 'adwin', 'ddm', 'none']), warn=st.sampled_from(['toy', 'toy', 'adwin', 'none']),
    drift_limit=st.sampled_from([2.5, 6.0, 15.0]), warn_limit=st.sampled_from([2.0, 4.0, 6.0]),
    grace=st.sampled_from([10, 30]), tie=st.sampled_from([0.05, 0.3]), leaf=st.sampled_from(['mc', 'nb', 'nba']),
    weighted=st.booleans(), metric=st.sampled_from(['acc', 'acc', 'kappa']), weights=st.sampled_from([False, False, True]),
    classes=st.sampled_from([True, True, False]), nominal=st.lists(st.integers(0, 4), max_size=2),
    agg=st.sampled_from(['median', 'mean', 'mean']), vote=st.sampled_from([None, 'mse', 'mae']),
    criteria=st.sampled_from(['mse', 'mae', 'predictions']), width=st.sampled_from([1.0, 2.0]),
    mode=st.sampled_from(['percentage', 'm', 'sqrtM1', 'MsqrtM1']), size=st.sampled_from([60, 40, 1, 2, 3, -1, -50]),
    method=st.sampled_from(['randompatches', 'randompatches', 'randomsubspaces', 'resampling']),
    n=st.sampled_from([30, 80, 160]), sizes=st.lists(st.sampled_from([1, 3, 10, 40]), min_size=1, max_size=3))
many = dict(cfg, kind=st.just('srp'), f=st.sampled_from([2, 3, 3, 4, 5, 6, 7, 8, 12, 20, 21]), n_est=st.integers(3, 14),
            nominal=st.lists(st.integers(0, 20), max_size=6), n=st.sampled_from([30, 60]),
            size=st.sampled_from([1, 2, 2, 3, 4, -1, -2, 25, 75]), sizes=st.just([1, 10]),
            method=st.sampled_from(['randompatches', 'randomsubspaces']))
SUBS = [
    Sub('patches', st.fixed_dictionaries(many), run_forest, 250, thorough=2500, rule='a member was replaced, or the detectors are off'),
    Sub('forest', st.fixed_dictionaries(cfg), run_forest, 1200, thorough=12000,
        rule='a member was replaced, or the detectors are off'),
    Sub('leaves', st.fixed_dictionaries(dict(seed=seeds, rs=st.integers(0, 2 ** 31 - 1), f=st.integers(1, 5),
                                             max_features=st.sampled_from(['auto', 'sqrt', 'log2', None, 1, 2, 3, 9, -1, -2, 0.4,
                                                                           0.7, 0.1, 1.0]))),
        run_leaves, 100, thorough=600, rule='fewer features than there are'),
    Sub('kappa_negative', st.nothing(), run_kappa, n=0, thorough=0, rule='known finding only'),
    Sub('srp_ddm', st.nothing(), run_ddm, n=0, thorough=0, rule='known finding only'),
    Sub('spread', st.nothing(), run_spread, n=0, thorough=0, rule='known finding only'),
]
