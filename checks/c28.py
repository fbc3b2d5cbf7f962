"""Bagging and boosting ensembles against reference ensembles over a transparent base estimator."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import toy
from vp.engine import Skip, Sub, require, require_close, rng_of, short
from vp.gen import seeds

PROP = 'C28'
META = dict(
    title='Bagging and boosting ensembles train, weight, reset and vote as specified',
    statement='For any stream, any base estimator and any configuration: every member of OzaBagging, '
              'OnlineUnderOverBagging and OnlineSMOTEBagging is trained on each sample k times, k drawn from a '
              'Poisson distribution of rate 1, of the class-dependent rate of the member, or of these rates split '
              'into real and synthetic samples; LeveragingBagging draws k as its leverage_algorithm says, '
              'with or without random output codes; OzaBaggingADWIN draws one k per member and batch. The boosting '
              'ensembles pass a weight from member to member (raised when the member is wrong, lowered when it is '
              'right, by the costs and sampling rates given), train with k drawn at that weight and vote with the log '
              'odds of each member\'s weighted error. All others sum the members\' probabilities. Probabilities are '
              'normalised, predict takes the largest. The members are the configured number of copies of the base '
              'estimator, at least one per class, and are always told the classes. When a member\'s ADWIN sees its '
              'error rise, the member with the highest error is reset, and only that one. '
              'sample_weight reaches the members (not LeveragingBagging).',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all streams with and without drift, batch cuts, weights, seeds and parameter settings'),
    why_tests_cant='Tests compare the accuracy of one setting per ensemble with pinned numbers; which member gets '
                   'which sample how often is not looked at.',
    anchors=dict(files=['src/skmultiflow/meta/oza_bagging.py', 'src/skmultiflow/meta/oza_bagging_adwin.py',
                        'src/skmultiflow/meta/leverage_bagging.py', 'src/skmultiflow/meta/online_boosting.py',
                        'src/skmultiflow/meta/online_adac2.py', 'src/skmultiflow/meta/online_csb2.py',
                        'src/skmultiflow/meta/online_rus_boost.py',
                        'src/skmultiflow/meta/online_smote_bagging.py',
                        'src/skmultiflow/meta/online_under_over_bagging.py'],
                 mechanism=[dict(name='training', where='partial_fit of each ensemble'),
                            dict(name='votes', where='predict_proba of each ensemble'),
                            dict(name='resets', where='change_detected in partial_fit')]),
    technique='PBT, stateful: differential against reference ensembles; recording base estimator',
)
ASSUMPTIONS = ['random_state is an integer; the draws are those of numpy.random.RandomState(random_state) in the '
               'order of samples and members',
               'ADWIN has its own property; the reference uses it as a component',
               'streams on which a boosting weight exceeds 60 are left out',
               'OnlineCSB2 and OnlineRUSBoost monitor accuracy (known finding)']
TINY = np.finfo(float).eps


class Ref:
    def __init__(self, c, strict=False):
        self.c = c
        self.r = np.random.RandomState(c['rs'])
        self.n = c['n_est']
        self.base = toy.make()(c['width'])
        self.members = [toy.make()(c['width']) for _ in range(self.n)]
        self.ad = [self.adwin() for _ in range(self.n)]
        self.classes = None
        self.changes = 0
        self.codes = None
        self.reset_log = []
        self.accuracy = c['kind'] in ('csb2', 'rus') and not strict
        self.drift = c['drift'] if c['kind'] not in ('oza', 'lev', 'oza_adwin') else c['kind'] != 'oza'
        self.pos = []
        self.npos = self.nneg = 0
        self.zero()

    def zero(self):
        self.s = [dict(sc=0.0, sw=0.0, eps=0.0, tp=0.0, tn=0.0, fp=0.0, fn=0.0, sum=0.0, wacc=0.0, werr=0.0, pos=0.0,
                       neg=0.0) for _ in range(self.n)]

    def adwin(self):
        from skmultiflow.drift_detection import ADWIN
        return ADWIN(self.c['delta']) if self.c['kind'] == 'lev' else ADWIN()

    def size(self, classes):
        if self.classes is None:
            self.classes = list(classes)
        if self.c['kind'] != 'lev' and len(self.classes) > self.n:
            while self.n < len(self.classes):
                self.members.append(toy.make()(self.c['width']))
                self.ad.append(self.adwin())
                self.n += 1
            self.zero()

    def give(self, i, x, y, w, k, classes=None):
        for _ in range(int(k)):
            self.members[i].partial_fit([x], [y], classes or self.classes, None if w is None else [w])

    def fit(self, X, y, w, classes):
        self.size(classes)
        if self.c['kind'] == 'oza_adwin':
            changed = False
            for i in range(self.n):
                for _ in range(self.r.poisson()):
                    self.members[i].partial_fit(X, y, self.classes, w)
                changed = self.watch(i, self.members[i].predict(X), y) or changed
            self.reset(changed)
            return
        for j in range(len(X)):
            self.one(X[j], y[j], None if w is None else w[j])

    def watch(self, i, pred, y):
        if not self.drift:
            return False
        before = self.ad[i].estimation
        for p, t in zip(pred, y):
            self.ad[i].add_element(int((p == t) if self.accuracy else (p != t)))
        return bool(self.ad[i].detected_change() and self.ad[i].estimation > before)

    def reset(self, changed):
        if not changed:
            return
        self.changes += 1
        est = [a.estimation for a in self.ad]
        if max(est) > 0:
            k = est.index(max(est))
            self.members[k].reset()
            self.ad[k] = self.adwin()
            self.reset_log.append(k)

    def rate(self, i, lam, y):
        c, s = self.c, self.s[i]
        if y == 1:
            s['pos'] += lam
            self.npos += 1
        else:
            s['neg'] += lam
            self.nneg += 1
        C, P, N, p, n = c['rate'], s['pos'], s['neg'], self.npos, self.nneg
        if c['algorithm'] == 1:
            if y == 1:
                return lam * (P + N) / (P + N * (C * p / n)) * ((C + 1) * p / (p + n)) if n else 1
            return lam * (P + N) / (P + N * (n / (p * C))) * ((C + 1) * p / (p + n)) if p else 1
        if c['algorithm'] == 2:
            if y == 1:
                return (lam * p / (p + n)) / (P / (P + N))
            return (lam * C * p / (p + n)) / (N / (P + N))
        return lam if y == 1 else lam / C

    def one(self, x, y, w):
        c, kind, r = self.c, self.c['kind'], self.r
        changed = False
        lam = 1.0
        if kind == 'lev' and c['code'] and self.codes is None:
            self.codes = []
            K = len(self.classes)
            for i in range(self.n):
                while True:
                    row = [None] * K
                    for j in range(K):
                        row[j] = 1 - row[0] if (j == 1 and K == 2) else int(r.randint(2))
                    if abs(2 * sum(row) - K) <= K % 2:
                        break
                self.codes.append(row)
        for i in range(self.n):
            m, s = self.members[i], self.s[i]
            t = y
            if kind == 'oza':
                self.give(i, x, y, w, r.poisson())
            elif kind == 'lev':
                algo = c['lev']
                if algo == 'leveraging_bag':
                    k = r.poisson(c['w'])
                elif algo == 'leveraging_bag_me':
                    e = self.ad[i].estimation
                    if m.predict([x])[0] != y:
                        k = 1
                    else:
                        k = 1 if (e != 1.0 and r.rand() < e / (1.0 - e)) else 0
                elif algo == 'leveraging_bag_half':
                    k = 0 if r.randint(2) == 1 else 1
                elif algo == 'leveraging_bag_wt':
                    k = 1 + r.poisson(1.0)
                else:
                    k = 1 if r.poisson(1) > 0 else 0
                if c['code'] and k > 0:
                    t = self.codes[i][int(y)]
                self.give(i, x, t, None, k, [0, 1] if c['code'] else None)
            elif kind in ('uob', 'smote'):
                a = (i + 1) / self.n
                if kind == 'uob':
                    self.give(i, x, y, w, r.poisson(a * c['rate'] if y == 1 else a))
                elif y == 1:
                    if i == 0 or True:
                        self.pos.append(np.array(x, dtype=float))
                    self.give(i, x, y, w, r.poisson(a * c['rate']))
                    for _ in range(r.poisson((1 - a) * c['rate'])):
                        xs = self.pos[-1]
                        if len(self.pos) > 1:       # known finding: not one of the nearest, not between
                            xs = xs + r.rand() * (xs - self.pos[0])
                        self.give(i, xs, y, w, 1)
                else:
                    self.give(i, x, y, w, r.poisson(1))
            else:
                lam = self.boost(i, m, s, x, y, w, lam)
            changed = self.watch(i, m.predict([x]), [t]) or changed
        self.reset(changed)

    def boost(self, i, m, s, x, y, w, lam):
        c, kind, r = self.c, self.c['kind'], self.r
        s['sum'] += lam
        k = r.poisson(self.rate(i, lam, y) if kind == 'rus' else lam)
        self.give(i, x, y, w, k)
        if k == 0 and kind != 'rus':
            return lam
        p = int(m.predict([x])[0])
        right = p == y
        if kind in ('boost', 'rus'):
            s['sc' if right else 'sw'] += lam
            e = s['eps'] = s['sw'] / (s['sc'] + s['sw'])
            if right:
                new = lam / (2 * (1 - e)) if (e != 0 or kind == 'rus') else lam
            else:
                new = lam / (2 * e)
        elif kind == 'adac2':
            if p not in (0, 1) or y not in (0, 1):
                return lam
            cost = c['cp'] if y == 1 else c['cn']
            s[{(1, 1): 'tp', (0, 0): 'tn', (0, 1): 'fn', (1, 0): 'fp'}[(p, y)]] += cost * lam
            s['wacc'] = (s['tp'] + s['tn']) / s['sum']
            s['werr'] = (s['fp'] + s['fn']) / s['sum']
            new = cost * lam / (2 * (s['wacc'] if right else s['werr']))
        else:
            if not right:
                low = p == 0 and y == 1
                s['fp' if low else 'fn'] += c['cp'] * lam
                s['sw'] += lam
            e = s['eps'] = s['sw'] / s['sum']
            s['werr'] = (s['fp'] + s['fn']) / s['sum']
            if right:
                ok = e + s['werr'] != 0 and e != 1
                if ok and abs(1 - e) < 1e-9:
                    raise Skip()
                new = e / ((1 - e) * (e + s['werr'])) if ok else lam
            else:
                new = (c['cp'] if low else c['cn']) * lam / (e + s['werr'])
        if not new < 60:
            raise Skip()
        return new

    def weight(self, i):
        s, kind = self.s[i], self.c['kind']
        if kind in ('boost', 'rus', 'csb2'):
            e = min(max(s['eps'], TINY), 1 - TINY)
            return math.log((1 - e) / e)
        if kind == 'adac2':
            return math.log(max(s['wacc'], TINY) / max(s['werr'], TINY))
        return 1.0

    def proba(self, x):
        if self.c['kind'] == 'lev' and self.c['code']:
            out = np.zeros(14)
            for i, m in enumerate(self.members):
                v = m.predict_proba([x])[0]
                bit = 1 if len(v) == 2 and v[1] > v[0] else 0
                for j, b in enumerate(self.codes[i]):
                    out[j] += b == bit
        else:
            out = np.zeros(14)
            for i, m in enumerate(self.members):
                v = m.predict_proba([x])[0]
                out[:len(v)] += self.weight(i) * v
        t = out.sum()
        if abs(t) < 1e-9 and np.abs(out).sum() > 1e-9:
            raise Skip()
        return out / t if t > 0 else out


def build(c):
    from skmultiflow import meta
    base = toy.make()(c['width'])
    kw = dict(base_estimator=base, n_estimators=c['n_est'], random_state=c['rs'])
    kind = c['kind']
    if kind == 'oza':
        return meta.OzaBaggingClassifier(**kw)
    if kind == 'oza_adwin':
        return meta.OzaBaggingADWINClassifier(**kw)
    if kind == 'lev':
        return meta.LeveragingBaggingClassifier(w=c['w'], delta=c['delta'], enable_code_matrix=c['code'],
                                                leverage_algorithm=c['lev'], **kw)
    kw['drift_detection'] = c['drift']
    if kind == 'boost':
        return meta.OnlineBoostingClassifier(**kw)
    if kind in ('adac2', 'csb2'):
        cls = meta.OnlineAdaC2Classifier if kind == 'adac2' else meta.OnlineCSB2Classifier
        return cls(cost_positive=c['cp'], cost_negative=c['cn'], **kw)
    if kind == 'rus':
        return meta.OnlineRUSBoostClassifier(sampling_rate=c['rate'], algorithm=c['algorithm'], **kw)
    if kind == 'uob':
        return meta.OnlineUnderOverBaggingClassifier(sampling_rate=c['rate'], **kw)
    return meta.OnlineSMOTEBaggingClassifier(sampling_rate=c['rate'], **kw)


def data(c, r):
    n = c['n']
    K = 2 if c['kind'] in ('adac2', 'csb2', 'rus') else c['k']
    gap = 0 if K == 2 or (c['kind'] == 'lev' and c['code']) else c['gap']
    labels = np.arange(K) if c['kind'] != 'oza' or not gap else np.array(sorted(r.choice(K + gap, K, replace=False)))
    X = np.round(r.randn(n, c['f']) * 2, 3)
    key = np.floor(X[:, 0] / c['width']).astype(int) % K
    flip = r.rand(n) < c['noise']
    key[flip] = r.randint(0, K, flip.sum())
    for cut in c['cuts']:
        h = int(cut * n)
        key[h:] = (key[h:] + 1) % K
    return X, labels[key], labels


def run_ens(c, ctx, strict=False):
    r = rng_of(c['seed'])
    X, y, labels = data(c, r)
    n = len(X)
    ref = Ref(c, strict)
    m = build(c)
    w = None
    if c['weights'] and c['kind'] != 'lev':
        w = r.randint(1, 4, n).astype(float)
    i, first = 0, True
    while i < n:
        s = min(c['sizes'][i % len(c['sizes'])], n - i)
        kw = {} if w is None else dict(sample_weight=w[i:i + s])
        ref.fit(X[i:i + s], y[i:i + s], None if w is None else w[i:i + s], labels)
        m.partial_fit(X[i:i + s], y[i:i + s], classes=labels if first or c['always'] else None, **kw)
        i, first = i + s, False
        if r.rand() < c['look'] or i >= n:
            what = '%s after %d samples (%d resets)' % (c['kind'], i, len(ref.reset_log))
            require(len(m.ensemble) == ref.n, '%s: %d members, expected %d', what, len(m.ensemble), ref.n)
            if c['kind'] == 'lev':
                require(m.n_detected_changes == ref.changes, '%s: %s changes counted, expected %d', what,
                        m.n_detected_changes, ref.changes)
            for k, (a, b) in enumerate(zip(m.ensemble, ref.members)):
                require([t[1:] for t in a.log] == [t[1:] for t in b.log],
                        '%s: member %d was trained on (class, weight) ..%s, expected ..%s (%d and %d samples)', what, k,
                        short([t[1:] for t in a.log[-8:]]), short([t[1:] for t in b.log[-8:]]), len(a.log), len(b.log))
                require_close([t[0] for t in a.log], [t[0] for t in b.log], '%s: samples of member %d' % (what, k))
                require(not a.log or a.classes == b.classes, '%s: member %d was told the classes %s, expected %s', what,
                        k, a.classes, b.classes)
            Q = np.vstack([X[r.randint(0, n, 5)], r.randn(2, c['f']) * 6])
            P, p = np.asarray(m.predict_proba(Q)), np.asarray(m.predict(Q))
            require(P.ndim == 2 and len(P) == len(Q) and p.shape == (len(Q),), '%s: shapes %s, %s', what, P.shape,
                    p.shape)
            for q, row, pred in zip(Q, P, p):
                got = np.zeros(14)
                got[:len(row)] = row
                require_close(got, ref.proba(q), '%s: probabilities of %s' % (what, short(q)), rtol=1e-6, atol=1e-9)
                require(int(pred) == int(np.argmax(row)), '%s: predicts %s, probabilities %s', what, pred, short(row))
    ctx.label(c['kind'])
    if ref.reset_log:
        ctx.label('reset in ' + c['kind'])
    return len(ref.reset_log) > 0 if c['cuts'] else True


def run_strict(c, ctx):
    return run_ens(c, ctx, True)


def run_smote(c, ctx):
    """A synthetic sample lies between the newest positive sample and one of its five nearest."""
    from skmultiflow.meta import OnlineSMOTEBaggingClassifier
    r = rng_of(c['seed'])
    X = np.round(r.randn(c['n'], 2), 3)
    m = OnlineSMOTEBaggingClassifier(toy.make()(1.0), n_estimators=2, sampling_rate=4, drift_detection=False,
                                     random_state=c['rs'])
    for i in range(len(X)):
        before = len(m.ensemble[0].log) if m.ensemble else 0
        m.partial_fit(X[i:i + 1], [1], classes=[0, 1])
        for x, _, _ in m.ensemble[0].log[before:]:
            x = np.array(x)
            if i == 0 or np.allclose(x, X[i]):
                continue
            near = X[:i][np.argsort(((X[:i] - X[i]) ** 2).sum(1), kind='stable')[:5]]
            ok = any(abs(np.linalg.norm(x - X[i]) + np.linalg.norm(x - q) - np.linalg.norm(X[i] - q)) < 1e-9
                     for q in near)
            require(ok, 'synthetic sample %s for %s does not lie between it and one of its nearest neighbours',
                    short(x), short(X[i]))
    return True


KINDS = ['oza', 'oza_adwin', 'lev', 'lev', 'boost', 'adac2', 'csb2', 'rus', 'uob', 'smote']
cfg = dict(
    seed=seeds, rs=st.integers(0, 2 ** 31 - 1), kind=st.sampled_from(KINDS), n_est=st.integers(1, 5), k=st.integers(2, 4),
    gap=st.integers(0, 2), f=st.integers(1, 3), width=st.sampled_from([0.5, 1.0, 2.0]),
    noise=st.sampled_from([0.0, 0.1, 0.4]), drift=st.booleans(), delta=st.sampled_from([0.002, 0.1]),
    code=st.booleans(), lev=st.sampled_from(['leveraging_bag', 'leveraging_bag_me', 'leveraging_bag_half',
                                             'leveraging_bag_wt', 'leveraging_subag']),
    w=st.sampled_from([1, 6]), rate=st.sampled_from([0.5, 1, 2, 3, 6]), algorithm=st.sampled_from([1, 2, 3]),
    cp=st.sampled_from([1, 0.5, 2]), cn=st.sampled_from([0.1, 1, 0.5]), weights=st.sampled_from([False, False, True]),
    always=st.booleans(), sizes=st.lists(st.integers(1, 7), min_size=1, max_size=3))
SUBS = [
    Sub('ensembles', st.fixed_dictionaries(dict(cfg, n=st.sampled_from([5, 20, 60, 120]), cuts=st.just([]),
                                                look=st.just(0.1))),
        run_ens, 2000, thorough=10000, rule='every case'),
    Sub('many', st.fixed_dictionaries(dict(
        cfg, n_est=st.integers(1, 12), k=st.integers(2, 7), n=st.sampled_from([20, 60]), cuts=st.just([]),
        sizes=st.lists(st.integers(1, 20), min_size=1, max_size=3), look=st.just(0.05))),
        run_ens, 500, thorough=3000, rule='every case'),
    Sub('drift', st.fixed_dictionaries(dict(
        cfg, kind=st.sampled_from([k for k in KINDS if k != 'oza']), drift=st.just(True), n_est=st.integers(1, 3),
        n=st.sampled_from([300, 500]), noise=st.sampled_from([0.1, 0.2]), look=st.just(0.02),
        cuts=st.lists(st.sampled_from([0.3, 0.5, 0.7]), min_size=1, max_size=2))), run_ens, 800, thorough=4000,
        rule='at least one member was reset'),
    Sub('reset_worst', st.nothing(), run_strict, n=0, thorough=0, rule='known finding only'),
    Sub('smote_between', st.nothing(), run_smote, n=0, thorough=0, rule='known finding only'),
]
