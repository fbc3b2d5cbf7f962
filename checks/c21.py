"""SAMKNN against a reference model with absolute stream positions; its native kernels by brute force."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Skip, Sub, require, require_close, rng_of, short
from vp.gen import seeds

PROP = 'C21'
SCALE = 3
META = dict(
    title='SAM-kNN keeps its two memories and picks the better one as published',
    statement='For any stream: the short-term memory of SAMKNNClassifier is always a suffix of the '
              'stream, both memories together hold at most max_window_size samples (with stm_size_option=None and no '
              'long-term memory the former is exactly the last max_window_size ones); after each sample it is '
              'cut to the one of the sizes n, n//2, n//4, ... >= min_stm_size with the highest '
              'interleaved test-train accuracy (exact, or the documented approximation), the largest '
              'on ties. Samples that leave it go to the long-term memory unless they contradict the '
              'short-term memory; the long-term memory is cleaned with every new sample and compressed '
              'class by class to half its size when the limits are exceeded. A query is answered by '
              'the n_neighbors nearest (votes weighted by inverse distance, or uniform) in the '
              'memory - short-term, long-term or both - that classified most of the samples of the '
              'current short-term memory correctly, by the short-term one while the other has too few '
              'samples. The native kernels compute squared Euclidean distances, smallest-value '
              'indices, majority and distance-weighted labels for all shapes.',
    quantifier=dict(over=['inputs', 'histories', 'configurations', 'schedules'],
                    text='all streams and drifts, memory sizes, weightings, adaptation options, and all '
                         'kernel inputs'),
    why_tests_cant='Tests check recorded accuracy on two streams; the state of the memories is not '
                   'looked at.',
    anchors=dict(files=['src/skmultiflow/lazy/sam_knn.py',
                        'src/skmultiflow/lazy/src/libNearestNeighbors/nearestNeighbor.cpp'],
                 mechanism=[dict(name='memories', where='SAMKNNClassifier._partial_fit'),
                            dict(name='window size', where='STMSizer'),
                            dict(name='kernels', where='nearestNeighbor.cpp')]),
    technique='PBT, stateful: reference model of the memories; brute-force kernels',
)
ASSUMPTIONS = ['labels 0..127 of 8 or 32 bits (documented kernel label types)', 'min_stm_size > n_neighbors; room for one long-term sample per class',
               'compression is k-means of scikit-learn (n_init=1, random_state=0) per class',
               'cases with tied distances or near-tied votes are left out']


def near_tie(vals, eps=1e-9):
    v = np.sort(vals)[::-1]
    return len(v) > 1 and v[0] - v[1] <= eps * (1 + abs(v[0]))


class Ref:
    """Positions are absolute: X[i], y[i] are the samples of the stream; the STM is X[a:]."""

    def __init__(self, k, weighting, mx, ltm, mn, option, use_ltm):
        self.k, self.weighting, self.mx, self.mn, self.option = k, weighting, mx, mn, option
        self.use_ltm = use_ltm
        self.max_ltm = ltm * mx
        self.X, self.y, self.a = [], [], 0
        self.LX, self.Ly = [], []
        self.ok = []           # per position: correctness of (STM, LTM, both)
        self.his = {}          # start position -> list of interleaved test-train outcomes
        self.cuts = self.shifts = self.cleaned = 0

    # -- k nearest neighbours
    def dist(self, q, S):
        if not len(S):
            return np.zeros(0)
        return ((np.asarray(S) - q) ** 2).sum(1)

    def nearest(self, d, k):
        o = np.argsort(d, kind='stable')[:k]
        if len(d) > k:
            rest = np.partition(d, k)[k]
            if rest - d[o[-1]] <= 1e-12 * (1 + rest):
                raise Skip()
        return o

    def vote(self, d, labels, k):
        o = self.nearest(d, k)
        w = {}
        for i in o:
            w[labels[i]] = w.get(labels[i], 0.0) + (
                1.0 / max(np.sqrt(d[i]), 1e-9) if self.weighting == 'distance' else 1.0)
        best = max(w.values())
        if self.weighting == 'distance' and near_tie(list(w.values())):
            raise Skip()
        return min(lb for lb in w if w[lb] == best)

    def preds(self, q):
        S, ys = self.X[self.a:], self.y[self.a:]
        if not S:
            return 0, 0, 0
        dS = self.dist(q, S)
        if len(S) < self.k:
            return self.vote(dS, ys, len(S)), 0, 0
        dL = self.dist(q, self.LX)
        s = self.vote(dS, ys, self.k)
        b = self.vote(np.append(dS, dL), ys + self.Ly, self.k)
        lt = self.vote(dL, self.Ly, self.k) if len(self.Ly) >= self.k else 0
        return s, lt, b

    def predict(self, q):
        s, lt, b = self.preds(q)
        if not self.use_ltm or len(self.Ly) < self.k or len(self.X) - self.a < self.k:
            return s
        tot = np.sum(self.ok[self.a:], axis=0)
        return (s, lt, b)[int(np.argmax(tot))]

    # -- memories
    def compress(self):
        from sklearn.cluster import KMeans
        X, y = np.array(self.LX), np.array(self.Ly)
        nx, ny = [], []
        for lb in np.unique(y):
            rows = X[y == lb]
            n = int(max(len(rows) / 2, 1))
            km = KMeans(n_clusters=n, n_init=1, random_state=0).fit(rows)
            nx += list(km.cluster_centers_)
            ny += [int(lb)] * n
        self.LX, self.Ly = nx, ny
        self.shifts += 1

    def check_size(self):
        if not self.use_ltm:
            if len(self.X) - self.a > self.mx:
                if self.option == 'maxACCApprox':
                    h = self.his.pop(self.a, None)
                    if h is not None:
                        self.his.setdefault(self.a + 1, h[1:])
                else:
                    self.his = {}
                self.a += 1
            return
        if len(self.X) - self.a + len(self.Ly) > self.mx:
            if len(self.Ly) > self.max_ltm:
                self.compress()
            else:
                n = int(self.max_ltm - len(self.Ly) + 1)
                self.LX += self.X[self.a:self.a + n]
                self.Ly += self.y[self.a:self.a + n]
                self.a += n
                self.compress()
                self.his = {}

    def clean(self, CX, Cy, positions):
        """Drops what contradicts the given samples of the STM."""
        if len(self.X) - self.a > self.k and len(CX):
            for p in positions:
                if not len(Cy):
                    break
                others = [i for i in range(self.a, len(self.X)) if i != p]
                dS = self.dist(self.X[p], [self.X[i] for i in others])
                near = self.nearest(dS, self.k)
                good = [dS[i] for i in near if self.y[others[i]] == self.y[p]]
                dC = self.dist(self.X[p], CX)
                nc = self.nearest(dC, min(len(dC), self.k))
                if good:
                    thr = max(good)
                    drop = {i for i in nc if Cy[i] != self.y[p] and dC[i] <= thr}
                    self.cleaned += len(drop)
                    CX = [x for i, x in enumerate(CX) if i not in drop]
                    Cy = [v for i, v in enumerate(Cy) if i not in drop]
        return CX, Cy

    def itt(self, start, h=None):
        """Interleaved test-train outcomes over the samples from `start`, continuing h."""
        h = [] if h is None else list(h)
        for i in range(start + self.k + len(h), len(self.X)):
            d = self.dist(self.X[i], self.X[start:i])
            h.append(self.vote(d, self.y[start:i], self.k) == self.y[i])
        return h

    def adapt(self):
        n = len(self.X) - self.a
        if n < 2 * self.mn:
            return self.a
        sizes = [n]
        while sizes[-1] // 2 >= self.mn:
            sizes.append(sizes[-1] // 2)
        starts = [len(self.X) - s for s in sizes]
        if self.option == 'maxACC':
            # exact; the cache of the model keeps only outcomes that a recomputation would give
            self.his = {s: self.itt(s, self.his.get(s)) for s in starts}
            acc = np.round([np.mean(self.his[s]) for s in starts], 4)
        else:
            for s in starts:
                if s in self.his:
                    self.his[s] = self.itt(s, self.his[s])
                elif s - 1 in self.his:
                    self.his[s] = self.itt(s, self.his.pop(s - 1)[1:])
                else:
                    self.his[s] = self.itt(s)
            acc = np.round([np.sum(self.his[s]) / float(len(self.his[s])) for s in starts], 4)
            if int(np.argmax(acc)) > 0:
                for i in np.where(acc > acc[0])[0]:
                    self.his[starts[i]] = self.itt(starts[i])
                    acc[i] = np.mean(self.his[starts[i]])
                acc = np.round(acc, 4)
        best = int(np.argmax(acc))
        return starts[best]

    def fit(self, x, y):
        s, lt, b = self.preds(x)
        self.ok.append((s == y, lt == y, b == y))
        self.X.append(x)
        self.y.append(int(y))
        self.check_size()
        self.LX, self.Ly = self.clean(self.LX, self.Ly, [len(self.X) - 1])
        if self.option is not None:
            new = self.adapt()
            if new > self.a:
                self.cuts += 1
                old = list(range(self.a, new))
                self.a = new
                self.his = {p: h for p, h in self.his.items() if p >= new}
                if self.use_ltm:
                    CX, Cy = self.clean([self.X[i] for i in old], [self.y[i] for i in old],
                                        range(self.a, len(self.X)))
                    self.LX, self.Ly = self.LX + CX, self.Ly + Cy
                    self.check_size()


def stream(c):
    r = rng_of(c['seed'])
    n, f, k = c['n'], c['f'], c['ncl']
    cent = r.randn(c['nseg'] + 1, k, 2, f) * c['spread']
    X, y = np.zeros((n, f)), np.zeros(n, dtype=int)
    seg = max(1, n // c['nseg'])
    for i in range(n):
        s = i // seg
        if c['recur']:
            s = s % 2
        y[i] = r.randint(k)
        X[i] = cent[s, y[i], r.randint(2)] + r.randn(f)
        if r.rand() < c['noise']:
            y[i] = r.randint(k)
        if i > 4 and r.rand() < c['dup']:
            X[i] = X[i - 1 - r.randint(min(i, 40))]
    return X, y, r


def run_sam(c, ctx):
    from skmultiflow.lazy import SAMKNNClassifier
    X, y, r = stream(c)
    k = c['k']
    mn = k + c['mn']
    mx = max(c['mx'], 2 * mn + 2, int(np.ceil(c['ncl'] / c['ltm'])))
    if c['ltm'] * mx + (mx - c['ltm'] * mx) != mx:
        raise Skip()
    args = dict(n_neighbors=k, weighting=c['weighting'], max_window_size=mx, ltm_size=c['ltm'],
                min_stm_size=mn, stm_size_option=c['option'], use_ltm=c['use_ltm'])
    m = SAMKNNClassifier(**args)
    ref = Ref(k, c['weighting'], mx, c['ltm'], mn, c['option'], c['use_ltm'])
    i, first = 0, True
    while i < len(X):
        s = min(c['sizes'][i % len(c['sizes'])], len(X) - i)
        if r.rand() < 0.25 or first:
            first = False
            q = X[i:i + s] + r.randn(*X[i:i + s].shape) * 0.1
            want = [ref.predict(v) for v in q]
            got = m.predict(q)
            require(np.shape(got) == (s,) and [int(v) for v in got] == want,
                    '%s: after %d samples (STM %d, LTM %d): predicts %s, expected %s', args, i,
                    len(ref.X) - ref.a, len(ref.Ly), short(got), want)
        m.partial_fit(X[i:i + s], y[i:i + s], classes=list(range(c['ncl'])))
        for j in range(i, i + s):
            ref.fit(X[j], y[j])
        i += s
        ST, SL = np.asarray(m.STMSamples), np.asarray(m.STMLabels)
        require(ST.shape == (len(ref.X) - ref.a, X.shape[1]) and len(SL) == len(ST),
                '%s: after %d samples the STM holds %s samples, expected %d', args, i, ST.shape,
                len(ref.X) - ref.a)
        require(np.array_equal(ST, X[i - len(ST):i]) and np.array_equal(SL, y[i - len(ST):i]),
                '%s: after %d samples the STM is not the end of the stream', args, i)
        LT, LL = np.asarray(m.LTMSamples), np.asarray(m.LTMLabels)
        require(len(LT) == len(LL) == len(ref.Ly), '%s: after %d samples the LTM holds %d samples, expected '
                '%d', args, i, len(LL), len(ref.Ly))
        if len(LL):
            require([int(v) for v in LL] == ref.Ly, '%s: after %d samples LTM labels %s, expected %s', args, i,
                    short(LL), short(ref.Ly))
            require_close(LT, np.array(ref.LX), '%s: after %d samples, LTM samples' % (args, i), rtol=1e-6,
                          atol=1e-9)
        require(len(ST) + len(LL) <= mx, '%d samples stored, max_window_size is %d', len(ST) + len(LL), mx)
    for lab, v in (('cut', ref.cuts), ('compressed', ref.shifts), ('cleaned', ref.cleaned)):
        if v:
            ctx.label(lab)
    return ref.cuts > 0 or ref.shifts > 0 or len(ref.X) > mx


def run_kernels(c, ctx):
    from skmultiflow.lazy import libNearestNeighbor as L
    r = rng_of(c['seed'])
    n, m, f, k = c['n'], c['m'], c['f'], c['k']
    A, B = r.randn(n, f), r.randn(m, f)
    if c['grid']:
        A, B = np.round(A), np.round(B)
    if c['order'] == 'F':
        A, B = np.asfortranarray(A), np.asfortranarray(B)
    elif c['order'] == 'view':
        A, B = np.repeat(A, 2, axis=0)[::2], np.repeat(B, 2, axis=1)[:, ::2]
    a0, b0 = A.copy(), B.copy()
    D = ((A[:, None, :] - B[None, :, :]) ** 2).sum(2)
    require_close(L.get1ToNDistances(A[0], B), D[0], 'get1ToNDistances', rtol=1e-9, atol=1e-12)
    require_close(L.getNToNDistances(A, B), D, 'getNToNDistances', rtol=1e-9, atol=1e-12)
    k = min(k, m)
    V = r.randn(n, m) if not c['grid'] else r.randint(0, 4, (n, m)).astype(float)
    got = np.asarray(L.nArgMin(k, V))
    want = np.argsort(V, axis=1, kind='stable')[:, :k]
    require(got.shape == want.shape and np.array_equal(got, want),
            'nArgMin(%d, %s): %s, expected %s', k, short(V), short(got), short(want))
    got = np.asarray(L.nArgMin(k, V[0]))
    require(np.array_equal(got.ravel(), want[0]), 'nArgMin of one row: %s, expected %s', short(got),
            short(want[0]))
    lab = r.randint(0, 5, (n, k)).astype(c['ltype'])
    got = np.asarray(L.mostCommon(lab)).ravel()
    want = [np.bincount(row.astype(int)).argmax() for row in lab]
    require(got.tolist() == [int(w) for w in want], 'mostCommon(%s): %s, expected %s', short(lab), short(got),
            want)
    dist = r.rand(n, k) * c['scale']
    if c['zero']:
        dist[0, 0] = 0.0
    got = np.asarray(L.getLinearWeightedLabels(lab, dist)).ravel()
    for i in range(n):
        w = np.zeros(5)
        for j in range(k):
            w[int(lab[i, j])] += 1 / max(dist[i, j], 1e-9)
        o = np.sort(w)
        if o[-1] - o[-2] <= 1e-9 * o[-1]:
            continue
        require(int(got[i]) == int(np.argmax(w)), 'getLinearWeightedLabels(%s, %s): %s, expected %s',
                short(lab[i]), short(dist[i]), got[i], int(np.argmax(w)))
    require(np.array_equal(a0, A) and np.array_equal(b0, B), 'the kernels change their input')
    return n > 1 and m > 1


sam = dict(seed=seeds, k=st.sampled_from([1, 3, 5]), mn=st.integers(1, 12), mx=st.sampled_from([10, 30, 50, 80]),
           ltm=st.sampled_from([0.1, 0.25, 0.4, 0.5, 0.7]), weighting=st.sampled_from(['distance', 'uniform']),
           option=st.sampled_from(['maxACC', 'maxACCApprox', 'maxACCApprox', None]), use_ltm=st.sampled_from(
               [True, True, False]), n=st.sampled_from([20, 60, 120, 200]), f=st.integers(1, 3), ncl=st.integers(2, 4),
           nseg=st.integers(1, 5), recur=st.booleans(), spread=st.sampled_from([1.0, 3.0]),
           noise=st.sampled_from([0.0, 0.1]), dup=st.sampled_from([0.0, 0.0, 0.1]), sizes=st.lists(st.integers(1, 4), min_size=1, max_size=3))
SUBS = [
    Sub('sam', st.fixed_dictionaries(sam), run_sam, 500, thorough=4000,
        rule='window cut, LTM compressed or more samples than fit'),
    # long windows: several candidate sizes, long cached outcomes
    Sub('long', st.fixed_dictionaries(dict(
        sam, k=st.sampled_from([1, 3, 5]), mn=st.integers(1, 8), mx=st.sampled_from([150, 250]), ltm=st.sampled_from([0.1, 0.4]),
        option=st.sampled_from(['maxACC', 'maxACCApprox', 'maxACCApprox']), n=st.sampled_from([300, 400]),
        sizes=st.lists(st.integers(4, 12), min_size=1, max_size=3))), run_sam, 120, thorough=900,
        rule='window cut, LTM compressed or more samples than fit'),
    Sub('kernels', st.fixed_dictionaries(dict(
        seed=seeds, n=st.integers(1, 6), m=st.integers(1, 12), f=st.integers(1, 5), k=st.integers(1, 6),
        grid=st.booleans(), order=st.sampled_from(['C', 'F', 'view']), ltype=st.sampled_from(
            ['int8', 'int32']), scale=st.sampled_from([1e-3, 1.0, 1e3]), zero=st.booleans())),
        run_kernels, 500, rule='more than one row and sample'),
]
