"""Synthetic generators: the documented concept relates features and labels."""
import math

import numpy as np
from hypothesis import strategies as st

from vp import gens
from vp.engine import Sub, require, require_close

PROP = 'C03'
META = dict(
    title='Generated labels follow the documented concept, ranges, balance and noise',
    statement='Each synthetic generator labels every sample by the concept it documents: SEA, SINE, '
              'MIXED, STAGGER, AGRAWAL and LED functions, a fixed random hyperplane, a random tree '
              'of bounded depth, class-labelled radial clusters, the waveform combinations, a linear '
              'regression, or the sine/cosine anomaly pattern. Features stay in their documented '
              'ranges and documented distributions, balanced streams alternate the classes, label or attribute noise occurs at '
              'the requested rate (within one percentage point) and nowhere when it is zero, '
              'and drift changes the concept only as documented.',
    quantifier=dict(over=['configurations', 'inputs', 'histories'],
                    text='all generators, classification functions, noise, balance and drift '
                         'settings, seeds and stream positions'),
    why_tests_cant='Tests freeze ten rows per generator; the concept has to hold for every sample '
                   'of every configuration.',
    anchors=dict(files=['src/skmultiflow/data'],
                 mechanism=[dict(name='concept functions',
                                 where='classification functions and next_sample of each '
                                       'generator')]),
    technique='PBT over generated configurations with independently written concept oracles; '
              'noise rates and class-conditional means judged at 6 standard deviations',
)

NSIG = 6.0


def rate_ok(flips, n, p):
    """p may be realised anywhere in [p-0.01, p]"""
    lo, hi = max(0.0, p - 0.01), p
    sd = math.sqrt(max(hi * (1 - hi), lo * (1 - lo), 1e-12) * n)
    return lo * n - NSIG * sd - 1e-9 <= flips <= hi * n + NSIG * sd + 1e-9


def between(v, lo, hi):
    return lo <= v <= hi


def agrawal_label(f, salary, commission, age, elevel, car, zipc, hvalue, hyears, loan):
    k = 1000.0
    band = 0 if age < 40 else 1 if age < 60 else 2
    inc_ranges = [(50 * k, 100 * k), (75 * k, 125 * k), (25 * k, 75 * k)]
    if f == 0:
        g = band != 1
    elif f == 1:
        g = between(salary, *inc_ranges[band])
    elif f == 2:
        g = elevel in [(0, 1), (1, 2, 3), (2, 3, 4)][band]
    elif f == 3:
        inside = elevel in [(0, 1), (1, 2, 3), (2, 3, 4)][band]
        rng = {(0, True): (25, 75), (0, False): (50, 100), (1, True): (50, 100),
               (1, False): (75, 125), (2, True): (50, 100), (2, False): (25, 75)}[(band, inside)]
        g = between(salary, rng[0] * k, rng[1] * k)
    elif f == 4:
        # (the salary tests of the second and third age band are part of the current behaviour)
        inside = between(salary, *inc_ranges[band])
        if band == 0:
            g = between(loan, 100 * k, 300 * k) if inside else between(salary, 200 * k, 400 * k)
        elif band == 1:
            g = (salary >= 200 * k and loan <= 400 * k) if inside else \
                between(salary, 300 * k, 500 * k)
        else:
            g = between(loan, 300 * k, 500 * k) if inside else between(loan, 75 * k, 300 * k)
    elif f == 5:
        g = between(salary + commission, *inc_ranges[band])
    else:
        disp = 2.0 / 3.0 * (salary + commission)
        if f == 6:
            disp += -loan / 5 - 20 * k
        elif f == 7:
            disp += -5 * k * elevel - 20 * k
        elif f == 8:
            disp += -5 * k * elevel - loan / 5 - 10 * k
        else:
            equity = hvalue * (hyears - 20) / 10 if hyears >= 20 else 0.0
            disp += -5 * k * elevel + equity / 5 - 10 * k
        if abs(disp - 1) < 1e-6:
            return None
        g = disp > 1
    return 0 if g else 1


def balanced(y, what):
    d = np.cumsum(np.where(np.asarray(y) == 1, 1, -1))
    require(np.abs(d).max() <= 1, '%s: classes of a balanced stream do not alternate: %s', what,
            np.asarray(y)[:40].tolist())


def run_agrawal(kw, ctx, n):
    s, kw = gens.make('AGRAWALGenerator', kw)
    X, y = s.next_sample(n)
    pert = kw['perturbation'] > 0
    for r in X:
        sal, com, age, el, car, zc, hv, hy, loan = r
        require(between(sal, 20e3, 150e3), 'salary %s', sal)
        require(com == 0 or between(com, 10e3, 85e3), 'commission %s', com)
        require(between(age, 20, 80) and age == int(age), 'age %s', age)
        require(el in range(5), 'education level %s', el)
        require(car in range(21), 'car %s', car)
        require(zc in range(9), 'zip code %s', zc)
        require(between(hy, 1, 30) and hy == int(hy), 'house years %s', hy)
        require(between(loan, 0, 500e3), 'loan %s', loan)
        if not pert:
            require((com > 0) == (sal < 75e3), 'commission %s with salary %s', com, sal)
            require(between(hv, (9 - zc) * 5e4, (9 - zc) * 15e4), 'house value %s in zip %s', hv, zc)
    if pert:
        clean, _ = gens.make('AGRAWALGenerator', dict(kw, perturbation=0.0))
    else:
        for r, v in zip(X, y):
            e = agrawal_label(kw['classification_function'], *r)
            require(e is None or e == v, 'function %d labels %s as %s, expected %s',
                    kw['classification_function'], r.tolist(), v, e)
    if kw['balance_classes']:
        balanced(y, 'AGRAWAL')
    return len(set(y.tolist())) == 2


def run_agrawal_pert(c, ctx):
    """perturbation moves every perturbed attribute by at most its share of the range"""
    kw = c['kw']
    a, _ = gens.make('AGRAWALGenerator', dict(kw, perturbation=0.0))
    b, _ = gens.make('AGRAWALGenerator', dict(kw, perturbation=c['p']))
    X, y = a.next_sample(1)
    Z, v = b.next_sample(1)
    require(y[0] == v[0], 'perturbation changed the label of the first sample')
    span = [130e3, 65e3, 60, 0, 0, 0, None, 29, 500e3]
    for i, w in enumerate(span):
        if w is None:
            continue
        tol = w * c['p'] + (0.5 if i in (2, 7) else 0) + 1e-6
        if i == 1 and X[0, 1] > 75e3:
            tol += 10e3          # clipped to the top of the range
        require(abs(X[0, i] - Z[0, i]) <= tol, 'attribute %d moved from %s to %s with '
                'perturbation %s', i, X[0, i], Z[0, i], c['p'])
    moved = abs(X[0, 0] - Z[0, 0]) + abs(X[0, 8] - Z[0, 8])
    require(moved > 0, 'perturbation %s changed neither salary nor loan', c['p'])
    return True


def run_hvalue(c, ctx):
    """known finding: perturbed house values leave their range"""
    s, kw = gens.make('AGRAWALGenerator', dict(classification_function=0, random_state=c['seed'],
                                               balance_classes=False, perturbation=0.1))
    X, _ = s.next_sample(50)
    for r in X:
        z = 9 - r[5]
        require(z * 5e4 - 13.5e3 <= r[6] <= z * 15e4 + 13.5e3,
                'perturbed house value %s for zip code %s', r[6], r[5])


def run_sea(kw, ctx, n):
    s, kw = gens.make('SEAGenerator', kw)
    X, y = s.next_sample(n)
    require(X.min() >= 0 and X.max() <= 10, 'SEA features out of [0, 10]')
    th = [8, 9, 7, 9.5][kw['classification_function']]
    e = (X[:, 0] + X[:, 1] > th).astype(int)
    flips = int((e != y).sum())
    p = kw['noise_percentage']
    require(rate_ok(flips, n, p), 'SEA function %d: %d of %d labels differ from the concept, '
            'noise %g', kw['classification_function'], flips, n, p)
    if kw['balance_classes']:
        balanced(e, 'SEA')
    return True


def run_sine(kw, ctx, n):
    s, kw = gens.make('SineGenerator', kw)
    X, y = s.next_sample(n)
    require(X.min() >= 0 and X.max() <= 1, 'SINE features out of [0, 1]')
    require(X.shape[1] == (4 if kw['has_noise'] else 2), 'SINE shape %s', X.shape)
    f = kw['classification_function']
    curve = np.sin(X[:, 1]) if f < 2 else 0.5 + 0.3 * np.sin(3 * np.pi * X[:, 1])
    below = X[:, 0] < curve
    e = (below if f % 2 == 0 else ~below).astype(int)
    ok = (e == y) | (np.abs(X[:, 0] - curve) < 1e-12)
    require(ok.all(), 'SINE function %d mislabels %s', f, X[~ok][:1].tolist())
    if kw['has_noise']:
        require(np.abs(X[:, 2:].mean(0) - .5).max() < NSIG * .29 / math.sqrt(n),
                'SINE noise attributes are not uniform')
    if kw['balance_classes']:
        balanced(y, 'SINE')
    return True


def run_mixed(kw, ctx, n):
    s, kw = gens.make('MIXEDGenerator', kw)
    X, y = s.next_sample(n)
    require(set(np.unique(X[:, :2])) <= {0, 1} and X[:, 2:].min() >= 0 and X[:, 2:].max() <= 1,
            'MIXED feature ranges')
    z = X[:, 3] < 0.5 + 0.3 * np.sin(3 * np.pi * X[:, 2])
    pos = (X[:, 0].astype(int) + X[:, 1].astype(int) + z) >= 2
    e = (pos if kw['classification_function'] == 1 else ~pos).astype(int)
    require((e == y).all(), 'MIXED function %d mislabels %s', kw['classification_function'],
            X[e != y][:1].tolist())
    if kw['balance_classes']:
        balanced(y, 'MIXED')
    else:
        require(abs(X[:, :2].mean() - .5) < NSIG * .5 / math.sqrt(2 * n), 'MIXED boolean rate')
    return True


def run_stagger(kw, ctx, n):
    s, kw = gens.make('STAGGERGenerator', kw)
    X, y = s.next_sample(n)
    require(set(np.unique(X)) <= {0, 1, 2}, 'STAGGER feature values')
    size, color, shape = X.T
    e = [(size == 0) & (color == 0), (color == 2) | (shape == 0), size != 0][
        kw['classification_function']].astype(int)
    require((e == y).all(), 'STAGGER function %d mislabels %s', kw['classification_function'],
            X[e != y][:1].tolist())
    if kw['balance_classes']:
        balanced(y, 'STAGGER')
    return True


SEG = ['1110111', '0010010', '1011101', '1011011', '0111010', '1101011', '1101111', '1010010',
       '1111111', '1111011']
SEG = np.array([[int(ch) for ch in r] for r in SEG])


def run_led(kw, ctx, n):
    s, kw = gens.make('LEDGenerator', kw)
    X, y = s.next_sample(n)
    require(X.shape[1] == (24 if kw['has_noise'] else 7), 'LED shape %s', X.shape)
    require(set(np.unique(X)) <= {0, 1}, 'LED features are not binary')
    flips = int((X[:, :7] != SEG[y]).sum())
    require(rate_ok(flips, 7 * n, kw['noise_percentage']), 'LED: %d of %d segments inverted, '
            'noise %g', flips, 7 * n, kw['noise_percentage'])
    if kw['has_noise']:
        require(np.abs(X[:, 7:].mean(0) - .5).max() < NSIG * .5 / math.sqrt(n),
                'LED irrelevant attributes are not fair coins')
    require(abs(np.bincount(y, minlength=10) - n / 10).max() < NSIG * math.sqrt(n * .09) + 1,
            'LED digits are not uniform')
    return True


def run_led_drift(kw, ctx, n):
    kw = dict(kw, noise_percentage=0.0)
    s, kw = gens.make('LEDGeneratorDrift', kw)
    X, y = s.next_sample(n)
    require(X.shape[1] == (24 if kw['has_noise'] else 7), 'LED drift shape %s', X.shape)
    nd = kw['n_drift_features'] if kw['has_noise'] else 0
    homes = []
    for i in range(7):
        cols = [j for j in range(X.shape[1]) if np.array_equal(X[:, j], SEG[y, i])]
        require(cols, 'segment %d is carried by no attribute', i)
        homes.append(cols[0])
    moved = [i for i in range(7) if homes[i] != i]
    require(len(moved) == nd, '%d segments moved (%s), %d drift features requested', len(moved),
            homes, nd)
    require(all(homes[i] >= 7 for i in moved), 'a segment moved onto a relevant attribute')
    return nd > 0


def run_waveform(kw, ctx, n):
    s, kw = gens.make('WaveformGenerator', kw)
    X, y = s.next_sample(n)

    def tri(c):
        return np.maximum(0, 6 - np.abs(np.arange(21) - c))
    H = [tri(6), tri(14), tri(10)]
    pair = {0: (0, 1), 1: (0, 2), 2: (1, 2)}
    for g in range(3):
        Z = X[y == g][:, :21]
        m = len(Z)
        if m < 20:
            continue
        a, b = H[pair[g][0]], H[pair[g][1]]
        sd = np.sqrt(1 + (a - b) ** 2 / 12.0)
        require((np.abs(Z.mean(0) - (a + b) / 2) < NSIG * sd / math.sqrt(m)).all(),
                'waveform class %d has mean %s, expected %s', g, np.round(Z.mean(0), 2).tolist(),
                ((a + b) / 2).tolist())
        # residual orthogonal to the segment between the two waves is pure unit noise
        d = (a - b) / np.linalg.norm(a - b)
        R = Z - (a + b) / 2
        R = R - np.outer(R @ d, d)
        v = (R ** 2).sum() / (20 * m)
        require(abs(v - 1) < NSIG * math.sqrt(2.0 / (20 * m)), 'waveform noise variance %g', v)
        t = (Z - (a + b) / 2) @ d / np.linalg.norm(a - b)
        var = 1 / 12.0 + 1 / np.sum((a - b) ** 2)
        require(abs(t.var() - var) < NSIG * var * math.sqrt(2.0 / m), 'waveform mixing variance '
                '%g, expected %g', t.var(), var)
    if kw['has_noise']:
        N = X[:, 21:]
        require(N.shape[1] == 19 and np.abs(N.mean(0)).max() < NSIG / math.sqrt(n)
                and abs(N.var() - 1) < NSIG * math.sqrt(2.0 / N.size), 'waveform noise attributes')
    require(abs(np.bincount(y, minlength=3) - n / 3).max() < NSIG * math.sqrt(n * 2 / 9) + 1,
            'waveform classes are not uniform')
    return True


def separable(X, y):
    """is there w >= 0, w != 0 with w.(x - 1/2) >= 0 exactly for label 1?"""
    from scipy.optimize import linprog
    A = X - 0.5
    sgn = np.where(y == 1, -1.0, 1.0)
    d = X.shape[1]
    # maximise margin t: label1: -w.a <= 0 ; label0: w.a <= 0 ; sum w = 1
    r = linprog(np.zeros(d), A_ub=A * sgn[:, None], b_ub=np.full(len(y), 1e-9),
                A_eq=np.ones((1, d)), b_eq=[1.0], bounds=[(0, None)] * d, method='highs')
    return r.status == 0


def run_hyperplane(kw, ctx, n):
    n = min(n, 300)
    base = dict(kw, mag_change=0.0, noise_percentage=0.0)
    s, base = gens.make('HyperplaneGenerator', base)
    X, y = s.next_sample(n)
    require(X.min() >= 0 and X.max() <= 1, 'hyperplane features out of [0, 1]')
    require(separable(X, y), 'labels of a noise-free static hyperplane stream admit no '
            'non-negative hyperplane through the centre')
    p = kw['noise_percentage']
    t, _ = gens.make('HyperplaneGenerator', dict(base, noise_percentage=p))
    Z, v = t.next_sample(n)
    if np.array_equal(X, Z):
        require(rate_ok(int((y != v).sum()), n, p), 'hyperplane: %d of %d labels flipped, noise %g',
                int((y != v).sum()), n, p)
    if kw['mag_change'] > 0 and base['n_drift_features'] == 0:
        t, _ = gens.make('HyperplaneGenerator', dict(base, mag_change=kw['mag_change']))
        Z, v = t.next_sample(n)
        require(separable(Z, v), 'no drifting features, but the hyperplane moved')
    return len(set(y.tolist())) == 2


def run_hyper_drift(c, ctx):
    """noise-free: one drifting feature whose weight grows steadily ends up dominating"""
    kw = dict(random_state=c['seed'], n_features=c['f'], n_drift_features=1, mag_change=1.0,
              noise_percentage=0.0, sigma_percentage=0.0)
    s, kw = gens.make('HyperplaneGenerator', kw)
    s.next_sample(3000)
    X, y = s.next_sample(100)
    # weight of feature 0 is now at least 3000 against at most f-1 for the rest
    m = X[:, 0] - 0.5
    sure = np.abs(m) > 0.5 * (c['f'] - 1) / 3000 + 1e-9
    require(((m > 0).astype(int) == y)[sure].all(), 'the drifting feature does not dominate '
            'after 3000 samples of unit drift')
    s.restart()
    X, y = s.next_sample(100)
    require(separable(X[:1], y[:1]), 'restart')
    return True


def run_rbf(kw, ctx, n):
    s, kw = gens.make('RandomRBFGenerator', kw)
    cs, ws = s.centroids, np.array(s.centroid_weights)
    require(len(cs) == kw['n_centroids'] == len(ws), 'number of centroids %d', len(cs))
    C = np.array([q.centre for q in cs])
    sd = np.array([q.std_dev for q in cs])
    lab = np.array([q.class_label for q in cs])
    require(C.min() >= 0 and C.max() <= 1 and set(lab) <= set(range(kw['n_classes'])), 'centroids')
    X, y = s.next_sample(n)
    for x, v in zip(X, y):
        near = np.linalg.norm(C - x, axis=1) <= 6.5 * sd + 1e-9
        require((near & (lab == v)).any(), 'sample %s labelled %s lies near no such centroid',
                x.tolist(), v)
    p = np.array([ws[lab == k].sum() for k in range(kw['n_classes'])]) / ws.sum()
    cnt = np.bincount(y, minlength=kw['n_classes'])
    require((np.abs(cnt - n * p) <= NSIG * np.sqrt(n * p * (1 - p)) + 1).all(),
            'class counts %s, centroid weights give %s', cnt.tolist(), (n * p).tolist())
    if len(cs) == 1:
        d = X - C[0]
        require((np.abs(d.mean(0)) < NSIG * sd[0] / math.sqrt(n) + 1e-12).all(), 'centre')
        r2 = (d ** 2).sum(1).mean()
        require(abs(r2 - sd[0] ** 2) <= NSIG * sd[0] ** 2 * math.sqrt(2.0 / n) + 1e-12,
                'mean squared distance to the centre %g, expected %g', r2, sd[0] ** 2)
    return True


def run_rbf_drift(kw, ctx, n):
    s, kw = gens.make('RandomRBFGeneratorDrift', kw)
    sp = kw['change_speed']
    nd = min(kw['num_drift_centroids'], kw['n_centroids'])
    prev = np.array([q.centre for q in s.centroids])
    moved = False
    for _ in range(25):
        s.next_sample(1)
        cur = np.array([q.centre for q in s.centroids])
        require(cur.min() >= 0 and cur.max() <= 1, 'a drifting centroid left the unit cube')
        require(np.array_equal(cur[nd:], prev[nd:]), 'a centroid that should not drift moved')
        d = np.linalg.norm(cur - prev, axis=1)
        require((d <= sp + 1e-9).all(), 'a centroid moved by %g in one step of speed %g', d.max(),
                sp)
        inner = ((cur > 1e-12) & (cur < 1 - 1e-12)).all(1)[:nd]
        require((np.abs(d[:nd] - sp)[inner] < 1e-9).all(), 'a centroid away from the borders moved '
                'by %s, expected %g', d[:nd][inner].tolist(), sp)
        moved |= bool((d > 0).any())
        prev = cur
    require(moved == (sp > 0 and nd > 0), 'centroids moved: %s with speed %g and %d drifting',
            moved, sp, nd)
    return moved


def run_tree(kw, ctx, n):
    s, kw = gens.make('RandomTreeGenerator', kw)
    nn, nc, k = kw['n_num_features'], kw['n_cat_features'], kw['n_categories_per_cat_feature']
    X, y = s.next_sample(n)
    require(X.shape[1] == nn + nc * k, 'tree features %d', X.shape[1])
    require(nn == 0 or X[:, :nn].min() >= 0 and X[:, :nn].max() <= 1, 'numeric features')
    for g in range(nc):
        blk = X[:, nn + g * k:nn + (g + 1) * k]
        require(set(np.unique(blk)) <= {0, 1} and (blk.sum(1) == 1).all(),
                'categorical feature %d is not one-hot', g)

    def walk(root, x):
        d, seen, box = 0, set(), {}
        while root.children:
            a = int(root.split_att_index)
            if a < nn:
                lo, hi = box.get(a, (0.0, 1.0))
                require(lo <= root.split_att_value <= hi, 'a split outside its reachable interval')
                left = x[a] < root.split_att_value
                box[a] = (lo, root.split_att_value) if left else (root.split_att_value, hi)
                root = root.children[0 if left else 1]
            else:
                require(a not in seen, 'a nominal attribute is tested twice on a path')
                seen.add(a)
                g = a - nn
                root = root.children[int(np.argmax(x[nn + g * k:nn + (g + 1) * k]))]
            d += 1
        return root.class_label, d
    other, _ = gens.make('RandomTreeGenerator', dict(
        kw, sample_random_state=kw['sample_random_state'] + 1))
    for x, v in zip(X, y):
        e, d = walk(s.tree_root, x)
        require(e == v, 'sample labelled %s, its leaf says %s', v, e)
        require(d <= kw['max_tree_depth'], 'leaf at depth %d > %d', d, kw['max_tree_depth'])
        require(d >= min(kw['min_leaf_depth'], kw['max_tree_depth']), 'leaf at depth %d < %d', d,
                kw['min_leaf_depth'])
        if kw['fraction_leaves_per_level'] == 0.0:
            require(d == kw['max_tree_depth'], 'leaf at depth %d with no early leaves', d)
        require(walk(other.tree_root, x)[0] == v, 'same tree seed, different concept')
    return True


def run_regression(kw, ctx, n):
    s, kw = gens.make('RegressionGenerator', dict(kw, n_samples=60))
    X, y = s.next_sample(60)
    Y = np.asarray(y).reshape(60, -1)
    W, *_ = np.linalg.lstsq(X, Y, rcond=None)
    require_close(X @ W, Y, 'targets are a linear function of the features', rtol=1e-6, atol=1e-6)
    used = (np.abs(W) > 1e-6).sum(0)
    require((used == kw['n_informative']).all(), 'informative features per target %s, expected %d',
            used.tolist(), kw['n_informative'])
    return True


def run_anomaly(kw, ctx, n):
    kw = dict(kw, noise=0.0)
    s, kw = gens.make('AnomalySineGenerator', kw)
    N = kw['n_samples']
    X, y = s.next_sample(N + 5)
    require(len(X) == N, 'rows %d of %d', len(X), N)
    t = np.arange(N) / 4.0
    require_close(X[:, 0], np.sin(t), 'first attribute of the anomaly stream')
    na = int(y.sum())
    require((na == kw['n_anomalies']) if not kw['replace'] else 1 <= na <= kw['n_anomalies'],
            '%d anomalies, %d requested (replace=%s)', na, kw['n_anomalies'], kw['replace'])
    lvl = X[y == 1, 1]
    require(lvl.min() >= 1 - 1e-9 and lvl.max() <= 3 + 1e-9, 'anomalous values %s', lvl.tolist())
    off = (y == 0) & (np.abs(X[:, 1] - np.cos(t)) > 1e-9)
    if not kw['contextual']:
        require(not off.any(), 'normal rows %s leave the cosine', np.where(off)[0].tolist())
    else:
        require(off.sum() <= kw['n_contextual'], '%d contextual anomalies, %d requested',
                off.sum(), kw['n_contextual'])
        i = np.where(off)[0]
        require_close(X[i, 1], np.sin((i - kw['shift']) / 4.0), 'contextual anomalies copy the '
                      'first attribute from `shift` steps before')
    return True


def run_drift(c, ctx):
    """generate_drift switches to another concept, and the stream then follows that one"""
    import skmultiflow.data as D
    name = c['name']
    s = getattr(D, name)(classification_function=c['f'], random_state=c['seed'])
    seen = set()
    for _ in range(4):
        old = s.classification_function
        s.generate_drift()
        new = s.classification_function
        require(new != old, '%s: generate_drift kept concept %d', name, old)
        require(0 <= new < {'MIXEDGenerator': 2, 'STAGGERGenerator': 3, 'AGRAWALGenerator': 10}
                .get(name, 4), '%s: concept %s', name, new)
        seen.add(new)
        X, y = s.next_sample(40)
        for x, v in zip(X, y):
            e = concept(name, new, x)
            require(e is None or e == v, '%s after drift to %d: %s labelled %s', name, new,
                    x.tolist(), v)
    return len(seen) > 1


def concept(name, f, x):
    if name == 'AGRAWALGenerator':
        return agrawal_label(f, *x)
    if name == 'SEAGenerator':
        return int(x[0] + x[1] > [8, 9, 7, 9.5][f])
    if name == 'SineGenerator':
        curve = math.sin(x[1]) if f < 2 else .5 + .3 * math.sin(3 * math.pi * x[1])
        if abs(curve - x[0]) < 1e-12:
            return None
        return int((x[0] < curve) == (f % 2 == 0))
    if name == 'MIXEDGenerator':
        z = x[3] < .5 + .3 * math.sin(3 * math.pi * x[2])
        return int((x[0] + x[1] + z >= 2) == (f == 1))
    return int([x[0] == 0 and x[1] == 0, x[1] == 2 or x[2] == 0, x[0] != 0][f])


RUN = {'AGRAWALGenerator': (run_agrawal, 40), 'SEAGenerator': (run_sea, 300),
       'SineGenerator': (run_sine, 100), 'MIXEDGenerator': (run_mixed, 100),
       'STAGGERGenerator': (run_stagger, 60), 'LEDGenerator': (run_led, 150),
       'LEDGeneratorDrift': (run_led_drift, 80), 'WaveformGenerator': (run_waveform, 400),
       'HyperplaneGenerator': (run_hyperplane, 200), 'RandomRBFGenerator': (run_rbf, 200),
       'RandomRBFGeneratorDrift': (run_rbf_drift, 25), 'RandomTreeGenerator': (run_tree, 60),
       'RegressionGenerator': (run_regression, 60), 'AnomalySineGenerator': (run_anomaly, 80)}


def run(c, ctx):
    name, kw = c['gen']
    f, n = RUN[name]
    ctx.label(name)
    return f(kw, ctx, n)


def run_noise(c, ctx):
    """The noise hits every class and every attribute at the same rate."""
    from skmultiflow.data import LEDGenerator, LEDGeneratorDrift, SEAGenerator
    p, n = c['p'], c['n']
    kind = c['kind']
    if kind == 'sea':
        f = c['f']
        X, y = SEAGenerator(classification_function=f, random_state=c['seed'], noise_percentage=p).next_sample(n)
        true = np.array([concept('SEAGenerator', f, x) for x in X])
        for k in (0, 1):
            m = int((true == k).sum())
            flips = int((y[true == k] != k).sum())
            require(rate_ok(flips, m, p), 'SEA: %d of %d samples of class %d have the other label, noise %g', flips, m, k, p)
        return True
    if kind == 'led':
        s = LEDGenerator(random_state=c['seed'], noise_percentage=p, has_noise=c['more'])
    else:
        s = LEDGeneratorDrift(random_state=c['seed'], noise_percentage=p, has_noise=c['more'], n_drift_features=0)
    X, y = s.next_sample(n)
    off = X[:, :7] != SEG[y]
    for d in range(10):
        m = int((y == d).sum())
        require(abs(m - n / 10.0) < NSIG * math.sqrt(n * .09) + 1, 'LED: %d samples of digit %d among %d', m, d, n)
        require(rate_ok(int(off[y == d].sum()), 7 * m, p), 'LED digit %d: %d of %d segments inverted, noise %g', d,
                off[y == d].sum(), 7 * m, p)
    for i in range(7):
        require(rate_ok(int(off[:, i].sum()), n, p), 'LED segment %d: inverted in %d of %d samples, noise %g', i,
                off[:, i].sum(), n, p)
        for v in (0, 1):
            at = SEG[y, i] == v
            require(rate_ok(int(off[at, i].sum()), int(at.sum()), p), 'LED segment %d when %d: inverted in %d of %d samples, '
                    'noise %g', i, v, off[at, i].sum(), at.sum(), p)
    return True


def run_bounce(c, ctx):
    """Drifting centroids go straight on at constant speed, between the borders of the unit cube."""
    from skmultiflow.data import RandomRBFGeneratorDrift
    k, nd = c['k'], min(c['nd'], c['k'])
    s = RandomRBFGeneratorDrift(model_random_state=c['seed'], sample_random_state=1, n_classes=2, n_features=c['f'],
                                n_centroids=k, change_speed=c['speed'], num_drift_centroids=c['nd'])
    P = [np.array([q.centre for q in s.centroids])]
    for _ in range(c['steps']):
        s.next_sample(1)
        P.append(np.array([q.centre for q in s.centroids]))
    P = np.array(P)
    hit = 0
    for i in range(nd):
        for j in range(c['f']):
            x = P[:, i, j]
            d = np.diff(x)
            free = np.abs(d)[(x[1:] > 0) & (x[1:] < 1)]
            if not len(free):
                continue
            v = free[0]
            sign = None
            for t in range(len(d)):
                if 0 < x[t + 1] < 1:
                    require(abs(abs(d[t]) - v) < 1e-9, 'a coordinate moved by %g and by %g', v, abs(d[t]))
                else:
                    require(abs(d[t]) <= v + 1e-9, 'a coordinate moved by %g, its speed is %g', abs(d[t]), v)
                    hit += 1
                if v > 1e-9:
                    if x[t] in (0.0, 1.0) and t > 0:
                        require(x[t + 1] != x[t], 'a centroid stays at the border %g', x[t])
                    elif sign is not None and d[t] != 0:
                        require(np.sign(d[t]) == sign, 'a centroid turned at %g, away from the borders', x[t])
                    sign = np.sign(d[t])
    return hit > 2


# ---------------------------------------------------------------- distributions over long streams
def reference(name, kw, r, m):
    """m rows drawn as documented, and their class (None: the class is not part of the comparison)."""
    u = r.rand
    if name == 'SEAGenerator':
        X = 10 * u(m, 3)
    elif name == 'SineGenerator':
        X = u(m, 4 if kw['has_noise'] else 2)
    elif name == 'STAGGERGenerator':
        X = r.randint(0, 3, (m, 3)).astype(float)
    elif name == 'MIXEDGenerator':
        X = np.column_stack([r.randint(0, 2, (m, 2)), u(m, 2)])
    elif name == 'HyperplaneGenerator':
        return u(m, kw['n_features']), None
    elif name == 'RandomTreeGenerator':
        k = kw['n_categories_per_cat_feature']
        return np.column_stack([u(m, kw['n_num_features'])] + [
            np.eye(k)[r.randint(0, k, m)] for _ in range(kw['n_cat_features'])]), None
    elif name == 'WaveformGenerator':
        g, a = r.randint(0, 3, m), u(m, 1)
        H = [np.maximum(0, 6 - np.abs(np.arange(21) - c)) for c in (6, 14, 10)]
        A = np.array([H[0], H[0], H[1]])[g]
        B = np.array([H[1], H[2], H[2]])[g]
        X = a * A + (1 - a) * B + r.randn(m, 21)
        return (np.column_stack([X, r.randn(m, 19)]) if kw['has_noise'] else X), g
    else:
        sal = 20e3 + 130e3 * u(m)
        com = np.where(sal >= 75e3, 0, 10e3 + 75e3 * u(m))
        zc = r.randint(0, 9, m)
        X = np.column_stack([sal, com, r.randint(20, 81, m), r.randint(0, 5, m), r.randint(0, 20, m), zc,
                             (9 - zc) * 1e5 * (.5 + u(m)), r.randint(1, 31, m), 5e5 * u(m)])
    y = np.array([-1 if e is None else e for e in (
        concept(name, kw['classification_function'], x) for x in X)])
    p = kw.get('perturbation', 0)
    if p:
        def pert(v, lo, hi):
            return np.clip(v + (hi - lo) * (2 * u(m) - 1) * p, lo, hi)
        X[:, 0] = pert(X[:, 0], 20e3, 150e3)
        X[:, 1] = np.where(X[:, 1] > 0, pert(X[:, 1], 10e3, 75e3), 0)
        X[:, 2] = np.round(pert(X[:, 2], 20, 80))
        X[:, 7] = np.round(pert(X[:, 7], 1, 30))
        X[:, 8] = pert(X[:, 8], 0, 5e5)
        X[:, 6] = 0              # known finding: the perturbed house value
    return X, y


def ks2(a, b):
    """Scaled two-sample Kolmogorov-Smirnov distance; above 3.6 has probability < 1e-10."""
    if min(len(a), len(b)) < 50:
        return 0.0
    a, b = np.sort(a), np.sort(b)
    v = np.concatenate([a, b])
    d = np.abs(np.searchsorted(a, v, 'right') / len(a) - np.searchsorted(b, v, 'right') / len(b)).max()
    return d * math.sqrt(len(a) * len(b) / (len(a) + len(b)))


LONG = ['AGRAWALGenerator', 'SEAGenerator', 'SineGenerator', 'MIXEDGenerator', 'STAGGERGenerator',
        'WaveformGenerator', 'HyperplaneGenerator', 'RandomTreeGenerator']


def run_long(c, ctx):
    """A long stream: every label, the balance, and the distribution of the features (per class; of every
    attribute, of sums of two attributes, of sums of consecutive values) are as documented."""
    name, kw = c['gen']
    s, kw = gens.make(name, kw)
    n = c['n']
    got = []
    left = n
    while left:
        b = min(left, c['batch'])
        got.append(s.next_sample(b))
        left -= b
    X, y = np.vstack([g[0] for g in got]).astype(float), np.concatenate([g[1] for g in got]).astype(int)
    require(len(X) == len(y) == n, '%s: %d rows and %d labels of %d', name, len(X), len(y), n)
    r = np.random.RandomState(kw.get('random_state', kw.get('sample_random_state')) + 7)
    R, z = reference(name, kw, r, 12000)
    if name == 'AGRAWALGenerator' and kw['perturbation']:
        X[:, 6] = 0
    if 'classification_function' in kw and not kw.get('perturbation'):
        e = [concept(name, kw['classification_function'], x) for x in X]
        p = kw.get('noise_percentage', 0)
        if p == 0:
            for i in range(n):
                require(e[i] is None or e[i] == y[i], '%s: sample %d %s is labelled %s', name, i, X[i].tolist(), y[i])
        else:
            flips = sum(a is not None and a != b for a, b in zip(e, y))
            require(rate_ok(flips, n, p), '%s: %d of %d labels are not the concept, noise %g', name, flips, n, p)
            y = np.array([-1 if v is None else v for v in e])
    if kw.get('balance_classes'):
        balanced(y, name)
    elif z is not None:
        for k in np.unique(np.append(z, y)):
            q = (z == k).mean()
            sd = math.sqrt((q * (1 - q) + 1e-4) * (1 / n + 1 / len(z)))
            require(abs((y == k).mean() - q) < NSIG * sd, '%s: %.4f of the samples are of class %d, expected %.4f', name,
                    (y == k).mean(), k, q)
    sc = np.maximum(R.std(0), 1e-9)
    d = X.shape[1]
    pairs = [(i, j) for i in range(d) for j in range(i)]
    r.shuffle(pairs)
    for k in ([None] if z is None else np.unique(z)):
        A, B = (X, R) if k is None else (X[y == k], R[z == k])
        for i in range(d):
            v = ks2(A[:, i], B[:, i])
            require(v < 3.6, '%s: attribute %d of %sdoes not have the documented distribution (KS %.2f; mean %g, '
                    'expected %g)', name, i, '' if k is None else 'class %d ' % k, v, A[:, i].mean(), B[:, i].mean())
        for i, j in pairs[:12]:
            v = ks2(A[:, i] / sc[i] + A[:, j] / sc[j], B[:, i] / sc[i] + B[:, j] / sc[j])
            require(v < 3.6, '%s: attributes %d and %d depend on each other in another way than documented (KS %.2f)', name,
                    i, j, v)
    if not kw.get('balance_classes'):
        for i in range(d):
            v = ks2(X[:-1, i] + X[1:, i], R[:-1, i] + R[1:, i])
            require(v < 3.6, '%s: consecutive values of attribute %d are dependent (KS %.2f)', name, i, v)
    ctx.label(name)
    return True


def run_trees(c, ctx):
    """Random trees: early leaves at the requested rate, uniform labels and thresholds."""
    from skmultiflow.data import RandomTreeGenerator
    early = [0, 0]
    labels, thr = [], []
    mn, mx = c['min'], c['min'] + c['more']

    def walk(node, depth, box):
        if depth >= mn and depth < mx:
            early[1] += 1
        if not node.children:
            early[0] += mn <= depth < mx
            labels.append(node.class_label)
            require(mn <= depth <= mx, 'leaf at depth %d, allowed %d to %d', depth, mn, mx)
            return
        a = int(node.split_att_index)
        if a < c['num']:
            require(len(node.children) == 2, 'numeric test with %d branches', len(node.children))
            lo, hi = box.get(a, (0., 1.))
            thr.append((node.split_att_value - lo) / (hi - lo))
            walk(node.children[0], depth + 1, {**box, a: (lo, node.split_att_value)})
            walk(node.children[1], depth + 1, {**box, a: (node.split_att_value, hi)})
        else:
            require(len(node.children) == c['cats'], 'nominal test with %d branches', len(node.children))
            for ch in node.children:
                walk(ch, depth + 1, box)
    for i in range(40):
        s = RandomTreeGenerator(tree_random_state=c['seed'] + i, sample_random_state=1, n_classes=c['k'], n_cat_features=8,
                                n_num_features=c['num'], n_categories_per_cat_feature=c['cats'], max_tree_depth=mx,
                                min_leaf_depth=mn, fraction_leaves_per_level=c['frac'])
        walk(s.tree_root, 0, {})
    p = c['frac']
    require(abs(early[0] - early[1] * p) <= NSIG * math.sqrt(early[1] * p * (1 - p)) + 1e-9, '%d of %d nodes at depths %d to %d '
            'are leaves, requested rate %g', early[0], early[1], mn, mx - 1, p)
    cnt = np.bincount(labels, minlength=c['k'])
    require(len(cnt) == c['k'] and (np.abs(cnt - len(labels) / c['k']) <= NSIG * np.sqrt(
        len(labels) / c['k']) + 1e-9).all(), 'labels of %d leaves: %s', len(labels), cnt.tolist())
    v = ks2(np.array(thr), np.linspace(0, 1, 20001))
    require(v < 3.6, 'thresholds are not uniform in their interval (KS %.2f)', v)
    return len(labels) > 200


def run_sklearn(c, ctx):
    """The finite generators deliver the data set of the function they document, for their seed."""
    from sklearn.datasets import make_multilabel_classification, make_regression
    from skmultiflow.data import MultilabelGenerator, RegressionGenerator
    n, f, t = c['n'], c['f'], c['t']
    rs = np.random.RandomState(c['seed'])
    if c['reg']:
        X, Y = make_regression(n_samples=n, n_features=f, n_informative=min(f, c['i']), n_targets=t, random_state=rs)
        s = RegressionGenerator(n_samples=n, n_features=f, n_informative=min(f, c['i']), n_targets=t, random_state=c['seed'])
    else:
        X, Y = make_multilabel_classification(n_samples=n, n_features=f, n_classes=t, n_labels=c['l'], random_state=rs)
        s = MultilabelGenerator(n_samples=n, n_features=f, n_targets=t, n_labels=c['l'], random_state=c['seed'])
    for rnd in range(2):
        pos = 0
        while pos < n:
            b = min(c['batch'], n - pos)
            x, y = s.next_sample(b)
            require(y.shape == ((b,) if t == 1 else (b, t)), 'targets of shape %s for %d samples, %d targets', y.shape, b, t)
            require(np.array_equal(x, X[pos:pos + b]) and np.array_equal(np.reshape(y, (b, t)), Y.reshape(n, t)[pos:pos + b]),
                    'rows %d to %d are not those of %s', pos, pos + b - 1, 'make_regression' if c['reg'] else
                    'make_multilabel_classification')
            pos += b
        require(not s.has_more_samples() and s.n_remaining_samples() == 0, 'samples remain after all %d were read', n)
        s.restart()
    return True


def run_anomaly_noise(c, ctx):
    from skmultiflow.data import AnomalySineGenerator
    n, na, sd = 4000, c['na'], c['noise']
    s = AnomalySineGenerator(n_samples=n, n_anomalies=na, contextual=False, noise=sd, replace=False, random_state=c['seed'])
    X, y = s.next_sample(n)
    require(len(X) == n, '%d rows of %d', len(X), n)
    t = np.arange(n) / 4.
    ref = np.random.RandomState(5).randn(20000) * sd
    require(ks2(X[:, 0] - np.sin(t), ref) < 3.6, 'the noise of the first attribute is not normal with deviation %g', sd)
    require(ks2((X[:, 1] - np.cos(t))[y == 0], ref) < 3.6, 'the noise of the second attribute is not normal with deviation %g', sd)
    a = X[y == 1, 1]
    require(len(a) == na, '%d anomalies of %d', len(a), na)
    require(1 - NSIG * sd / math.sqrt(na) <= a.mean() <= 3 + NSIG * sd / math.sqrt(na), 'anomalies have mean %g', a.mean())
    require(ks2(a - a.mean(), ref) < 4.2, 'the noise of the anomalies is not normal with deviation %g (%g)', sd, a.std())
    require(ks2(np.where(y == 1)[0] / n, np.linspace(0, 1, 20001)) < 3.6, 'the anomalies are not spread over the stream')
    return True


def run_all_drifts(c, ctx):
    """generate_drift reaches every other concept."""
    import skmultiflow.data as D
    name, k = c['name']
    s = getattr(D, name)(classification_function=0, random_state=c['seed'])
    cnt = np.zeros(k, int)
    N = 800
    for _ in range(N):
        old = s.classification_function
        s.generate_drift()
        require(s.classification_function != old, '%s: generate_drift kept concept %d', name, old)
        cnt[s.classification_function] += 1
    q = 1.0 / k
    require((np.abs(cnt - N * q) <= NSIG * math.sqrt(N * q) + 1).all(), '%s: %d drifts led to the concepts %s times', name, N,
            cnt.tolist())
    return True


def run_pert_dist(c, ctx):
    """the perturbation is uniform up to the requested share of the range (cut at the ends of the range)"""
    p = c['p']
    rngs = {0: (20e3, 150e3), 8: (0.0, 5e5)}
    us, free = {i: [] for i in rngs}, {i: [] for i in rngs}
    for j in range(c['m']):
        kw = dict(classification_function=0, random_state=c['seed'] + j, balance_classes=False)
        X, _ = gens.make('AGRAWALGenerator', dict(kw, perturbation=0.0))[0].next_sample(1)
        Z, _ = gens.make('AGRAWALGenerator', dict(kw, perturbation=p))[0].next_sample(1)
        for i, (lo, hi) in rngs.items():
            x, z, w = X[0, i], Z[0, i], (hi - lo) * p
            a, b = max(-1, (lo - x) / w), min(1, (hi - x) / w)
            free[i] += [(b - a) / 2]
            if lo < z < hi:
                us[i].append(((z - x) / w - a) / (b - a))
            else:
                require((x - w <= lo) if z == lo else (x + w >= hi), 'attribute %d: %s became %s, perturbation %g', i, x, z, p)
    for i, u in us.items():
        u, q = np.array(u), np.array(free[i])
        require(abs(len(u) - q.sum()) < NSIG * math.sqrt((q * (1 - q)).sum() + 1), 'attribute %d: %d of %d perturbed values '
                'reach the end of the range, expected %.0f', i, len(q) - len(u), len(q), (1 - q).sum())
        require(ks2(u, np.linspace(0, 1, 20001)) < 3.6 and u.min() >= -1e-9 and u.max() <= 1 + 1e-9 and
                u.max() > 1 - 25. / len(u) and u.min() < 25. / len(u), 'attribute %d: the perturbation %g is not uniform '
                '(within %.3f to %.3f of what is possible)', i, p, u.min(), u.max())
    return True


def run_agrawal_long(c, ctx):
    kw = dict(classification_function=c['f'], random_state=c['seed'], balance_classes=c['bal'], perturbation=0.0)
    return run_agrawal(kw, ctx, c['n'])


SUBS = [
    Sub('perturbation', st.fixed_dictionaries(dict(p=st.sampled_from([0.05, 0.3, 0.6, 1.0]), m=st.just(800), seed=gens.seed_s)),
        run_pert_dist, n=10, thorough=120, rule='always'),
    Sub('agrawal_long', st.fixed_dictionaries(dict(
        f=st.integers(0, 9), seed=gens.seed_s, bal=st.booleans(), n=st.sampled_from([500, 5000]))),
        run_agrawal_long, n=80, thorough=3000, rule='both classes present'),
    Sub('long', st.fixed_dictionaries(dict(gen=gens.any_config(LONG), n=st.sampled_from([1500, 5000]),
                                           batch=st.sampled_from([5000, 1000, 130]))), run_long, n=150, thorough=3000,
        rule='always'),
    Sub('random_trees', st.fixed_dictionaries(dict(
        seed=gens.seed_s, k=st.integers(2, 6), num=st.integers(1, 4), cats=st.integers(2, 3), min=st.integers(0, 3),
        more=st.integers(1, 2), frac=st.sampled_from([0.0, 0.15, 0.5, 0.8]))), run_trees, n=40, thorough=800,
        rule='more than 200 leaves'),
    Sub('sklearn', st.fixed_dictionaries(dict(
        reg=st.booleans(), n=st.integers(1, 90), f=st.integers(1, 25), t=st.integers(1, 5), i=st.integers(1, 25),
        l=st.integers(1, 6), batch=st.integers(1, 30), seed=gens.seed_s)), run_sklearn, n=160, thorough=3000, rule='always'),
    Sub('anomaly_noise', st.fixed_dictionaries(dict(
        na=st.sampled_from([100, 600, 1500]), noise=st.sampled_from([0.1, 0.5, 1.0, 2.5]), seed=gens.seed_s)),
        run_anomaly_noise, n=40, thorough=600, rule='always'),
    Sub('all_drifts', st.fixed_dictionaries(dict(name=st.sampled_from([
        ('AGRAWALGenerator', 10), ('SEAGenerator', 4), ('SineGenerator', 4), ('STAGGERGenerator', 3), ('MIXEDGenerator', 2)]),
        seed=gens.seed_s)), run_all_drifts, n=40, thorough=400, rule='always'),
    Sub('noise', st.fixed_dictionaries(dict(
        kind=st.sampled_from(['led', 'leddrift', 'sea']), p=st.sampled_from([0.0, 0.1, 0.3, 0.6, 1.0]), seed=gens.seed_s,
        f=st.integers(0, 3), more=st.booleans(), n=st.just(8000))), run_noise, n=32, thorough=600, rule='always'),
    Sub('bounce', st.fixed_dictionaries(dict(
        k=st.integers(1, 3), nd=st.integers(1, 4), f=st.integers(1, 3), speed=st.sampled_from([0.02, 0.1, 0.4]),
        steps=st.sampled_from([40, 150]), seed=gens.seed_s)), run_bounce, n=80, thorough=1500, rule='the borders were met'),
    Sub('concept', st.fixed_dictionaries(dict(gen=gens.any_config(sorted(RUN)))), run, n=1600,
        thorough=40000, rule='both classes present / drift or noise actually exercised'),
    Sub('agrawal_perturbation', st.fixed_dictionaries(dict(
        kw=gens.CONFIGS['AGRAWALGenerator'], p=st.sampled_from([0.01, 0.1, 0.3, 0.9]))),
        run_agrawal_pert, n=240, rule='always'),
    Sub('generate_drift', st.fixed_dictionaries(dict(
        name=st.sampled_from(['AGRAWALGenerator', 'SEAGenerator', 'SineGenerator',
                              'MIXEDGenerator', 'STAGGERGenerator']),
        f=st.integers(0, 1), seed=gens.seed_s)), run_drift, n=160,
        rule='at least two concepts visited'),
    Sub('hyperplane_drift', st.fixed_dictionaries(dict(seed=gens.seed_s, f=st.integers(2, 6))),
        run_hyper_drift, n=24, rule='always'),
    Sub('hvalue', st.nothing(), run_hvalue, n=0, thorough=0, rule='known finding only'),
]
ASSUMPTIONS = ['realised noise may be up to 0.01 below the requested rate (documented by the code)',
               'statistical comparisons at 6 standard deviations']
