"""C33: RSLVQ against an independent implementation of its update rules."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, Skip, require, require_close, rng_of, short

PROP = 'C33'
SCALE = 3
META = {
    'title': 'RSLVQ moves the right prototypes by the stated gradient and predicts nearest',
    'statement': (
        'RobustSoftLearningVectorQuantization keeps prototypes_per_class prototypes for every class. A class seen for '
        'the first time gets its prototypes at the mean of its samples in that call (with uniform noise in [-1, 1] '
        'per coordinate when there are several), or all start from initial_prototypes; prototypes of classes not seen '
        'yet take no part. Each sample is then processed in order: only when the nearest prototype belongs to a wrong '
        'class, the nearest right one is attracted and then the nearest wrong one is repelled, by 1 / sigma times '
        '(P_y(j|x) - P(j|x)) and P(j|x) times the difference, where P is the softmax of -|x - w|^2 / (2 sigma) over '
        'all prototypes in use and P_y over those of the class (adadelta: the same gradient scaled by the '
        'gamma-decayed running means of squared steps and gradients per coordinate); every other prototype stays '
        'put. predict gives each row the class of the nearest prototype in use and changes nothing. How samples are '
        'cut into calls does not matter once every class has been seen; a class that was not declared is refused '
        'with ValueError, as are parameters outside their domain, and the arrays passed in are left alone.'),
    'quantifier': {'over': ['inputs', 'histories', 'configurations'],
                   'text': 'both optimisers, sigma 0.2-8, gamma 0-0.99, 1-4 prototypes per class or given ones, 1-4 '
                               'classes appearing at any call, 1-4 features, scales 0.1-10'},
    'why_tests_cant': (
        'The repository test runs three fixed configurations for a few hundred samples and compares predictions; the '
        'trajectory of every prototype depends on the whole history, on ties between classes and on which classes '
        'have appeared.'),
    'anchors': {'files': ['src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py'],
                'mechanism': [{'name': '_optimize, _update_prototype_vanilla, _update_prototype_adadelta, _p',
                               'where': 'src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py'},
                              {'name': '_validate_train_parms (initialisation, refusals), predict',
                               'where': 'src/skmultiflow/prototype/robust_soft_learning_vector_quantization.py'}]},
    'technique': 'property-based testing: differential against an independent sequential implementation of RSLVQ over '
                 'generated histories; metamorphic relations over batch cuts and translations',
}
ASSUMPTIONS = [
    'Prototypes are read from the public properties prototypes and prototypes_classes.',
    'The random offset of several prototypes per class is read from a twin model with a vanishing learning rate and '
    'the same seed, only its range and spread are judged.',
    'Cases where two distances differ by less than 1e-9 relative are skipped.',
]


def rslvq(c, **kw):
    from skmultiflow.prototype import RobustSoftLearningVectorQuantization as R
    p = dict(prototypes_per_class=c['ppc'], sigma=c['sigma'], random_state=c['seed'], gradient_descent=c['gd'],
             gamma=c['gamma'])
    p.update(kw)
    return R(**p)


@st.composite
def cases(draw, ppc=None, given_init=False):
    c = {'k': draw(st.integers(1, 4)), 'nf': draw(st.integers(1, 4)), 'gd': draw(st.sampled_from(['vanilla', 'adadelta'])),
         'sigma': draw(st.sampled_from([0.2, 0.5, 1.0, 1.0, 1.7, 3, 8.])),
         'gamma': draw(st.sampled_from([0.0, 0.3, 0.9, 0.9, 0.99])),
         'seed': draw(st.integers(0, 10 ** 6)), 'dseed': draw(st.integers(0, 10 ** 6)),
         'scale': draw(st.sampled_from([0.1, 1., 1., 3., 10.])), 'sep': draw(st.sampled_from([0., 0.5, 1., 2.])),
         'ppc': draw(st.integers(1, 4)) if ppc is None else ppc,
         'order': draw(st.sampled_from(['mixed', 'mixed', 'late'])),
         'calls': draw(st.lists(st.integers(1, 15), min_size=1, max_size=8)),
         'declare': draw(st.booleans())}
    return c


def stream(c, rng):
    n = sum(c['calls'])
    y = rng.randint(0, c['k'], size=n)
    if c['order'] == 'late':
        y = np.minimum(y, (np.arange(n) * c['k']) // n)
    X = c['scale'] * (rng.normal(size=(n, c['nf'])) + c['sep'] * rng.normal(size=(c['k'], c['nf']))[y])
    return X, y


class Ref:
    def __init__(self, c):
        self.c = c
        self.w = {}           # index -> position
        self.cls = {}
        self.g = {}
        self.s = {}
        self.moves = 0

    def add(self, j, pos, cl):
        self.w[j] = np.array(pos, dtype=float)
        self.cls[j] = cl
        self.g[j] = np.zeros(len(pos))
        self.s[j] = np.zeros(len(pos))

    def softmax(self, x, idx, j):
        f = {i: -np.sum((x - self.w[i]) ** 2) / (2 * self.c['sigma']) for i in idx}
        m = max(f.values())
        return np.exp(f[j] - m) / sum(np.exp(v - m) for v in f.values())

    def step(self, j, x, y):
        d = x - self.w[j]
        allp = self.softmax(x, list(self.w), j)
        if self.cls[j] == y:
            grad = (self.softmax(x, [i for i in self.w if self.cls[i] == y], j) - allp) * d
        else:
            grad = -allp * d
        if self.c['gd'] == 'vanilla':
            self.w[j] = self.w[j] + grad / self.c['sigma']
        else:
            gm = self.c['gamma']
            self.g[j] = gm * self.g[j] + (1 - gm) * grad ** 2
            move = np.sqrt((self.s[j] + 1e-8) / (self.g[j] + 1e-8)) * grad
            self.s[j] = gm * self.s[j] + (1 - gm) * move ** 2
            self.w[j] = self.w[j] + move

    def dist(self, x):
        d = {j: np.sqrt(np.sum((x - w) ** 2)) for j, w in self.w.items()}
        return d

    @staticmethod
    def clear(vals):
        v = sorted(vals)
        if len(v) > 1 and v[1] - v[0] <= 1e-7 * (1 + abs(v[1])):
            raise Skip('two distances nearly equal')

    def learn(self, x, y):
        d = self.dist(x)
        right = {j: v for j, v in d.items() if self.cls[j] == y}
        wrong = {j: v for j, v in d.items() if self.cls[j] != y}
        if not wrong:
            return
        self.clear([min(right.values()), min(wrong.values())])
        if min(wrong.values()) < min(right.values()):
            self.clear(right.values())
            self.clear(wrong.values())
            a, b = min(right, key=right.get), min(wrong, key=wrong.get)
            self.step(a, x, y)
            self.step(b, x, y)
            self.moves += 1

    def predict(self, x):
        d = self.dist(x)
        best = {}
        for j, v in d.items():
            best[self.cls[j]] = min(v, best.get(self.cls[j], np.inf))
        self.clear(best.values())
        return min(best, key=best.get)


def drive(c, twin=False):
    """Feed a model and the reference; returns them with the stream."""
    rng = rng_of(c['dseed'])
    X, y = stream(c, rng)
    m = rslvq(c)
    ref = Ref(c)
    probe = rslvq(c, sigma=1e13, gradient_descent='vanilla') if c['ppc'] > 1 else None
    i = 0
    declared = c['declare'] or len(np.unique(y[:c['calls'][0]])) < c['k']
    noise = []
    for n in c['calls']:
        Xb, yb = X[i:i + n], y[i:i + n]
        Xc, yc = Xb.copy(), yb.copy()
        kw = {'classes': list(range(c['k']))} if declared and i == 0 else {}
        if probe is not None:
            probe.partial_fit(Xb, yb, **kw)
        for cl in range(c['k']):
            if cl in yb and cl not in ref.cls.values():
                mean = Xb[yb == cl].mean(axis=0)
                for t in range(c['ppc']):
                    j = cl * c['ppc'] + t
                    if probe is None:
                        ref.add(j, mean, cl)
                    else:
                        off = probe.prototypes[j] - mean
                        require(np.all(np.abs(off) <= 1 + 1e-6), lambda: 'offset %s of a new prototype' % short(off))
                        noise.append(off)
                        ref.add(j, probe.prototypes[j], cl)
        m.partial_fit(Xb, yb, **kw)
        require(np.array_equal(Xb, Xc) and np.array_equal(yb, yc), 'partial_fit changed its arguments')
        for x, t in zip(Xb, yb):
            ref.learn(x, t)
        compare(m, ref, c)
        i += n
    if noise and len(noise) > 1:
        flat = [tuple(np.round(o, 6)) for o in noise[:c['ppc']]]
        require(len(set(flat)) == len(flat), 'the prototypes of one class all start in the same place')
    return m, ref, X, y, rng


def compare(m, ref, c):
    P, C = np.asarray(m.prototypes), np.asarray(m.prototypes_classes)
    require(P.shape == (c['k'] * c['ppc'], c['nf']), lambda: 'prototypes have shape %s' % (P.shape,))
    require(len(C) == len(P), 'one class per prototype')
    big = max([1.] + [float(np.max(np.abs(w))) for w in ref.w.values()])
    if not np.isfinite(big) or big > 1e8:
        raise Skip('prototypes ran away')
    for j, w in ref.w.items():
        require(int(C[j]) == ref.cls[j], lambda: 'prototype %d has class %r' % (j, C[j]))
        require_close(P[j], w, 'prototype %d of class %r' % (j, ref.cls[j]), rtol=1e-6, atol=1e-6 * big)


def judge_predict(m, ref, X, rng, c):
    Q = np.vstack([X[rng.randint(len(X), size=5)], c['scale'] * 2 * rng.normal(size=(10, c['nf']))])
    before = np.array(m.prototypes, copy=True)
    got = m.predict(Q)
    require(len(got) == len(Q), 'one prediction per row')
    seen = 0
    for x, g in zip(Q, got):
        try:
            want = ref.predict(x)
        except Skip:
            continue
        seen += 1
        require(int(g) == want, lambda: 'predict %r, nearest prototype in use has class %r' % (g, want))
    require(np.array_equal(before, m.prototypes), 'predict moved a prototype')
    return seen


def run_trajectory(c, ctx):
    m, ref, X, y, rng = drive(c)
    judge_predict(m, ref, X, rng, c)
    return ref.moves > 1


def run_given(c, ctx):
    rng = rng_of(c['dseed'])
    X, y = stream(c, rng)
    protos = np.column_stack([c['scale'] * rng.normal(size=(c['k'] * c['ppc'], c['nf'])),
                              rng.permutation(np.repeat(np.arange(c['k']), c['ppc']))])
    keep = protos.copy()
    m = rslvq(c, initial_prototypes=protos)
    ref = Ref(c)
    for j, row in enumerate(protos):
        ref.add(j, row[:-1], int(row[-1]))
    i = 0
    for n in c['calls']:
        m.partial_fit(X[i:i + n], y[i:i + n], classes=list(range(c['k'])))
        for x, t in zip(X[i:i + n], y[i:i + n]):
            ref.learn(x, t)
        compare(m, ref, c)
        i += n
    require(np.array_equal(protos, keep), 'the initial prototypes passed in were changed')
    judge_predict(m, ref, X, rng, c)
    return ref.moves > 1


def run_meta(c, ctx):
    """Batch cuts once every class was seen, and translations of the whole space."""
    rng = rng_of(c['dseed'])
    X, y = stream(c, rng)
    n0 = c['k'] + 2
    X0 = c['scale'] * rng.normal(size=(n0, c['nf']))
    y0 = np.r_[np.arange(c['k']), rng.randint(0, c['k'], size=2)]
    shift = np.round(rng.normal(size=c['nf']) * 4)
    a, b, t = rslvq(c), rslvq(c), rslvq(c)
    a.partial_fit(X0, y0)
    b.partial_fit(X0, y0, classes=list(range(c['k'])))
    t.partial_fit(X0 + shift, y0)
    ref = Ref(c)
    for j, w in enumerate(a.prototypes):
        ref.add(j, w, int(a.prototypes_classes[j]))
    a.partial_fit(X, y)
    for i in range(len(X)):
        b.partial_fit(X[i:i + 1], y[i:i + 1])
    t.partial_fit(X + shift, y)
    require(np.array_equal(a.prototypes, b.prototypes), 'prototypes depend on how samples are cut into calls')
    if c['gd'] == 'vanilla':
        for x, l in zip(X, y):
            ref.learn(x, l)           # only for its near-tie guard
        if max(np.max(np.abs(a.prototypes)), 1) < 1e3:
            require_close(t.prototypes - shift, a.prototypes, 'prototypes of the shifted stream', rtol=1e-5, atol=1e-5)
    Q = c['scale'] * 2 * rng.normal(size=(10, c['nf']))
    require(np.array_equal(a.predict(Q), b.predict(Q)), 'predictions depend on how samples are cut into calls')
    one = np.array([a.predict(Q[i:i + 1])[0] for i in range(len(Q))])
    require(np.array_equal(one, a.predict(Q)), 'rows are not predicted independently')
    return ref.moves > 1 or c['gd'] == 'adadelta'


@st.composite
def refusals(draw):
    return {'what': draw(st.sampled_from(['sigma', 'ppc', 'gamma', 'gd', 'undeclared', 'gap', 'shape', 'labels'])),
            'v': draw(st.floats(0, 5)), 'k': draw(st.integers(1, 4)), 'seed': draw(st.integers(0, 10 ** 6)),
            'nf': draw(st.integers(1, 4))}


def refused(fn, what):
    try:
        fn()
    except ValueError:
        return
    require(False, what)


def run_refuse(c, ctx):
    from skmultiflow.prototype import RobustSoftLearningVectorQuantization as R
    rng = rng_of(c['seed'])
    X = rng.normal(size=(12, c['nf']))
    y = np.r_[np.arange(c['k']), rng.randint(0, c['k'], size=12 - c['k'])]
    w = c['what']
    if w == 'sigma':
        if c['v'] == 0:
            return False                 # 1 / 0 is another error
        refused(lambda: R(sigma=-c['v']), 'sigma %r accepted' % -c['v'])
        R(sigma=c['v'])
    elif w == 'ppc':
        refused(lambda: R(prototypes_per_class=-int(c['v'])), 'prototypes_per_class %r accepted' % -int(c['v']))
    elif w == 'gamma':
        refused(lambda: R(gamma=1 + c['v']), 'gamma %r accepted' % (1 + c['v']))
        refused(lambda: R(gamma=-0.01 - c['v']), 'gamma %r accepted' % (-0.01 - c['v']))
        R(gamma=min(c['v'] / 5, 0.999))
    elif w == 'gd':
        refused(lambda: R(gradient_descent='sgd'), 'an unknown optimiser was accepted')
    elif w == 'undeclared':
        m = R()
        m.partial_fit(X, y, classes=list(range(c['k'])))
        before = m.prototypes.copy()
        y2 = y.copy()
        y2[rng.randint(12)] = c['k'] + rng.randint(3)
        refused(lambda: m.partial_fit(X, y2), 'a class that was not declared was accepted')
        require(np.array_equal(before, m.prototypes), 'a refused call moved prototypes')
    elif w == 'gap':
        refused(lambda: R().partial_fit(X, y + 1 + (y > 0)), 'labels that do not start at 0 were accepted')
    elif w == 'shape':
        P = np.column_stack([rng.normal(size=(c['k'] + 1, c['nf'])), np.r_[np.arange(c['k']), 0]])
        refused(lambda: R(initial_prototypes=P).partial_fit(X, y, classes=list(range(c['k']))),
                'one initial prototype too many was accepted')
    else:
        P = np.column_stack([rng.normal(size=(c['k'], c['nf'])), np.arange(c['k']) + 1])
        refused(lambda: R(initial_prototypes=P).partial_fit(X, y, classes=list(range(c['k']))),
                'initial prototypes of other classes were accepted')
    return True


SUBS = [
    Sub('trajectory', cases(ppc=1), run_trajectory, n=200, thorough=4000, rule='at least two samples moved prototypes'),
    Sub('several', cases(), run_trajectory, n=150, thorough=3000, rule='at least two samples moved prototypes'),
    Sub('given', cases(), run_given, n=120, thorough=2500, rule='at least two samples moved prototypes'),
    Sub('meta', cases(ppc=1), run_meta, n=100, thorough=2000, rule='samples moved prototypes'),
    Sub('refuse', refusals(), run_refuse, n=100, thorough=1000, rule='every case that states a refusal'),
]
