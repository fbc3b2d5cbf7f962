"""Synthetic generators: reproducibility, restart, batching, isolation, declared schema."""
import numpy as np
from hypothesis import strategies as st

from vp import gens
from vp.engine import Sub, require

PROP = 'C02'
SCALE = 2
META = dict(
    title='Seeded generators are reproducible, batch-independent, restartable and isolated',
    statement='A synthetic generator with integer seeds produces one fixed sequence: the same for '
              'every instance with the same parameters, however requests are batched, whatever '
              'other generators are created or read in between and whatever state the global '
              'random generator is in (which it leaves alone). A restart replays it, the last '
              'sample is the batch last delivered (none after a restart), and batches already handed out are not altered '
              'later. A finite generator delivers the remaining rows and then none; parameters outside their '
              'documented domain are refused. Every batch has the declared shape: the requested rows, the declared features '
              'and targets, finite values and labels among the declared ones.',
    quantifier=dict(over=['configurations', 'histories', 'inputs'],
                    text='all generators, parameter settings and seeds, and all interleavings of '
                         'requests, restarts and uses of other instances'),
    why_tests_cant='Tests compare ten rows of one seed per generator read in one batch from one '
                   'live instance.',
    anchors=dict(files=['src/skmultiflow/data'],
                 mechanism=[dict(name='random state', where='_prepare_for_use of each generator'),
                            dict(name='batch assembly', where='next_sample of each generator'),
                            dict(name='restart', where='Stream.restart')]),
    technique='metamorphic PBT over generated configurations and request histories of all 15 '
              'generators (split vs whole, interleaved vs alone, restart vs fresh)',
)
ops_s = st.lists(st.one_of(st.integers(1, 6), st.sampled_from([1, 25, 60]), st.just('restart'), st.just('last'),
                           st.just('other'), st.just('fresh_other'), st.just('global')),
                 min_size=2, max_size=14)
case_s = st.fixed_dictionaries(dict(gen=gens.any_config(), other=gens.any_config(), ops=ops_s,
                                    same=st.booleans()))


def check_schema(s, name, X, y, n):
    require(X.shape == (n, s.n_features), '%s: X shape %s for %d rows of %d features', name,
            X.shape, n, s.n_features)
    require(np.shape(y) == ((n,) if s.n_targets == 1 else (n, s.n_targets)),
            '%s: y shape %s for %d rows, %d targets', name, np.shape(y), n, s.n_targets)
    require(bool(np.isfinite(X).all()), '%s: non-finite features', name)
    require(bool(np.isfinite(np.asarray(y, float)).all()), '%s: non-finite targets', name)
    if name != 'RegressionGenerator':
        tv = s.target_values
        if s.n_targets == 1:
            require(set(np.unique(y).tolist()) <= set(tv), '%s: labels %s not in %s', name,
                    np.unique(y).tolist(), tv)
        else:
            for k in range(s.n_targets):
                require(set(np.unique(y[:, k]).tolist()) <= set(tv[k]), '%s: labels of target %d',
                        name, k)


def run(c, ctx):
    name, kw = c['gen']
    total = sum(o for o in c['ops'] if isinstance(o, int))
    if total == 0:
        return False
    ref, kw = gens.make(name, kw)
    finite = name in gens.FINITE
    if finite:
        total = min(total, ref.n_samples)
    RX, Ry = ref.next_sample(total)
    RX, Ry = np.array(RX), np.array(Ry)
    check_schema(ref, name, RX, Ry, total)
    require(len(ref.feature_names) == ref.n_features, '%s: %d feature names for %d features', name,
            len(ref.feature_names), ref.n_features)
    if name not in ('LEDGenerator', 'LEDGeneratorDrift'):
        require(len(ref.target_names) == ref.n_targets, '%s: target names %s', name,
                ref.target_names)
    s, _ = gens.make(name, kw)
    other = gens.make(name, dict(kw, **{k: v + 1 for k, v in kw.items() if 'random' in k}))[0] \
        if c['same'] else gens.make(*c['other'])[0]
    k, last, kept, inter = 0, None, [], False
    for op in c['ops']:
        if finite:
            require(s.n_remaining_samples() == s.n_samples - k, '%s: n_remaining %s after %d of %d',
                    name, s.n_remaining_samples(), k, s.n_samples)
            require(bool(s.has_more_samples()) == (k < s.n_samples),
                    '%s: has_more_samples %s after %d of %d', name, s.has_more_samples(), k,
                    s.n_samples)
        else:
            require(s.n_remaining_samples() == -1 and s.has_more_samples() is True,
                    '%s is unbounded', name)
        if op == 'restart':
            s.restart()
            k, last = 0, None
            g = s.last_sample()
            require(g[0] is None and g[1] is None, '%s: last_sample after a restart is %s', name, g)
        elif op == 'last':
            if last is not None:
                g = s.last_sample()
                require(np.array_equal(g[0], last[0]) and np.array_equal(g[1], last[1]),
                        '%s: last_sample is not the last batch', name)
        elif op == 'other':
            other.next_sample(2)
            inter = True
        elif op == 'fresh_other':
            o = c['gen'][0] if c['same'] else c['other'][0]
            okw = dict(kw) if c['same'] else c['other'][1]
            gens.make(o, dict(okw, **{q: v + 7 for q, v in okw.items() if 'random' in q}))
            inter = True
        elif op == 'global':
            np.random.rand(3)
        else:
            n = op
            if finite:
                n = min(op, s.n_samples - k)
                if n <= 0:
                    continue
            st0 = np.random.get_state()
            X, y = s.next_sample(n)
            st1 = np.random.get_state()
            require(st0[2] == st1[2] and np.array_equal(st0[1], st1[1]),
                    '%s: a seeded generator changed the global random state', name)
            check_schema(s, name, X, y, n)
            require(np.array_equal(X, RX[k:k + n]) and np.array_equal(y, Ry[k:k + n]),
                    '%s: rows %d..%d are not those of an identical instance read in one batch',
                    name, k, k + n)
            last = (np.array(X), np.array(y))
            kept.append((X, y, last))
            k += n
    for X, y, (cx, cy) in kept:
        require(np.array_equal(X, cx) and np.array_equal(y, cy), '%s: a batch already delivered '
                'was modified', name)
    ctx.label(name)
    if finite:
        left = s.n_samples - k
        if left:
            X, y = s.next_sample(left)
            require(len(X) == left and len(y) == left, '%s: %d of the last %d rows delivered', name, len(X), left)
            check_schema(s, name, X, y, left)
        X, y = s.next_sample(2)
        require((X is None or len(X) == 0) and (y is None or len(y) == 0) and not s.has_more_samples(),
                '%s: rows delivered after the end', name)
    # a generator rebuilt from its own reported parameters is the same generator
    twin = type(s)(**s.get_params())
    X, y = twin.next_sample(total)
    require(np.array_equal(X, RX) and np.array_equal(y, Ry),
            '%s rebuilt from get_params() produces another sequence', name)
    return len(kept) > 1 or inter


def run_seed(c, ctx):
    """distinct seeds give distinct sequences (the seed is actually used)"""
    name, kw = c['gen']
    a, kw = gens.make(name, kw)
    key = sorted(k for k in kw if 'random' in k)[-1 if c['which'] else 0]
    b, _ = gens.make(name, dict(kw, **{key: kw[key] + 1 + c['d']}))
    n = 30
    X, y = a.next_sample(n)
    Z, v = b.next_sample(n)
    if name == 'RandomTreeGenerator' and key == 'tree_random_state' or \
            name.startswith('RandomRBF') and key == 'model_random_state':
        return False          # the sample seed alone may already fix the rows
    if name == 'STAGGERGenerator' or name == 'RandomTreeGenerator' and kw['n_num_features'] == 0:
        X, y = a.next_sample(60)
        Z, v = b.next_sample(60)
    if name == 'AnomalySineGenerator' and kw['noise'] == 0:
        return False
    require(not np.array_equal(X, Z), '%s ignores %s', name, key)
    return True


REFUSE = {'AGRAWALGenerator': (('classification_function', [-1, 10]), ('balance_classes', ['no', 2]),
                               ('perturbation', [-0.1, 1.1, 2.0, -3.0])),
          'HyperplaneGenerator': (('noise_percentage', [-0.1, 1.1]), ('mag_change', [-0.1, 1.1]),
                                  ('sigma_percentage', [-0.1, 1.1])),
          'LEDGenerator': (('noise_percentage', [-0.1, 1.1]), ('has_noise', ['no', 2])),
          'LEDGeneratorDrift': (('noise_percentage', [-0.1, 1.1]), ('has_noise', ['no', 2])),
          'MIXEDGenerator': (('classification_function', [-1, 2, 5]), ('balance_classes', ['no', 2])),
          'SEAGenerator': (('classification_function', [-1, 4]), ('balance_classes', ['no', 2]),
                           ('noise_percentage', [-0.1, 1.1])),
          'SineGenerator': (('classification_function', [-1, 4]), ('balance_classes', ['no', 2]), ('has_noise', ['no', 2])),
          'STAGGERGenerator': (('classification_function', [-1, 3]), ('balance_classes', ['no', 2])),
          'WaveformGenerator': (('has_noise', ['no', 2]),),
          'AnomalySineGenerator': (('n_anomalies', [1000]),)}


def run_refuse(c, ctx):
    name, kw = c['gen']
    if name not in REFUSE:
        return False
    options = [(k, v) for k, vs in REFUSE[name] for v in vs]
    k, v = options[c['i'] % len(options)]
    gens.make(name, kw)
    try:
        gens.make(name, dict(kw, **{k: v}))
    except ValueError:
        return True
    require(False, '%s accepts %s=%r', name, k, v)


def run_logical(c, ctx):
    from skmultiflow.data import make_logical
    X, Y = make_logical(c['n'], random_state=c['seed'])
    X2, Y2 = make_logical(c['n'], random_state=c['seed'])
    require(X.shape == (4 * c['n'], 2) and Y.shape == (4 * c['n'], 3), 'make_logical: shapes %s %s', X.shape, Y.shape)
    require(np.array_equal(X, X2) and np.array_equal(Y, Y2), 'make_logical is not reproducible')
    a, b = X[:, 0].astype(int), X[:, 1].astype(int)
    require(np.array_equal(Y, np.column_stack([a | b, a ^ b, a & b])), 'make_logical: targets are not or, xor, and')
    require(sorted(map(tuple, X.tolist())) == sorted([(0., 0.), (0., 1.), (1., 0.), (1., 1.)] * c['n']),
            'make_logical: input patterns are not equally frequent')
    return c['n'] > 1


SUBS = [
    Sub('history', case_s, run, n=1200, thorough=24000,
        rule='several batches, or other generators used in between'),
    Sub('seed_used', st.fixed_dictionaries(dict(gen=gens.any_config(), which=st.booleans(),
                                                d=st.integers(0, 99))), run_seed, n=240,
        rule='rows compared for two seeds'),
    Sub('refuse', st.fixed_dictionaries(dict(gen=gens.any_config(sorted(REFUSE)), i=st.integers(0, 20))), run_refuse, n=200,
        thorough=2000, rule='a parameter outside its domain was passed'),
    Sub('logical', st.fixed_dictionaries(dict(n=st.integers(1, 8), seed=st.integers(0, 10 ** 6))), run_logical, n=40,
        thorough=400, rule='patterns repeated'),
]
