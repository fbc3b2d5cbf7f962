"""Numeric, dictionary, validation and file helpers against plain definitions."""
import copy
import fractions
import math
import os
import shutil
import sys
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vp.engine import Skip, Sub, require, require_close, rng_of, short
from vp.gen import seeds

PROP = 'C39'
SCALE = 3
META = dict(
    title='Shared helpers compute what their names say',
    statement='For all inputs: normal_probability, error_function and its complement equal the normal distribution '
              'function and erf to machine precision over the whole range, increase and stay in range. GaussianEstimator '
              'equals the weighted mean, sample variance and density of its observations, and splits their weight below, at '
              'and above a value accordingly. Dictionary helpers normalise, add and find the maximum exactly, and leave '
              'their arguments alone unless asked to work in place. get_dimensions gives rows and columns of '
              'arrays and lists; check_weights repeats single weights and passes lists through, rejecting '
              'everything else; check_random_state seeds reproducibly and passes generators through; object sizes count '
              'every reachable object once; delays shift time stamps; header cleaning keeps exactly the lines '
              'that do not start with the ignored character; the generation speed evaluator draws whole batches from the '
              'stream, as many as fit into n_samples and into the samples remaining, and returns that stream.',
    quantifier=dict(over=['inputs'], text='all numbers, dictionaries, nested containers, weights, seeds and files'),
    why_tests_cant='Tests evaluate each helper at one or two fixed points; the numeric functions have none.',
    anchors=dict(files=['src/skmultiflow/utils/statistics.py', 'src/skmultiflow/utils/utils.py',
                        'src/skmultiflow/utils/validation.py', 'src/skmultiflow/utils/file_scripts.py',
                        'src/skmultiflow/trees/gaussian_estimator.py',
                        'src/skmultiflow/evaluation/evaluate_stream_gen_speed.py'],
                 mechanism=[dict(name='normal distribution', where='normal_probability'),
                            dict(name='running Gaussian', where='GaussianEstimator'),
                            dict(name='dictionaries', where='normalize_values_in_dict, add_dict_values'),
                            dict(name='files', where='clean_header')]),
    technique='PBT: differential against math.erf, exact arithmetic and plain definitions',
)
ASSUMPTIONS = ['object sizes: containers of Python objects (elements of numpy arrays are temporary objects)']

finite = st.floats(-1e6, 1e6, allow_nan=False)


def run_normal(c, ctx):
    from skmultiflow.utils import statistics as S
    a = c['a']
    require_close(S.error_function(a), math.erf(a), 'erf(%r)' % a, rtol=1e-13, atol=1e-15)
    require_close(S.error_function_complemented(a), math.erfc(a), 'erfc(%r)' % a, rtol=1e-11 if abs(a) < 8 else 1e-9,
                  atol=1e-300)
    want = math.erfc(-a / math.sqrt(2)) / 2
    got = S.normal_probability(a)
    require_close(got, want, 'normal_probability(%r)' % a, rtol=1e-11 if abs(a) < 10 else 1e-9, atol=1e-300)
    require(0.0 <= got <= 1.0, 'normal_probability(%r) = %r', a, got)
    b = a + c['gap']
    require(S.normal_probability(b) >= got - 1e-15, 'normal_probability falls from %r at %r to %r at %r', got, a,
            S.normal_probability(b), b)
    require_close(got + S.normal_probability(-a), 1.0, 'normal_probability(%r) + normal_probability(-%r)' % (a, a), rtol=1e-13)
    ctx.label('tail' if abs(a) > 5 else 'middle' if abs(a) > 1 else 'centre')
    return abs(a) > 1e-3


def run_gauss(c, ctx):
    from skmultiflow.trees.gaussian_estimator import GaussianEstimator
    g = GaussianEstimator()
    vs, ws = [], []
    for i, (v, w) in enumerate(c['obs']):
        if c['odd'] == i:
            g.add_observation(math.inf if i % 2 else None, w)       # ignored
        v = float(v) * c['scale'] + c['shift']
        g.add_observation(v, float(w))
        vs.append(v)
        ws.append(float(w))
    F = fractions.Fraction
    W = sum(map(F, ws))
    if not vs:
        require(g.get_total_weight_observed() == 0 and g.probability_density(1.0) == 0, 'an empty estimator has weight')
        return False
    mean = sum(F(v) * F(w) for v, w in zip(vs, ws)) / W
    ss = sum(F(w) * (F(v) - mean) ** 2 for v, w in zip(vs, ws))
    var = ss / (W - 1) if W > 1 else F(0)
    size = max(abs(v) for v in vs) + 1e-300
    require_close(g.get_total_weight_observed(), float(W), 'weight', rtol=1e-12)
    require_close(g.get_mean(), float(mean), 'mean of %s' % short(vs), rtol=1e-9, atol=1e-12 * size)
    require_close(g.get_variance(), float(var), 'variance of %s with weights %s' % (short(vs), short(ws)), rtol=1e-6,
                  atol=1e-12 * size * size)
    require_close(g.get_std_dev(), math.sqrt(g.get_variance()), 'standard deviation', rtol=1e-12)
    q = float(mean) + c['q'] * (math.sqrt(float(var)) or size)
    const = len(set(vs)) == 1
    if not const and float(var) < 1e-10 * size * size:
        return False
    if const and c['q'] == 0:
        q = vs[0]
    m, s, w = g.get_mean(), g.get_std_dev(), float(W)
    if s > 0:
        dens = math.exp(-((q - m) / s) ** 2 / 2) / (math.sqrt(2 * math.pi) * s)
        below = math.erfc(-(q - m) / s / math.sqrt(2)) / 2 * w      # at most q
    elif const or W <= 1:
        dens = 1.0 if q == m else 0.0
        below = w if q >= m else 0.0
    else:
        return False
    require_close(g.probability_density(q), dens, 'density at %r (mean %r, deviation %r)' % (q, m, s), rtol=1e-9, atol=1e-300)
    lt, eq, gt = g.estimated_weight_lessthan_equalto_greaterthan_value(q)
    require_close(eq, dens * w, 'weight at %r' % q, rtol=1e-9, atol=1e-300)
    tol = 1e-9 * (w + eq)
    require_close(lt + eq, below, 'weight up to %r of %s' % (q, short(vs)), rtol=1e-9, atol=tol)
    require_close(gt, w - below, 'weight above %r of %s' % (q, short(vs)), rtol=1e-9, atol=tol)
    ctx.label('constant' if const else 'spread')
    return len(vs) > 1


keys = st.one_of(st.integers(-3, 9), st.sampled_from(['a', 'b', 'c']))
dicts = st.dictionaries(keys, st.one_of(st.integers(-20, 20), st.floats(-50, 50)), max_size=6)


def run_dict(c, ctx):
    from skmultiflow.utils import add_dict_values, get_max_value_key, normalize_values_in_dict
    a, b, factor, inplace = dict(c['a']), dict(c['b']), c['factor'], c['inplace']
    a0, b0 = dict(a), dict(b)
    f = sum(a.values()) if factor is None else factor
    if f == 0 or math.isnan(f):
        try:
            normalize_values_in_dict(a, factor=factor, inplace=inplace)
            require(False, 'normalised %s by %r', a0, f)
        except ValueError:
            require(a == a0, 'the failed normalisation changed %s to %s', a0, a)
    else:
        out = normalize_values_in_dict(a, factor=factor, inplace=inplace)
        require(set(out) == set(a0), 'keys %s of %s', set(out), a0)
        for k in a0:
            require_close(out[k], a0[k] / f, 'normalised value of %r' % k, rtol=1e-12)
        require((out is a) == inplace and (inplace or a == a0), 'inplace=%s: argument %s, was %s', inplace, a, a0)
    a = dict(a0)
    out = add_dict_values(a, b, inplace=inplace)
    require(b == b0, 'the second argument changed from %s to %s', b0, b)
    require((out is a) == inplace and (inplace or a == a0), 'add_dict_values inplace=%s: argument %s, was %s', inplace, a, a0)
    want = {k: a0.get(k, 0) + b0.get(k, 0) for k in list(a0) + list(b0)}
    require(out == want, '%s plus %s is %s', a0, b0, out)
    k = get_max_value_key(a0)
    if not a0:
        require(k == 0, 'maximum of nothing is at %r', k)
    else:
        require(k in a0 and a0[k] == max(a0.values()), 'maximum of %s is said to be at %r', a0, k)
    return len(a0) > 1 and len(b0) > 0


def run_valid(c, ctx):
    from skmultiflow.utils import check_random_state, check_weights, get_dimensions, is_scalar_nan, add_delay_to_timestamps
    warnings.simplefilter('ignore')
    r = rng_of(c['seed'])
    n, m = c['rows'], c['cols']
    M = r.randn(n, m)
    require(get_dimensions(M) == (n, m), 'dimensions of an array: %s', get_dimensions(M))
    require(get_dimensions(M.tolist()) == (n, m), 'dimensions of a list: %s', get_dimensions(M.tolist()))
    require(get_dimensions(M[0]) == (1, m) and get_dimensions(M[0].tolist()) == (1, m), 'dimensions of a row')
    # weights
    w = c['w']
    got = check_weights(w, expand_length=n)
    require(isinstance(got, np.ndarray) and got.shape == (n,) and (got == float(w)).all(), 'check_weights(%r, %d) = %s', w, n,
            got)
    ws = [float(v) for v in r.rand(n + 1)]
    require(check_weights(list(ws)) == ws, 'weights in a list changed')
    got = check_weights(np.array(ws))
    require(np.array_equal(got, ws), 'weights in an array changed: %s', got)
    ints = r.randint(0, 5, n + 1)
    require(np.array_equal(check_weights(ints), ints), 'integer weights changed')
    bad = [('x', 1), (ws + ['x'], 1), (list(ws), n + 2), (np.array(ws), n + 2), (w, 0), (w, -n), (None, 1), ({1: 2.0}, 1),
           (np.array(['a', 'b']), 1)][c['bad']]
    try:
        got = check_weights(bad[0], expand_length=bad[1])
        require(False, 'check_weights(%r, %d) = %r', bad[0], bad[1], got)
    except ValueError:
        pass
    # random states
    s = c['rs']
    a, b = check_random_state(s), check_random_state(np.int64(s))
    require(np.array_equal(a.rand(5), np.random.RandomState(s).rand(5)), 'seed %d gives another sequence', s)
    require(np.array_equal(b.rand(5), np.random.RandomState(s).rand(5)), 'seed np.int64(%d) gives another sequence', s)
    require(check_random_state(a) is a, 'a generator is replaced')
    np.random.seed(s % 2 ** 32)
    x = check_random_state(None).rand(3)
    np.random.seed(s % 2 ** 32)
    require(np.array_equal(x, np.random.rand(3)), 'None is not the global generator')
    for v in (2.5, 'seed', [1]):
        try:
            check_random_state(v)
            require(False, 'check_random_state(%r) is accepted', v)
        except ValueError:
            pass
    for v, want in ((float('nan'), True), (np.nan, True), (np.float32('nan'), True), (w, False), ('nan', False), (None, False),
                    ([float('nan')], False)):
        require(is_scalar_nan(v) is want, 'is_scalar_nan(%r) is %s', v, is_scalar_nan(v))
    # time stamps
    t = np.array(['2020-01-01', '1999-12-31', '2024-02-29'], dtype='datetime64[D]')
    d = np.timedelta64(c['days'], 'D')
    got = add_delay_to_timestamps(t, d)
    require(np.array_equal(np.asarray(got, dtype='datetime64[D]'), t + d) and t[0] == np.datetime64('2020-01-01'),
            'delayed by %s: %s', d, got)
    return n > 1


class Box:
    pass


def run_size(c, ctx):
    from skmultiflow.utils import calculate_object_size
    r = rng_of(c['seed'])
    pool = []

    def build(depth):
        if pool and r.rand() < c['share']:
            return pool[r.randint(len(pool))]
        k = r.randint(0, 7) if depth > 0 else r.randint(0, 3)
        if k == 0:
            out = 10 ** 9 + int(r.randint(10 ** 6))
        elif k == 1:
            out = 'text-%d' % r.randint(10 ** 6)
        elif k == 2:
            out = float(r.rand())
        else:
            kids = [build(depth - 1) for _ in range(r.randint(0, 4))]
            if k == 3:
                out = list(kids)
            elif k == 4:
                out = tuple(kids)
            elif k == 5:
                out = {'key-%d' % r.randint(10 ** 6): v for v in kids}
            else:
                out = Box()
                for i, v in enumerate(kids):
                    setattr(out, 'att%d' % i, v)
        pool.append(out)
        return out

    root = [build(4), build(4)]
    if c['cycle']:
        root.append(root)
    seen = {}

    def visit(o):
        if id(o) in seen:
            return
        seen[id(o)] = o
        if isinstance(o, dict):
            for k, v in o.items():
                visit(k)
                visit(v)
        elif isinstance(o, (list, tuple)):
            for v in o:
                visit(v)
        elif isinstance(o, Box):
            visit(o.__dict__)

    visit(root)
    want = sum(sys.getsizeof(o) for o in list(seen.values()))
    got = calculate_object_size(root)
    require(got == want, 'size %r, but the %d objects have %r bytes', got, len(seen), want)
    for unit, div in (('kB', 1024), ('MB', 2 ** 20), ('byte', 1)):
        require_close(calculate_object_size(root, unit), want / div, 'size in %s' % unit, rtol=1e-12)
    return len(seen) > 5


def run_header(c, ctx):
    from skmultiflow.utils.file_scripts import RemoveHeader, clean_header
    lines = list(c['lines'])
    text = '\n'.join(lines) + ('\n' if c['end'] and lines else '')
    d = tempfile.mkdtemp(prefix='c39')
    try:
        src = os.path.join(d, 'in.v1.csv')
        with open(src, 'w') as f:
            f.write(text)
        dst = os.path.join(d, 'out.txt') if c['named'] else None
        ch = c['char']
        if c['obj']:
            RemoveHeader(src, dst, ignore_char=ch).clean_file()
        else:
            clean_header(src, dst, ignore_char=ch)
        out = dst or os.path.join(d, 'in.v1_no_header.csv')
        require(os.path.exists(out), 'no file %s, but %s', os.path.basename(out), sorted(os.listdir(d)))
        want = ''.join(p for p in text.splitlines(True) if p[0] != ch)
        require(open(out).read() == want, 'cleaned %r of %r, ignoring %r; expected %r', open(out).read(), text, ch, want)
        require(open(src).read() == text, 'the source file changed')
        return want != text and bool(want)
    finally:
        shutil.rmtree(d)


def run_speed(c, ctx):
    import logging
    from skmultiflow.data import DataStream, SEAGenerator
    from skmultiflow.evaluation.evaluate_stream_gen_speed import EvaluateStreamGenerationSpeed
    n, skip, total, b = c['n'], c['skip'], c['total'], c['batch']
    if c['endless']:
        stream = SEAGenerator(random_state=c['seed'] % 1000)
        other = SEAGenerator(random_state=c['seed'] % 1000)
    else:
        X = np.arange(n * 2, dtype=float).reshape(n, 2)
        stream = DataStream(X, np.arange(n) % 2)
        if skip:
            stream.next_sample(skip)
    calls = []
    real = stream.next_sample

    def spy(batch_size=1):
        calls.append(batch_size)
        return real(batch_size)
    stream.next_sample = spy
    ev = EvaluateStreamGenerationSpeed(n_samples=total + 1 if c['later'] else total, batch_size=b)
    if c['later']:
        ev.set_params(dict(n_samples=total))
    root = logging.getLogger()
    level, had = root.level, list(root.handlers)
    logging.disable(logging.CRITICAL)
    try:
        require(ev.evaluate(stream) is stream, 'evaluate does not return the stream')
    finally:
        logging.disable(logging.NOTSET)
        root.setLevel(level)
        for h in list(root.handlers):
            if h not in had:
                root.removeHandler(h)
    k = total // b if c['endless'] else min(total, n - skip) // b
    require(calls == [b] * k, 'drew batches %s, expected %d of %d samples', calls[:9], k, b)
    if c['endless']:
        if k:
            other.next_sample(k * b)
        require(np.array_equal(real(3)[0], other.next_sample(3)[0]), 'the stream is not %d samples on', k * b)
    else:
        require(stream.n_remaining_samples() == n - skip - k * b, '%d samples remain, expected %d',
                stream.n_remaining_samples(), n - skip - k * b)
    for part in ('n_samples: %d' % total, 'batch_size: %d' % b):
        require(part in ev.get_info(), '%r not in %r', part, ev.get_info())
    return k > 0


line = st.text('ab,1 #%@', max_size=6)
SUBS = [
    Sub('normal', st.fixed_dictionaries(dict(
        a=st.one_of(st.floats(-9, 9), st.floats(-40, 40), st.sampled_from([0.0, 1.0, -1.0, 8.0, -8.0, 26.0, -27.0, 1e10, -1e10])),
        gap=st.floats(1e-9, 3))), run_normal, 3000, thorough=60000, rule='not at the centre'),
    Sub('gauss', st.fixed_dictionaries(dict(
        obs=st.lists(st.tuples(st.integers(-9, 9), st.sampled_from([1, 1, 2, 0.5, 3.5])), max_size=12),
        scale=st.sampled_from([1.0, 0.01, 100.0, 0.0]), shift=st.sampled_from([0.0, 5.0, -3.5]),
        q=st.sampled_from([0.0, 0.5, -0.5, 2.0, -2.0, 6.0, -6.0]), odd=st.integers(0, 12))), run_gauss, 3000, thorough=30000,
        rule='two or more observations'),
    Sub('dicts', st.fixed_dictionaries(dict(a=dicts, b=dicts, factor=st.one_of(st.none(), st.sampled_from(
        [0, 1, -2.5, 7, float('nan')])), inplace=st.booleans())).map(lambda c: dict(c, a=list(c['a'].items()),
                                                                                    b=list(c['b'].items()))),
        run_dict, 1500, thorough=15000, rule='two keys and something to add'),
    Sub('validation', st.fixed_dictionaries(dict(
        seed=seeds, rows=st.integers(1, 6), cols=st.integers(1, 5), w=st.one_of(st.integers(0, 9), st.floats(0, 9)),
        bad=st.integers(0, 8), rs=st.integers(0, 2 ** 32 - 1), days=st.integers(-500, 500))), run_valid, 600, thorough=5000,
        rule='more than one row'),
    Sub('sizes', st.fixed_dictionaries(dict(seed=seeds, share=st.sampled_from([0.0, 0.2, 0.5]), cycle=st.booleans())), run_size,
        600, thorough=5000, rule='more than five objects'),
    Sub('headers', st.fixed_dictionaries(dict(
        lines=st.lists(line, max_size=8), end=st.booleans(), named=st.booleans(), char=st.sampled_from(['#', '%', '@', 'a']),
        obj=st.booleans())), run_header, 600, thorough=5000, rule='some lines are dropped and some kept'),
    Sub('speed', st.fixed_dictionaries(dict(
        n=st.integers(10, 60), skip=st.integers(0, 9), total=st.integers(1, 80), batch=st.integers(1, 12), endless=st.booleans(),
        later=st.booleans(), seed=seeds)), run_speed, 300, thorough=3000, rule='something was drawn'),
]
