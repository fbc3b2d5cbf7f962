"""ConceptDriftStream: mixes two streams along a sigmoid."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, rng_of
from vp.gen import seeds

PROP = 'C04'
SCALE = 3
META = dict(
    title='A drift stream mixes its two sources row by row along the documented sigmoid',
    statement='Every row of a concept drift stream is the next unread row of one of its two source '
              'streams, features and targets together, none skipped, repeated or altered. The '
              'chance that the t-th row comes from the drift source is 1/(1+exp(-4(t-p)/w)) for '
              'position p and width w (w given directly or through the angle alpha), so it is the '
              'first source well before the drift and the second well after it. With a fixed seed '
              'the sequence does not depend on batch sizes, and a restart replays it.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all source streams, positions, widths, angles, seeds and request '
                         'schedules'),
    why_tests_cant='The test compares ten rows of one configuration; the mixing law is a '
                   'distribution over all configurations.',
    anchors=dict(files=['src/skmultiflow/data/concept_drift_stream.py'],
                 mechanism=[dict(name='mixing', where='ConceptDriftStream.next_sample'),
                            dict(name='replay', where='ConceptDriftStream.restart')]),
    technique='PBT with tagged source rows: subsequence oracle plus a 6-sigma test of the sigmoid '
              'over generated seeds, and replay/batch-split metamorphic relations',
)


def source(tag, n, t, f=2):
    from skmultiflow.data import DataStream
    X = np.zeros((n, f))
    X[:, 0] = tag
    X[:, 1:] = np.arange(n)[:, None]
    y = (np.arange(n)[:, None] * 10 + np.arange(t)[None, :]) * 2 + tag
    return DataStream(X, y if t > 1 else y[:, 0], name='src%d' % tag)


def build(c, n, seed, t=1):
    from skmultiflow.data import ConceptDriftStream
    kw = dict(position=c['position'], random_state=seed)
    if c.get('alpha') is not None:
        kw['alpha'] = c['alpha']
    else:
        kw['width'] = c['width']
    return ConceptDriftStream(source(0, n, t), source(1, n, t), **kw)


def width_of(c):
    if c.get('alpha') is not None:
        return max(1, int(1 / math.tan(c['alpha'] * math.pi / 180)))
    return c['width']


def check_rows(X, Y, pos, t):
    for x, y in zip(X, Y):
        tag = int(x[0])
        require(tag in (0, 1) and x[1] == pos[tag], 'row %s is not the next row of either source '
                '(expected index %s)', x.tolist(), pos)
        e = (pos[tag] * 10 + np.arange(t)) * 2 + tag
        require(np.array_equal(np.atleast_1d(y), e), 'row %s carries target %s, expected %s',
                x.tolist(), y, e)
        pos[tag] += 1


ops_s = st.lists(st.one_of(st.integers(1, 12), st.just('restart'), st.just('last')), min_size=1,
                 max_size=14)
cfg = dict(position=st.integers(1, 60), width=st.sampled_from([1, 1, 2, 5, 20, 100]),
           alpha=st.sampled_from([None, None, None, 90.0, 45.0, 10.0, 1.0, 0.6]))
seq_s = st.fixed_dictionaries(dict(cfg, seed=seeds, ops=ops_s, t=st.integers(1, 3)))


def run_seq(c, ctx):
    t = c['t']
    need = sum(o for o in c['ops'] if isinstance(o, int)) + 2
    s = build(c, need, c['seed'], t)
    require(s.n_features == 2 and s.n_targets == t, 'declared shape %s features, %s targets',
            s.n_features, s.n_targets)
    ref = build(c, need, c['seed'], t)
    RX, RY = ref.next_sample(need - 2) if need > 2 else (np.zeros((0, 2)), np.zeros(0))
    pos = [0, 0]
    check_rows(RX, RY, pos, t)
    k, last, restarted = 0, None, False
    for op in c['ops']:
        require(s.n_remaining_samples() == 2 * need - k, 'n_remaining %s after %d rows of 2x%d',
                s.n_remaining_samples(), k, need)
        require(s.has_more_samples(), 'has_more_samples False with rows left in both sources')
        if op == 'restart':
            s.restart()
            restarted |= k > 0
            k, last = 0, None
        elif op == 'last':
            if last is not None:
                g = s.last_sample()
                require(np.array_equal(g[0], last[0]) and np.array_equal(g[1], last[1]),
                        'last_sample %s, delivered %s', [np.asarray(v).tolist() for v in g],
                        [v.tolist() for v in last])
        else:
            X, y = s.next_sample(op)
            require(X.shape == (op, 2) and np.shape(y) == ((op,) if t == 1 else (op, t)),
                    'shapes %s %s for %d rows', X.shape, np.shape(y), op)
            require(np.array_equal(X, RX[k:k + op]) and np.array_equal(y, RY[k:k + op]),
                    'rows %d..%d differ from the same stream read in one batch', k, k + op)
            last = (X.copy(), y.copy())
            k += op
    if pos[0] and pos[1]:
        # sources that end exactly here
        from skmultiflow.data import ConceptDriftStream
        kw = dict(alpha=c['alpha']) if c.get('alpha') is not None else dict(width=c['width'])
        e = ConceptDriftStream(source(0, pos[0], t), source(1, pos[1], t), position=c['position'], random_state=c['seed'], **kw)
        for again in range(2):
            X, y = e.next_sample(need - 2)
            require(np.array_equal(X, RX) and np.array_equal(y, RY), 'sources read to their end%s: other rows',
                    ', after a restart' if again else '')
            require(not e.has_more_samples() and e.n_remaining_samples() == 0, 'sources at their end: %s samples remain',
                    e.n_remaining_samples())
            e.restart()
            require(e.n_remaining_samples() == pos[0] + pos[1] and e.has_more_samples(), 'restarted: %s samples remain',
                    e.n_remaining_samples())
    ctx.label('both sources' if pos[0] and pos[1] else 'one source')
    return bool(pos[0] and pos[1]) or restarted


stat_s = st.fixed_dictionaries(dict(cfg, seed=st.integers(0, 10 ** 6), pre=st.integers(0, 8)))


def run_stat(c, ctx):
    w, p = width_of(c), c['position']
    n = min(300, p + 3 * min(w, 60) + 5)
    R = 60
    hits = np.zeros(n)
    for k in range(R):
        s = build(c, n + 1, c['seed'] + 7919 * k)
        X, _ = s.next_sample(n)
        hits += X[:, 0]
    tt = np.arange(1, n + 1)
    x = np.clip(-4.0 * (tt - p) / w, -700, 700)
    pr = 1 / (1 + np.exp(x))
    # cumulative counts at several horizons, and point counts
    for name, obs, mu, var in (
            ('cumulative', np.cumsum(hits), np.cumsum(pr) * R, np.cumsum(pr * (1 - pr)) * R),
            ('point', hits, pr * R, pr * (1 - pr) * R)):
        bad = np.abs(obs - mu) > 6.5 * np.sqrt(var) + 3.5
        if bad.any():
            i = int(np.argmax(bad))
            require(False, '%s number of drift rows at t=%d over %d seeds: %g, expected %.2f '
                    '(sd %.2f)', name, i + 1, R, obs[i], mu[i], math.sqrt(var[i]))
    return True


def run_gen(c, ctx):
    """sources that are generators: same law of composition"""
    from skmultiflow.data import ConceptDriftStream, SEAGenerator, SineGenerator
    cls = {'sea': SEAGenerator, 'sine': SineGenerator}[c['kind']]

    def mk():
        a = cls(classification_function=0, random_state=c['s1'])
        b = cls(classification_function=2, random_state=c['s2'])
        return a, b
    a, b = mk()
    s = ConceptDriftStream(a, b, position=c['position'], width=c['width'],
                           random_state=c['seed'])
    ra, rb = mk()
    A, ya = ra.next_sample(40)
    B, yb = rb.next_sample(40)
    require(s.n_remaining_samples() == -1 and s.has_more_samples(), 'infinite sources')
    X, y = s.next_sample(40)
    i = j = 0
    for x, v in zip(X, y):
        if i < 40 and np.array_equal(x, A[i]) and v == ya[i]:
            i += 1
        elif np.array_equal(x, B[j]) and v == yb[j]:
            j += 1
        else:
            require(False, 'row %d is not the next row of either source', i + j)
    return i > 0 and j > 0


SUBS = [
    Sub('sequence', seq_s, run_seq, n=800, thorough=16000,
        rule='rows from both sources, or a restart after delivery'),
    Sub('sigmoid', stat_s, run_stat, n=48, thorough=1200, rule='always (60 seeds per case)'),
    Sub('generators', st.fixed_dictionaries(dict(
        kind=st.sampled_from(['sea', 'sine']), s1=st.integers(0, 999), s2=st.integers(1000, 1999),
        seed=seeds, position=st.integers(1, 40), width=st.sampled_from([1, 5, 30]))),
        run_gen, n=120, thorough=3000, rule='rows from both sources'),
]
ASSUMPTIONS = ['the mixing law is tested at 6.5 standard deviations plus 3.5 counts, so a false '
               'alarm has probability below 1e-9 per comparison']
