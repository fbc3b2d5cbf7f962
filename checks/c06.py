"""ADWIN: adaptive window accounting and cut decisions."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close, rng_of
from vp.gen import segments, seeds, values

PROP = 'C06'
SCALE = 2
META = dict(
    title='ADWIN keeps an exact account of a suffix of the stream and cuts only on evidence',
    statement='At every point of every history, the adaptive windowing detector describes exactly '
              'the most recent elements it was given: its width, total and mean are those of a '
              'suffix of the input (its variance too, until the first cut). A change is reported '
              'exactly when the window shrinks, and it shrinks, whole oldest buckets at a time and '
              'only at its periodic check, if and only if two parts of the window of at least five '
              'elements differ in mean by more than the bound set by the confidence parameter. '
              'Resetting it makes it behave like a new detector with the same confidence.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all real-valued streams, all confidence values, all interleavings of '
                         'adding, checking, changing the clock and resetting'),
    why_tests_cant='Tests look at detection indices of one stream; the accounting and the cut rule '
                   'must hold for every stream and every bucket configuration.',
    anchors=dict(files=['src/skmultiflow/drift_detection/adwin.py'],
                 mechanism=[dict(name='bucket histogram and cut test',
                                 where='ADWIN.add_element, detected_change, delete_element')]),
    technique='model-based PBT: generated piecewise streams and call histories against a '
              'reference exponential-histogram model and the raw suffix of the stream',
)


class Model:
    """Exponential histogram: rows[i] holds buckets (total, var) of 2**i elements,
    oldest first.  Five buckets per row; the two oldest of an overfull row merge."""

    def __init__(self, delta):
        self.delta = delta
        self.rows = [[]]
        self.w, self.total, self.var = 0, 0.0, 0.0
        self.calls, self.clock, self.n_det = 0, 32, 0
        self.margin = math.inf
        self.cut_once = False

    def add(self, v):
        if self.w:
            mean = self.total / self.w
            self.var += self.w * (v - mean) ** 2 / (self.w + 1)
        self.w += 1
        self.total += v
        self.rows[0].append((v, 0.0))
        i = 0
        while len(self.rows[i]) > 5:
            if i + 1 == len(self.rows):
                self.rows.append([])
            (a, va), (b, vb) = self.rows[i][0], self.rows[i][1]
            n = 2 ** i
            self.rows[i + 1].append((a + b, vb + n * n * (a / n - b / n) ** 2 / (2 * n)))
            self.rows[i] = self.rows[i][2:]
            i += 1

    def drop_oldest(self):
        i = len(self.rows) - 1
        t, v = self.rows[i].pop(0)
        n = 2 ** i
        self.w -= n
        self.total -= t
        self.var -= v + n * self.w * (t / n - self.total / self.w) ** 2 / (n + self.w)
        if not self.rows[i]:
            self.rows.pop()
        self.cut_once = True

    def check(self):
        self.calls += 1
        change = False
        if self.calls % self.clock or self.w <= 10:
            return False
        again = True
        while again:
            again = False
            n0, t0 = 0, 0.0
            for i in reversed(range(len(self.rows))):
                # the newest bucket of each row stays with the recent part
                for t, _ in self.rows[i][:-1]:
                    n0 += 2 ** i
                    t0 += t
                    n1, t1 = self.w - n0, self.total - t0
                    if n0 < 5 or n1 < 5:
                        continue
                    dd = math.log(2 * math.log(self.w) / self.delta)
                    m = 1 / (n0 - 4) + 1 / (n1 - 4)
                    v = 2 * m * (self.var / self.w) * dd
                    if v < 0:
                        self.margin = 0   # undefined bound: rounding below zero variance
                        continue
                    eps = math.sqrt(v) + 2 / 3 * dd * m
                    d = abs(t0 / n0 - t1 / n1)
                    self.margin = min(self.margin, abs(d - eps))
                    if d > eps:
                        again = change = True
                        self.drop_oldest()
                        break
                if again:
                    break
        if change:
            self.n_det += 1
        return change


ops_extra = st.lists(st.tuples(st.integers(0, 1200), st.sampled_from(
    ['reset', 'clock', 'skip', 'recheck']), st.sampled_from([1, 2, 5, 16, 32, 50])), max_size=3)

case_s = st.fixed_dictionaries(dict(
    segs=segments(500, 5), seed=seeds, scale=st.sampled_from([1.0, 1.0, 1.0, 10.0, 0.01, -1.0]),
    delta=st.sampled_from([1e-5, 0.002, 0.002, 0.05, 0.3, 0.9, 1.0]), ops=ops_extra))


long_s = st.fixed_dictionaries(dict(
    parts=st.lists(st.tuples(st.integers(300, 6000), st.sampled_from([0.0, 0.02, 0.1, 0.3, 1.0]),
                             st.sampled_from(['bit', 'noise', 'const'])), min_size=1, max_size=4),
    seed=seeds, scale=st.sampled_from([1.0, 1.0, 3.0]),
    delta=st.sampled_from([0.002, 0.002, 0.002, 1e-4, 0.05, 0.3]),
    ops=st.lists(st.tuples(st.integers(0, 3000), st.just('clock'), st.sampled_from([7, 64])),
                 max_size=1)))
short_s = st.fixed_dictionaries(dict(
    old=st.integers(5, 20), new=st.integers(1, 14), seed=seeds, sd=st.sampled_from([0.0, 0.05, 0.3]),
    delta=st.sampled_from([0.3, 0.9, 1.0, 1.0]), scale=st.sampled_from([1.0, 30.0, 1000.0]),
    back=st.integers(0, 10), dips=st.lists(st.integers(1, 4), max_size=3),
    clock=st.sampled_from([1, 1, 15, 14])))


def run_long(c, ctx):
    r = rng_of(c['seed'])
    xs = []
    for n, level, kind in c['parts']:
        xs += ((r.rand(n) < level).astype(float) if kind == 'bit' else
               level + 0.05 * r.randn(n) * (kind == 'noise')).tolist()
    run(dict(c, xs=xs[:14000]), ctx)
    return len(xs) > 2000


def run_short(c, ctx):
    r = rng_of(c['seed'])
    lv = np.concatenate([np.zeros(c['old']), np.ones(c['new']), np.zeros(c['back'])])
    if c['dips']:       # rise, dip and rise again inside the smallest window that is checked
        lv = np.concatenate([np.zeros(8)] + [np.full(k, (i + 1) % 2.0)
                                             for i, k in enumerate(c['dips'])])
    xs = (lv + c['sd'] * r.randn(len(lv))).tolist()
    run(dict(c, xs=xs, ops=[(0, 'clock', c['clock'])]), ctx)
    return True


def run(c, ctx):
    from skmultiflow.drift_detection import ADWIN
    xs = [v * c['scale'] for v in (c['xs'] if 'xs' in c else values(c['segs'], c['seed']))]
    a = ADWIN(delta=c['delta'])
    m = Model(c['delta'])
    ops = {}
    for at, op, arg in c['ops']:
        ops.setdefault(at, []).append((op, arg))
    hist = []
    cuts = 0
    skip = 0
    scale = max(1.0, max(abs(x) for x in xs))
    for i, x in enumerate(xs):
        n_check = 1
        for op, arg in ops.get(i, ()):
            if op == 'reset':
                a.reset()
                m = Model(c['delta'])
                hist = []
            elif op == 'clock':
                a.set_clock(arg)
                m.clock = arg
            elif op == 'skip':
                skip = arg
            else:
                n_check = arg
        a.add_element(x)
        m.add(x)
        hist.append(x)
        if skip:
            skip -= 1
            n_check = 0
        for _ in range(n_check):
            before = a.width
            r = a.detected_change()
            e = m.check()
            if m.margin < 1e-6 * scale:
                ctx.label('near-threshold')
                return False      # the decision is within rounding error: undecidable
            require(bool(r) == e, 'element %d: change reported %s, expected %s', i, r, e)
            require((a.width < before) == e, 'element %d: width %s -> %s but change=%s',
                    i, before, a.width, r)
            require(bool(a.get_change()) == e, 'element %d: get_change() is %s after a check '
                    'that reported %s', i, a.get_change(), r)
            require(bool(a.in_concept_change) == e, 'element %d: in_concept_change is %s after '
                    'a check that reported %s', i, a.in_concept_change, r)
            cuts += e
            if e:
                ctx.label('cut')
        require(a.width == m.w, 'element %d: width %s expected %s', i, a.width, m.w)
        require(a.n_detections == m.n_det, 'element %d: %s detections, expected %s', i,
                a.n_detections, m.n_det)
        if i == len(xs) - 1 or i % (7 if not cuts else 3) == 0 and (i < 2500 or i % 101 == 0):
            w = hist[-int(a.width):]
            tol = 1e-9 * scale * (len(hist) + 10)
            require_close(a.total, sum(w), 'total after %d' % i, atol=tol)
            require_close(a.estimation, np.mean(w), 'mean after %d' % i, atol=tol)
            if not m.cut_once:
                require_close(a.variance, np.var(w), 'variance after %d' % i, rtol=1e-6,
                              atol=1e-9 * scale * scale * 10)
            require_close(a.variance, m.var / m.w, 'tracked variance after %d' % i, rtol=1e-6,
                          atol=1e-8 * scale * scale)
    return cuts > 0 or m.w > 300


def run_variance(c, ctx):
    """known finding: the variance of the window after a cut"""
    from skmultiflow.drift_detection import ADWIN
    a = ADWIN()
    xs = [0, 1] * c['n'] + [c['v']] * c['n']
    for x in xs:
        a.add_element(x)
        a.detected_change()
    w = xs[-int(a.width):]
    require(a.n_detections > 0, 'no cut')
    require_close(a.variance, np.var(w), 'variance after a cut', rtol=1e-6, atol=1e-9)


def run_prefix(c, ctx):
    """known finding: the two parts compared should be a prefix and a suffix of the window"""
    from skmultiflow.drift_detection import ADWIN
    a = ADWIN()
    a.set_clock(1)
    xs = [0.0] * c['a'] + [1.0] * c['b']
    for x in xs:
        a.add_element(x)
        changed = a.detected_change()
    n, w = len(xs), a.width
    if changed or w != n:
        return
    dd = math.log(2 * math.log(n) / 0.002)
    mm = 1 / (c['a'] - 4) + 1 / (c['b'] - 4)
    eps = math.sqrt(2 * mm * np.var(xs) * dd) + 2 / 3 * dd * mm
    require(1.0 <= eps, 'boundary at %d of %d: means differ by 1 > %g, no cut', c['a'], n, eps)


SUBS = [
    Sub('history', case_s, run, n=640, thorough=20000,
        rule='at least one cut happened or the window grew beyond 300 elements'),
    Sub('long', long_s, run_long, n=48, thorough=1500,
        rule='the stream has more than 2000 elements'),
    Sub('short', short_s, run_short, n=1200, thorough=40000,
        rule='every stream: a step inside the first few blocks, checked at every element'),
    Sub('variance_after_cut', st.nothing(), run_variance, n=0, thorough=0, shards=1,
        rule='known finding only'),
    Sub('prefix_split', st.nothing(), run_prefix, n=0, thorough=0, shards=1,
        rule='known finding only'),
]
ASSUMPTIONS = ['decisions within 1e-6 of the cut threshold are not judged',
               'the parts compared exclude the newest bucket of each histogram row from the old '
               'part (current behaviour, see known finding)']
