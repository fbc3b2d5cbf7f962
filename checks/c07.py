"""DDM, EDDM, Page-Hinkley against from-scratch definitions."""
import math

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close
from vp.gen import segments, seeds, values

PROP = 'C07'
SCALE = 3
META = dict(
    title='DDM, EDDM and Page-Hinkley signal exactly when their published test fires',
    statement='For every input history, the error-rate detector (DDM), the error-distance detector '
              '(EDDM) and the Page-Hinkley detector report drift and warning exactly when the test '
              'they document, evaluated on the elements seen since the last drift or reset and with '
              'the configured thresholds and minimum sizes, is met, and report their running '
              'estimate. They start over with the first element after a drift, and a reset detector '
              'is indistinguishable from a new one.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all error sequences / real-valued sequences, thresholds, minimum sizes, '
                         'and positions of resets'),
    why_tests_cant='Tests pin the detection indices of one or two seeded streams with default '
                   'thresholds.',
    anchors=dict(files=['src/skmultiflow/drift_detection/ddm.py',
                        'src/skmultiflow/drift_detection/eddm.py',
                        'src/skmultiflow/drift_detection/page_hinkley.py'],
                 mechanism=[dict(name='tests', where='add_element of DDM, EDDM, PageHinkley'),
                            dict(name='start over', where='reset')]),
    technique='differential PBT: generated streams and resets against models that recompute the '
              'statistic from the raw history since the last drift',
)
EPS = 1e-11


class Undecidable(Exception):
    pass


def gt(a, b):
    if a == b:
        return False
    if abs(a - b) < EPS * max(1.0, abs(a), abs(b)):
        raise Undecidable()
    return a > b


class DDMModel:
    def __init__(self, mi, wl, ol):
        self.mi, self.wl, self.ol = mi, wl, ol
        self.h, self.best, self.drift = [], None, False

    def add(self, x):
        if self.drift:
            self.h, self.best = [], None
        self.h.append(x)
        n = len(self.h)
        p = sum(self.h) / n
        s = math.sqrt(p * (1 - p) / n)
        self.drift = warn = False
        if n + 1 >= self.mi:
            if self.best is None or not gt(p + s, sum(self.best)):
                self.best = (p, s)
            lim_w = self.best[0] + self.wl * self.best[1]
            lim_d = self.best[0] + self.ol * self.best[1]
            if gt(p + s, lim_d):
                self.drift = True
            elif gt(p + s, lim_w):
                warn = True
        return self.drift, warn, p


class EDDMModel:
    def __init__(self):
        self.n, self.d, self.last, self.mx = 0, [], 0, 0.0
        self.drift, self.warn, self.est = False, False, 0.0

    def add(self, x):
        if self.drift:
            self.__init__()
        self.n += 1
        self.drift = False
        if x == 1:
            self.warn = False
            self.d.append(self.n - self.last)
            self.last = self.n
            self.est = sum(self.d) / len(self.d)
            m2s = self.est + 2 * float(np.std(self.d))
            if self.n + 1 >= 30:
                if gt(m2s, self.mx):
                    self.mx = m2s
                elif len(self.d) > 30:
                    if gt(0.9 * self.mx, m2s):
                        self.drift = True
                    elif gt(0.95 * self.mx, m2s):
                        self.warn = True
        return self.drift, self.warn, self.est


class PHModel:
    def __init__(self, mi, delta, th, alpha):
        self.a = (mi, delta, th, alpha)
        self.h, self.s, self.drift = [], 0.0, False

    def add(self, x):
        mi, delta, th, alpha = self.a
        if self.drift:
            self.h, self.s = [], 0.0
        self.h.append(x)
        mean = math.fsum(self.h) / len(self.h)
        self.s = max(0.0, alpha * self.s + x - mean - delta)
        self.drift = len(self.h) + 1 >= mi and gt(self.s, th)
        return self.drift, False, mean


case_s = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['ddm', 'ddm', 'eddm', 'ph']), segs=segments(250, 6), seed=seeds,
    mi=st.sampled_from([1, 2, 5, 30, 30, 60]), wl=st.sampled_from([0.5, 1.0, 2.0, 2.0]),
    ol=st.sampled_from([1.5, 2.5, 3.0, 3.0]), delta=st.sampled_from([0.0, 0.005, 0.05]),
    th=st.sampled_from([1.0, 5.0, 20.0, 50.0]), alpha=st.sampled_from([0.9999, 0.99, 0.9, 1.0]),
    resets=st.lists(st.integers(1, 900), max_size=2), scale=st.sampled_from([1.0, 1.0, 30.0])))


def make(c):
    from skmultiflow.drift_detection import DDM, EDDM, PageHinkley
    if c['kind'] == 'ddm':
        return (DDM(min_num_instances=c['mi'], warning_level=c['wl'], out_control_level=c['ol']),
                DDMModel(c['mi'], c['wl'], c['ol']))
    if c['kind'] == 'eddm':
        return EDDM(), EDDMModel()
    return (PageHinkley(min_instances=c['mi'], delta=c['delta'], threshold=c['th'],
                        alpha=c['alpha']), PHModel(c['mi'], c['delta'], c['th'], c['alpha']))


def run(c, ctx):
    d, m = make(c)
    binary = c['kind'] != 'ph'
    xs = values(c['segs'], c['seed'], binary=binary)
    if not binary:
        xs = [x * c['scale'] for x in xs]
    drifts = warns = 0
    try:
        for i, x in enumerate(xs):
            if i in c['resets']:
                d.reset()
                m = make(c)[1]
                require(not d.detected_change() and not d.detected_warning_zone(),
                        'flags set after reset')
            d.add_element(x)
            e, w, est = m.add(x)
            require(bool(d.detected_change()) == e, '%s element %d: drift %s, expected %s',
                    c['kind'], i, d.detected_change(), e)
            require(bool(d.detected_warning_zone()) == w, '%s element %d: warning %s, expected %s',
                    c['kind'], i, d.detected_warning_zone(), w)
            if i % 5 == 0 or e:
                require_close(d.get_length_estimation(), est, '%s estimate after %d' % (c['kind'], i),
                              rtol=1e-8, atol=1e-9)
            drifts += e
            warns += w
    except Undecidable:
        ctx.label('tie')
        return False
    if drifts:
        ctx.label('drift ' + c['kind'])
    if warns:
        ctx.label('warning ' + c['kind'])
    return drifts > 0 or warns > 0


def run_tie(c, ctx):
    """the cumulative sum reaches the threshold exactly (all quantities are binary fractions): no drift yet"""
    from skmultiflow.drift_detection import PageHinkley
    n = 2 ** c['k']
    top = c['v'] - c['v'] / n
    xs = [0.0] * (n - 1) + [float(c['v'])]
    for th, want in ((top, False), (top * (1 - 2.0 ** -20), True), (top * (1 + 2.0 ** -20), False)):
        d = PageHinkley(min_instances=c['mi'], delta=0.0, threshold=th, alpha=1.0)
        for x in xs:
            require(not d.detected_change(), 'drift before the step')
            d.add_element(x)
        require(bool(d.detected_change()) == want, 'cumulative sum %r, threshold %r: drift %s', top, th,
                d.detected_change())
    return True


SUBS = [Sub('history', case_s, run, n=1200, thorough=40000,
            rule='at least one drift or warning was signalled'),
        Sub('tie', st.fixed_dictionaries(dict(k=st.integers(1, 7), v=st.integers(1, 40), mi=st.integers(0, 2))), run_tie,
            n=60, thorough=400, rule='every case')]
ASSUMPTIONS = ['comparisons closer than 1e-11 (relative) are not judged']
