"""HDDM_A and HDDM_W."""
import math

from hypothesis import strategies as st

from vp.engine import Sub, require, require_close
from vp.gen import segments, seeds, values

PROP = 'C08'
SCALE = 3
META = dict(
    title='The Hoeffding-bound detectors (HDDM) signal exactly when their bound is exceeded',
    statement='For every sequence of 0/1 outcomes (or bounded reals), the averaging and the weighted '
              'Hoeffding-bound detectors report drift exactly when the mean after the best cut point '
              'of the history since the last detection exceeds the mean before it by the bound for '
              'the drift confidence, and warning exactly when only the bound for the warning '
              'confidence is exceeded; with two-sided monitoring the averaging detector silently '
              'starts over on the mirrored decrease. The running estimate is reported, and a reset '
              'detector is indistinguishable from a new one.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all outcome sequences, confidences, decay rates, one- or two-sided '
                         'monitoring, and positions of resets'),
    why_tests_cant='Tests pin the detection indices of two seeded streams with default settings.',
    anchors=dict(files=['src/skmultiflow/drift_detection/hddm_a.py',
                        'src/skmultiflow/drift_detection/hddm_w.py'],
                 mechanism=[dict(name='bounds', where='HDDM_A.add_element, HDDM_W.add_element'),
                            dict(name='start over', where='reset')]),
    technique='differential PBT: generated streams and resets against models that search the cut '
              'point over the raw history since the last detection',
)
EPS = 1e-11


class Undecidable(Exception):
    pass


def ge(a, b):
    if a == b:
        return True
    if abs(a - b) < EPS:
        raise Undecidable()
    return a > b


class A:
    def __init__(self, dc, wc, two):
        self.dc, self.wc, self.two = dc, wc, two
        self.clear()
        self.est_n = self.est_c = 0

    def clear(self):
        self.pre = [0.0]          # prefix sums since the last detection
        self.lo = self.hi = None

    def add(self, x):
        self.pre.append(self.pre[-1] + x)
        n = len(self.pre) - 1
        c = self.pre[n]
        e = math.sqrt(math.log(1 / self.dc) / (2 * n))
        if self.lo is None or ge(self.lo[1], c / n + e):
            self.lo = (n, c / n + e)
        if self.hi is None or ge(c / n - e, self.hi[1]):
            self.hi = (n, c / n - e)

        def exceeds(cut, conf, sign):
            if cut == n:
                return False
            m = (n - cut) / (cut * n)
            return ge(sign * (c / n - self.pre[cut] / cut), math.sqrt(m / 2 * math.log(2 / conf)))
        drift = exceeds(self.lo[0], self.dc, 1)
        warn = not drift and exceeds(self.lo[0], self.wc, 1)
        cut = self.lo[0] if drift else None
        if not drift and self.two and exceeds(self.hi[0], self.dc, -1):
            cut = self.hi[0]
        down = cut is not None and not drift
        if cut is not None:
            self.est_n, self.est_c = n - cut, c - self.pre[cut]
            self.clear()
        n = len(self.pre) - 1
        if n >= self.est_n:
            self.est_n = self.est_c = 0
            est = self.pre[n] / n
        else:
            est = self.est_c / self.est_n
        return drift, warn, est, down


class W:
    """EWMA with McDiarmid bounds; only increases are monitored (see known finding)."""

    def __init__(self, dc, wc, lam):
        self.p = (dc, wc, lam)
        self.clear()

    def clear(self):
        self.tot = self.ref = self.new = None
        self.cut = math.inf

    def ew(self, s, x):
        lam = self.p[2]
        if s is None:
            return (x, 1.0)
        return (lam * x + (1 - lam) * s[0], lam ** 2 + (1 - lam) ** 2 * s[1])

    def add(self, x):
        dc, wc, lam = self.p
        self.tot = self.ew(self.tot, x)
        b = self.tot[0] + math.sqrt(self.tot[1] * math.log(1 / dc) / 2)
        if not ge(b, self.cut):
            self.cut, self.ref, self.new = b, self.tot, None
        else:
            self.new = self.ew(self.new, x)

        def exceeds(conf):
            if self.new is None:
                return False
            return not ge(math.sqrt((self.ref[1] + self.new[1]) * math.log(1 / conf) / 2),
                          self.new[0] - self.ref[0])
        if exceeds(dc):
            self.clear()
            return True, False, None, False
        return False, exceeds(wc), self.tot[0], False


case_s = st.fixed_dictionaries(dict(
    kind=st.sampled_from(['A', 'A', 'W']), segs=segments(300, 6), seed=seeds, real=st.booleans(),
    dc=st.sampled_from([0.001, 0.001, 0.01, 0.1]), wc=st.sampled_from([0.005, 0.005, 0.05, 0.05, 0.2, 1e-4]),
    lam=st.sampled_from([0.05, 0.05, 0.01, 0.2, 0.5]), two=st.booleans(),
    resets=st.lists(st.integers(1, 900), max_size=2)))


def make(c):
    from skmultiflow.drift_detection import HDDM_A
    from skmultiflow.drift_detection.hddm_w import HDDM_W
    wc = c['wc']          # may be the stricter one
    if c['kind'] == 'A':
        return (HDDM_A(drift_confidence=c['dc'], warning_confidence=wc, two_side_option=c['two']),
                A(c['dc'], wc, c['two']))
    return (HDDM_W(drift_confidence=c['dc'], warning_confidence=wc, lambda_option=c['lam'],
                   two_side_option=c['two']), W(c['dc'], wc, c['lam']))


def run(c, ctx):
    d, m = make(c)
    xs = values(c['segs'], c['seed'], binary=not c['real'])
    xs = [min(1.0, max(0.0, x)) if c['real'] else x for x in xs]
    drifts = warns = downs = 0
    try:
        for i, x in enumerate(xs):
            if i in c['resets']:
                d.reset()
                m = make(c)[1]
                require(not d.detected_change() and not d.detected_warning_zone(),
                        'flags set after reset')
            d.add_element(x)
            e, w, est, down = m.add(x)
            require(bool(d.detected_change()) == e, 'HDDM_%s element %d: drift %s, expected %s',
                    c['kind'], i, d.detected_change(), e)
            require(bool(d.detected_warning_zone()) == w, 'HDDM_%s element %d: warning %s, '
                    'expected %s', c['kind'], i, d.detected_warning_zone(), w)
            if est is not None:
                require_close(d.get_length_estimation(), est, 'HDDM_%s estimate after %d'
                              % (c['kind'], i), rtol=1e-8, atol=1e-9)
            drifts += e
            warns += w
            downs += down
    except Undecidable:
        ctx.label('tie')
        return False
    for k, v in (('drift', drifts), ('warning', warns), ('decrease', downs)):
        if v:
            ctx.label('%s %s' % (k, c['kind']))
    return drifts + warns + downs > 0


def run_two_side(c, ctx):
    """known finding: a decrease makes the two-sided weighted detector start over"""
    from skmultiflow.drift_detection.hddm_w import HDDM_W
    d = HDDM_W(two_side_option=True)
    for x in [1] * c['n'] + [0] * c['n']:
        d.add_element(x)
    require(d.width < 2 * c['n'], 'width %d after %d ones and %d zeros: the decrease was not '
            'noticed', d.width, c['n'], c['n'])


SUBS = [Sub('history', case_s, run, n=1200, thorough=40000,
            rule='at least one drift, warning or decrease'),
        Sub('two_side', st.nothing(), run_two_side, n=0, thorough=0, rule='known finding only')]
ASSUMPTIONS = ['comparisons closer than 1e-11 are not judged',
               'the weighted detector is judged as one-sided (known finding)']
