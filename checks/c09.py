"""KSWIN."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, rng_of
from vp.gen import seeds

PROP = 'C09'
SCALE = 2
META = dict(
    title='KSWIN keeps a sliding window and signals exactly on a significant KS distance',
    statement='The Kolmogorov-Smirnov window detector always holds the most recent elements, at '
              'most its window size of them. Once the window is full, each new element compares the '
              'latest block with an equally large uniform draw from the older part: drift is '
              'reported exactly when the two-sample test is significant at the configured level and '
              'the distance exceeds 0.1, and the window then shrinks to the latest block; with a '
              'window that is not full, or two blocks of identical values, it never reports drift. '
              'A reset empties it, and data passed at construction pre-fills it.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all real streams, significance levels, window and block sizes, initial '
                         'data and reset positions'),
    why_tests_cant='Tests check that some drift is found on one stream, with unseeded draws.',
    anchors=dict(files=['src/skmultiflow/drift_detection/kswin.py'],
                 mechanism=[dict(name='window and test', where='KSWIN.add_element')]),
    technique='differential PBT: generated streams against a window model with its own '
              'Kolmogorov-Smirnov distance; draws replayed from the seeded global generator',
)
case_s = st.fixed_dictionaries(dict(
    window=st.integers(6, 60), stat=st.integers(2, 25), alpha=st.sampled_from([0.005, 0.05, 0.5, 0.0001]),
    seed=seeds, levels=st.lists(st.sampled_from([0.0, 0.1, 1.0, 2.0, 5.0]), min_size=1, max_size=4),
    seg=st.integers(5, 60), sd=st.sampled_from([0.0, 0.05, 1.0]), data=st.integers(0, 70),
    resets=st.lists(st.integers(1, 120), max_size=1)))


long_s = st.fixed_dictionaries(dict(
    window=st.integers(20, 120), stat=st.integers(8, 40), alpha=st.sampled_from([0.005, 0.0001]),
    seed=seeds, levels=st.lists(st.sampled_from([0.0, 2.0, 5.0, 9.0]), min_size=3, max_size=4),
    seg=st.integers(400, 700), sd=st.sampled_from([0.05, 1.0]), data=st.just(0),
    resets=st.just([])))
large_s = st.fixed_dictionaries(dict(
    window=st.integers(450, 700), stat=st.integers(180, 260), alpha=st.sampled_from([0.05, 0.2, 0.4]),
    seed=seeds, levels=st.lists(st.sampled_from([0.0, 0.2, 0.35]), min_size=2, max_size=2),
    seg=st.integers(380, 480), sd=st.just(1.0), data=st.just(0), resets=st.just([])))


def ks(a, b):
    pts = np.unique(np.concatenate([a, b]))
    fa = np.searchsorted(np.sort(a), pts, side='right') / len(a)
    fb = np.searchsorted(np.sort(b), pts, side='right') / len(b)
    return float(np.abs(fa - fb).max())


def run(c, ctx):
    from scipy import stats
    from skmultiflow.drift_detection import KSWIN
    r = rng_of(c['seed'])
    stat = min(c['stat'], c['window'] - 3)
    if stat < 1:
        return False
    init = np.round(r.randn(c['data']), 3) if c['data'] else None
    d = KSWIN(alpha=c['alpha'], window_size=c['window'], stat_size=stat,
              data=None if init is None else init.copy())
    win = [] if init is None else init.tolist()
    xs = np.concatenate([lv + c['sd'] * r.randn(c['seg']) for lv in c['levels']])
    np.random.seed(c['seed'])
    shadow = np.random.RandomState(c['seed'])
    drifts = full = 0
    for i, x in enumerate(xs):
        if i in c['resets']:
            d.reset()
            win = []
            require(not d.detected_change(), 'drift flag after reset')
            require(len(d.window) == 0, 'window not empty after reset')
        d.add_element(x)
        exp = False
        if len(win) >= c['window']:
            full += 1
            win = win[1:]
            old = np.array(win[:-stat])
            # the draw of the reference block, replayed
            smp = shadow.choice(old, stat)
            new = np.array(win[-stat:])
            dist = round(ks(smp, new) * stat) / stat      # a multiple of 1/stat
            p = stats.ks_2samp(smp, new, mode='exact')[1]
            exp = bool(p <= c['alpha'] and dist > 0.1)
            if old.min() > new.max() or old.max() < new.min():
                require(abs(dist - 1) < 1e-12, 'oracle')
            if len(np.unique(np.concatenate([old, new]))) == 1:
                require(not d.detected_change(), 'drift on a constant window')
            if exp:
                win = win[-stat:]
                drifts += 1
        win.append(float(x))
        require(bool(d.detected_change()) == exp, 'element %d: drift %s, expected %s', i,
                d.detected_change(), exp)
        require(np.array_equal(np.asarray(d.window, float).ravel(), np.array(win)),
                'element %d: window of %d elements is not the latest %d', i, len(d.window),
                len(win))
        require(len(d.window) <= max(c['window'], c['data']) + 1, 'window too long')
    if drifts:
        ctx.label('drift')
    return full > 0


SUBS = [Sub('history', case_s, run, n=480, thorough=12000, rule='the window was full at least once'),
        Sub('long', long_s, run, n=40, thorough=800, rule='the window was full at least once'),
        Sub('large', large_s, run, n=32, thorough=500, rule='the window was full at least once')]
ASSUMPTIONS = ['the reference block is drawn with numpy\'s global generator, one choice() per test']
