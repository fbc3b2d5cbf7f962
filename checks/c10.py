"""Classification performance evaluators against recomputation from the raw results."""
import re

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close
from vp.gen import seeds

PROP = 'C10'
SCALE = 2
META = dict(
    title='Classification metrics equal their definition on the results added so far',
    statement='After any sequence of (true, predicted, weight >= 0) results, the cumulative '
              'evaluator reports the accuracy, kappa, kappa-T, kappa-M, precision, recall, F1, '
              'geometric mean and majority class that their definitions give on exactly the weighted '
              'results added since creation or reset, and the window evaluator those of exactly the '
              'last window_size results. Classes that were not declared are accounted for when they '
              'appear; with two classes precision, recall and F1 are those of class 1, otherwise '
              'unweighted means over classes, or those of the class asked for; ill-defined values '
              'are 0. Kappa-T compares with a classifier that repeats the previous label (class 0 '
              'first), kappa-M with one that predicts the majority class including the current '
              'result, ties to the smallest class. A reset evaluator behaves like a new one. '
              'get_info() prints the same values, and the measurement classes of earlier releases '
              'equal their own definitions on unit weights.',
    quantifier=dict(over=['histories', 'inputs', 'configurations'],
                    text='all result sequences, weights, window sizes, numbers of declared classes '
                         'and positions of resets'),
    why_tests_cant='Two fixed result sequences with unit weights are tested, with one window size '
                   'and no reset followed by further use.',
    anchors=dict(files=['src/skmultiflow/metrics/_classification_performance_evaluator.pyx',
                        'src/skmultiflow/metrics/_confusion_matrix.pyx'],
                 mechanism=[dict(name='incremental confusion matrix',
                                 where='ConfusionMatrix.__setitem__'),
                            dict(name='window eviction',
                                 where='WindowClassificationPerformanceEvaluator.add_result')]),
    technique='differential PBT against a model that recomputes every metric from the raw result '
              'list',
)


class Model:
    def __init__(self, n_classes, window=None):
        self.k, self.w = n_classes, window
        self.rows, self.classes, self.last = [], set(range(n_classes)), (0, 0)

    def add(self, t, p, w):
        if self.w and len(self.rows) == self.w:
            self.rows.pop(0)
        if w > 0:
            self.classes |= {t, p}
        self.rows.append([t, p, w, 0, 0])
        self.rows[-1][3] = int(self.majority() == t)
        self.rows[-1][4] = int(self.last[0] == t)
        self.last = (t, p)

    def tot(self, f=lambda r: True):
        return sum(r[2] for r in self.rows if f(r))

    def majority(self):
        best, m = 0.0, 0
        for c in sorted(self.classes):
            s = self.tot(lambda r: r[0] == c)
            if s > best:
                best, m = s, c
        return m

    def metrics(self):
        W = self.tot()
        out = {}
        if W == 0:
            acc = pe = pt = pm = 0.0
        else:
            acc = self.tot(lambda r: r[0] == r[1]) / W
            pe = sum(self.tot(lambda r: r[0] == c) * self.tot(lambda r: r[1] == c)
                     for c in self.classes) / (W * W)
            pt = self.tot(lambda r: r[4]) / W
            pm = self.tot(lambda r: r[3]) / W

        def kap(e):
            return 0.0 if W == 0 or e == 1.0 else (acc - e) / (1 - e)
        out['accuracy_score'] = acc
        out['kappa_score'] = kap(pe)
        out['kappa_t_score'] = kap(pt)
        out['kappa_m_score'] = kap(pm)
        self.cond = {'kappa_score': 1 - pe, 'kappa_t_score': 1 - pt, 'kappa_m_score': 1 - pm}
        P, R, F = {}, {}, {}
        for c in self.classes:
            tp = self.tot(lambda r: r[0] == c and r[1] == c)
            col, row = self.tot(lambda r: r[1] == c), self.tot(lambda r: r[0] == c)
            P[c] = tp / col if col else 0.0
            R[c] = tp / row if row else 0.0
            F[c] = 2 * P[c] * R[c] / (P[c] + R[c]) if P[c] + R[c] else 0.0
        for name, d in (('precision_score', P), ('recall_score', R), ('f1_score', F)):
            out[name] = d[1] if len(self.classes) == 2 else float(np.mean(list(d.values())))
            out[name + '/class'] = d
        g = list(R.values())
        out['geometric_mean_score'] = float(np.prod(g)) ** (1.0 / len(g))
        return out


def compare(ev, m, where):
    exp = m.metrics()
    for k, v in exp.items():
        if k.endswith('/class'):
            for c, x in v.items():
                require_close(getattr(ev, k[:-6])(c), x, '%s: %s for class %d' % (where, k[:-6], c))
        elif k in m.cond and 0 < abs(m.cond[k]) < 1e-11:
            pass          # rounding of the expected agreement decides
        else:
            tol = 1e-8 + 1e-14 * (1 + abs(v)) / (abs(m.cond[k]) or 1) if k in m.cond else 1e-8
            require_close(getattr(ev, k)(), v, '%s: %s' % (where, k), atol=tol)
    require(ev.majority_class() == m.majority(), '%s: majority class %s, expected %s', where,
            ev.majority_class(), m.majority())
    for k, v in re.findall(r'(\w+)=([-+.\w]+)', ev.get_info()):
        if k in m.cond and 0 < abs(m.cond[k]) < 1e-7:
            continue
        if k in exp and abs(exp[k]) < 1e6:
            require_close(float(v), exp[k], '%s: %s in get_info()' % (where, k), atol=2e-6)
        elif k in ('n_samples', 'majority_class'):
            e = len(m.rows) if k == 'n_samples' else m.majority()
            require(int(v) == e, '%s: %s=%s in get_info(), expected %s', where, k, v, e)
    require_close(ev.total_weight_observed, m.tot(), where + ': total weight')
    require(ev.n_samples == len(m.rows), '%s: n_samples %s, expected %s', where, ev.n_samples,
            len(m.rows))
    require(tuple(ev.get_last()) == m.last, '%s: get_last %s, expected %s', where, ev.get_last(),
            m.last)


case_s = st.fixed_dictionaries(dict(
    window=st.sampled_from([None, 1, 2, 3, 7, 20, 50]), declared=st.integers(2, 4),
    used=st.integers(1, 5), labels=st.sampled_from([[0, 1, 2, 3, 4]] * 4 + [
        [0, 1, 7, 3, 40], [5, 0, 2, 1, 9], [1, 0, 300, 11, 12], [3, 8, 1, 0, 2]]), n=st.integers(1, 120), seed=seeds,
    weights=st.sampled_from(['unit', 'unit', 'dyadic', 'zeros', 'wide']),
    acc=st.sampled_from([0.0, 0.3, 0.7, 0.95, 1.0]), stick=st.sampled_from([0.0, 0.5, 0.9]),
    resets=st.lists(st.integers(0, 110), max_size=2), every=st.sampled_from([1, 7, 40])))

long_s = st.fixed_dictionaries(dict(
    window=st.sampled_from([None, 100, 128, 200, 200, 333, 500]), declared=st.integers(2, 4),
    used=st.integers(2, 5), labels=st.sampled_from([[0, 1, 2, 3, 4], [0, 1, 7, 3, 40]]),
    n=st.integers(300, 1400), seed=seeds, weights=st.sampled_from(['unit', 'dyadic', 'wide']),
    acc=st.sampled_from([0.3, 0.7, 0.95]), stick=st.sampled_from([0.0, 0.5, 0.98]),
    resets=st.lists(st.integers(200, 700), max_size=1), every=st.sampled_from([61, 199])))


def run(c, ctx):
    from skmultiflow.metrics import (ClassificationPerformanceEvaluator,
                                     WindowClassificationPerformanceEvaluator)
    if c['window']:
        ev = WindowClassificationPerformanceEvaluator(n_classes=c['declared'],
                                                      window_size=c['window'])
    else:
        ev = ClassificationPerformanceEvaluator(n_classes=c['declared'])
    m = Model(c['declared'], c['window'])
    r = np.random.RandomState(c['seed'])
    if c['weights'] == 'zeros':      # a class seen only with weight 0 is not judged
        c = dict(c, used=min(c['used'], c['declared']), labels=[0, 1, 2, 3, 4])
    lab = c['labels']
    t = 0
    compare(ev, m, 'new evaluator')
    for i in range(c['n']):
        if i in c['resets']:
            ev.reset()
            m = Model(c['declared'], c['window'])
            compare(ev, m, 'after reset')
        if r.rand() >= c['stick']:
            t = lab[r.randint(c['used'])]
        p = t if r.rand() < c['acc'] else lab[r.randint(c['used'])]
        w = {'unit': 1.0, 'dyadic': float(r.choice([0.25, 0.5, 1, 2, 4])),
             'wide': float(r.choice([1, 3, 2 ** 25 + 1, 2.0 ** -20])),
             'zeros': float(r.choice([0, 1, 1, 3]))}[c['weights']]
        if c['weights'] == 'unit' and r.rand() < 0.5:
            ev.add_result(t, p)
        else:
            ev.add_result(t, p, w)
        m.add(t, p, w)
        if i % c['every'] == 0:
            compare(ev, m, 'after %d results' % (i + 1))
    compare(ev, m, 'at the end')
    full = bool(c['window']) and c['n'] > c['window']
    ctx.label('evicting' if full else 'no eviction')
    if c['used'] > c['declared']:
        ctx.label('undeclared classes')
    return full or (not c['window'] and len({(a[0], a[1]) for a in m.rows}) > 2)


legacy_s = st.fixed_dictionaries(dict(
    window=st.sampled_from([None, 1, 2, 5, 20, 100]), targets=st.sampled_from(
        [None, None, [0, 1], [0, 1, 2], [3, 7], [1, 0], ['a', 'b', 'c']]),
    extra=st.booleans(), n=st.integers(1, 160), seed=seeds,
    acc=st.sampled_from([0.0, 0.4, 0.8, 1.0]), stick=st.sampled_from([0.0, 0.6, 0.95]),
    resets=st.lists(st.integers(0, 120), max_size=2)))


def run_legacy(c, ctx):
    """the measurement classes of earlier releases, still exported"""
    import warnings
    from skmultiflow.metrics import ClassificationMeasurements, WindowClassificationMeasurements
    tg = [0, 1] if c['targets'] is None else c['targets']
    kw = {} if c['targets'] is None else {'targets': list(tg)}
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        ev = WindowClassificationMeasurements(window_size=c['window'], **kw) if c['window'] \
            else ClassificationMeasurements(**kw)
    labels = tg + ([] if isinstance(tg[0], str) or not c['extra'] else [11, 12])
    known = list(tg)
    r = np.random.RandomState(c['seed'])
    rows, last, t, fresh = [], None, tg[0], True

    def majority(data):
        n = [sum(a[0] == k for a in data) for k in known]
        return known[int(np.argmax(n))] if data else known[0]

    def ratio(a, b):
        return a / b if b else 0.0

    for i in range(c['n']):
        if i in c['resets']:
            ev.reset()
            rows, last = [], None
            require(ev.get_accuracy() == 0.0 and ev.get_last() == (None, None) and
                    ev.sample_count == 0, 'not empty after reset')
        if r.rand() >= c['stick']:
            t = labels[r.randint(len(labels))]
        p = t if r.rand() < c['acc'] else labels[r.randint(len(labels))]
        ev.add_result(t, p)
        for k in (t, p):
            if k not in known:
                known.append(k)
        if c['window'] and len(rows) == c['window']:
            rows.pop(0)
        # the window class asks for the majority before the new result is counted
        maj = majority(rows if c['window'] else rows + [(t, p)])
        rows.append((t, p, maj == t, last is not None and last == t))
        last = t
        n = len(rows)
        acc = sum(a[0] == a[1] for a in rows) / n
        w = 'after %d results' % (i + 1)

        def kap(pe):
            return 1 if pe == 1 else (acc - pe) / (1 - pe)
        pe = sum(sum(a[0] == k for a in rows) * sum(a[1] == k for a in rows)
                 for k in known) / (n * n)
        require(ev.sample_count == n, '%s: sample_count %s, expected %s', w, ev.sample_count, n)
        require_close(ev.get_accuracy(), acc, w + ': accuracy', atol=1e-9)
        require_close(ev.get_incorrectly_classified_ratio(), 1 - acc, w + ': error', atol=1e-9)
        if abs(pe - 1) > 1e-9 or pe == 1:
            require_close(ev.get_kappa(), kap(pe), w + ': kappa', atol=1e-8)
        require_close(ev.get_kappa_t(), kap(sum(a[3] for a in rows) / n), w + ': kappa-T', atol=1e-8)
        require_close(ev.get_kappa_m(), kap(sum(a[2] for a in rows) / n), w + ': kappa-M', atol=1e-8)
        require(ev.get_last() == (t, p), '%s: get_last %s', w, ev.get_last())
        require(ev.get_majority_class() == majority(rows), '%s: majority %s, expected %s', w,
                ev.get_majority_class(), majority(rows))
        if set(known) == {0, 1}:
            tp, fp, fn, tn = [sum((a[0], a[1]) == k for a in rows)
                              for k in ((1, 1), (0, 1), (1, 0), (0, 0))]
            P, R = ratio(tp, tp + fp), ratio(tp, tp + fn)
            require_close(ev.get_precision(), P, w + ': precision')
            require_close(ev.get_recall(), R, w + ': recall')
            require_close(ev.get_f1_score(), ratio(2 * P * R, P + R), w + ': F1')
            require_close(ev.get_g_mean(), np.sqrt(R * ratio(tn, tn + fp)), w + ': G-mean')
    return c['n'] > (c['window'] or 1)


SUBS = [Sub('legacy', legacy_s, run_legacy, n=200, thorough=6000,
            rule='more results than fit the window (or more than one)'),
        Sub('history', case_s, run, n=700, thorough=30000,
            rule='the window evicted results, or (cumulative) more than two distinct cells of the '
                 'confusion matrix are filled'),
        Sub('long', long_s, run, n=60, thorough=1500,
            rule='the window evicted results, or (cumulative) more than two distinct cells of the '
                 'confusion matrix are filled')]
ASSUMPTIONS = ['labels are small non-negative integers, weights are dyadic so that sums are exact',
               'an undeclared class that appears only with weight 0 is not judged']
