"""Very fast decision rules against a reference that keeps samples per rule."""
import copy

import numpy as np
from hypothesis import strategies as st

from checks.c23 import stream
from vp.engine import Sub, require, require_close, rng_of, short
from vp.gen import seeds
from vp.ruleref import RefVFDR

PROP = 'C27'
META = dict(
    title='Decision rules cover, grow, vote and are dropped exactly as specified',
    statement='For any stream and configuration, VeryFastDecisionRulesClassifier hands a sample to the first rule '
              'that covers it (ordered) or to every rule that covers it (unordered), and to the default rule only '
              'when none does. A rule that has seen grace_period more weight gains a condition exactly when its '
              'best candidate (one of 10 equidistant cuts under per-class normal estimates, or one nominal value '
              'against the rest) beats that of the next attribute by the Hoeffding bound, or the bound is below '
              'tie_threshold; a condition of the same kind on the same attribute is tightened instead. The '
              'default rule turns its best condition into a new rule the same way while there are fewer than '
              'max_rules, and keeps the other branch. New conditions start from the class weights the '
              'candidate predicts. With a drift detector, a rule of more than min_weight whose detector '
              'signals is removed, and no other rule is. Queries are answered by the first covering rule, the '
              'most confident one or the sum of all normalised votes, as configured, by Naive Bayes or class '
              'weights; predict takes the class of the highest probability. The reported rules, their number and '
              'their class are those of this model.',
    quantifier=dict(over=['inputs', 'histories', 'configurations'],
                    text='all streams with and without drift, weights, parameter settings and queries'),
    why_tests_cant='Tests compare the predictions of a few settings on fixed streams; which rules exist, and which '
                   'learn from a sample, depends on the history.',
    anchors=dict(files=['src/skmultiflow/rules/very_fast_decision_rules.py', 'src/skmultiflow/rules/base_rule.py',
                        'src/skmultiflow/rules/base_predicate.py',
                        'src/skmultiflow/rules/info_gain_rule_criterion.py',
                        'src/skmultiflow/rules/hellinger_distance_criterion.py',
                        'src/skmultiflow/rules/nominal_attribute_class_observer.py',
                        'src/skmultiflow/rules/numeric_attribute_class_observer.py'],
                 mechanism=[dict(name='routing and drift', where='_partial_fit'),
                            dict(name='growth', where='_expand_rule, _create_rule'),
                            dict(name='votes', where='first_hit, weighted_max, weighted_sum')]),
    technique='PBT, stateful: differential against a sample-keeping reference rule set',
)
ASSUMPTIONS = ['decisions that hang on rounding are left out; among equally good candidates any is accepted',
               'with foil_gain the choice of conditions is read from the model; that they are candidates, the '
               'routing, the class weights and the votes are checked',
               'drift detectors have their own properties; the reference uses them as components']


def look(m):
    return [([(int(p.att_idx), p.operator, float(p.value)) for p in q.predicate_set],
             {int(k): float(v) for k, v in q.observed_class_distribution.items()})
            for q in m.get_model_rules()]


def detector(name):
    from skmultiflow.drift_detection import ADWIN, DDM, EDDM
    return {'none': lambda: None, 'adwin': lambda: ADWIN(delta=0.05), 'ddm': lambda: DDM(min_num_instances=20),
            'eddm': EDDM}[name]()


def run_rules(c, ctx):
    from skmultiflow.rules import VeryFastDecisionRulesClassifier
    r = rng_of(c['seed'])
    X, y, nom, labels = stream(c, r)
    n = len(X)
    for cut in c['cuts']:
        h = int(cut * n)
        perm = labels[r.permutation(len(labels))]
        part = y[h:].copy()
        for u, v in zip(labels, perm):
            y[h:][part == u] = v
    det = detector(c['det'])
    poor = c['poor'] and not c['nb']
    m = VeryFastDecisionRulesClassifier(
        expand_confidence=c['conf'], ordered_rules=c['ordered'], grace_period=c['grace'], tie_threshold=c['tie'],
        rule_prediction=c['how'], nominal_attributes=nom or None, max_rules=c['max_rules'], nb_threshold=c['nbt'],
        nb_prediction=c['nb'], drift_detector=copy.deepcopy(det), expand_criterion=c['crit'],
        remove_poor_atts=poor, min_weight=c['minw'])
    ref = RefVFDR(c['conf'], c['ordered'], c['grace'], c['tie'], c['how'], nom, c['max_rules'], c['nbt'], c['nb'],
                  det, c['crit'], poor, c['minw'])
    require('Default Rule' in m.get_model_description(), 'untrained: description %s', short(m.get_model_description()))
    w = r.randint(0, 4, n) * (1.0 if c.get('period') else c['wscale']) if c['weights'] else np.ones(n)
    kw = dict(classes=labels) if c['known'] else {}
    for i in range(n):
        m.partial_fit(X[i:i + 1], y[i:i + 1], sample_weight=w[i:i + 1] if c['weights'] else None, **kw)
        ref.fit(X[i], int(y[i]), w[i], lambda: look(m))
        if r.rand() < (0.01 if c.get('deep') else 0.1) or i == n - 1:
            what = 'after %d samples (%d rules made, %d grown, %d dropped)' % (i + 1, ref.n_new, ref.n_grown,
                                                                             ref.n_drop)
            have = look(m)
            require(len(have) == len(ref.rules) and all(ref.same_preds(h[0], q.preds) for h, q in zip(have, ref.rules)),
                    '%s: rules %s, expected %s', what, short([h[0] for h in have]), short([q.preds for q in ref.rules]))
            require(m.get_model_measurements()['Number of rules: '] == len(have), '%s: measured %s rules', what,
                    m.get_model_measurements()['Number of rules: '])
            text = m.get_model_description()
            require(len(text.split('\n')) == len(have) + 1 and text.split('\n')[-1].startswith('Default Rule'),
                    '%s: description of %d rules: %s', what, len(have), short(text))
            for k, (h, q) in enumerate(zip(have, ref.rules)):
                require(ref.close(h[1], q.dist), '%s: rule %d has class weights %s, expected %s', what, k, short(h[1]),
                        short(q.dist))
            Q = np.vstack([X[r.randint(0, n, 4)], X[r.randint(0, n, 2)] + r.randn(2, c['f']) * 0.5])
            P, p = m.predict_proba(Q), m.predict(Q)
            require(np.ndim(P) == 2 and len(P) == len(Q) and np.shape(p) == (len(Q),), '%s: shapes %s, %s', what,
                    np.shape(P), np.shape(p))
            for q, row, pred in zip(Q, P, p):
                got = np.zeros(14)
                got[:len(row)] = row
                ok = False
                for v in ref.votes(q):
                    want = np.zeros(14)
                    for k, u in v.items():
                        want[int(k)] = u
                    ok = ok or np.allclose(got, want, rtol=1e-6, atol=1e-8)
                require(ok, '%s: probabilities of %s: got %s, expected %s', what, short(q), short(row), short(want))
                require(int(pred) == int(np.argmax(got)), '%s: predicts %s, probabilities %s', what, pred, short(row))
    for k in ('n_new', 'n_grown', 'n_drop', 'n_multi'):
        if getattr(ref, k):
            ctx.label(k)
    if c['reset']:
        m.reset()
        require(look(m) == [] and m.get_params() is not None, 'rules after reset: %s', short(look(m)))
        require(int(m.predict(X[:1])[0]) == 0, 'prediction after reset')
    return ref.n_new > 0


cfg = dict(
    seed=seeds, wscale=st.sampled_from([1.0, 0.37, 2.3]), grid=st.sampled_from([[], [], [], [0], [1], [0, 1, 2]]), f=st.integers(1, 4), k=st.integers(2, 4), gap=st.integers(0, 2),
    nom=st.lists(st.integers(0, 3), max_size=2, unique=True), card=st.integers(2, 4), late=st.booleans(),
    two=st.booleans(), noise=st.sampled_from([0.0, 0.05, 0.3]), conf=st.sampled_from([1e-7, 0.01, 0.2]),
    ordered=st.booleans(), tie=st.sampled_from([0.0, 0.05, 0.25, 0.6]),
    how=st.sampled_from(['first_hit', 'weighted_max', 'weighted_sum']), max_rules=st.sampled_from([0, 1, 2, 4, 20, 20]),
    nbt=st.sampled_from([0, 0, 15]), nb=st.booleans(), poor=st.booleans(), known=st.booleans(),
    weights=st.sampled_from([False, False, True]), reset=st.booleans(), grace=st.sampled_from([9.5, 19.5, 40.5]))
main = dict(cfg, n=st.sampled_from([40, 120, 250, 400]), crit=st.sampled_from(['info_gain', 'info_gain', 'hellinger']),
            det=st.just('none'), minw=st.just(100), cuts=st.just([]))
SUBS = [
    Sub('rules', st.fixed_dictionaries(main), run_rules, 1000, thorough=6000, rule='at least one rule was made'),
    Sub('drift', st.fixed_dictionaries(dict(
        main, n=st.sampled_from([250, 400, 700]), det=st.sampled_from(['adwin', 'adwin', 'ddm', 'eddm']),
        minw=st.sampled_from([0.5, 20.5, 100.5]), cuts=st.lists(st.sampled_from([0.25, 0.4, 0.5, 0.6, 0.8]), min_size=1,
                                                              max_size=2))), run_rules, 500, thorough=3000,
        rule='at least one rule was made'),
    Sub('deep', st.fixed_dictionaries(dict(
        main, n=st.sampled_from([800, 1500, 2500]), f=st.integers(2, 6), k=st.integers(2, 6), deep=st.sampled_from([2, 3]),
        drift=st.booleans(), conf=st.sampled_from([1e-7, 0.01, 0.2]), tie=st.sampled_from([0.05, 0.15, 0.3]),
        noise=st.sampled_from([0.0, 0.05]), grace=st.sampled_from([25.5, 50.5, 200.5]), poor=st.sampled_from(
            [False, False, False, True]),
        max_rules=st.sampled_from([8, 20, 40]), det=st.sampled_from(['none', 'none', 'adwin', 'ddm']),
        minw=st.sampled_from([20.5, 100.5]))), run_rules, 250, thorough=1500, rule='at least one rule was made'),
    Sub('foil', st.fixed_dictionaries(dict(main, crit=st.just('foil_gain'))), run_rules, 250, thorough=1500,
        rule='at least one rule was made'),
]
