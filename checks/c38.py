"""Class probabilities and predicted labels are valid and consistent."""
import numpy as np
from hypothesis import strategies as st

from vp import xl
from vp.engine import Sub, require, short

PROP = 'C38'
SCALE = 2
META = dict(
    title='Classifiers answer with known labels and consistent, valid probabilities',
    statement='For every classifier, any stream and any query: predict returns only labels among the '
              'classes given to partial_fit; predict_proba has one row per query and never more columns '
              'than the largest class label plus one, its entries are finite, and a class with no vote '
              'has probability 0; predict returns a class of maximal probability. For the learners that '
              'normalise (Naive Bayes, kNN, Hoeffding trees, rules, bagging, leveraging bagging, '
              'adaptive forests, PerceptronMask, HalfSpaceTrees) every row lies in [0, 1] and sums to 1 '
              '(or is all zero when no vote is available). Regressors and multi-output learners '
              'answer with finite numbers, multi-label ones with 0/1.',
    quantifier=dict(over=['configurations', 'inputs', 'histories'],
                    text='every learner class (about 90 configurations), all streams and queries, '
                         'including ones far outside the training range'),
    why_tests_cant='Tests compare probabilities with stored numbers for a few learners.',
    anchors=dict(files=['src/skmultiflow/trees', 'src/skmultiflow/meta', 'src/skmultiflow/lazy',
                        'src/skmultiflow/bayes', 'src/skmultiflow/rules'],
                 mechanism=[dict(name='votes', where='predict, predict_proba')]),
    technique='PBT: invariant over generated streams and queries, for every learner',
)
NAMES = xl.reg_names()
# raw (un-normalised) votes by design
RAW = {'LearnNSE', 'LearnPP', 'BatchIncremental', 'SRP-randomsubspaces', 'SRP-resampling',
       'SRP-randompatches', 'SRP-ht'}
SIGNED = {n for n in NAMES if n.startswith('Online') and 'Bagging' not in n}


def run(c, ctx):
    e = xl.Env(c)
    m = e.train(e.make(), sizes=c['sizes'])
    Q = np.vstack([e.Q, e.Q[:2] * c['far'], e.X[:3], np.zeros((1, e.Q.shape[1]))])
    p = e.predict(m, Q)
    require(len(p) == len(Q), '%s: %d predictions for %d rows', e.name, len(p), len(Q))
    require(bool(np.all(np.isfinite(p))), '%s: predictions %s', e.name, short(p))
    ctx.label(e.name)
    if e.task == 'mlc':
        require(set(np.unique(p)) <= {0.0, 1.0}, '%s: labels %s', e.name, short(p))
    if e.task not in ('clf', 'anom'):
        return len(e.X) > 20
    require(set(p.tolist()) <= set(float(x) for x in e.classes), '%s: predicted labels %s, classes %s',
            e.name, short(p), e.classes)
    if not e.has_proba():
        return len(e.X) > 20
    if e.name == 'PerceptronMask':      # scikit-learn's own formula; saturates far away
        Q, p = Q[:len(e.Q)], p[:len(e.Q)]
    rows = e.proba(m, Q)
    require(len(rows) == len(Q), '%s: %d probability rows for %d queries', e.name, len(rows), len(Q))
    for i, r in enumerate(rows):
        require(bool(np.all(np.isfinite(r))), '%s: probabilities %s', e.name, short(r))
        require(len(r) <= max(e.classes) + 1, '%s: %d columns for classes %s', e.name, len(r), e.classes)
        if e.name not in RAW and e.name not in SIGNED:
            require(r.min() >= -1e-12 and r.max() <= 1 + 1e-9, '%s: probabilities %s', e.name, short(r))
            s = r.sum()
            require(abs(s - 1) < 1e-6 or s == 0, '%s: probabilities %s sum to %r', e.name, short(r), s)
        if e.task == 'clf' and e.name not in NOMAX:
            v = r[int(p[i])] if int(p[i]) < len(r) else 0.0
            require(v >= r.max() - 1e-9 * max(1.0, abs(r.max())),
                    '%s: predicted %d although the probabilities are %s', e.name, p[i], short(r))
    return len(e.X) > 20


NOMAX = {'BatchIncremental'}     # binary; its predict_proba is the vote share of class 1
case = xl.case_s(NAMES, sizes=st.lists(st.integers(1, 9), min_size=1, max_size=3),
                 far=st.sampled_from([-3.0, 10.0, 1e3]))
SUBS = [Sub('valid', case, run, n=1200, thorough=8000, rule='more than 20 training samples')]
ASSUMPTIONS = ['registry of small configurations of every learner (vp/learners.py)']
