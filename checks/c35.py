"""Training is a deterministic function of parameters, seed and the sequence of samples."""
import numpy as np
from hypothesis import strategies as st

from vp import xl
from vp.engine import Sub, require, short

PROP = 'C35'
META = dict(
    title='A trained model depends only on its parameters, seed and samples',
    statement='For every learner and any stream: two instances with the same parameters and '
              'random_state, trained on the same samples, predict alike, whatever other learners (of '
              'the same class too) are built, trained or queried in between, whatever happens to the '
              'global numpy random state and to the caller\'s arrays after the call (the learner keeps '
              'no reference to them). partial_fit returns the learner. For the learners that process '
              'samples one at a time (all but the gradient-based ones, RSLVQ, which starts a prototype at the '
              'mean of the first batch, and the ensembles whose drift monitor re-tests the whole batch) the grouping of the samples into partial_fit calls is '
              'irrelevant. Passing sample_weight of ones is the same as passing none; for classifiers, '
              'the order and the container (list, array) of the classes argument are irrelevant, and '
              'classes need only be passed in the first call.',
    quantifier=dict(over=['configurations', 'inputs', 'histories', 'schedules'],
                    text='every learner class (about 90 configurations), all data, groupings into calls, '
                         'and interleavings with other learners'),
    why_tests_cant='Tests train one instance on one stream with one batch size.',
    anchors=dict(files=['src/skmultiflow/trees', 'src/skmultiflow/meta', 'src/skmultiflow/lazy',
                        'src/skmultiflow/bayes', 'src/skmultiflow/rules',
                        'src/skmultiflow/neural_networks', 'src/skmultiflow/prototype',
                        'src/skmultiflow/anomaly_detection'],
                 mechanism=[dict(name='training', where='partial_fit of every learner')]),
    technique='PBT: metamorphic twins (interleaved, regrouped, weighted by one, re-encoded classes)',
)
ALL = xl.reg_names()
DET = sorted(set(ALL))
# grouping matters by design: SGD-type epochs, or ADWIN fed with the whole batch per sample/call
GROUPED = {'PerceptronMask', 'RSLVQ', 'MultiOutput-reg', 'RegressorChain', 'RegressorChain-random',
           'MultiOutput-perc', 'ClassifierChain', 'ClassifierChain-random', 'ProbCC', 'MonteCarloCC',
           'OzaBaggingADWIN-nb', 'OzaBaggingADWIN-ht', 'OzaBaggingADWIN-knn', 'OnlineBoosting',
           'OnlineAdaC2', 'OnlineCSB2', 'OnlineRUSBoost-1', 'OnlineRUSBoost-2', 'OnlineRUSBoost-3',
           'OnlineSMOTEBagging', 'OnlineUnderOverBagging'}
SPLIT = sorted(set(ALL) - GROUPED)
sizes = st.lists(st.integers(1, 12), min_size=1, max_size=5)


def final(e, m):
    out = [e.predict(m)]
    if e.has_proba():
        out += e.proba(m)
    return out


def agree(e, a, b, what):
    require(xl.same_rows(a, b), '%s: %s: predictions %s, expected %s', e.name, what, short(
        [x.tolist() for x in a]), short([x.tolist() for x in b]))


def run_iso(c, ctx):
    e = xl.Env(c)
    np.random.seed(1)
    ref = e.train(e.make(), sizes=c['sizes'])
    want = final(e, ref) if e.name not in xl.RANDOM_PREDICT else None
    if want is None:
        want = [e.predict(ref)]
    np.random.seed(999)
    m, o = e.make(), e.make()
    noise = np.random.RandomState(c['dseed'] % 1000)
    ob = e.batches(e.X2, (9,))
    for i, (a, b) in enumerate(e.batches(e.X, c['sizes'])):
        X, y = e.X[a:b].copy(), e.y[a:b].copy()
        r = e.fit(m, X, y)
        require(r is m, '%s: partial_fit does not return the learner', e.name)
        X[:] = noise.rand(*X.shape) * 50
        y[:] = 0
        np.random.rand(2)
        if i < len(ob):
            e.fit(o, e.X2[ob[i][0]:ob[i][1]], e.y2[ob[i][0]:ob[i][1]])
            if e.name not in xl.NEEDS_FIT:
                o.predict(e.Q[:2])
    got = final(e, m) if e.name not in xl.RANDOM_PREDICT else [e.predict(m)]
    agree(e, got, want, 'trained next to another instance and with the caller\'s buffers reused')
    ctx.label(e.name)
    return len(e.X) > 20


def run_split(c, ctx):
    e = xl.Env(c)
    want = final(e, e.train(e.make()))
    got = final(e, e.train(e.make(), sizes=c['sizes']))
    agree(e, got, want, 'samples in groups of %s, expected as one by one' % c['sizes'])
    return max(c['sizes']) > 1 and len(e.X) > 20


def run_weight(c, ctx):
    e = xl.Env(c)
    want = final(e, e.train(e.make(), sizes=c['sizes']))
    m = e.make()
    for a, b in e.batches(e.X, c['sizes']):
        e.fit(m, e.X[a:b], e.y[a:b], weights=np.ones(b - a))
    agree(e, final(e, m), want, 'sample_weight of ones, expected as without weights')
    return len(e.X) > 20


def run_classes(c, ctx):
    e = xl.Env(c)
    want = final(e, e.train(e.make(), sizes=c['sizes']))
    cl = list(np.random.RandomState(c['perm']).permutation(e.classes))
    cl = [int(x) for x in cl]
    if c['asarray']:
        cl = np.array(cl)
    m = e.make()
    for i, (a, b) in enumerate(e.batches(e.X, c['sizes'])):
        e.fit(m, e.X[a:b], e.y[a:b], classes=cl if i == 0 or not c['once'] else None)
    agree(e, final(e, m), want, 'classes=%r %s' % (cl, 'in the first call only' if c['once'] else ''))
    return len(e.X) > 20


CLF = [n for n in ALL if xl.task(n) == 'clf']
WEIGHT = sorted(set(ALL) - {'MonteCarloCC'})
SUBS = [
    Sub('isolated', xl.case_s(DET, sizes=sizes), run_iso, n=640, thorough=5000,
        rule='more than 20 samples'),
    Sub('grouping', xl.case_s(SPLIT, sizes=sizes), run_split, n=640, thorough=5000,
        rule='more than 20 samples, a group of at least two'),
    Sub('unit_weight', xl.case_s(WEIGHT, sizes=sizes), run_weight, n=480, thorough=3000,
        rule='more than 20 samples'),
    Sub('classes', xl.case_s(CLF, sizes=sizes, perm=st.integers(0, 10 ** 6), asarray=st.booleans(),
                             once=st.booleans()), run_classes, n=480, thorough=3000,
        rule='more than 20 samples'),
]
ASSUMPTIONS = ['registry of small configurations of every learner (vp/learners.py)']
