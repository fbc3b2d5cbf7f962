"""Checkpoints: copies of a model taken at any moment behave like the model and are independent."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

from vp import xl
from vp.engine import Sub, require, short

PROP = 'C36'
SCALE = 2
META = dict(
    title='Pickled or deep-copied learners resume exactly where they were',
    statement='For every learner, any stream and any moment of it: a copy.deepcopy or a pickle '
              'round-trip of the learner predicts exactly as the original and, trained on the same '
              'further samples, keeps doing so (random state included). Copy and original are '
              'independent: training either on other data does not change the other.',
    quantifier=dict(over=['configurations', 'inputs', 'crash_points'],
                    text='every learner class (about 90 configurations), all data and all points of the '
                         'stream at which the copy is taken'),
    why_tests_cant='No test copies or pickles a learner in the middle of a stream.',
    anchors=dict(files=['src/skmultiflow/core/base.py', 'src/skmultiflow/trees', 'src/skmultiflow/meta',
                        'src/skmultiflow/lazy', 'src/skmultiflow/bayes', 'src/skmultiflow/rules'],
                 mechanism=[dict(name='state', where='BaseEstimator.__getstate__, __setstate__')]),
    technique='PBT: generated histories and cut points; original and restored twin compared on the '
              'rest of the stream',
)
NAMES = xl.reg_names()
case = xl.case_s(NAMES, cut=st.integers(0, 1000), how=st.sampled_from(['deepcopy', 'pickle', 'pickle2']),
                 size=st.integers(1, 6), who=st.booleans())


def dup(m, how):
    if how == 'deepcopy':
        return copy.deepcopy(m)
    return pickle.loads(pickle.dumps(m, protocol=2 if how == 'pickle2' else pickle.HIGHEST_PROTOCOL))


def out(e, m):
    r = [e.predict(m)]
    if e.has_proba():
        r += e.proba(m)
    return r


def run(c, ctx):
    e = xl.Env(c)
    bs = e.batches(e.X, (c['size'],))
    cut = c['cut'] % (len(bs) + 1)
    if e.name in xl.NEEDS_FIT:
        cut = max(1, cut)
    m = e.make()
    for a, b in bs[:cut]:
        e.fit(m, e.X[a:b], e.y[a:b])
    d = dup(m, c['how'])
    third = dup(m, c['how'])
    p, q = out(e, m), out(e, d)
    require(xl.same_rows(p, q), '%s: the %s copy predicts %s, the original %s', e.name, c['how'],
            short([x.tolist() for x in q]), short([x.tolist() for x in p]))
    # independence: the other one sees foreign data first
    bystander, busy = (m, d) if c['who'] else (d, m)
    for a, b in e.batches(e.X2, (10,)):
        e.fit(busy, e.X2[a:b], e.y2[a:b])
    if e.name not in xl.RANDOM_PREDICT:
        r = out(e, bystander)
        require(xl.same_rows(p, r), '%s: training a %s copy changed the other from %s to %s', e.name,
                c['how'], short([x.tolist() for x in p]), short([x.tolist() for x in r]))
    if e.name in xl.RANDOM_PREDICT:
        third.predict(e.Q)     # both have to consume the same random numbers
        bystander = None
        m2 = e.make()
        for a, b in bs[:cut]:
            e.fit(m2, e.X[a:b], e.y[a:b])
        m2.predict(e.Q)
        bystander = m2
    for a, b in bs[cut:]:
        e.fit(bystander, e.X[a:b], e.y[a:b])
        e.fit(third, e.X[a:b], e.y[a:b])
    p, q = out(e, bystander), out(e, third)
    require(xl.same_rows(p, q), '%s: after %d more samples the %s copy predicts %s, the original %s',
            e.name, len(e.X) - (bs[cut - 1][1] if cut else 0), c['how'], short([x.tolist() for x in q]),
            short([x.tolist() for x in p]))
    ctx.label(e.name)
    return 0 < cut < len(bs)


SUBS = [Sub('resume', case, run, n=960, thorough=8000, rule='the copy is taken strictly inside the stream')]
ASSUMPTIONS = ['registry of small configurations of every learner (vp/learners.py)']
