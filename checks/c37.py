"""reset and clone give a fresh learner."""
import numpy as np
from hypothesis import strategies as st

from vp import xl
from vp.engine import Sub, require, short

PROP = 'C37'
META = dict(
    title='reset() and clone() of a trained learner give a fresh one',
    statement='For every learner and any history: after reset() (which returns the learner), and in '
              'clone() of it, nothing that was learned remains - trained on any further stream, both '
              'predict exactly as a newly constructed learner with the same parameters and '
              'random_state. clone leaves the original unchanged, and training leaves get_params '
              'unchanged. (Excepted: SAMKNNClassifier, OnlineBoosting and OnlineSMOTEBagging for clone, '
              'SAMKNN for reset, because their constructor does not store a parameter under its name - '
              'the test-suite pins the resulting description; the forests store the resolved '
              'max_features.)',
    quantifier=dict(over=['configurations', 'inputs', 'histories'],
                    text='every learner class (about 90 configurations), all streams before and after'),
    why_tests_cant='Tests reset few learners, after one history, and look at a counter.',
    anchors=dict(files=['src/skmultiflow/core/base.py', 'src/skmultiflow/trees', 'src/skmultiflow/meta',
                        'src/skmultiflow/lazy', 'src/skmultiflow/bayes', 'src/skmultiflow/rules'],
                 mechanism=[dict(name='reset', where='reset of every learner'),
                            dict(name='clone', where='core.base.clone, get_params')]),
    technique='PBT: reset/cloned learner against a newly constructed twin on generated streams',
)
NAMES = xl.reg_names()
NO_RESET = {'SAMKNN'}
NO_CLONE = {'SAMKNN', 'OnlineBoosting', 'OnlineBoosting-nodrift', 'OnlineSMOTEBagging',
            'OnlineSMOTEBagging-nodrift'}


def out(e, m):
    r = [e.predict(m)]
    if e.has_proba():
        r += e.proba(m)
    return r


def params(m):
    return {k: repr(v) for k, v in m.get_params(deep=True).items() if k != 'max_features'}


def run(c, ctx):
    e = xl.Env(c)
    from skmultiflow.core import clone
    before = params(e.make())
    m = e.make()
    n = min(c['pre'], len(e.X2))
    if n and e.name in xl.NEEDS_BATCH:
        n = max(n, 8)
    if n:
        e.train(m, e.X2[:n], e.y2[:n], sizes=c['sizes'])
    if c['query'] and (n or e.name not in xl.NEEDS_FIT):
        m.predict(e.Q)
    require(params(m) == before, '%s: get_params changed by training: %s, before %s', e.name,
            {k: v for k, v in params(m).items() if before.get(k) != v}, before)
    if c['how'] == 'reset' and e.name not in NO_RESET:
        f = m.reset()
        require(f is m, '%s: reset() returned %s', e.name, short(f))
    elif c['how'] == 'clone' and e.name not in NO_CLONE:
        p = out(e, m) if n and e.name not in xl.RANDOM_PREDICT else None
        f = clone(m)
        require(params(f) == before, '%s: parameters of the clone differ', e.name)
        if p is not None:
            e.train(f, e.X2[:n], e.y2[:n])
            require(xl.same_rows(p, out(e, m)), '%s: cloning changed the original', e.name)
            f = clone(m)
    else:
        return False
    fresh = e.make()
    if e.name not in xl.NEEDS_FIT:
        a, b = out(e, f), out(e, fresh)
        require(xl.same_rows(a, b), '%s: right after %s it predicts %s, a new one %s', e.name, c['how'],
                short([x.tolist() for x in a]), short([x.tolist() for x in b]))
    e.train(f, sizes=c['sizes'])
    e.train(fresh, sizes=c['sizes'])
    a, b = out(e, f), out(e, fresh)
    require(xl.same_rows(a, b), '%s: after %s and retraining it predicts %s, a new one %s', e.name,
            c['how'], short([x.tolist() for x in a]), short([x.tolist() for x in b]))
    ctx.label(e.name + '/' + c['how'])
    return n > 5


case = xl.case_s(NAMES, pre=st.integers(0, 30), sizes=st.lists(st.integers(1, 12), min_size=1, max_size=3),
                 query=st.booleans(), how=st.sampled_from(['reset', 'clone']))
SUBS = [Sub('fresh', case, run, n=1200, thorough=8000, rule='trained on more than 5 samples before')]
ASSUMPTIONS = ['registry of small configurations of every learner (vp/learners.py)']
