"""Queue of samples waiting for their label."""
import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, rng_of
from vp.gen import seeds

PROP = 'C05'
SCALE = 3
META = dict(
    title='Delayed labels are released exactly once, when due, with their own data',
    statement='Every sample handed to the delayed-label queue comes out exactly once, with the '
              'features, true value, predictions and weight it went in with. A request for the '
              'available samples releases exactly those whose label time is not after the current '
              'time and keeps the rest; draining the queue releases the requested number (or what '
              'is left) in label-time order, and the queue reports it has samples exactly while '
              'some are unreleased.',
    quantifier=dict(over=['histories', 'inputs', 'schedules'],
                    text='all interleavings of arrivals, clock advances, releases and drains, with '
                         'arbitrary integer or datetime delays (out of order, equal, zero), '
                         'weighted or not, one or several models and targets'),
    why_tests_cant='No test drives the queue directly; a lost, duplicated, early or re-paired '
                   'sample only shows for particular interleavings of delays and requests.',
    anchors=dict(files=['src/skmultiflow/data/time_manager.py'],
                 mechanism=[dict(name='queue', where='TimeManager.update_queue, '
                                                     'get_available_samples, next_sample')]),
    technique='stateful PBT: generated operation histories against a list model of the queue',
)

op_s = st.one_of(
    st.tuples(st.just('push'), st.lists(st.integers(-2, 12), min_size=1, max_size=22)),
    st.tuples(st.just('push'), st.lists(st.integers(0, 3), min_size=1, max_size=5)),
    st.tuples(st.just('time'), st.integers(0, 6)),
    st.tuples(st.just('avail'), st.just(0)),
    st.tuples(st.just('avail'), st.just(0)),
    st.tuples(st.just('next'), st.integers(1, 9)))
case_s = st.fixed_dictionaries(dict(
    ops=st.lists(op_s, min_size=2, max_size=22), dt=st.booleans(), weighted=st.booleans(),
    models=st.integers(1, 3), targets=st.integers(1, 2), f=st.integers(1, 3), seed=seeds))


def run(c, ctx):
    from skmultiflow.data import TimeManager
    r = rng_of(c['seed'])

    def tm(k):
        return np.datetime64('2021-03-01T00:00') + np.timedelta64(int(k), 'm') if c['dt'] \
            else np.int64(k)
    now = 0
    q = TimeManager(tm(0))
    waiting = {}
    nid = 0
    released = 0
    timed = False

    def take(got, cand, k, exact):
        """got must be min(k, ...) of the candidates in label-time order"""
        nonlocal released
        X, yt, yp, w = got
        require(len(X) == len(yt) == len(yp) == k, 'released %d/%d/%d entries, expected %d',
                len(X), len(yt), len(yp), k)
        if c['weighted']:
            require(w is not None and len(w) == k, 'weights %s for %d samples', w, k)
        else:
            require(w is None or k == 0, 'weights %s invented', w)
        ids = [int(round(row[0])) for row in X]
        require(len(set(ids)) == k and set(ids) <= set(waiting),
                'released %s, waiting %s', ids, sorted(waiting))
        due = sorted(waiting[i]['t'] for i in cand)
        require([waiting[i]['t'] for i in ids] == due[:k],
                'label times released %s, expected %s', [waiting[i]['t'] for i in ids], due[:k])
        for p, i in enumerate(ids):
            e = waiting.pop(i)
            require(np.array_equal(X[p], e['X']) and np.array_equal(yt[p], e['y'])
                    and np.array_equal(yp[p], e['p']), 'sample %d changed in the queue', i)
            if c['weighted']:
                require(w[p] == e['w'], 'sample %d weight %s, expected %s', i, w[p], e['w'])
        released += k

    for op, arg in c['ops']:
        if op == 'push':
            n = len(arg)
            X = np.round(r.randn(n, c['f']), 3)
            X[:, 0] = np.arange(nid, nid + n)
            y = r.randint(0, 3, n) if c['targets'] == 1 else r.randint(0, 3, (n, c['targets']))
            p = r.randint(0, 3, (n, c['models'])) if c['targets'] == 1 else \
                r.randint(0, 3, (n, c['models'], c['targets']))
            w = np.round(r.rand(n) + .5, 3)
            av = np.array([tm(now + d) for d in arg])
            at = np.array([tm(now)] * n)
            q.update_queue(X, y, p, w if c['weighted'] else None, at, av)
            for i in range(n):
                waiting[nid + i] = dict(X=X[i].copy(), y=y[i], p=p[i], w=w[i], t=now + arg[i])
            nid += n
        elif op == 'time':
            now += arg
            q.update_timestamp(tm(now))
        elif op == 'avail':
            cand = [i for i in waiting if waiting[i]['t'] <= now]
            if cand and len(cand) < len(waiting):
                timed = True
            take(q.get_available_samples(), cand, len(cand), True)
        elif waiting:
            take(q.next_sample(arg), list(waiting), min(arg, len(waiting)), False)
        require(q.has_more_samples() == bool(waiting), 'has_more_samples %s with %d waiting',
                q.has_more_samples(), len(waiting))
    while waiting:
        take(q.next_sample(4), list(waiting), min(4, len(waiting)), False)
    require(not q.has_more_samples(), 'queue not empty after draining')
    require(released == nid, 'released %d of %d', released, nid)
    return timed


SUBS = [Sub('queue', case_s, run, n=800, thorough=20000,
            rule='some release left part of the queue waiting')]
