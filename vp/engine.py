"""Search engine shared by all checks.

A check module defines PROP (id) and SUBS, a list of Sub objects.  A Sub is one
executable statement of (a part of) the property:

    strategy : a Hypothesis strategy that yields one JSON-able case
    run      : run(case, ctx) executes the case against /repo's code and its
               oracle; raises Violation when they disagree.  It returns True
               when the case was non-trivial by the stated rule.

All randomness lives in the strategies (seeded from VERIF_SEED), so a case is
a complete, replayable description of a failure.  Failures are shrunk by
Hypothesis and written to /verif/replays/ as plain JSON.
"""
import collections
import contextlib
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if HYP not in sys.path:
    sys.path.append(HYP)

import numpy as np  # noqa: E402

CASE_CPU_LIMIT = 90.0     # seconds of process CPU time for one case (typical: < 0.1)
SHRINK_BUDGET = 25.0      # seconds of wall time spent on shrinking a failure


class Violation(Exception):
    """The code under test broke the property."""


class Skip(Exception):
    """The generated input is outside the domain of the property (counted as trivial)."""


class Hang(BaseException):
    pass


def require(cond, msg, *args):
    if not cond:
        if callable(msg):
            msg = msg()
        raise Violation(msg % args if args else msg)


def close(a, b, rtol=1e-7, atol=1e-9):
    """Tolerant comparison; NaN equals NaN; shapes must agree."""
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def require_close(a, b, what, rtol=1e-7, atol=1e-9):
    if not close(a, b, rtol, atol):
        raise Violation('%s: got %s, expected %s' % (what, short(a), short(b)))


def short(x, n=300):
    s = repr(np.asarray(x).tolist() if isinstance(x, np.ndarray) else x)
    return s if len(s) <= n else s[:n] + '...'


@contextlib.contextmanager
def expecting(what):
    """Any exception of the code under test on an in-domain input is a violation."""
    try:
        yield
    except (Violation, Hang):
        raise
    except Exception as e:
        raise Violation('%s raised %s: %s\n%s' % (
            what, type(e).__name__, e, traceback.format_exc(limit=-6))) from e


def rng_of(seed):
    return np.random.RandomState(seed % (2 ** 32))


class Sub:
    def __init__(self, name, strategy, run, n, thorough=None, rule='', examples=(), shards=8):
        self.name, self.strategy, self.run = name, strategy, run
        self.n = n
        self.thorough = thorough if thorough is not None else n * 20
        self.rule = rule
        self.examples = list(examples)
        self.shards = shards


class Ctx:
    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = collections.Counter()

    def label(self, name):
        self.labels[name] += 1

    def tmpdir(self):
        d = os.path.join(self.scratch, 'case')
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        return d


def case_hash(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def from_repo(tb):
    src = os.path.join(os.environ.get('VP_REPO', '/repo'), 'src') + os.sep
    return any(f.filename.startswith(src) or f.filename.endswith('.pyx')
               or '/skmultiflow/' in f.filename
               for f in traceback.extract_tb(tb))


def _on_alarm(sig, frame):
    raise Hang()


def execute(sub, case, ctx):
    """Runs one case.  Returns nontrivial flag; raises Violation, or another
    exception for an error of the harness itself."""
    case = json.loads(json.dumps(case))
    random.seed(12345)
    np.random.seed(12345)
    signal.signal(signal.SIGPROF, _on_alarm)
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT)
    try:
        return bool(sub.run(case, ctx))
    except Violation:
        raise
    except Skip:
        return False
    except Hang:
        raise Violation('does not terminate: more than %g s of CPU time on one case'
                        % CASE_CPU_LIMIT)
    except Exception as e:
        if from_repo(sys.exc_info()[2]):
            raise Violation('raised %s: %s on a valid input\n%s' % (
                type(e).__name__, e, traceback.format_exc(limit=-8))) from e
        raise
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)


class _Stop(BaseException):
    pass


def spread_cases(seed):
    """Independent cases instead of variations of the last one (in three of four searches).

    Hypothesis spends most of a run on copies of earlier cases with parts
    repeated; checks over many independent parameters need the breadth.
    """
    try:
        from hypothesis.internal.conjecture.engine import ConjectureRunner
        if not hasattr(ConjectureRunner, '_vp_mutations'):
            ConjectureRunner._vp_mutations = ConjectureRunner.generate_mutations_from
        plain = ConjectureRunner._vp_mutations
        ConjectureRunner.generate_mutations_from = plain if seed % 4 == 0 else (lambda self, data: None)
    except (ImportError, AttributeError):
        pass


def search(sub, n, seed, examples, ctx):
    import hypothesis
    spread_cases(seed)
    from hypothesis import HealthCheck, Phase, settings
    res = {'evals': 0, 'nontrivial': set(), 'samples': [], 'failure': None, 'labels': {}}
    state = {'best': None, 'first': None}

    def one(case):
        if state['first'] is not None and time.time() - state['first'] > SHRINK_BUDGET:
            raise _Stop()
        if state['first'] is None:
            res['evals'] += 1
        with open(os.path.join(ctx.scratch, 'current.json'), 'w') as fh:
            json.dump(case, fh)
        try:
            nt = execute(sub, case, ctx)
        except Violation as e:
            if state['first'] is None:
                state['first'] = time.time()
            size = len(json.dumps(case))
            if state['best'] is None or size <= state['best'][0]:
                state['best'] = (size, case, str(e))
            if 'does not terminate' in str(e):
                raise _Stop()
            raise
        if nt and state['first'] is None:
            h = case_hash(case)
            if h not in res['nontrivial']:
                res['nontrivial'].add(h)
                if len(res['samples']) < 2 and len(json.dumps(case)) < 3000:
                    res['samples'].append(case)

    try:
        for c in examples:
            one(c)
        if n > 0:
            t = hypothesis.given(sub.strategy)(lambda case: one(case))
            t = settings(max_examples=n, deadline=None, database=None,
                         suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                         phases=[Phase.generate, Phase.shrink], print_blob=False)(t)
            t = hypothesis.seed(seed)(t)
            t()
    except (_Stop, Violation):
        pass
    except BaseException as e:
        if state['best'] is None:
            raise
        if isinstance(e, KeyboardInterrupt):
            raise
    if state['best'] is not None:
        res['failure'] = {'case': state['best'][1], 'message': state['best'][2]}
    res['labels'] = dict(ctx.labels)
    return res


CRASHES = {-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGFPE, -signal.SIGILL}


def crash_case(sub, d, code):
    """The case during which a worker was ended by a fatal signal, if it does it again."""
    try:
        with open(os.path.join(d, 'current.json')) as fh:
            case = json.load(fh)
        pid = os.fork()
        if pid == 0:
            try:
                null = os.open(os.devnull, os.O_RDWR)
                os.dup2(null, 1)
                os.dup2(null, 2)
                os.chdir(d)
                for _ in range(20):
                    execute(sub, case, Ctx(d))
            except BaseException:
                pass
            os._exit(0)
        if os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1]) in CRASHES:
            return {'case': case, 'message': 'the process is ended by signal %d' % -code}
    except (OSError, ValueError):
        pass
    return None


def _worker(conn, prop, sub_i, n, seed, examples, d):
    out = {}
    try:
        null = os.open(os.devnull, os.O_RDWR)
        os.dup2(null, 1)
        if not os.environ.get('VP_DEBUG'):
            os.dup2(null, 2)
        os.chdir(d)
        mod = sys.modules['checks.' + prop.lower()]
        out = search(mod.SUBS[sub_i], n, seed, examples, Ctx(d))
    except BaseException:
        out = {'error': traceback.format_exc()}
    try:
        conn.send(out)
        conn.close()
    finally:
        os._exit(0)


def known_findings(prop):
    f = os.path.join(ROOT, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        with open(f) as fh:
            for line in fh:
                line = line.strip()
                if line and line.startswith('{'):
                    e = json.loads(line)
                    if e.get('property') == prop:
                        out.append(e)
    return out


def save_replay(prop, sub, failure):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    f = os.path.join(d, '%s-%s-%s.json' % (prop, sub.name, case_hash(failure['case'])))
    with open(f, 'w') as fh:
        json.dump({'property': prop, 'sub': sub.name, 'case': failure['case'],
                   'message': failure['message']}, fh, indent=1)
    return f


def main(prop, tier, seed, replay=None, only=None):
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vp-')
    try:
        return _main(prop, tier, seed, replay, only, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(prop, tier, seed, replay, only, t0, scratch):
    from vp import build
    try:
        build.install()
    except Exception as e:
        if not isinstance(e, build.BuildError) and from_repo(sys.exc_info()[2]):
            pass
        traceback.print_exc()
        return 2
    mod = importlib.import_module('checks.' + prop.lower())
    subs = mod.SUBS
    by_name = {s.name: s for s in subs}

    if replay:
        with open(replay) as fh:
            r = json.load(fh)
        os.chdir(scratch)
        try:
            execute(by_name[r['sub']], r['case'], Ctx(scratch))
        except Violation as e:
            print(e)
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        print('replay passes')
        return 0

    known = known_findings(prop)
    jobs = []
    for i, s in enumerate(subs):
        if only and s.name not in only:
            continue
        n = s.n * getattr(mod, 'SCALE', 1) if tier == 'quick' else s.thorough
        shards = max(1, min(s.shards, n // 4 or 1))
        for k in range(shards):
            nk = n // shards + (1 if k < n % shards else 0)
            sd = int(hashlib.sha256(('%d/%s/%s/%d' % (seed, prop, s.name, k)).encode())
                     .hexdigest()[:15], 16)
            ex = []
            if k == 0:
                ex = s.examples + [e['case'] for e in known
                                   if e['status'] == 'fixed' and e.get('sub') == s.name
                                   and e.get('case') is not None]
            jobs.append((i, nk, sd, ex))
    # interleave so that the long jobs do not all start last
    jobs.sort(key=lambda j: j[2] % 997)
    agg = {s.name: {'evals': 0, 'nontrivial': set(), 'samples': [], 'labels':
                    collections.Counter(), 'wall': 0.0} for s in subs}
    failures, errors = [], []
    running = {}
    procs = int(os.environ.get('VP_PROCS', '8'))
    mpx = mp.get_context('fork')
    pending = list(jobs)
    while pending or running:
        while pending and len(running) < procs and not failures and not errors:
            job = pending.pop(0)
            a, b = mpx.Pipe(False)
            d = tempfile.mkdtemp(dir=scratch)
            p = mpx.Process(target=_worker, args=(b, prop) + job + (d,))
            p.start()
            b.close()
            running[a] = (p, job, time.time(), d)
        if (failures or errors) and pending:
            pending = []
        if not running:
            break
        for c in mp.connection.wait(list(running), timeout=1.0):
            p, job, ts, d = running.pop(c)
            s = subs[job[0]]
            try:
                out = c.recv()
            except EOFError:
                p.join()
                out = {'error': 'worker for %s died (exit code %s)' % (s.name, p.exitcode)}
                if p.exitcode in CRASHES:
                    crash = crash_case(s, d, p.exitcode)
                    if crash:
                        failures.append((s, crash))
                        c.close()
                        continue
            c.close()
            p.join()
            if 'error' in out:
                errors.append((s, out))
                continue
            g = agg[s.name]
            g['wall'] += time.time() - ts
            g['evals'] += out['evals']
            g['nontrivial'] |= out['nontrivial']
            g['samples'] += out['samples']
            g['labels'].update(out['labels'])
            if out['failure']:
                failures.append((s, out['failure']))
        if failures:
            for c, (p, job, ts, d) in list(running.items()):
                p.kill()
                p.join()
                c.close()
            running = {}
    rc = 0
    for s, f in failures:
        path = save_replay(prop, s, f)
        print('[%s/%s] %s' % (prop, s.name, f['message']))
        print('  case: %s' % json.dumps(f['case'])[:2000])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        rc = 1
    if not failures:
        for s, out in errors[:2]:
            print('[%s/%s] ERROR of the check:\n%s' % (prop, s.name, out['error']))
            rc = 2
    for e in known:
        if e['status'] == 'known':
            try:
                pid = os.fork()
                if pid == 0:
                    os.chdir(scratch)
                    null = os.open(os.devnull, os.O_RDWR)
                    os.dup2(null, 1)
                    os.dup2(null, 2)
                    try:
                        execute(by_name[e['sub']], e['case'], Ctx(scratch))
                        os._exit(0)
                    except Violation:
                        os._exit(1)
                    except BaseException:
                        os._exit(3)
                st = os.waitstatus_to_exitcode(os.waitpid(pid, 0)[1])
            except OSError:
                st = 3
            if st == 1:
                print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
            else:
                print('note: known finding no longer fails (%s): %s' % (st, e['what']))
    samples = []
    for s in subs:
        for c in agg[s.name]['samples'][:2]:
            samples.append({'sub': s.name, 'case': c})
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
        'coverage': {
            'evaluations': sum(g['evals'] for g in agg.values()),
            'distinct_nontrivial': sum(len(g['nontrivial']) for g in agg.values()),
            'rule': ' | '.join('%s: %s' % (s.name, s.rule) for s in subs),
            'samples': samples,
            'per_sub': {s.name: {'evaluations': agg[s.name]['evals'],
                                 'distinct_nontrivial': len(agg[s.name]['nontrivial']),
                                 'labels': dict(agg[s.name]['labels']),
                                 'cpu_wall_s': round(agg[s.name]['wall'], 2)} for s in subs},
        },
        'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    print('%s tier=%s seed=%d: %d cases, %d distinct non-trivial, %.1f s, exit %d' % (
        prop, tier, seed, ev['coverage']['evaluations'],
        ev['coverage']['distinct_nontrivial'], ev['wall_s'], rc))
    if os.environ.get('VP_VERBOSE'):
        print(json.dumps(ev['coverage']['per_sub'], indent=1))
    return rc
