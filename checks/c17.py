"""Windows, buffers, count matrices and file helpers of skmultiflow.utils."""
import collections
import os

import numpy as np
from hypothesis import strategies as st

from vp.engine import Sub, require, require_close, rng_of
from vp.gen import seeds

PROP = 'C17'
SCALE = 3
META = dict(
    title='Windows, buffers and count matrices hold exactly what was put in',
    statement='For any sequence of operations: a SlidingWindow holds the most recent window_size '
              'samples in arrival order (fewer after delete_oldest_sample), features and targets '
              'aligned, and refuses samples with another number of features without changing; '
              'FastBuffer and FastComplexBuffer are bounded FIFO queues whose add_element returns '
              'None when everything fits and otherwise the displaced elements, oldest first; '
              'ConfusionMatrix and MOLConfusionMatrix equal the table of the recorded (and not '
              'removed) weighted events, growing for new classes; the helper functions on '
              'dictionaries and shapes compute what their names say without touching their '
              'arguments unless inplace; header removal keeps exactly the non-comment lines.',
    quantifier=dict(over=['inputs', 'histories'],
                    text='all operation sequences, sizes, widths and element types'),
    why_tests_cant='Tests run one short fixed sequence per structure.',
    anchors=dict(files=['src/skmultiflow/utils/data_structures.py',
                        'src/skmultiflow/utils/utils.py',
                        'src/skmultiflow/utils/file_scripts.py'],
                 mechanism=[dict(name='sliding window', where='SlidingWindow.add_sample'),
                            dict(name='bounded queues', where='FastBuffer.add_element, '
                                                              'FastComplexBuffer.add_element'),
                            dict(name='count matrices', where='ConfusionMatrix.update, remove, '
                                                              'reshape')]),
    technique='PBT: generated operation histories compared step by step with reference models '
              '(deque, counter, line filter)',
)

win_s = st.fixed_dictionaries(dict(
    size=st.sampled_from([1, 2, 3, 5, 10, 40]), nf=st.integers(1, 4), nt=st.integers(1, 3), seed=seeds,
    ops=st.lists(st.sampled_from(['add'] * 8 + ['del', 'bad', 'reset', 'addlist']), min_size=1,
                 max_size=80)))


def run_win(c, ctx):
    from skmultiflow.utils.data_structures import SlidingWindow
    r = rng_of(c['seed'])
    w = SlidingWindow(window_size=c['size'])
    ref = collections.deque()
    nf, nt, fresh, over = c['nf'], c['nt'], True, False
    for i, op in enumerate(c['ops']):
        if op in ('add', 'addlist'):
            x, y = r.randn(1, nf), r.randint(0, 9, (1, nt)).astype(float)
            if len(ref) == c['size']:
                ref.popleft()
                over = True
            ref.append((x[0].copy(), y[0].copy()))
            if op == 'addlist':
                w.add_sample(x.tolist(), y.tolist())
            else:
                w.add_sample(x, y)
                x += 100.0
                y += 100.0
            fresh = False
        elif op == 'del':
            if ref:
                ref.popleft()
            w.delete_oldest_sample()
        elif op == 'bad':
            if fresh:
                continue
            try:
                w.add_sample(r.randn(1, nf + 1), r.randn(1, nt))
            except ValueError:
                pass
            else:
                require(False, 'step %d: a sample with %d features entered a window of %d', i,
                        nf + 1, nf)
        else:
            w.reset()
            ref.clear()
            fresh = True
            nf = 1 + nf % 4
        require(w.size == len(ref), 'step %d %s: size %r, expected %d', i, op, w.size, len(ref))
        require(w.window_size == c['size'], 'window size changed')
        if not fresh:
            require(w.n_features == nf and w.n_targets == nt, 'step %d: n_features %r n_targets %r',
                    i, w.n_features, w.n_targets)
            ex = np.array([p[0] for p in ref]).reshape(len(ref), nf)
            ey = np.array([p[1] for p in ref]).reshape(len(ref), nt)
            require_close(w.features_buffer, ex, 'step %d %s: features' % (i, op), 0, 0)
            require_close(w.targets_buffer, ey, 'step %d %s: targets' % (i, op), 0, 0)
    return over


buf_s = st.fixed_dictionaries(dict(
    size=st.integers(1, 8), width=st.integers(1, 3), cplx=st.booleans(),
    init=st.integers(0, 3),
    ops=st.lists(st.one_of(st.tuples(st.just('add'), st.integers(1, 12)),
                           st.tuples(st.sampled_from(['next', 'next', 'peek', 'clear', 'list']),
                                     st.just(1))), min_size=1, max_size=40)))


def run_buf(c, ctx):
    from skmultiflow.utils.data_structures import FastBuffer, FastComplexBuffer
    n = 0
    ref = collections.deque()
    size, over = c['size'], False

    def fresh():
        nonlocal n
        n += 1
        return [n] * c['width'] if c['cplx'] else ('e', n)
    if c['cplx']:
        b = FastComplexBuffer(size, c['width'])
    else:
        init = [fresh() for _ in range(min(c['init'], size))]
        b = FastBuffer(size, list(init) if init else None)
        ref.extend(init)
    for i, (op, k) in enumerate(c['ops']):
        if op in ('add', 'list'):
            es = [fresh() for _ in range(k)]
            fits = len(ref) + k <= size
            out = []
            for e in es:
                if len(ref) == size:
                    out.append(ref.popleft())
                ref.append(e)
            if c['cplx']:
                arg = es[0] if k == 1 else es
                if op == 'add':
                    arg = np.array(arg)
                got = b.add_element(arg)
            else:
                got = b.add_element(list(es))
            if fits:
                require(got is None, 'step %d: add of %d elements that fit returned %r', i, k, got)
            else:
                over = True
                require(got == out, 'step %d: add returned %r, displaced were %r', i, got, out)
        elif op == 'next':
            want = ref.popleft() if ref else None
            got = b.get_next_element()
            require(got == want, 'step %d: next element %r, expected %r', i, got, want)
        elif op == 'peek':
            want = ref[0] if ref else None
            require(b.peek() == want, 'step %d: peek %r, expected %r', i, b.peek(), want)
        else:
            b.clear_queue()
            ref.clear()
        require(list(b.get_queue()) == list(ref), 'step %d %s: queue %r, expected %r', i, op,
                b.get_queue(), list(ref))
        require(b.get_current_size() == len(ref), 'step %d: current size', i)
        require(bool(b.is_full()) == (len(ref) == size), 'step %d: is_full', i)
        require(bool(b.is_empty()) == (not ref), 'step %d: is_empty', i)
    return over


cm_s = st.fixed_dictionaries(dict(
    n=st.sampled_from([None, 0, 1, 2, 4]), dtype=st.sampled_from(['int', 'float']),
    ops=st.lists(st.tuples(st.sampled_from(['up'] * 5 + ['rm', 'rm', 'none', 'restart']),
                           st.integers(-1, 6), st.integers(-1, 6), st.sampled_from([1, 1, 2, 5])),
                 min_size=1, max_size=40)))


def run_cm(c, ctx):
    from skmultiflow.utils.data_structures import ConfusionMatrix
    m = ConfusionMatrix(c['n'], dtype=np.int64 if c['dtype'] == 'int' else np.float64)
    k = c['n'] or 0
    ref, count, grew = collections.Counter(), 0, False
    for i, (op, a, b, w) in enumerate(c['ops']):
        if op == 'up':
            if a < 0 or b < 0:
                continue
            if max(a, b) >= k:
                k, grew = max(a, b) + 1, True
            ref[a, b] += w
            count += 1
            require(m.update(a, b, w) is True, 'step %d: update(%d, %d) refused', i, a, b)
        elif op == 'rm':
            known = 0 <= a < k and 0 <= b < k
            if known and ref[a, b] < 1:
                continue
            if known:
                ref[a, b] -= 1
                count -= 1
            require(m.remove(a, b) is known, 'step %d: remove(%d, %d) with %d classes', i, a, b, k)
        elif op == 'none':
            require(m.update(None, b) is False and m.update(a, None) is False
                    and m.remove(None, b) is False, 'step %d: missing index accepted', i)
        else:
            k = abs(a)
            m.restart(k)
            ref, count = collections.Counter(), 0
        want = np.zeros((k, k))
        for (p, q), v in ref.items():
            want[p, q] = v
        require(tuple(m.shape()) == (k, k), 'step %d %s: shape %r, expected %d', i, op, m.shape(), k)
        require_close(np.asarray(m.matrix, float), want, 'step %d %s: matrix' % (i, op), 0, 0)
        require(m.sample_count == count, 'step %d: sample count %r, expected %d', i,
                m.sample_count, count)
        require(float(m.get_sum_main_diagonal()) == float(np.trace(want)), 'step %d: diagonal', i)
        for p in range(k):
            require_close(np.asarray(m.row(p), float).ravel(), want[p], 'row %d' % p, 0, 0)
            require_close(np.asarray(m.column(p), float).ravel(), want[:, p], 'column %d' % p, 0, 0)
            for q in range(k):
                require(float(m.value_at(p, q)) == want[p, q], 'value_at(%d, %d)', p, q)
    return grew


mol_s = st.fixed_dictionaries(dict(
    n=st.sampled_from([None, 0, 1, 3]),
    ops=st.lists(st.tuples(st.sampled_from(['up'] * 6 + ['rm', 'rm', 'none']),
                           st.integers(0, 5), st.integers(-1, 2), st.integers(-1, 2),
                           st.sampled_from([1, 1, 3])), min_size=1, max_size=40)))


def run_mol(c, ctx):
    from skmultiflow.utils.data_structures import MOLConfusionMatrix
    m = MOLConfusionMatrix(c['n'])
    k = c['n'] or 0
    ref = np.zeros((k, 2, 2))
    n_ok = 0
    for i, (op, t, a, b, w) in enumerate(c['ops']):
        valid = a in (0, 1) and b in (0, 1)
        if op == 'up':
            ok = valid and t <= k
            got = m.update(t, a, b, w)
            require(got is ok, 'step %d: update(%d, %d, %d) with %d targets -> %r', i, t, a, b, k, got)
            if ok:
                n_ok += 1
                if t == k:
                    k += 1
                    ref = np.concatenate([ref, np.zeros((1, 2, 2))])
                ref[t, a, b] += w
        elif op == 'rm':
            ok = valid and t < k
            if ok and ref[t, a, b] < 1:
                continue
            got = m.remove(t, a, b)
            require(got is ok, 'step %d: remove(%d, %d, %d) with %d targets -> %r', i, t, a, b, k, got)
            if ok:
                ref[t, a, b] -= 1
        else:
            require(m.update(None, a, b) is False and m.update(t, None, b) is False
                    and m.remove(t, a, None) is False, 'step %d: missing index accepted', i)
        require(tuple(m.shape()) == (k, 2, 2), 'step %d: shape %r', i, m.shape())
        require_close(np.asarray(m.matrix, float), ref, 'step %d %s: matrix' % (i, op), 0, 0)
        diag = float(ref[:, 0, 0].sum() + ref[:, 1, 1].sum())
        require(float(m.get_sum_main_diagonal()) == diag, 'diagonal')
        require(float(m.get_total_sum()) == ref.sum(), 'total')
        require(float(m.get_total_discordance()) == ref.sum() - diag, 'discordance')
        for t2 in range(k):
            require_close(np.asarray(m.target(t2), float), ref[t2], 'target %d' % t2, 0, 0)
            require(float(m.value_at(t2, 0, 1)) == ref[t2, 0, 1], 'value_at')
    return n_ok >= 3


keys = st.sampled_from([0, 1, 2, 3, -1, 10])
vals = st.one_of(st.integers(-20, 20), st.floats(-1e3, 1e3, allow_nan=False, width=32))
dct = st.dictionaries(keys.map(str), vals, max_size=6)
dict_s = st.fixed_dictionaries(dict(
    a=dct, b=dct, inplace=st.booleans(), factor=st.sampled_from([None, None, 2, -0.5, 0, 'nan']),
    r=st.integers(1, 5), k=st.integers(1, 5)))


def run_dict(c, ctx):
    from skmultiflow.utils import get_dimensions, normalize_values_in_dict, add_dict_values, \
        get_max_value_key
    a, b = {int(k): v for k, v in c['a'].items()}, {int(k): v for k, v in c['b'].items()}
    a0, b0 = dict(a), dict(b)
    res = add_dict_values(a, b, inplace=c['inplace'])
    want = {k: a0.get(k, 0) + b0.get(k, 0) for k in set(a0) | set(b0)}
    require(set(res) == set(want), 'add_dict_values keys')
    for k in want:
        require_close(res[k], want[k], 'add_dict_values[%r]' % k)
    require(b == b0, 'add_dict_values changed its second argument')
    require((res is a) if c['inplace'] else (a == a0), 'add_dict_values inplace=%r', c['inplace'])
    if a0:
        best = get_max_value_key(a0)
        require(a0[best] == max(a0.values()), 'get_max_value_key %r of %r', best, a0)
    else:
        require(get_max_value_key(a0) == 0, 'get_max_value_key of an empty dictionary')
    f = float('nan') if c['factor'] == 'nan' else c['factor']
    d = dict(a0)
    s = f if f is not None else sum(a0.values())
    if s == 0 or s != s:
        try:
            normalize_values_in_dict(d, factor=f, inplace=c['inplace'])
        except ValueError:
            pass
        else:
            require(False, 'normalised by %r', s)
        require(d == a0, 'failed normalisation changed the dictionary')
    elif abs(s) > 1e-6:
        out = normalize_values_in_dict(d, factor=f, inplace=c['inplace'])
        require(set(out) == set(a0), 'normalised keys')
        for k in a0:
            require_close(out[k], a0[k] / s, 'normalised[%r]' % k)
        require((out is d) if c['inplace'] else (d == a0), 'normalise inplace=%r', c['inplace'])
    r, k = c['r'], c['k']
    arr = np.zeros((r, k))
    require(tuple(get_dimensions(arr)) == (r, k), 'dimensions of a matrix')
    require(tuple(get_dimensions(arr.tolist())) == (r, k), 'dimensions of nested lists')
    require(tuple(get_dimensions(arr[0])) == (1, k), 'dimensions of a vector')
    require(tuple(get_dimensions(arr[0].tolist())) == (1, k), 'dimensions of a flat list')
    return len(set(a0) & set(b0)) > 0 and a0 != b0


line = st.one_of(st.sampled_from(['# c', '#', '', ' # not a comment', 'a,#b', '%x', '1,2,3', '%%',
                                  'value#', ',']),
                 st.text('ab#%, 1', max_size=6))
head_s = st.fixed_dictionaries(dict(
    lines=st.lists(line, max_size=12), last_nl=st.booleans(),
    ch=st.sampled_from([None, '#', '%']), new=st.booleans(),
    name=st.sampled_from(['a.csv', 'data', 'x.y.txt']), sub=st.sampled_from(['d', 'd.v1', 'p.q/r'])))


def run_head(c, ctx):
    from skmultiflow.utils.file_scripts import clean_header, RemoveHeader
    d = os.path.join(ctx.tmpdir(), c['sub'])
    os.makedirs(d)
    base = os.path.join(d, c['name'])
    text = '\n'.join(c['lines']) + ('\n' if c['last_nl'] else '')
    with open(base, 'w') as f:
        f.write(text)
    ch = c['ch'] or '#'
    want = ''.join(ln for ln in text.splitlines(True) if not ln.startswith(ch))
    kw = {} if c['ch'] is None else dict(ignore_char=ch)
    stem, ext = os.path.splitext(c['name'])
    for i in range(2):
        out = os.path.join(d, 'out%d.txt' % i) if c['new'] else \
            os.path.join(d, stem + '_no_header' + ext)
        if i == 0:
            clean_header(base, out if c['new'] else None, **kw)
        else:
            RemoveHeader(base, out if c['new'] else None, **kw).clean_file()
        require(os.path.exists(out), 'expected output file %s', os.path.relpath(out, d))
        with open(out) as f:
            got = f.read()
        require(got == want, 'cleaned file %r, expected %r', got, want)
        os.remove(out)
    with open(base) as f:
        require(f.read() == text, 'the source file was changed')
    return text != want and want != ''


SUBS = [
    Sub('window', win_s, run_win, 400, 8000, 'the window overflowed'),
    Sub('buffer', buf_s, run_buf, 600, 12000, 'an element was displaced'),
    Sub('confusion', cm_s, run_cm, 500, 10000, 'the matrix grew'),
    Sub('mol_confusion', mol_s, run_mol, 500, 10000, 'at least 3 accepted updates'),
    Sub('dicts', dict_s, run_dict, 500, 10000, 'overlapping different dictionaries'),
    Sub('header', head_s, run_head, 300, 4000, 'some lines kept and some removed'),
]
ASSUMPTIONS = ['entries of FastComplexBuffer are added as one flat row or as several rows',
               'window samples are added one at a time, as documented']
