"""Generators shared by the checks.  Every case is a JSON value; bulk data is a pure
function of an integer drawn by Hypothesis."""
import numpy as np
from hypothesis import strategies as st

seeds = st.integers(0, 2 ** 31 - 1)


def segments(max_len=400, max_segs=5):
    """Piecewise-stationary value stream description: [kind, length, a, b]"""
    seg = st.tuples(st.sampled_from(['bern', 'gauss', 'const', 'ramp', 'unif']),
                    st.integers(1, max_len),
                    st.sampled_from([0.0, 0.02, 0.1, 0.2, 0.35, 0.5, 0.65, 0.8, 0.9, 1.0]),
                    st.sampled_from([0.0, 0.01, 0.1, 0.5, 2.0]))
    return st.lists(seg, min_size=1, max_size=max_segs)


def values(segs, seed, binary=False):
    r = np.random.RandomState(seed)
    out = []
    for kind, n, a, b in segs:
        if binary or kind == 'bern':
            out += (r.rand(n) < a).astype(int).tolist()
        elif kind == 'gauss':
            out += (a + b * r.randn(n)).tolist()
        elif kind == 'const':
            out += [a] * n
        elif kind == 'ramp':
            out += np.linspace(a, a + b, n).tolist()
        else:
            out += (a + b * r.rand(n)).tolist()
    return out


def composition(total, cuts):
    """Splits `total` rows into batches; cuts are fractions drawn by Hypothesis."""
    pts = sorted({0, total} | {int(c * total) for c in cuts})
    return [b - a for a, b in zip(pts, pts[1:])]


fractions = st.floats(0, 1, allow_nan=False, width=32)
cuts = st.lists(fractions, max_size=6)
