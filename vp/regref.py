"""Reference models of the Hoeffding tree regressors (single target, iSOUP, stacked)."""
import math

import numpy as np

from vp.engine import Skip
from vp.treeref import reached


class EBST:
    """Extended binary search tree over the values of one numeric attribute."""

    def __init__(self, v, d):
        self.v, self.d, self.l, self.r = v, d.copy(), None, None


class NumObs:
    def __init__(self):
        self.root = None

    def add(self, v, d):
        if self.root is None:
            self.root = EBST(v, d)
            return
        n = self.root
        while True:
            if v <= n.v:
                n.d += d
                if v == n.v:
                    return
                if n.l is None:
                    n.l = EBST(v, d)
                    return
                n = n.l
            else:
                if n.r is None:
                    n.r = EBST(v, d)
                    return
                n = n.r

    def cuts(self):
        """[(value, statistics of the samples known to be <= value)] in increasing order"""
        out = []

        def walk(n, acc):
            if n is None:
                return
            walk(n.l, acc)
            out.append((n.v, n.d + acc))
            walk(n.r, acc + n.d)
        walk(self.root, 0.0)
        return out

    def prune(self, bad):
        """Drops the nodes whose own cut and all cuts below them are bad."""
        def walk(n, acc):
            """-> True when n is to be dropped"""
            b = n.l is None
            if n.l is not None and walk(n.l, acc):
                n.l, b = None, True
            if not b:
                return False
            b = n.r is None
            if n.r is not None and walk(n.r, acc + n.d):
                n.r, b = None, True
            return b and bad(n.d + acc)
        if walk(self.root, 0.0):
            self.root = None


class Leaf:
    def __init__(self, stats, parent=None, active=True):
        self.stats = stats.copy()
        self.active = active
        self.obs = {}
        self.disabled = set()
        self.last = stats[0] if stats is not None else 0.0
        self.W = None if parent is None or parent.W is None else [w.copy() for w in parent.W]
        self.err = None
        self.rng = None


class Split:
    def __init__(self, test, stats):
        self.test, self.stats, self.kids = test, stats, []

    def branch(self, x):
        kind, att, v = self.test
        if kind == 'num':
            return 0 if x[att] <= v else 1
        if kind == 'bin':
            return 0 if x[att] == v else 1
        return v.index(x[att]) if x[att] in v else None


class RefHTR:
    """kind: htr | isoup | sst; pred: mean | perceptron | adaptive."""

    def __init__(self, kind, t, grace, conf, tie, binary, poor, nopre, pred, nominal, lr, decay, const, seed,
                 stop=False):
        self.kind, self.t = kind, t
        self.grace, self.conf, self.tie, self.binary = grace, conf, tie, binary
        self.poor, self.nopre, self.pred = poor, nopre, pred
        self.nominal = set(nominal or [])
        self.lr, self.decay, self.const, self.seed, self.stop = lr, decay, const, seed, stop
        self.root = None
        self.growing, self.full = True, False
        self.n = 0.0
        self.gx = self.gx2 = self.gy = self.gy2 = 0.0
        self.n_split = self.n_pruned = 0
        self.scale = 1e-12
        self.boot = False      # adaptive tree: leaves draw Poisson(1) weights

    # -- statistics: vector [weight, sum_1..sum_t, squares_1..squares_t]
    def vec(self, y, w):
        return np.concatenate([[w], w * y, w * y * y])

    def spread(self, d):
        n, s, q = d[0], d[1:1 + self.t], d[1 + self.t:]
        if self.kind == 'htr':
            return math.sqrt(max(0.0, float((q[0] - s[0] * s[0] / n) / n)))
        return float(np.mean((q - s * s / n) / (n - 1)))

    def merit(self, pre, post):
        if any(d[0] < 5 for d in post):
            return 0.0
        m = self.spread(pre) - sum(d[0] / pre[0] * self.spread(d) for d in post)
        return m if m != 0 else 1e-200      # only a forbidden split is worth exactly nothing

    def less(self, a, b, unit):
        if a == b == 0:
            return False
        if abs(a - b) <= 1e-6 * unit:
            raise Skip()
        return a < b

    # -- structure
    def find(self, x):
        node, parent, b = self.root, None, None
        while isinstance(node, Split):
            i = node.branch(x)
            if i is None:
                return node, parent, b
            parent, b, node = node, i, node.kids[i]
        return node, parent, b

    def replace(self, parent, b, node):
        if parent is None:
            self.root = node
        else:
            parent.kids[b] = node

    def leaves(self, node=None, depth=0):
        node = self.root if node is None else node
        if node is None:
            return []
        if isinstance(node, Leaf):
            return [(node, depth)]
        return [z for k in node.kids for z in self.leaves(k, depth + 1)]

    def counts(self):
        lv = self.leaves()

        def splits(n):
            return 0 if not isinstance(n, Split) else 1 + sum(splits(k) for k in n.kids)
        return dict(nodes=len(lv) + splits(self.root), leaves=len(lv), active=sum(
            1 for n, _ in lv if n.active), depth=max([d for _, d in lv] or [0]))

    def empty(self):
        return np.zeros(1 + 2 * self.t)

    # -- normalisation with the statistics of the whole stream
    def sd(self, s, q):
        if self.kind == 'htr':
            return np.sqrt(np.maximum(0.0, (q - s * s / self.n) / self.n)) * 3
        if self.n <= 1:
            return np.zeros_like(s)
        return np.sqrt(np.maximum(0.0, (q - s * s / self.n) / (self.n - 1)))

    def norm_x(self, x):
        if self.n <= 1:
            out = np.zeros(len(x) + 1)
            if self.kind == 'htr':
                for a in self.nominal:
                    if a < len(x):
                        out[a] = x[a]
            return out
        sd = self.sd(self.gx, self.gx2)
        m = self.gx / self.n
        out = np.ones(len(x) + 1)
        for i in range(len(x)):
            if self.kind == 'htr' and i in self.nominal:
                out[i] = x[i]
            else:
                if 0 < sd[i] < 1e-4 * (1 + abs(m[i])):
                    raise Skip()       # constant attribute up to rounding
                out[i] = (x[i] - m[i]) / sd[i] if sd[i] > 0 else 0.0
        return out

    def norm_y(self, y):
        if self.n <= 1:
            return np.zeros(self.t)
        sd, m = self.sd(self.gy, self.gy2), self.gy / self.n
        out = np.zeros(self.t)
        for i in range(self.t):
            if 0 < sd[i] < 1e-4 * (1 + abs(m[i])):
                raise Skip()
            if sd[i] > 0:
                out[i] = (y[i] - m[i]) / sd[i]
        return out

    # -- learning
    def rng(self, leaf):
        if leaf.rng is None:
            leaf.rng = np.random.RandomState(self.seed)
        return leaf.rng

    def train_linear(self, leaf, x, y, w):
        if self.pred == 'mean' and not self.boot:
            return
        f = len(x)
        if leaf.W is None:
            r = self.rng(leaf)
            if self.kind == 'htr':
                leaf.W = [r.uniform(-1, 1, f + 1)[None, :]]
            else:
                leaf.W = [r.uniform(-1, 1, (self.t, f + 1))]
                if self.kind == 'sst':
                    leaf.W.append(r.uniform(-1, 1, (self.t, self.t + 1)))
                leaf.W = [u / np.abs(u).sum(1, keepdims=True) for u in leaf.W]
        rate = self.lr if self.const else self.lr / (1 + leaf.stats[0] * self.decay)
        if leaf.err is None:
            leaf.err = np.zeros((3, self.t))
        for _ in range(int(w)):
            xn, yn = self.norm_x(x), self.norm_y(y)
            p = leaf.W[0] @ xn
            leaf.W[0] = leaf.W[0] + rate * np.outer(yn - p, xn)
            p2 = p
            if self.kind == 'sst':
                z = np.append(p, 1.0)
                p2 = leaf.W[1] @ z
                leaf.W[1] = leaf.W[1] + rate * np.outer(yn - p2, z)
            leaf.W = [u / np.abs(u).sum(1, keepdims=True) for u in leaf.W]
            mean = leaf.stats[1:1 + self.t] / leaf.stats[0]
            leaf.err = 0.95 * leaf.err + np.abs(np.array([yn - self.norm_y(mean), yn - p, yn - p2]))

    def learn(self, leaf, x, y, w):
        if self.boot:
            w *= max(1, self.rng(leaf).poisson(1.0))
        leaf.stats = leaf.stats + self.vec(y, w)
        if leaf.active:
            for a in range(len(x)):
                if a in leaf.disabled:
                    continue
                if a in self.nominal:
                    o = leaf.obs.setdefault(a, {})
                    o[x[a]] = o.get(x[a], self.empty()) + self.vec(y, w)
                else:
                    leaf.obs.setdefault(a, NumObs()).add(x[a], self.vec(y, w))
        self.train_linear(leaf, x, y, w)

    def fit(self, x, y, w=1.0):
        if w == 0:
            return
        x, y = np.array(x, dtype=float), np.atleast_1d(np.array(y, dtype=float))
        self.n += w
        self.gx, self.gx2 = self.gx + w * x, self.gx2 + w * x * x
        self.gy, self.gy2 = self.gy + w * y, self.gy2 + w * y * y
        self.scale = max(self.scale, float(np.abs(y).max()))
        if self.root is None:
            self.root = Leaf(self.empty())
        node, parent, b = self.find(x)
        if isinstance(node, Split):
            node.test[2].append(x[node.test[1]])
            new = Leaf(self.empty())
            node.kids.append(new)
            self.learn(new, x, y, w)
            return
        self.learn(node, x, y, w)
        if self.growing and node.active and reached(node.stats[0] - node.last, self.grace):
            self.attempt(node, parent, b)
            node.last = node.stats[0]

    def deactivate_all(self):
        self.full = True
        if self.stop:
            self.growing = False
            return
        for lf, _ in self.leaves():
            lf.active = False
            lf.obs = {}

    def best_of(self, a, o, pre):
        cands = []
        if a in self.nominal:
            vals = sorted(o)
            if not self.binary:
                post = [o[v] for v in vals]
                cands.append((self.merit(pre, post), ('multi', a, list(vals)), post))
            for v in vals:
                post = [o[v], pre - o[v]]
                cands.append((self.merit(pre, post), ('bin', a, v), post))
        else:
            for v, left in o.cuts():
                post = [left, pre - left]
                cands.append((self.merit(pre, post), ('num', a, v), post))
        best = None
        for c in cands:
            if best is None or c[0] > best[0]:
                best = c
        unit = self.unit()
        for c in cands:
            if c is not best and c[0] != 0 and abs(c[0] - best[0]) <= 1e-6 * unit:
                return (best[0], 'tie', a)
        return best

    def unit(self):
        return self.scale if self.kind == 'htr' else self.scale ** 2

    def attempt(self, leaf, parent, b):
        pre = leaf.stats
        s = [] if self.nopre else [(0.0 if pre[0] < 5 else 0.0, None, None)]
        for a in sorted(leaf.obs):
            if a not in leaf.disabled:
                s.append(self.best_of(a, leaf.obs[a], pre))
        s.sort(key=lambda z: z[0])
        if len(s) < 2:
            raise Skip()
        hb = math.sqrt(math.log(1 / self.conf) / (2 * pre[0]))
        best, second = s[-1], s[-2]
        unit = self.unit()
        if not self.less(0.0, best[0], unit):
            return
        if second[0] != 0 and abs(best[0] - second[0]) <= 1e-6 * unit:
            raise Skip()
        ratio = second[0] / best[0]
        rel = max(1.0, unit / best[0])
        split = self.less(ratio, 1 - hb, rel) or self.less(hb, self.tie, 1e-3)
        if self.poor and not split:
            for z in s:
                if z[1] is None:
                    continue
                if self.less(z[0] / best[0], ratio - 2 * hb, rel):
                    leaf.disabled.add(z[2] if z[1] == 'tie' else z[1][1])
        if split:
            if best[1] == 'tie':
                raise Skip()
            self.n_split += 1
            node = Split(best[1], pre)
            node.kids = [Leaf(d, leaf) for d in best[2]]
            self.replace(parent, b, node)
            if self.full:
                self.deactivate_all()
        elif second[0] > 0:
            if second[0] <= 1e-6 * unit:
                raise Skip()

            def bad(left):
                m = self.merit(pre, [left, pre - left])
                return self.less(m / best[0], ratio - 2 * hb, rel)
            for a, o in leaf.obs.items():
                if a not in self.nominal and a not in leaf.disabled:
                    k = len(o.cuts())
                    o.prune(bad)
                    self.n_pruned += k - len(o.cuts())

    # -- prediction
    def predict(self, x):
        x = np.array(x, dtype=float)
        if self.root is None:
            return np.zeros(self.t)
        node, _, _ = self.find(x)
        mean = node.stats[1:1 + self.t] / node.stats[0]
        if isinstance(node, Split) or self.pred == 'mean' or node.W is None or (self.n <= 1 and self.kind != 'htr'):
            return mean
        p = node.W[0] @ self.norm_x(x)
        m, sd = self.gy / self.n, self.sd(self.gy, self.gy2)
        p2 = node.W[1] @ np.append(p, 1.0) if self.kind == 'sst' else p
        p, p2 = p * sd + m, p2 * sd + m
        if self.pred == 'perceptron':
            return p2
        e = node.err if node.err is not None else np.zeros((3, self.t))
        out = mean.copy()
        for j in range(self.t):
            em, ep, es = e[:, j]
            if self.kind == 'isoup':
                if em != ep and abs(em - ep) < 1e-9:
                    raise Skip()
                if ep <= em:
                    out[j] = p[j]
                continue
            lo = min(em, ep, es)
            if em == ep == es:
                out[j] = p[j]
            elif sum(abs(v - lo) < 1e-9 for v in (em, ep, es)) > 1:
                raise Skip()
            elif lo == ep:
                out[j] = p[j]
            elif lo == es:
                out[j] = p2[j]
        return out
