"""Reference models of the Hoeffding trees: leaves keep their samples, every statistic is
recomputed from them.  Decisions that hang on rounding raise Skip."""
import math

import numpy as np

from vp.engine import Skip

INF = float('inf')


def near(a, b, eps=1e-9):
    if a == b or math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= eps * (1 + abs(a) + abs(b))


def greater(a, b):
    """a > b; undecidable up to rounding -> Skip."""
    if math.isnan(a) or math.isnan(b):
        return False
    if a != b and near(a, b):
        raise Skip()
    return a > b


def reached(gap, limit):
    """gap >= limit; a sum of weights within rounding of the limit -> Skip."""
    if abs(gap - limit) < 1e-6 and not (gap == limit and float(limit).is_integer()):
        raise Skip()
    return gap >= limit


def cdf(z):
    return 0.5 * math.erfc(-z / math.sqrt(2.0))


def entropy(ws):
    ws = [w for w in ws if w > 0]
    t = sum(ws)
    return -sum(w / t * math.log2(w / t) for w in ws) if t > 0 else 0.0


def branches(post, frac=0.01):
    t = sum(sum(d.values()) for d in post)
    return sum(1 for d in post if t > 0 and sum(d.values()) / t > frac)


def info_gain(pre, post):
    if branches(post) < 2:
        return -INF
    t = sum(sum(d.values()) for d in post)
    return entropy(pre.values()) - sum(sum(d.values()) * entropy(d.values()) for d in post) / t


def gini(pre, post):
    t = sum(sum(d.values()) for d in post)
    g = 0.0
    for d in post:
        s = sum(d.values())
        g += s / t * ((1 - sum((v / s) ** 2 for v in d.values())) if s else 1.0)
    return 1 - g


def hellinger(pre, post):
    if branches(post) < 2:
        return -INF
    if any(c not in post[b] for b in (0, 1) for c in (0, 1)):
        return 0.0
    neg, pos = post[0][0] + post[1][0], post[0][1] + post[1][1]
    return math.sqrt(sum((math.sqrt(post[b][0] / neg) - math.sqrt(post[b][1] / pos)) ** 2 for b in (0, 1)))


MERIT = {'info_gain': info_gain, 'gini': gini, 'hellinger': hellinger}


# ------------------------------------------------------------------ naive Bayes on samples
class Stat:
    """Weighted class-conditional statistics of a list of samples."""

    def __init__(self, samples, nominal):
        self.nominal = nominal
        self.by = {}
        for x, y, w in samples:
            self.by.setdefault(int(y), []).append((x, w))
        self.arr = {c: (np.array([x for x, _ in v], dtype=float), np.array([w for _, w in v], dtype=float))
                    for c, v in self.by.items()}
        self.cache = {}

    def gauss(self, att, c):
        k = (att, c)
        if k not in self.cache:
            X, w = self.arr[c]
            v = X[:, att]
            W = w.sum()
            m = (w * v).sum() / W
            if (v == v[0]).all():
                m, var = v[0], 0.0
            else:
                if abs(W - 1) < 1e-3:
                    raise Skip()
                var = (w * (v - m) ** 2).sum() / (W - 1) if W > 1 else 0.0
            self.cache[k] = (W, m, math.sqrt(var), v.min(), v.max())
        return self.cache[k]

    def like(self, att, c, val):
        if c not in self.arr:
            return 0.0
        if att in self.nominal:
            X, w = self.arr[c]
            v = X[:, att]
            return (w[v == val].sum() + 1.0) / (w.sum() + len(np.unique(v)))
        W, m, s, lo, hi = self.gauss(att, c)
        if s > 0:
            z = (val - m) / s
            return math.exp(-z * z / 2) / (math.sqrt(2 * math.pi) * s)
        if val != m and near(val, m):
            raise Skip()
        return 1.0 if val == m else 0.0


def part_below(sv, stat, lo, hi):
    """The weight of a class expected up to the cut sv (lo, hi: range of the attribute)."""
    W, m, s, mn, mx = stat
    exact = (hi - lo) % 11 == 0 and float(lo).is_integer()
    if not exact and (near(sv, mn) or near(sv, mx)):
        raise Skip()
    if sv < mn:
        return 0.0
    if sv >= mx:
        return W
    if s == 0:
        if near(sv, m):
            raise Skip()
        return W if sv > m else 0.0
    return W * cdf((sv - m) / s)


def below(v, cut):
    if near(v, cut) and not (v == cut and float(cut).is_integer()):
        raise Skip()
    return v <= cut


def nb_votes(x, prior, stat, atts):
    tot = sum(prior.values())
    if not prior or tot == 0:
        return {0: 0.0}
    out = {}
    for c, w in prior.items():
        p = w / tot
        for a in atts:
            p *= stat.like(a, c, x[a])
        out[c] = p
    return out


def arg_max(d):
    """First key with the maximal value (keys in increasing order)."""
    best = None
    for k in sorted(d):
        if best is None or d[k] > d[best]:
            best = k
    for k in d:
        if k != best and d[k] != 0 and abs(d[k] - d[best]) <= 1e-9 * d[best] + (1e-12 if d[best] > 1e-3 else 0):
            if not (d[k] == d[best] and float(d[k]).is_integer()):
                raise Skip()
    return best


# ------------------------------------------------------------------ trees
class Leaf:
    def __init__(self, stats, active=True):
        self.stats = dict(stats)
        self.active = active
        self.samples = []
        self.disabled = set()
        self.last = sum(self.stats.values())
        self.mc = self.nb = 0.0
        self._stat = None

    def total(self):
        return sum(self.stats.values())


class Split:
    def __init__(self, test, stats):
        self.test, self.stats = test, dict(stats)
        self.kids = []

    def branch(self, x):
        kind, att, v = self.test
        if kind == 'num':
            return 0 if below(x[att], v) else 1
        if kind == 'bin':
            return 0 if x[att] == v else 1
        return v.index(x[att]) if x[att] in v else None


class RefHT:
    """Hoeffding tree classifier (Domingos and Hulten; leaf models mc, nb, nba)."""

    def __init__(self, grace, crit, conf, tie, binary, poor, nopre, pred, nbt, nominal, stop=False):
        self.grace, self.crit, self.conf, self.tie = grace, crit, conf, tie
        self.binary, self.poor, self.nopre, self.pred, self.nbt = binary, poor, nopre, pred, nbt
        self.nominal = set(nominal or [])
        self.stop, self.growing = stop, True
        self.full = False
        self.root = None
        self.n_split = self.n_pre = 0
        self.can_disable = pred == 'mc'

    def new_leaf(self, stats, active=True):
        return Leaf(stats, active)

    def new_split(self, test, leaf):
        return Split(test, leaf.stats)

    # -- structure
    def find(self, x):
        """(node, parent, branch); node is a Split when the branch does not exist yet."""
        node, parent, b = self.root, None, None
        while isinstance(node, Split):
            i = node.branch(x)
            if i is None:
                return node, parent, b
            parent, b, node = node, i, node.kids[i]
        return node, parent, b

    def replace(self, parent, b, node):
        if parent is None:
            self.root = node
        else:
            parent.kids[b] = node

    def leaves(self, node=None, depth=0):
        node = self.root if node is None else node
        if node is None:
            return []
        if isinstance(node, Leaf):
            return [(node, depth)]
        return [z for k in node.kids for z in self.leaves(k, depth + 1)]

    def counts(self):
        lv = self.leaves()

        def splits(n):
            return 0 if not isinstance(n, Split) else 1 + sum(splits(k) for k in n.kids)
        return dict(nodes=len(lv) + splits(self.root), leaves=len(lv), active=sum(
            1 for n, _ in lv if n.active), depth=max([d for _, d in lv] or [0]))

    # -- learning
    def stat(self, leaf):
        if leaf._stat is None:
            leaf._stat = Stat(leaf.samples, self.nominal)
        return leaf._stat

    def atts(self, leaf):
        return range(len(leaf.samples[0][0])) if leaf.samples else ()

    def learn(self, leaf, x, y, w):
        if self.pred == 'nba' and leaf.active:
            mc = arg_max(leaf.stats) if leaf.stats else 0
            if mc == y:
                leaf.mc += w
            v = nb_votes(x, leaf.stats, self.stat(leaf), self.atts(leaf))
            if arg_max(v) == y:
                leaf.nb += w
        leaf.stats[y] = leaf.stats.get(y, 0.0) + w
        if leaf.active:
            leaf.samples.append((x, y, w))
            leaf._stat = None

    def fit(self, x, y, w=1.0):
        x = np.array(x, dtype=float)
        if w == 0:
            return
        if self.root is None:
            self.root = self.new_leaf({})
        node, parent, b = self.find(x)
        if isinstance(node, Split):
            node.test[2].append(x[node.test[1]])
            new = self.new_leaf({})
            node.kids.append(new)
            self.learn(new, x, y, w)
            return
        self.learn(node, x, y, w)
        if self.growing and node.active:
            seen = node.total()
            if reached(seen - node.last, self.grace):
                self.attempt(node, parent, b)
                node.last = seen

    def deactivate_all(self):
        """Not even one active leaf fits into the memory limit."""
        self.full = True
        if self.stop:
            self.growing = False
            return
        for lf, _ in self.leaves():
            lf.active = False
            lf.samples, lf._stat, lf.disabled = [], None, set()

    def suggestions(self, leaf):
        merit = MERIT[self.crit]
        pre = leaf.stats
        out = []
        if not self.nopre:
            out.append((merit(pre, [pre]), None, None))
        st = self.stat(leaf)
        for a in self.atts(leaf):
            if a in leaf.disabled:
                continue
            cands = []
            if a in self.nominal:
                vals = sorted({s[0][a] for s in leaf.samples})
                dist = {v: {} for v in vals}
                for x, y, w in leaf.samples:
                    dist[x[a]][y] = dist[x[a]].get(y, 0.0) + w
                if not self.binary:
                    post = [dist[v] for v in vals]
                    cands.append((merit(pre, post), ('multi', a, list(vals)), post))
                for i, v in enumerate(vals):
                    if len(vals) <= 2 and cands:
                        break       # the same partition
                    rest = {}
                    for u in vals:
                        if u != v:
                            for c, w in dist[u].items():
                                rest[c] = rest.get(c, 0.0) + w
                    cands.append((merit(pre, [dist[v], rest]), ('bin', a, v), [dist[v], rest]))
            else:
                g = {c: st.gauss(a, c) for c in st.arr}
                lo, hi = min(t[3] for t in g.values()), max(t[4] for t in g.values())
                for i in range(10):
                    sv = lo + (hi - lo) / 11.0 * (i + 1)
                    if not lo < sv < hi:
                        continue
                    left, right = {}, {}
                    for c, (W, m, s, mn, mx) in g.items():
                        u = part_below(sv, g[c], lo, hi)
                        if sv >= mn:
                            left[c] = u
                        if sv < mx:
                            right[c] = max(W - u, 0.0)
                    cands.append((merit(pre, [left, right]), ('num', a, sv), [left, right]))
            best = None
            for c in cands:
                if best is None or c[0] > best[0]:
                    best = c
            if best is not None:
                if any(c is not best and near(c[0], best[0]) and c[0] > -INF and c[2] != best[2] for c in cands):
                    # several equally good splits of this attribute: only the merit is certain
                    best = (best[0], 'tie', a)
                out.append(best)
        out.sort(key=lambda t: t[0])
        return out

    def range(self, leaf):
        return 1.0 if self.crit == 'gini' else math.log2(max(2, len(leaf.stats)))

    def attempt(self, leaf, parent, b):
        if sum(1 for v in leaf.stats.values() if v != 0) < 2:
            return
        s = self.suggestions(leaf)
        split = False
        if len(s) < 2:
            split = len(s) > 0
        else:
            hb = math.sqrt(self.range(leaf) ** 2 * math.log(1 / self.conf) / (2 * leaf.total()))
            best, second = s[-1], s[-2]
            diff = best[0] - second[0] if best[0] > -INF else float('nan')
            split = greater(diff, hb) or greater(self.tie, hb)
            if split and best[0] > -INF and near(best[0], second[0]):
                raise Skip()
            if self.poor:
                for m, t, a in s:
                    if t is not None and best[0] > -INF and self.can_disable and greater(best[0] - m, hb):
                        leaf.disabled.add(a if t == 'tie' else t[1])
        if not split:
            return
        m, test, post = s[-1]
        if test == 'tie':
            raise Skip()
        if test is None:
            self.n_pre += 1
            if self.stop:
                new = self.new_leaf(leaf.stats, active=False)
                self.growing = False
            else:
                new = self.new_leaf(leaf.stats)     # memory permits: activated again, observers start over
            self.replace(parent, b, new)
        else:
            self.n_split += 1
            node = self.new_split(test, leaf)
            node.kids = [self.new_leaf(d) for d in post]
            self.replace(parent, b, node)
        if self.full:
            self.deactivate_all()

    # -- prediction
    def votes(self, x):
        x = np.array(x, dtype=float)
        if self.root is None:
            return {}
        node, _, _ = self.find(x)
        if isinstance(node, Split):
            return node.stats
        if self.pred == 'mc' or not node.active:
            return node.stats
        if self.pred == 'nb':
            if not reached(node.total(), self.nbt):
                return node.stats
        elif node.mc > node.nb:
            return node.stats
        return nb_votes(x, node.stats, self.stat(node), self.atts(node))

    def proba(self, x):
        v = self.votes(x)
        t = sum(v.values())
        return {c: (w / t if t else w) for c, w in v.items()}


class RefEFDT(RefHT):
    """Extremely fast decision tree: splits as soon as the best split beats no split, and keeps
    the statistics of split nodes to revise them."""

    def __init__(self, grace, reeval, crit, conf, tie, binary, pred, nbt, nominal):
        super().__init__(grace, 'info_gain' if crit == 'hellinger' else crit, conf, tie, binary, False, True,
                         pred, nbt, nominal)
        self.reeval = reeval
        self.n_revised = self.n_killed = self.n_retest = 0

    def find(self, x):
        node, parent, b = self.root, None, None
        while isinstance(node, Split):
            i = node.branch(x)
            if i is None:
                return node, parent, b
            if i >= len(node.kids) or node.kids[i] is None:
                return None, node, i
            parent, b, node = node, i, node.kids[i]
        return node, parent, b

    def leaves(self, node=None, depth=0):
        node = self.root if node is None else node
        if node is None:
            return []
        if isinstance(node, Leaf):
            return [(node, depth)]
        return [z for k in node.kids if k is not None for z in self.leaves(k, depth + 1)]

    def bound(self, node):
        return math.sqrt(self.range(node) ** 2 * math.log(1 / self.conf) / (2 * sum(node.stats.values())))

    def null(self, node):
        m = MERIT[self.crit](node.stats, [node.stats])
        return 0.0 if m == -INF else m

    def att(self, s):
        if s[1] == 'tie':
            return s[2]
        return s[1][1]

    def fit(self, x, y, w=1.0):
        x = np.array(x, dtype=float)
        if w == 0:
            return
        if self.root is None:
            self.root = self.new_leaf({})
        node, parent, b = self.find(x)
        if node is None:
            node = self.new_leaf({})
            while len(parent.kids) <= b:
                parent.kids.append(None)
            parent.kids[b] = node
        if isinstance(node, Leaf):
            self.learn(node, x, y, w)
        node, parent, b = self.root, None, None
        while isinstance(node, Split):
            node.stats[y] = node.stats.get(y, 0.0) + w
            node.samples.append((x, y, w))
            node._stat = None
            if reached(sum(node.stats.values()) - node.last, self.reeval) and self.revise(node, parent, b):
                return
            i = node.branch(x)
            if i is None or i >= len(node.kids) or node.kids[i] is None:
                return
            parent, b, node = node, i, node.kids[i]
        seen = node.total()
        if reached(seen - node.last, self.grace):
            self.attempt(node, parent, b)
            node.last = seen

    def make(self, s, node):
        if s[1] == 'tie' or s[2] is None:
            raise Skip()
        new = Split(s[1], node.stats)
        new.samples, new._stat, new.disabled = list(node.samples), None, set()
        new.last = sum(node.stats.values())
        new.kids = [self.new_leaf(d) for d in s[2]]
        return new

    def ranked(self, node):
        s = self.suggestions(node)
        if not s:
            return None
        return s

    def clear(self, s):
        """The choice of the attribute matters: it must not hang on rounding."""
        if len(s) > 1 and (s[-1][0] == -INF or near(s[-1][0], s[-2][0])):
            raise Skip()

    def attempt(self, leaf, parent, b):
        if sum(1 for v in leaf.stats.values() if v != 0) < 2:
            return
        s = self.ranked(leaf)
        if not s:
            return
        hb = self.bound(leaf)
        if greater(s[-1][0] - self.null(leaf), hb) or greater(self.tie, hb):
            self.clear(s)
            self.n_split += 1
            self.replace(parent, b, self.make(s[-1], leaf))

    def revise(self, node, parent, b):
        if sum(1 for v in node.stats.values() if v != 0) < 2:
            return False
        s = self.ranked(node)
        if not s:
            return False
        hb, best = self.bound(node), s[-1]
        cur = [z for z in s if self.att(z) == node.test[1]]
        if greater(self.null(node) - best[0], hb):
            new = self.new_leaf({})
            new.stats, new.samples, new.last = node.stats, node.samples, 0.0
            self.replace(parent, b, new)
            self.n_killed += 1
            return True
        diff = best[0] - cur[0][0] if best[0] > -INF else float('nan')
        if greater(diff, hb) or greater(self.tie, hb):
            self.clear(s)
            if self.att(best) != node.test[1]:
                self.n_revised += 1
                self.replace(parent, b, self.make(best, node))
                return True
            if best[1] == 'tie':
                raise Skip()
            if node.test != best[1]:
                self.n_retest += 1
            node.test = best[1]
        return False

    def votes(self, x):
        x = np.array(x, dtype=float)
        if self.root is None:
            return {}
        node, parent, _ = self.find(x)
        if node is None:
            return parent.stats
        return super().votes(x)


class RefHAT(RefHT):
    """Hoeffding adaptive tree: each node watches its error with ADWIN (the library's, checked on
    its own); a node whose error rises grows an alternate tree, which replaces it when better."""

    def __init__(self, grace, crit, conf, tie, binary, poor, nopre, pred, nominal, seed=None):
        super().__init__(grace, crit, conf, tie, binary, poor, nopre, pred, 0, nominal)
        self.can_disable = False
        self.seed = seed
        self.n_alt = self.n_switch = self.n_drop = 0

    def monitor(self, node):
        from skmultiflow.drift_detection import ADWIN
        node.adwin = ADWIN()
        return node

    def new_leaf(self, stats, active=True):
        leaf = self.monitor(Leaf(stats, active))
        leaf.rng = None if self.seed is None else np.random.RandomState(self.seed)
        return leaf

    def new_split(self, test, leaf):
        s = self.monitor(Split(test, leaf.stats))
        s.alt = None
        return s

    def replace(self, parent, b, node):
        if b == 'alt':
            # an alternate tree that is pre-pruned is given up
            parent.alt = node if isinstance(node, Split) or getattr(node, 'fresh', False) else None
        else:
            super().replace(parent, b, node)

    def fit(self, x, y, w=1.0):
        x = np.array(x, dtype=float)
        if w == 0:
            return
        if self.root is None:
            self.root = self.new_leaf({})
        self.train(self.root, x, y, w, None, None)

    def train(self, node, x, y, w, parent, b):
        if isinstance(node, Leaf):
            self.train_leaf(node, x, y, w, parent, b)
        else:
            self.train_split(node, x, y, w, parent, b)

    def guess(self, node, x):
        v = self.node_votes(node, x)
        return arg_max(v) if v else 0

    def watch(self, node, wrong):
        old = node.adwin.estimation
        node.adwin.add_element(1.0 if wrong else 0.0)
        return node.adwin.detected_change() and not old > node.adwin.estimation

    def train_leaf(self, leaf, x, y, w, parent, b):
        if leaf.rng is not None:
            k = leaf.rng.poisson(1.0)
            if k > 0:
                w = w * k
        self.watch(leaf, self.guess(leaf, x) != y)
        self.learn(leaf, x, y, w)
        seen = leaf.total()
        if reached(seen - leaf.last, self.grace):
            self.attempt(leaf, parent, b)
            leaf.last = seen

    def attempt(self, leaf, parent, b):
        n = self.n_pre
        super().attempt(leaf, parent, b)
        if self.n_pre > n and self.n_alt:
            raise Skip()        # pre-pruned leaves of alternate trees: not specified

    def kill(self, node):
        for k in node.kids:
            if isinstance(k, Split):
                if k.alt is not None:
                    if isinstance(k.alt, Split):
                        self.kill(k.alt)
                    self.n_drop += 1
                self.kill(k)

    def train_split(self, node, x, y, w, parent, b):
        hit = node
        while isinstance(hit, Split):
            i = hit.branch(x)
            if i is None:
                break
            hit = hit.kids[i]
        if self.watch(node, self.guess(hit, x) != y):
            node.alt = self.new_leaf({})
            self.n_alt += 1
        elif node.alt is not None:
            n0, n1 = node.adwin.width, node.alt.adwin.width
            if n0 > 300 and n1 > 300:
                e0, e1 = node.adwin.estimation, node.alt.adwin.estimation
                bound = math.sqrt(2 * e0 * (1 - e0) * math.log(2 / 0.05) * (1 / n0 + 1 / n1))
                if greater(e0 - e1, bound):
                    alt, node.alt = node.alt, None
                    alt.fresh = True
                    self.kill(node)
                    self.replace(parent, b, alt)
                    self.n_switch += 1
                    self.train(alt, x, y, w, parent, b)
                    return
                if greater(e1 - e0, bound):
                    if isinstance(node.alt, Split):
                        self.kill(node.alt)
                    node.alt = None
                    self.n_drop += 1
        if node.alt is not None:
            self.train(node.alt, x, y, w, node, 'alt')
        i = node.branch(x)
        if i is None:
            node.test[2].append(x[node.test[1]])
            new = self.new_leaf({})
            node.kids.append(new)
            self.train(new, x, y, w, None, None)
        else:
            self.train(node.kids[i], x, y, w, node, i)

    def node_votes(self, node, x):
        if isinstance(node, Split) or self.pred == 'mc':
            return node.stats
        if self.pred == 'nba' and node.mc > node.nb:
            return node.stats
        return nb_votes(x, node.stats, self.stat(node), self.atts(node))

    def votes(self, x):
        x = np.array(x, dtype=float)
        if self.root is None:
            return {}
        return self.node_votes(self.find(x)[0], x)
