"""Reference model of the very fast decision rules: rules keep their samples since their last
expansion.  What the published algorithm leaves open (equally good candidates) is read from the model."""
import copy
import math

import numpy as np

from vp.engine import Skip, require, require_close, short
from vp.treeref import INF, MERIT, Stat, arg_max, entropy, greater, near, nb_votes, part_below, reached


def covers(preds, x):
    for a, op, v in preds:
        ok = {'<=': x[a] <= v, '>': x[a] > v, '=': x[a] == v, '!=': x[a] != v}[op]
        if not ok:
            return False
    return True


class R:
    def __init__(self, preds, dist, det):
        self.preds, self.dist, self.det = list(preds), dict(dist), det
        self.samples, self.disabled = [], set()
        self.last = 0.0
        self._stat = None

    def weight(self):
        return sum(self.dist.values())


class RefVFDR:
    def __init__(self, conf, ordered, grace, tie, how, nominal, max_rules, nbt, nb, det, crit, poor, min_weight):
        self.conf, self.ordered, self.grace, self.tie, self.how = conf, ordered, grace, tie, how
        self.nominal, self.max_rules, self.nbt, self.nb = set(nominal), max_rules, nbt, nb
        self.det, self.crit, self.poor, self.min_weight = det, crit, poor, min_weight
        if ordered:
            self.how = 'first_hit'
        self.rules, self.default = [], R([], {}, None)
        self.n_new = self.n_grown = self.n_drop = self.n_multi = 0

    def learn(self, rule, x, y, w):
        rule.dist[y] = rule.dist.get(y, 0.0) + w
        rule.samples.append((x, y, w))
        rule._stat = None

    def stat(self, rule):
        if rule._stat is None:
            rule._stat = Stat(rule.samples, self.nominal)
        return rule._stat

    def due(self, rule):
        gap = rule.weight() - rule.last
        return reached(gap, self.grace)

    # -- one sample; `look` reads the rules of the model: [(predicates, distribution)]
    def fit(self, x, y, w, look):
        x = np.array(x, dtype=float)
        if w == 0:
            return
        fired = 0
        grown = []
        for rule in list(self.rules):
            if not covers(rule.preds, x):
                continue
            fired += 1
            if rule.det is not None:
                guess = arg_max(rule.dist) if rule.dist else 0
                rule.det.add_element(1 if guess == y else 0)
                change = rule.det.detected_change()
                if change and abs(rule.weight() - self.min_weight) < 1e-6:
                    raise Skip()
                if change and rule.weight() > self.min_weight:
                    self.rules = [q for q in self.rules if q is not rule]
                    self.n_drop += 1
                    continue
            self.learn(rule, x, y, w)
            if self.due(rule):
                grown.append(rule)
            if self.ordered:
                break
        if fired > 1:
            self.n_multi += 1
        created = False
        if not fired:
            self.learn(self.default, x, y, w)
            created = self.max_rules > len(self.rules) and self.due(self.default)
        if not grown and not created:
            return
        have = look()
        for rule in grown:
            i = next(k for k, q in enumerate(self.rules) if q is rule)
            require(i < len(have), '%d rules, expected %d', len(have), len(self.rules))
            self.grow(rule, have[i])
            rule.last = rule.weight()
        if created:
            self.create(have)

    def candidates(self, rule):
        """Per attribute [(merit, side preferred or None, att, value, branches)] in the order of evaluation."""
        out = []
        st = self.stat(rule)
        merit = MERIT.get(self.crit)
        pre = rule.dist
        low, side = None, 0         # the purest branch met so far tells the operator
        tied = False
        for a in range(len(rule.samples[0][0]) if rule.samples else 0):
            if a in rule.disabled:
                continue
            cands = []
            if a in self.nominal:
                vals = sorted({s[0][a] for s in rule.samples})
                posts = []
                for v in vals:
                    eq, ne = {}, {}
                    for x, y, w in rule.samples:
                        d = eq if x[a] == v else ne
                        d[y] = d.get(y, 0.0) + w
                    posts.append((v, [eq, ne]))
            else:
                g = {c: st.gauss(a, c) for c in st.arr}
                lo, hi = min(t[3] for t in g.values()), max(t[4] for t in g.values())
                posts = []
                for i in range(10):
                    sv = lo + (hi - lo) / 11.0 * (i + 1)
                    if not lo < sv < hi:
                        continue
                    left, right = {}, {}
                    for c, (W, m, s, mn, mx) in g.items():
                        u = part_below(sv, g[c], lo, hi)
                        if sv >= mn:
                            left[c] = u
                        if sv < mx:
                            right[c] = max(W - u, 0.0)
                    posts.append((sv, [left, right]))
            for v, post in posts:
                m = merit(pre, post) if merit else 0.0
                if self.crit == 'info_gain' and m > -INF:
                    for b in (0, 1):
                        e = entropy(post[b].values())
                        if low is not None and near(e, low, 1e-7) and b != side:
                            tied = True
                        elif low is None or e < low - 1e-7:
                            low, side, tied = e, b, False
                        elif e < low:
                            low = e
                elif self.crit == 'hellinger' and m > 0:
                    pos, neg = post[0][1] + post[1][1], post[0][0] + post[1][0]
                    dl, dr = ((math.sqrt(post[b][1] / pos) - math.sqrt(post[b][0] / neg)) ** 2 for b in (0, 1))
                    side, tied = (0 if dl >= dr else 1), near(dl, dr, 1e-7)
                elif self.crit == 'hellinger':
                    tied = tied or m > -INF
                cands.append((m, None if tied or merit is None else side, a, v, post))
            if cands:
                out.append(cands)
        return out

    def decide(self, rule, growing):
        """None, or the list of acceptable candidates."""
        if len(rule.dist) < 2:
            return None
        per = self.candidates(rule)
        if self.crit == 'foil_gain':
            return [c for cs in per for c in cs] + [None]
        top = sorted([(max(c[0] for c in cs), cs) for cs in per], key=lambda t: t[0])
        if not top:
            return None
        go = True
        best = top[-1][0]
        if len(top) > 1:
            hb = math.sqrt(math.log2(max(2, len(rule.dist))) ** 2 * math.log(1 / self.conf) / (2 * rule.weight()))
            diff = best - top[-2][0] if best > -INF else float('nan')
            go = greater(diff, hb) or greater(self.tie, hb)
            if growing and self.poor and best > -INF:
                for m, cs in top:
                    if greater(best - m, hb):
                        rule.disabled.add(cs[0][2])
        if not go:
            return None
        # per attribute the first of the best candidates counts; up to rounding any of them
        return [c for _, cs in top for c in cs if near(c[0], best, 1e-9)]

    OPS = {(True, 0): '=', (True, 1): '!=', (False, 0): '<=', (False, 1): '>'}

    def pick(self, cands, att, op, v, what):
        """The candidate the model has used."""
        for c in cands:
            if c is None or c[2] != att or not near(c[3], v, 1e-7):
                continue
            b = 0 if op in ('<=', '=') else 1
            if self.OPS[(att in self.nominal, b)] != op:
                continue
            if c[1] is not None and c[1] != b and len([z for z in cands if z]) == 1:
                continue
            return c, b
        require(False, '%s: condition (%d, %s, %s) is not the best one: %s', what, att, op, v,
                short([z and (z[0], z[1], z[2], z[3]) for z in cands[:4]]))

    def same_preds(self, p, q):
        return len(p) == len(q) and all(a[0] == b[0] and a[1] == b[1] and near(a[2], b[2], 1e-9)
                                        for a, b in zip(p, q))

    def grow(self, rule, have):
        preds, dist = have
        cands = self.decide(rule, True)
        if cands is None or (None in cands and self.same_preds(preds, rule.preds) and self.close(dist, rule.dist)):
            if cands is not None and any(p[1] in ('=', '!=') for p in rule.preds):
                raise Skip()    # whether a condition was met again cannot be seen
            return              # compared by the caller
        old = rule.preds
        what = 'rule %s grown to %s' % (short(old), short(preds))
        if len(preds) == len(old) + 1 and self.same_preds(preds[:-1], old):
            att, op, v = preds[-1]
            c, b = self.pick(cands, att, op, v, what)
            require(not any(p[0] == att and p[1] == op for p in old), '%s: second condition of a kind', what)
            rule.preds, rule.dist = list(preds), dict(c[4][b])
        else:
            # an existing condition was tightened, or a nominal one met again
            require(len(preds) == len(old), '%s: not one step', what)
            done = False
            for c in cands:
                for b in (0, 1):
                    if c is None or done:
                        continue
                    op = self.OPS[(c[2] in self.nominal, b)]
                    if c[1] is not None and c[1] != b and len([z for z in cands if z]) == 1:
                        continue
                    new, dist2 = [list(p) for p in old], None
                    for p in new:
                        if p[0] == c[2] and p[1] == op:
                            if op == '<=':
                                p[2], dist2 = min(p[2], c[3]), c[4][0]
                            elif op == '>':
                                p[2], dist2 = max(p[2], c[3]), c[4][1]
                            else:
                                dist2 = rule.dist
                            break
                    if dist2 is not None and self.same_preds(new, preds) and self.close(dist2, dist):
                        rule.preds, rule.dist, done = list(preds), dict(dist2), True
            require(done, '%s (weights %s): expected one of %s', what, short(dist), short(
                [z and (z[0], z[1], z[2], z[3]) for z in cands[:4]]))
        rule.samples, rule.disabled, rule._stat = [], set(), None
        self.n_grown += 1

    @staticmethod
    def close(a, b):
        return set(a) == set(b) and all(abs(a[k] - b[k]) <= 1e-6 * (1 + abs(b[k])) for k in a)

    def create(self, have):
        d = self.default
        cands = self.decide(d, False)
        if cands is None or (None in cands and len(have) == len(self.rules)):
            d.last = d.weight()
            return
        foil = self.crit == 'foil_gain'
        new = have[len(self.rules):]
        require(new if foil else len(new) == 1, '%d new rules where one is due', len(new))
        for preds, dist in new:
            require(len(preds) == 1, 'new rule %s', short(preds))
            att, op, v = preds[0]
            c, b = self.pick(cands, att, op, v, 'new rule %s' % short(preds))
            self.rules.append(R(preds, c[4][b], copy.deepcopy(self.det)))
            self.n_new += 1
        self.default = R([], {} if foil else c[4][1 - b], None)

    # -- prediction: list of acceptable votes
    def rule_votes(self, rule, x):
        if self.nb and reached(rule.weight(), self.nbt):
            atts = [a for a in range(len(rule.samples[0][0])) if a not in rule.disabled] if rule.samples else ()
            return nb_votes(x, rule.dist, self.stat(rule), atts)
        return rule.dist

    @staticmethod
    def norm(v):
        t = sum(v.values())
        if 0 < t < 1e-290:
            raise Skip()
        return {k: u / t for k, u in v.items()} if t else dict(v)

    def votes(self, x):
        x = np.array(x, dtype=float)
        fired = [q for q in self.rules if covers(q.preds, x)]
        if not fired:
            return [self.norm(self.rule_votes(self.default, x))]
        vs = [self.norm(self.rule_votes(q, x)) for q in fired]
        if self.how == 'first_hit':
            return vs[:1]
        if self.how == 'weighted_max':
            vs = [v for v in vs if v] or [self.norm(self.rule_votes(self.default, x))]
            top = [max(v.values()) for v in vs]
            return [v for v, t in zip(vs, top) if near(t, max(top))]
        out = {}
        for v in vs:
            for k, u in v.items():
                out[k] = out.get(k, 0.0) + u
        return [self.norm(out)]
