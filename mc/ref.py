"""Reference model: the Bayesian tree as a nondeterministic transition system, written from the statement of the properties.

State of a node: (rows, depth, prior). Transitions: stop (become a leaf), or one of the maximum-score cuts. An implementation
tree conforms iff it is a complete path system of this transition system; ties (within TOL) are the only nondeterminism.

Marginal likelihoods are computed with the sequential predictive rule (Polya urn / Student-t), i.e. independently of the
beta/gamma function formulas of the implementation. Pure Python floats, no numpy."""
import functools
import math

from .core import Violation

TOL = 1e-8


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * (1 + abs(a) + abs(b))


# ---------------------------------------------------------------- extraction of an implementation tree

class Node:
    __slots__ = ('split', 'dim', 'value', 'name', 'normal', 'origin', 'c1', 'c2', 'n', 'post', 'lp0', 'lp1', 'depth', 'obj')


def _floats(v):
    return None if v is None else [float(a) for a in v]


def extract(model, depth=0):
    """Reads a fitted model (documented fitted attributes only)."""
    t = Node()
    t.obj = model
    t.depth = depth
    t.n = int(model.n_data_)
    t.post = _floats(model.posterior_)
    t.lp0 = t.lp1 = t.dim = t.value = t.name = t.normal = t.origin = None
    t.split = not model.is_leaf()
    if t.split:
        if hasattr(model, 'best_hyperplane_normal_'):
            t.normal = _floats(model.best_hyperplane_normal_)
            t.origin = _floats(model.best_hyperplane_origin_)
        else:
            t.dim = int(model.split_dimension_)
            t.value = float(model.split_value_)
            t.name = model.split_feature_name_
        t.lp0 = getattr(model, 'log_p_data_no_split_', None)
        t.lp1 = getattr(model, 'best_log_p_data_split_', None)
        if model.child1_ is None or model.child2_ is None:
            raise Violation('a split node has no children')
        t.c1 = extract(model.child1_, depth + 1)
        t.c2 = extract(model.child2_, depth + 1)
    else:
        t.c1 = t.c2 = None
        for a in ('child1_', 'child2_'):
            if getattr(model, a) is not None:
                raise Violation('a leaf has a child')
    return t


def nodes(t):
    yield t
    if t.split:
        yield from nodes(t.c1)
        yield from nodes(t.c2)


def shape(t):
    """structural key of a tree"""
    if not t.split:
        return ('L', t.n)
    return ('S', t.dim, t.value, tuple(t.normal or ()), tuple(t.origin or ()), t.n, shape(t.c1), shape(t.c2))


def depth_of(t):
    return 0 if not t.split else 1 + max(depth_of(t.c1), depth_of(t.c2))


def leaves_of(t):
    return 1 if not t.split else leaves_of(t.c1) + leaves_of(t.c2)


# ---------------------------------------------------------------- likelihoods

@functools.lru_cache(maxsize=400000)
def dm(prior, counts):
    """log marginal likelihood of a label sequence with these counts: Polya urn"""
    n = sum(counts)
    if n <= 400:
        s = 0.0
        for p, k in zip(prior, counts):
            for j in range(k):
                s += math.log(p + j)
        tot = math.fsum(prior)
        for j in range(n):
            s -= math.log(tot + j)
        return s
    tot = math.fsum(prior)
    return math.fsum([math.lgamma(p + k) - math.lgamma(p) for p, k in zip(prior, counts)]) - (math.lgamma(tot + n) - math.lgamma(tot))


def ng_step(state, y, w=1.0):
    """one (weighted) observation: -> new (mu, kappa, alpha, beta)"""
    mu, kappa, alpha, beta = state
    k2 = kappa + w
    return (kappa * mu + w * y) / k2, k2, alpha + 0.5 * w, beta + 0.5 * kappa * w * (y - mu) ** 2 / k2


def ng_logpred(state, y):
    """log Student-t predictive density"""
    mu, kappa, alpha, beta = state
    s = 2 * beta * (kappa + 1) / kappa
    return math.lgamma(alpha + 0.5) - math.lgamma(alpha) - 0.5 * math.log(math.pi * s) - (alpha + 0.5) * math.log1p((y - mu) ** 2 / s)


def ng_prefix(prior, ys):
    """log marginal likelihoods of all prefixes of ys (index = length)"""
    out = [0.0]
    off = ys[0] if ys else 0.0  # invariant under a common offset, but better conditioned without one
    st = (prior[0] - off,) + tuple(prior[1:])
    acc = 0.0
    for y in ys:
        y -= off
        acc += ng_logpred(st, y)
        st = ng_step(st, y)
        out.append(acc)
    return out


# ---------------------------------------------------------------- problem

class Problem:
    """A training problem: data plus everything that determines the tree."""

    def __init__(self, X, y, kind, prior, pp, delta=0.0, precision=0.0):
        self.X = [tuple(float(v) for v in r) for r in X]
        self.y = [int(v) for v in y] if kind == 'c' else [float(v) for v in y]
        self.kind = kind
        self.nd = len(self.X[0])
        self.K = None
        if kind == 'c':
            self.K = len(prior) if prior is not None else len(set(self.y))
        self.prior = tuple(float(p) for p in prior) if prior is not None else self.default_prior(len(self.y))
        self.pp, self.delta, self.precision = pp, delta, precision
        self.tol = TOL  # of decisions
        # rounding errors of sums are relative to the size of the terms
        scale = max(abs(v) for v in self.y) if kind == 'r' else 0.0
        self.post_tol = (1e-13 * scale, 0, 0, 1e-13 * scale * scale) if kind == 'r' else (0,) * self.K

    def default_prior(self, n):
        m = max(1, n // 100)
        return (float(m),) * self.K if self.kind == 'c' else (0.0, float(m), m / 2, m / 2)

    # posterior of rows under a prior, each observation weighted with w
    def posterior(self, rows, prior, w=1.0):
        if w == 0:
            return prior
        if self.kind == 'c':
            p = list(prior)
            for r in rows:
                p[self.y[r]] += w
            return tuple(p)
        ys = [self.y[r] for r in rows]
        n = len(ys)
        off = ys[0]
        mean = math.fsum([v - off for v in ys]) / n
        ss = math.fsum([(v - off - mean) ** 2 for v in ys])
        mu, kappa, alpha, beta = prior
        k2 = kappa + w * n
        return ((kappa * mu + w * math.fsum(ys)) / k2, k2, alpha + 0.5 * w * n,
                beta + 0.5 * w * ss + 0.5 * kappa * w * n * (mean - (mu - off)) ** 2 / k2)

    def logml(self, rows, prior):
        if self.kind == 'c':
            c = [0] * self.K
            for r in rows:
                c[self.y[r]] += 1
            return dm(prior, tuple(c))
        return ng_prefix(prior, [self.y[r] for r in rows])[-1]

    def score_stop(self, rows, prior, level):
        return math.log(1 - self.pp ** (1 + level)) + self.logml(rows, prior)

    def cuts_along(self, rows, prior, level, proj):
        """proj: row -> position. -> [(score, row below, row above, number of rows below, order)] of all candidates"""
        order = sorted(rows, key=lambda r: proj[r])
        pos = [i for i in range(1, len(order)) if proj[order[i]] - proj[order[i - 1]] > self.precision]
        if not pos:
            return [], order
        lp = math.log(self.pp ** (1 + level) / (len(pos) * self.nd))
        res = []
        if self.kind == 'c':
            tot = [0] * self.K
            for r in order:
                tot[self.y[r]] += 1
            cur = [0] * self.K
            ip = 0
            for i in pos:
                while ip < i:
                    cur[self.y[order[ip]]] += 1
                    ip += 1
                res.append((lp + dm(prior, tuple(cur)) + dm(prior, tuple(t - c for t, c in zip(tot, cur))), i))
        else:
            ys = [self.y[r] for r in order]
            f = ng_prefix(prior, ys)
            b = ng_prefix(prior, ys[::-1])
            n = len(ys)
            res = [(lp + f[i] + b[n - i], i) for i in pos]
        return res, order

    def axis_cuts(self, rows, prior, level):
        """-> [(score, dim, lower value, upper value, n below)]"""
        out = []
        for d in range(self.nd):
            proj = {r: self.X[r][d] for r in rows}
            res, order = self.cuts_along(rows, prior, level, proj)
            for s, i in res:
                out.append((s, d, self.X[order[i - 1]][d], self.X[order[i]][d], i))
        return out


# ---------------------------------------------------------------- reference tree (for unambiguity) and conformance

def ambiguous(pb, margin=1e-6, max_nodes=10000):
    """Grows the reference tree; -> (is ambiguous, smallest margin): True iff some decision is closer than margin"""
    stack = [(list(range(len(pb.y))), pb.prior, 0, True)]
    smallest = math.inf
    while stack:
        rows, prior, level, is_root = stack.pop()
        pure = len(rows) <= 1 or len({pb.y[r] for r in rows}) <= 1
        if pure and not is_root:
            continue
        s0 = pb.score_stop(rows, prior, level)
        cuts = sorted(pb.axis_cuts(rows, prior, level), reverse=True)
        if not cuts:
            continue
        best = cuts[0]
        gap = abs(best[0] - s0)
        if best[0] > s0 and len(cuts) > 1:
            gap = min(gap, best[0] - cuts[1][0])
        smallest = min(smallest, gap)
        if gap < margin:
            return True, smallest
        if best[0] > s0:
            _, d, lo, hi, _ = best
            l = [r for r in rows if pb.X[r][d] <= lo]
            u = [r for r in rows if pb.X[r][d] >= hi]
            stack.append((l, pb.posterior(l, prior, pb.delta), level + 1, False))
            stack.append((u, pb.posterior(u, prior, pb.delta), level + 1, False))
    return False, smallest


def check_node_posterior(pb, t, rows, prior, what):
    post = pb.posterior(rows, prior)
    if len(post) != len(t.post) or not all(close(a, b) or abs(a - b) <= tol for a, b, tol in zip(post, t.post, pb.post_tol)):
        raise Violation('{}: posterior {} instead of {} (rows {})'.format(what, t.post, list(post), rows[:20]))
    if t.n != len(rows):
        raise Violation('{}: sample count {} instead of {}'.format(what, t.n, len(rows)))


def is_pure(pb, rows):
    return len(rows) <= 1 or len({pb.y[r] for r in rows}) <= 1


def conform_perp(pb, t, st, rows=None, prior=None, level=0, check=('map', 'post'), path='root'):
    """Checks that the implementation (sub)tree t is a behaviour of the reference transition system.

    check: 'map' the decision of every node; 'post' posterior and count of every node; 'lp' recorded log scores"""
    root = rows is None
    if root:
        rows, prior = list(range(len(pb.y))), pb.prior
    st.states += 1
    if 'post' in check:
        check_node_posterior(pb, t, rows, prior, path)
    pure = is_pure(pb, rows)
    if pure and not root:
        if t.split:
            raise Violation('{}: a node with one row or one target value was split'.format(path))
        return
    s0 = best = None
    if 'map' in check:
        s0 = pb.score_stop(rows, prior, level)
        cuts = pb.axis_cuts(rows, prior, level)
        best = max(cuts)[0] if cuts else -math.inf
        st.transitions += 1 + len(cuts)
    if not t.split:
        if 'map' in check and best > s0 and not close(best, s0, pb.tol) and not pure:
            raise Violation('{}: not split although a cut has score {!r} > {!r} of not splitting (rows {}, prior {})'.format(path, best, s0, rows[:20], prior))
        return
    below = [r for r in rows if pb.X[r][t.dim] < t.value]
    above = [r for r in rows if not pb.X[r][t.dim] < t.value]
    if not below or not above:
        raise Violation('{}: split {}<{!r} does not separate the rows {}'.format(path, t.dim, t.value, rows[:20]))
    lo = max(pb.X[r][t.dim] for r in below)
    hi = min(pb.X[r][t.dim] for r in above)
    if not hi - lo > pb.precision:
        raise Violation('{}: split of feature {} between {!r} and {!r}, which are not further apart than the precision {}'.format(path, t.dim, lo, hi, pb.precision))
    if 'map' in check:
        mid = 0.5 * lo + 0.5 * hi
        if not close(t.value, mid, 1e-12) and not (lo < t.value <= hi and abs(t.value - mid) <= 4 * math.ulp(mid)):
            # 32-bit input data has 32-bit midpoints
            if not close(t.value, mid, 2e-7):
                raise Violation('{}: split value {!r} is not midway between {!r} and {!r}'.format(path, t.value, lo, hi))
        mine = [c for c in cuts if c[1] == t.dim and c[2] == lo and c[3] == hi]
        if not mine:
            raise Violation('{}: split between {!r} and {!r} of feature {} is not a candidate'.format(path, lo, hi, t.dim))
        s = mine[0][0]
        if s < best and not close(s, best, pb.tol):
            raise Violation('{}: the cut taken (feature {} at {!r}) has score {!r} but the best one has {!r}'.format(path, t.dim, t.value, s, best))
        if s < s0 and not close(s, s0, pb.tol):
            raise Violation('{}: split although the cut\'s score {!r} < {!r} of not splitting'.format(path, s, s0))
        if 'lp' in check:
            for what, got, exp in (('split', t.lp1, s), ('no split', t.lp0, s0)):
                if got is not None and not close(float(got), exp, 1e-7):
                    raise Violation('{}: recorded log score of {} is {!r} instead of {!r}'.format(path, what, float(got), exp))
    for c, rr, side in ((t.c1, below, 'L'), (t.c2, above, 'R')):
        pc = pb.posterior(rr, prior, pb.delta)
        if is_pure(pb, rr):
            pc = prior  # a terminal child is not examined further and gets the posterior of the parent's prior
        conform_perp(pb, c, st, rr, pc, level + 1, check, path + '.' + side)


# ---------------------------------------------------------------- hyperplane trees

def signed_distance(t, x):
    return sum(a * b for a, b in zip(t.normal, x)) - sum(a * b for a, b in zip(t.normal, t.origin))


def route(t, x):
    """leaf of the (extracted) tree for a row, by the published rule"""
    while t.split:
        if t.normal is not None:
            t = t.c1 if signed_distance(t, x) < 0 else t.c2
        else:
            t = t.c1 if x[t.dim] < t.value else t.c2
    return t


def route_path(t, x):
    steps = []
    while t.split:
        g = not x[t.dim] < t.value
        steps.append((t.dim, t.name, t.value, g))
        t = t.c2 if g else t.c1
    return steps


def leaf_prediction(kind, post):
    """predicted class (lowest index of the largest) or posterior mean"""
    if kind == 'c':
        return float(max(range(len(post)), key=lambda i: (post[i], -i)))
    return post[0]


class Cut:
    """(score, direction index, frozenset(rows below), summed distance, p1 value, p2 value); set and distance are only computed when asked for"""
    __slots__ = ('score', 'di', 'order', 'i', 'scaled')

    def __init__(self, score, di, order, i, scaled):
        self.score, self.di, self.order, self.i, self.scaled = score, di, order, i, scaled

    def __getitem__(self, k):
        if k == 0:
            return self.score
        if k == 1:
            return self.di
        if k == 2:
            return frozenset(self.order[:self.i])
        lo, hi = self.scaled[self.order[self.i - 1]], self.scaled[self.order[self.i]]
        if k == 3:
            mid = 0.5 * (lo + hi)
            return math.fsum([abs(self.scaled[r] - mid) for r in self.order])
        return lo if k == 4 else hi


def hyper_cuts(pb, rows, prior, level, dirs):
    """all candidate cuts of all directions -> list of Cut

    dirs: un-normalized directions; positions are exact for small integer data"""
    out = []
    for di, d in enumerate(dirs):
        nrm = math.sqrt(sum(v * v for v in d))
        proj = {r: sum(a * b for a, b in zip(pb.X[r], d)) for r in rows}
        scaled = {r: p / nrm for r, p in proj.items()}
        res, order = pb.cuts_along(rows, prior, level, scaled)
        out += [Cut(s, di, order, i, scaled) for s, i in res]
    return out


def hyper_sides(t, X, rows):
    below = [r for r in rows if signed_distance(t, X[r]) < 0]
    below_set = set(below)
    return below, [r for r in rows if r not in below_set]


def direction_index(normal, dirs):
    for i, d in enumerate(dirs):
        nrm = math.sqrt(sum(v * v for v in d))
        if all(abs(a - b / nrm) < 1e-9 for a, b in zip(normal, d)):
            return i
    return None


def conform_hyper(pb, t, st, dirs, rows=None, prior=None, level=0, check=('map', 'post'), path='root'):
    """like conform_perp, for trees grown with an optimizer that proposes exactly `dirs` at every node (dirs None: only the structure)"""
    root = rows is None
    if root:
        rows, prior = list(range(len(pb.y))), pb.prior
    st.states += 1
    if 'post' in check:
        check_node_posterior(pb, t, rows, prior, path)
    pure = is_pure(pb, rows)
    if pure and not root:
        if t.split:
            raise Violation('{}: a node with one row or one target value was split'.format(path))
        return
    if t.split:
        if abs(math.fsum([v * v for v in t.normal]) - 1) > 1e-9:
            raise Violation('{}: hyperplane normal {} is not of unit length'.format(path, t.normal))
        below, above = hyper_sides(t, pb.X, rows)
        if not below or not above:
            raise Violation('{}: the hyperplane does not separate the rows {}'.format(path, rows[:20]))
        gap = min(signed_distance(t, pb.X[r]) for r in above) - max(signed_distance(t, pb.X[r]) for r in below)
        if not gap > pb.precision - 1e-9:
            raise Violation('{}: the hyperplane separates projections {} apart, precision {}'.format(path, gap, pb.precision))
    if 'map' in check and dirs is not None:
        s0 = pb.score_stop(rows, prior, level)
        cuts = hyper_cuts(pb, rows, prior, level, dirs)
        best = max(c[0] for c in cuts) if cuts else -math.inf
        st.transitions += 1 + len(cuts)
        if not t.split:
            if best > s0 and not close(best, s0, pb.tol) and not pure:
                raise Violation('{}: not split although a proposed hyperplane has score {!r} > {!r} of not splitting (rows {}, level {})'.format(
                    path, best, s0, rows[:20], level))
        else:
            di = direction_index(t.normal, dirs)
            if di is None:
                raise Violation('{}: normal {} was never proposed'.format(path, t.normal))
            mine = [c for c in cuts if c.di == di and c.i == len(below) and c[2] == frozenset(below)]
            if not mine:
                raise Violation('{}: the partition {} | {} is not a candidate cut along {}'.format(path, below[:20], above[:20], dirs[di]))
            s = mine[0][0]
            if s < best and not close(s, best, pb.tol):
                raise Violation('{}: the hyperplane taken (normal {}) has score {!r} but the best proposed one has {!r}'.format(path, t.normal, s, best))
            if s < s0 and not close(s, s0, pb.tol):
                raise Violation('{}: split although its score {!r} < {!r} of not splitting'.format(path, s, s0))
            if 'lp' in check:
                for what, got, exp in (('split', t.lp1, s), ('no split', t.lp0, s0)):
                    if got is not None and not close(float(got), exp, 1e-7):
                        raise Violation('{}: recorded log score of {} is {!r} instead of {!r}'.format(path, what, float(got), exp))
    if not t.split:
        return
    for c, rr, side in ((t.c1, below, 'B'), (t.c2, above, 'F')):
        pc = prior if is_pure(pb, rr) else pb.posterior(rr, prior, pb.delta)
        conform_hyper(pb, c, st, dirs, rr, pc, level + 1, check, path + '.' + side)


def ambiguous_hyper(pb, dirs, margin=1e-6):
    """True iff a decision of the hyperplane reference tree is closer than margin. Equal scores are only unambiguous where they are equal by
    construction, so that the distance decides: classification, the same partition"""
    stack = [(list(range(len(pb.y))), pb.prior, 0, True)]
    while stack:
        rows, prior, level, is_root = stack.pop()
        if is_pure(pb, rows) and not is_root:
            continue
        s0 = pb.score_stop(rows, prior, level)
        cuts = hyper_cuts(pb, rows, prior, level, dirs)
        if not cuts:
            continue
        top = max(c[0] for c in cuts)
        if abs(top - s0) < margin:
            return True
        if top < s0:
            continue
        tied = [c for c in cuts if top - c[0] < margin]
        if len(tied) > 1 and (pb.kind == 'r' or len({c[2] for c in tied}) > 1):
            return True
        dist = max(c[3] for c in tied)
        if sum(1 for c in tied if dist - c[3] < margin) > 1:
            return True
        # among the cuts of one direction only the first best one is considered, so a distance tie-break within it is ambiguous too
        w = [c for c in tied if dist - c[3] < margin][0]
        if sum(1 for c in tied if c[1] == w[1]) > 1:
            return True
        below = sorted(w[2])
        above = [r for r in rows if r not in w[2]]
        for rr in (below, above):
            stack.append((rr, prior if is_pure(pb, rr) else pb.posterior(rr, prior, pb.delta), level + 1, False))
    return False


def value_of(kind, post, n_classes=None):
    return leaf_prediction(kind, post)


def acceptable_predictions(kind, post, exact_prior=None):
    """set of acceptable predict() values for a posterior: near ties that are not exact ties may go either way"""
    if kind == 'r':
        return None
    top = max(post)
    exact = [i for i, p in enumerate(post) if p == top]
    near = [i for i, p in enumerate(post) if close(p, top, 1e-12)]
    return {exact[0]} if near == exact else set(near)


def check_answers(pb, t_leaf, row_what, predict, proba=None, raw=None, prior=None):
    """one query answer against the (reference) posterior of the leaf that has to answer it"""
    post = t_leaf
    if pb.kind == 'c':
        ok = acceptable_predictions('c', post)
        if float(predict) not in {float(i) for i in ok}:
            raise Violation('{}: predict {!r} instead of {} (posterior {})'.format(row_what, float(predict), sorted(ok), post))
        if proba is not None:
            tot = math.fsum(post)
            if len(proba) != len(post) or not all(close(float(a), b / tot, 1e-9) for a, b in zip(proba, post)):
                raise Violation('{}: predict_proba {} instead of {}'.format(row_what, [float(a) for a in proba], [b / tot for b in post]))
    else:
        if not close(float(predict), post[0], 1e-9):
            raise Violation('{}: predict {!r} instead of {!r}'.format(row_what, float(predict), post[0]))
    if raw is not None:
        if len(raw) != 2 or len(raw[1]) != len(post) or not all(close(float(a), b) for a, b in zip(raw[1], post)):
            raise Violation('{}: raw posterior {} instead of {}'.format(row_what, [float(a) for a in raw[1]], list(post)))
        if prior is not None and not all(close(float(a), b) for a, b in zip(raw[0], prior)):
            raise Violation('{}: raw prior {} instead of {}'.format(row_what, [float(a) for a in raw[0]], list(prior)))


# ---------------------------------------------------------------- derived results of an (extracted) tree

def prune_ref(kind, t):
    """the published pruning rule, applied to an extracted tree bottom-up -> new tree"""
    if not t.split:
        return t
    c1, c2 = prune_ref(kind, t.c1), prune_ref(kind, t.c2)
    n = Node()
    for a in Node.__slots__:
        setattr(n, a, getattr(t, a))
    if not c1.split and not c2.split:
        v = leaf_prediction(kind, t.post)
        if leaf_prediction(kind, c1.post) == v and leaf_prediction(kind, c2.post) == v:
            n.split = False
            n.c1 = n.c2 = n.dim = n.value = n.name = n.normal = n.origin = n.lp0 = n.lp1 = None
            return n
    n.c1, n.c2 = c1, c2
    return n


def full(t):
    """everything observable of a node, recursively"""
    if not t.split:
        return ('L', t.n, tuple(t.post))
    return ('S', t.dim, t.value, t.name, tuple(t.normal or ()), tuple(t.origin or ()), t.n, tuple(t.post), full(t.c1), full(t.c2))


def importance_ref(t, nd):
    """-> list, or None if there is no split"""
    terms = [[] for _ in range(nd)]
    for n in nodes(t):
        if n.split:
            g = float(n.lp1) - float(n.lp0)
            for d in range(nd):
                if n.normal is not None:
                    terms[d].append(g * abs(n.normal[d]))
                elif n.dim == d:
                    terms[d].append(g)
    s = [math.fsum(v) for v in terms]
    tot = math.fsum(s)
    return None if not t.split else [v / tot for v in s] if tot > 0 else [math.nan] * nd
