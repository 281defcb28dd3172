"""Construction of the models under test from JSON-able configurations."""
from . import env  # noqa: F401

import numpy as np
import pandas as pd
from bayesian_decision_tree.classification import PerpendicularClassificationTree, HyperplaneClassificationTree
from bayesian_decision_tree.regression import PerpendicularRegressionTree, HyperplaneRegressionTree
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer

from . import forms, ref

MODELS = {
    'pc': PerpendicularClassificationTree,
    'pr': PerpendicularRegressionTree,
    'hc': HyperplaneClassificationTree,
    'hr': HyperplaneRegressionTree,
}


class ScriptedOptimizer(HyperplaneOptimizer):
    """The environment's optimizer: proposes a given sequence of normals and records the answers."""

    def __init__(self, normals, how='fresh'):
        super().__init__(search_space_is_unit_hypercube=False)
        self.normals = normals
        self.how = how  # fresh arrays, one buffer that is overwritten for every proposal (and with garbage afterwards), or read-only rows of one matrix
        self.log = []

    def solve(self, optimization_function):
        answers = []
        if self.how == 'buffer':
            buffer = np.empty(len(self.normals[0]))
            for n in self.normals:
                buffer[:] = n
                answers.append(float(optimization_function.compute(buffer)))
            buffer[:] = 12345.0
        elif self.how == 'matrix':
            matrix = np.array(self.normals, dtype=float)
            matrix.setflags(write=False)
            for n in matrix:
                answers.append(float(optimization_function.compute(n)))
        else:
            for n in self.normals:
                answers.append(float(optimization_function.compute(np.array(n, dtype=float))))
        self.log.append(answers)


def directions(nd):
    """an alphabet of exactly representable-up-to-scale directions (projections of small integers stay exactly ordered)"""
    if nd == 1:
        return [[1.0]]
    axes = [[1.0 if i == j else 0.0 for i in range(nd)] for j in range(nd)]
    out = list(axes)
    for i in range(nd):
        for j in range(i + 1, nd):
            for a, b in ((1, 1), (1, -1), (1, 2), (2, -1)):
                v = [0.0] * nd
                v[i], v[j] = float(a), float(b)
                out.append(v)
    if nd == 4:
        out += [[1.0, 1.0, 1.0, 1.0], [1.0, -1.0, 1.0, -1.0]]  # their unit vectors are exact
    return out


PRIOR_FORMS = ['array', 'list', 'tuple', 'read-only', 'strided']
INT_PRIOR_FORMS = ['int-list', 'int-array', 'array', 'int-tuple']


def prior_of(c):
    if c.get('prior') is None:
        return None
    v = [float(a) for a in c['prior']]
    form = c.get('pf', 'array')
    if form.startswith('int-') and all(a == int(a) and abs(a) < 2 ** 53 for a in v):
        v = [int(a) for a in v]
    kind = form.replace('int-', '')
    if kind == 'list':
        return v
    if kind == 'tuple':
        return tuple(v)
    if kind == 'series':
        return pd.Series(v)
    a = np.array(v)
    if kind == 'strided':
        a = np.repeat(a, 3)[::3]
    if kind == 'read-only':
        a.setflags(write=False)
    return a


def make(c, **over):
    """c: {'model': 'pc', 'pp':, 'prior':, 'delta':, 'prune':, 'precision':, 'normals':}"""
    c = dict(c, **over)
    kw = dict(partition_prior=c.get('pp', 0.9), prior=prior_of(c), delta=c.get('delta', 0), prune=bool(c.get('prune', False)),
              split_precision=c.get('precision', 0.0))
    if c['model'][0] == 'h':
        kw['optimizer'] = c['optimizer'] if 'optimizer' in c else ScriptedOptimizer(c.get('normals') or directions(len(c['X'][0])), c.get('how', 'fresh'))
    return MODELS[c['model']](**kw)


def data(c):
    X, y = np.array(c['X'], dtype=float), np.array(c['y'], dtype=float)
    if c.get('xf') in CROSS_FORMS:
        F = forms.X_FORMS[c['xf']](X)
        X = X if F is None else F
    return X, y


def fit(c, **over):
    X, y = data(c)
    m = make(c, **over)
    r = m.fit(X, y)
    if r is not m:
        raise ref.Violation('fit() does not return the model itself')
    return m


def problem(c):
    pb = ref.Problem(c['X'], c['y'], c['model'][1], c.get('prior'), c.get('pp', 0.9), c.get('delta', 0), c.get('precision', 0.0))
    pb.tol = c.get('tol', pb.tol)
    return pb


def probes(pb, t, extra=2):
    """query rows: per feature all training values, split values and their neighbours; combined along a diagonal and per axis"""
    per = []
    splits = [[] for _ in range(pb.nd)]
    for n in ref.nodes(t):
        if n.split and n.dim is not None:
            splits[n.dim].append(n.value)
    for d in range(pb.nd):
        vals = sorted({r[d] for r in pb.X})
        s = set(vals) | set(splits[d])
        for v in splits[d]:
            s.add(float(np.nextafter(v, -np.inf)))
            s.add(float(np.nextafter(v, np.inf)))
        s.add(vals[0] - 1)
        s.add(vals[-1] + 1)
        # both zeros: they are equal, so the sign must not matter
        per.append([w for v in sorted(s) for w in ((-0.0, 0.0) if v == 0 else (v,))])
    return per


def probe_rows(pb, t, limit=200):
    per = probes(pb, t)
    rows = [list(r) for r in dict.fromkeys(pb.X)]
    total = 1
    for p in per:
        total *= len(p)
    if total <= limit:
        import itertools
        rows += [list(r) for r in itertools.product(*per)]
    else:
        base = [list(r) for r in list(dict.fromkeys(pb.X))[:3]]
        # with many features: those that are split along, and some others
        dims = range(pb.nd) if pb.nd <= 12 else sorted({0, 1, pb.nd // 2, pb.nd - 1, *[n.dim for n in ref.nodes(t) if n.split and n.dim is not None]})
        for b in base:
            for d in dims:
                for v in per[d]:
                    rows.append(b[:d] + [v] + b[d + 1:])
        m = max(len(p) for p in per)
        for i in range(m):
            rows.append([p[i % len(p)] for p in per])
        rows = rows[:max(limit, len(dict.fromkeys(pb.X)) + limit)]
    return rows


def training_partition(pb, t):
    """id(leaf) -> rows of the training set that the published routing rule sends there"""
    part = {}
    for r, x in enumerate(pb.X):
        part.setdefault(id(ref.route(t, x)), []).append(r)
    return part


def exact_arithmetic(t, x):
    """no rounding occurs in the signed distance of x, in whatever order it is computed"""
    for v in (x, t.origin):
        for a, b in zip(t.normal, v):
            if abs(a) > 1 or abs(b) > 2.0 ** 20 or a * 2.0 ** 12 % 1 or b * 2.0 ** 12 % 1:
                return False
    return True


def near_hyperplane(t, x, eps=1e-9):
    """is x so close to a hyperplane on its route that rounding decides?"""
    while t.split:
        if t.normal is None:
            return False
        d = ref.signed_distance(t, x)
        if not exact_arithmetic(t, x) and abs(d) < eps * (sum(abs(v) for v in x) + sum(abs(v) for v in t.origin)):
            return True
        t = t.c1 if d < 0 else t.c2
    return False


def hyper_probe_rows(pb, t, limit=60):
    rows = [list(r) for r in dict.fromkeys(pb.X)]
    per = []
    for d in range(pb.nd):
        vals = sorted({r[d] for r in pb.X})
        per.append([vals[0] - 1.25] + vals + [0.5 * (vals[0] + vals[-1]) + 0.125, vals[-1] + 1.75])
    import itertools
    for n in ref.nodes(t):
        # rows exactly on a hyperplane: its origin and shifts of it within the plane
        if n.split and n.normal is not None:
            rows.append(list(n.origin))
            dims = range(pb.nd) if pb.nd <= 6 else sorted({0, 1, pb.nd // 2, pb.nd - 2, pb.nd - 1, *[d for d, v in enumerate(n.normal) if v][:2]})
            for i in dims:
                for j in dims:
                    if i != j:
                        o = list(n.origin)
                        o[i] += 2 * n.normal[j]
                        o[j] -= 2 * n.normal[i]
                        rows.append(o)
    rows += [list(r) for r in itertools.islice(itertools.product(*per), limit)]
    rows += [[-0.0 if v == 0 else v for v in r] for r in rows[:6] if 0.0 in r]
    return [r for r in rows if not near_hyperplane(t, r)]


def queries(pb, t, limit=200):
    return hyper_probe_rows(pb, t, limit) if any(n.normal for n in ref.nodes(t)) else probe_rows(pb, t, limit)


def answer_rows(m, Q, raw=True):
    """all per-row queries -> one tuple per row (predict, proba, raw leaf data, path); exact values"""
    pred = m.predict(Q)
    n = len(pred)
    if pred.shape != (n,):
        raise ref.Violation('predict() has shape {}'.format(pred.shape))
    out = [[float(p)] for p in pred]
    if hasattr(m, 'predict_proba'):
        res = m.predict_proba(Q)
        if len(res) != n:
            raise ref.Violation('predict_proba() has {} rows instead of {}'.format(len(res), n))
        for o, p in zip(out, res):
            o.append(tuple(float(v) for v in p))
    else:
        for o in out:
            o.append(None)
    if raw and hasattr(m, '_get_raw_leaf_data'):
        res = m._get_raw_leaf_data(Q)
        if len(res) != n:
            raise ref.Violation('raw leaf data has {} rows instead of {}'.format(len(res), n))
        for o, p in zip(out, res):
            o.append(tuple(float(v) for v in np.asarray(p).ravel()))
    else:
        for o in out:
            o.append(None)
    if hasattr(m, 'prediction_paths'):
        res = m.prediction_paths(Q)
        if len(res) != n:
            raise ref.Violation('prediction_paths() has {} rows instead of {}'.format(len(res), n))
        for o, p in zip(out, res):
            o.append(tuple((int(s[0]), s[1], float(s[2]), bool(s[3])) for s in p))
    else:
        for o in out:
            o.append(None)
    return [tuple(o) for o in out]


def same(a, b, tol=1e-9):
    """numerically equal nested tuples/lists"""
    if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, (float, int)) or isinstance(b, float) and isinstance(a, int):
        return a == b or abs(a - b) <= tol * (1 + abs(a) + abs(b)) or (a != a and b != b)
    return a == b


# ---------------------------------------------------------------- the cross product of everything that is orthogonal to a property

CROSS_FORMS = ['C', 'csr', 'csc', 'frame-int', 'F', 'float32', 'list', 'int8', 'csr-unsorted', 'strided']


def cross_sets():
    """a few training sets of different character: (X, y, normals)"""
    def rows(n, nd, f):
        return [[float(f(i, j)) for j in range(nd)] for i in range(n)]
    yield rows(12, 2, lambda i, j: (i * (j + 2)) % (4 + j)), [int(i % 4 > 1) for i in range(12)], None
    yield rows(9, 1, lambda i, j: (i * 5) % 9 - 3), [0, 0, 1, 0, 1, 1, 1, 0, 0], None
    yield rows(20, 3, lambda i, j: (i * i + j * i) % (3 + 2 * j)), [int((i * i) % (3) > 0) for i in range(20)], [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    yield rows(16, 4, lambda i, j: (i // 4 + 1) * ((i + j) % 4 == 0)), [int(i % 4 in (0, 3)) for i in range(16)], [[1, 0, 0, 0], [0, 0, 1, 0], [1, 1, 1, 1], [1, -1, 1, -1], [0, 0, 0, -1]]
    yield rows(30, 2, lambda i, j: i if j == 0 else (i * 7) % 30), [i % 2 for i in range(30)], [[0, 1], [1, 0]]
    yield rows(11, 6, lambda i, j: (i >> (j % 4)) % 2 + (j == 5) * i), [int(i in (2, 3, 6, 7, 8)) for i in range(11)], [[float(a == b) for a in range(6)] for b in (5, 0, 1, 2, 3, 4)]
    yield rows(14, 2, lambda i, j: i if j == 0 else (i * 3) % 14 - 7), [(i // 3) % 3 for i in range(14)], [[1, 0], [0, -1]]
    yield rows(40, 12, lambda i, j: (i * (j + 1)) % 13 - (j % 3)), [int(i % 13 > 5) ^ int(i % 13 == 9) for i in range(40)], [[float(a == b) for a in range(12)] for b in range(12)]


def cross(models, **axes):
    """training sets x representations x priors x the given axes, for the given models"""
    import itertools
    keys = list(axes)
    count = 0
    for X, y, normals in cross_sets():
        K = len(set(y))
        for model in models:
            for xf in CROSS_FORMS:
                pri = [[0.1] * K, [2.0] + [0.3] * (K - 1), [3] + [1] * (K - 1), None] if model[1] == 'c' else [[0.5, 0.1, 0.05, 0.01], [1, 2, 1, 0.5], [1, 2, 1, 3], None]
                for k, prior in enumerate(pri):
                    count += 1
                    pf = 'array' if prior is None else INT_PRIOR_FORMS[count % 4] if k == 2 else PRIOR_FORMS[count % 5]
                    for vals in itertools.product(*[axes[k] for k in keys]):
                        c = dict(model=model, X=X, y=y if model[1] == 'c' else [1.5 * v - 0.5 + 0.25 * (i % 3) for i, v in enumerate(y)], prior=prior, xf=xf, pf=pf)
                        c.update(zip(keys, vals))
                        if normals is not None and model[0] == 'h':
                            c['normals'] = normals
                        yield c


def prior_ranges(models, pps=(1e-9, 0.05, 0.6, 0.999999), **axes):
    """priors of all orders of magnitude: every combination of the components"""
    import itertools
    keys = list(axes)
    sets = [([[float(i)] for i in range(6)], [0, 0, 1, 0, 1, 1]), ([[float((i * 3) % 8), float(i % 3)] for i in range(8)], [0, 1, 1, 0, 1, 0, 1, 1]),
            ([[float(i // 2), float(i % 2)] for i in range(7)], [0, 0, 0, 1, 2, 1, 2])]
    for model in models:
        for X, y in sets:
            K = len(set(y))
            if model[1] == 'c':
                pri = list(itertools.product(*[[1e-8, 0.01, 1, 50, 1e5]] * 2)) if K == 2 else list(itertools.product(*[[1e-4, 1, 300]] * 3))
                ys = [y]
            else:
                pri = list(itertools.product([0, 20, -500, 1e4], [1e-6, 0.05, 1, 1e3], [1e-3, 0.5, 5, 500], [1e-4, 1, 1e4]))
                ys = [[1.5 * v - 0.5 for v in y]]
            for prior in pri:
                for pp in pps:
                    for vals in itertools.product(*[axes[k] for k in keys]):
                        c = dict(model=model, X=X, y=ys[0], prior=list(prior), pp=pp)
                        c.update(zip(keys, vals))
                        yield c


def offsets(models, n=5, delta=None, **axes):
    """regression targets with a common offset that dwarfs their spread; the prior mean is on it, near it or far away"""
    import itertools
    keys = list(axes)
    X1 = [[float(i)] for i in range(n)]
    X2 = [[float(i % 3), float((i * 2) % 5)] for i in range(n)]
    for model in models:
        for X in ((X2,) if model[0] == 'h' else (X1, X2)):
            for v in itertools.product([0.0, 1.0, 3.5], repeat=n):
                for off, deltas in ((1e6, (0, 0.5)), (-7e6, (0, 0.5)), (1e8, (0,)), (-1.6e9, (0,)), (2.0 ** 36, (0,)), (-2.0 ** 40, (0,))):
                    for a in (1.0, 64.0):
                        for prior in ([off + 0.5 * a, 0.1, 0.05, 0.02 * a * a], [off + 2 ** 12, 1e-3, 0.25, 0.1 * a * a]):
                            for d in deltas if delta is None else delta:
                                for vals in itertools.product(*[axes[k] for k in keys]):
                                    c = dict(model=model, X=X, y=[off + a * t for t in v], prior=prior, pp=0.9, delta=d)
                                    c.update(zip(keys, vals))
                                    if model[0] == 'h':
                                        c['normals'] = [[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [1.0, -2.0]]
                                    yield c


def compositions(t, rows, counts=(0, 1, 3), limit=6):
    """one row per leaf in every combination of multiplicities -> lists of rows, scrambled"""
    import itertools
    byleaf = {}
    for r in rows:
        byleaf.setdefault(id(ref.route(t, r)), r)
    sel = list(byleaf.values())[:limit]
    for mult in itertools.product(counts, repeat=len(sel)):
        idx = [i for i, k in enumerate(mult) for _ in range(k)]
        if idx:
            yield mult, [sel[i] for i in sorted(range(len(idx)), key=lambda j: (j * 5) % 7) for i in idx[i:i + 1]]


def composition_trees(models, n):
    """trees of up to n leaves of all shapes: all label vectors over n positions in 1 and 2 features"""
    from . import spaces
    for model in models:
        for nd in (1, 2):
            for X, y in spaces.labelled_sequence([[float(i), float((i * 3) % 5)][:nd] for i in range(n)], [0, 1], lambda y: sum(a != b for a, b in zip(y, y[1:])) >= 2):
                c = dict(model=model, X=X, y=y if model[1] == 'c' else [v * 2.0 for v in y], pp=0.999999, prior=[0.02, 0.01] if model[1] == 'c' else [0.75, 0.02, 0.05, 1e-4])
                if model[0] == 'h':
                    c['normals'] = [[1.0], [1.0, 0.0], [0.0, 1.0]][:1] if nd == 1 else [[1.0, 0.0], [0.0, 1.0]]
                yield c


def deep(models, sizes=(20, 40, 80), chains=(130, 260), **axes):
    """trees of up to 79 levels: structured labels in one feature (and a second, constant or coarse one) with tiny priors; chains of up to 259 levels"""
    import itertools
    from . import spaces
    keys = list(axes)
    for n in chains:
        for model in models:
            for vals in itertools.product(*[axes[k] for k in keys]):
                y = [i % 2 for i in range(n)]
                c = dict(model=model, X=[[float(i)] for i in range(n)], y=y if model[1] == 'c' else [1.5 * v - 0.5 for v in y], pp=0.99999999,
                         prior=[0.01, 0.01] if model[1] == 'c' else [0.25, 0.01, 0.005, 1e-6])
                c.update(zip(keys, vals))
                if model[0] == 'h':
                    c['normals'] = [[1.0]]
                yield c
    for n in sizes:
        for step in range(6):
            y = spaces.de_bruijn_like(n, 2, step)
            for nd in (1, 2):
                X = [[float((i * 3 + 1) % n) if step % 2 else float(i), float(i % 2)][:nd] for i in range(n)]
                yy = [y[int(r[0])] for r in X]
                for model in models:
                    for pp in (0.9999, 0.99999999):
                        for vals in itertools.product(*[axes[k] for k in keys]):
                            c = dict(model=model, X=X, y=yy if model[1] == 'c' else [1.5 * v - 0.5 for v in yy], pp=pp,
                                     prior=[0.01, 0.01] if model[1] == 'c' else [0.25, 0.01, 0.005, 1e-6])
                            c.update(zip(keys, vals))
                            if model[0] == 'h':
                                c['normals'] = [[1.0], [1.0, 0.0]][nd - 1:nd]
                            yield c


def wide(models, counts=(8, 9, 15, 16, 17, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 150, 200, 255, 256, 257, 300, 520, 1030), **axes):
    """up to 1030 features, two of which matter, at either end or in the middle; the others are constant or coarse noise"""
    import itertools
    keys = list(axes)
    for nd in counts:
        for a, b in ((nd - 1, 0), (0, nd - 1), (nd // 2, nd - 2), (nd - 2, nd // 2 - 1)):
            for noise in (0, 1):
                X, y = [], []
                for i in range(10):
                    row = [float((i * (j + 3)) % 2) if noise and j % 2 else 7.0 for j in range(nd)]
                    row[a] = float(i // 5)
                    row[b] = float(i % 5)
                    X.append(row)
                    y.append(int(i // 5 == 1 and i % 5 < 3))
                for model in models:
                    for vals in itertools.product(*[axes[k] for k in keys]):
                        c = dict(model=model, X=X, y=y if model[1] == 'c' else [1.5 * v - 0.5 for v in y], pp=0.999,
                                 prior=[0.1, 0.2] if model[1] == 'c' else [0.25, 0.1, 0.05, 1e-3])
                        c.update(zip(keys, vals))
                        if model[0] == 'h':
                            c['normals'] = [[float(j == k) for j in range(nd)] for k in (b, a, nd // 3)]
                        yield c


def tall(models, sizes=(300, 700, 1500, 3001), **axes):
    """many rows: nested boxes in 2 or 3 features of a few dozen values, small inner nodes spread over all row numbers"""
    import itertools
    keys = list(axes)
    for n in sizes:
        for nd in (2, 3):
            for v in range(5):
                g = (17, 25, 40, 30, 48)[v]
                X = [[float(i * 7919 % n * g // n), float((i * 104729 + 17 * v) % n % g), float(i % 3)][:nd] for i in range(n)]
                if v == 0:
                    y = [int(r[0] < 2 and r[1] < 9) for r in X]
                elif v == 1:
                    y = [int(r[0] < 6 and r[1] >= 20) ^ int(r[0] >= 12 and r[1] < 3) for r in X]
                elif v == 2:
                    y = [int(10 <= r[0] < 13 and r[1] > 30) if r[-1] else int(r[1] < 4) for r in X]
                else:
                    y = [int(r[0] == g // 4 and r[1] < g // 2) for r in X]
                for model, default in itertools.product(models, (False, True)):
                    if default and (v % 2 or nd == 3):
                        continue
                    for vals in itertools.product(*[axes[k] for k in keys]):
                        c = dict(model=model, X=X, y=y if model[1] == 'c' else [1.5 * w - 0.5 + 0.125 * (i % 3) for i, w in enumerate(y)], pp=0.9,
                                 prior=None if default else [0.5, 0.2] if model[1] == 'c' else [0.25, 0.1, 0.05, 1e-3])
                        c.update(zip(keys, vals))
                        if model[0] == 'h':
                            c['normals'] = [[float(j == k) for j in range(nd)] for k in (1, 0)]
                        yield c


def stubborn(models, q=True, **axes):
    """large pure blocks of alternating classes (targets) and small partition priors: splits several levels down still pay"""
    import itertools
    keys = list(axes)
    for blocks in (3, 4, 6, 8) if q else (3, 4, 5, 6, 7, 8, 10):
        for per in (25, 50):
            for shuffle in (0, 1):
                order = [(b * 3 + 1) % blocks if shuffle and blocks % 3 else b for b in range(blocks)]
                X, y = [], []
                for i in range(blocks * per):
                    b = (i * 7) % blocks if blocks % 7 else i % blocks
                    X.append([float(order[b]), float(i % 3)])
                    y.append(b % 2)
                for nd in (1, 2):
                    for model in models:
                        for pp in (1e-4, 1e-3, 0.01, 0.05, 0.2):
                            for vals in itertools.product(*[axes[k] for k in keys]):
                                c = dict(model=model, X=[r[:nd] for r in X], y=y if model[1] == 'c' else [100.0 * v + (i % 2) * 0.5 for i, v in enumerate(y)], pp=pp,
                                         prior=[0.5, 0.5] if model[1] == 'c' else [50.0, 0.01, 1.0, 0.5])
                                c.update(zip(keys, vals))
                                if model[0] == 'h':
                                    c['normals'] = [[1.0], [0.0, 1.0], [1.0, 0.0]][:1] if nd == 1 else [[0.0, 1.0], [1.0, 0.0]]
                                yield c


def scales(models, ks=(-300, -140, -60, -44, -30, -20, 20, 44, 60, 140, 300), n=5, **axes):
    """feature values multiplied by a power of two (tiny to huge), all label vectors"""
    import itertools
    from . import spaces
    keys = list(axes)
    for k in ks:
        a = 2.0 ** k
        for X, y in spaces.labelled_sequence([[float(i) - 2, float((i * 2) % 3) - 1] for i in range(n)], [0, 1], lambda y: len(set(y)) == 2):
            for both in (True, False):
                for model in models:
                    for vals in itertools.product(*[axes[k] for k in keys]):
                        c = dict(model=model, X=[[v * a if both or j else v for j, v in enumerate(r)] for r in X], y=y if model[1] == 'c' else [2.0 * v for v in y], pp=0.9999,
                                 prior=[0.1, 0.1] if model[1] == 'c' else [0.5, 0.1, 0.05, 0.01])
                        c.update(zip(keys, vals))
                        if model[0] == 'h':
                            c['normals'] = [[1.0, 0.0], [0.0, 1.0], [1.0, 1.0], [1.0, -1.0]] if both else [[1.0, 0.0], [0.0, 1.0]]
                        yield c


def thresholds(models, q=True, **axes):
    """partition priors on both sides of the point where the best cut of the root, or of one of its children, starts to pay"""
    import itertools
    import math
    from . import spaces
    keys = list(axes)
    sets = [([[float(i), float((i * 3) % 4)] for i in range(6)], y) for _, y in spaces.labelled_sequence([[0.0]] * 6, [0, 1], lambda y: len(set(y)) == 2)]
    sets = sets[::1 if not q else 3]
    sets += [([[float(i), float(i % 7)] for i in range(40)], [int(10 <= i < 25) for i in range(40)]),
             ([[float(i % 5), float(i // 5)] for i in range(60)], [int(i % 5 > 2) ^ int(i % 11 == 0) for i in range(60)])]
    dirs = [[1.0, 0.0], [0.0, 1.0], [1.0, 1.0]]
    for X, y in sets:
        for model in models:
            for prior in ([1.0, 1.0], [0.2, 0.1]) if model[1] == 'c' else ([0.5, 0.1, 0.5, 0.3], [0.0, 1.0, 2.0, 1.0]):
                for vals in itertools.product(*[axes[k] for k in keys]):
                    c = dict(model=model, X=X, y=y if model[1] == 'c' else [2.0 * v + 0.25 * (i % 3) for i, v in enumerate(y)], prior=prior, pp=0.5)
                    c.update(zip(keys, vals))
                    if model[0] == 'h':
                        # (1, 1) only where projections cannot coincide up to rounding
                        c['normals'] = dirs if len(y) == 6 else dirs[:2]
                    pb = problem(c)
                    found = []

                    def tie(rows, pr, level):
                        """log odds of the partition prior at the tie; the best cut"""
                        cuts = pb.axis_cuts(rows, pr, level) if model[0] == 'p' else ref.hyper_cuts(pb, rows, pr, level, c['normals'])
                        if not cuts:
                            return None
                        best = max(cuts, key=lambda v: v[0])
                        p = pb.pp ** (1 + level)
                        o = (pb.score_stop(rows, pr, level) - math.log(1 - p)) - (best[0] - math.log(p))
                        if abs(o) < 30:
                            found.append((o, level))
                        return best

                    rows = list(range(len(y)))
                    best = tie(rows, pb.prior, 0)
                    if best is not None:
                        below = [r for r in rows if (pb.X[r][best[1]] <= best[2] if model[0] == 'p' else r in best[2])]
                        for rr in (below, [r for r in rows if r not in below]):
                            if not ref.is_pure(pb, rr):
                                tie(rr, pb.posterior(rr, pb.prior, pb.delta), 1)
                    for o, level in found:
                        for e in (1e-2, 1e-4, 1e-6) if len(y) > 6 else (1e-2, 1e-4, 1e-6, 1e-8, 1e-10):
                            for s in (1, -1):
                                odds = math.exp(o + s * e)
                                pp = (odds / (1 + odds)) ** (1.0 / (1 + level))
                                if 0 < pp < 1:
                                    d = dict(c)
                                    d['pp'] = pp
                                    if e < 1e-6:
                                        d['tol'] = 1e-12
                                    yield d


def many_cuts(models, sizes=(4097, 10007, 20011, 33001, 66001), **axes):
    """features of thousands of different values, one or two steps at places that no regular thinning keeps"""
    import itertools
    keys = list(axes)
    for n in sizes:
        for k, width in ((n // 3, 0), (n // 2 + 1, 0), (5, 0), (n - 7, 0), (n // 3 + 2, n // 10)):
            y = [int(i >= k and (not width or i < k + width)) for i in range(n)]
            for nd in (1, 2) if n < 5000 else (1,):
                X = [[0.5 * (i * 7 % n), float(i % 2)][:nd] for i in range(n)]
                yy = [y[i * 7 % n] for i in range(n)]
                for model in models:
                    for vals in itertools.product(*[axes[v] for v in keys]):
                        c = dict(model=model, X=X, y=yy if model[1] == 'c' else [10.0 * v + (i % 2) * 0.5 for i, v in enumerate(yy)], pp=0.3,
                                 prior=[1.0, 1.0] if model[1] == 'c' else [5.0, 1.0, 1.0, 1.0])
                        c.update(zip(keys, vals))
                        if model[0] == 'h':
                            c['normals'] = [[1.0]] if nd == 1 else [[1.0, 0.0], [0.0, 1.0]]
                        yield c


def many_classes(models, counts=(20, 33, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300), **axes):
    """dozens or hundreds of classes: blocks of rows, the last classes are the most frequent ones or not"""
    import itertools
    keys = list(axes)
    for K in counts:
        for last in (0, 3, 12):
            for first in (0, 4):
                y = list(range(K)) + [K - 1] * last + [K // 2] * (last // 2) + [0] * first
                X = [[float(v // max(1, K // 5)), float(i % 2)] for i, v in enumerate(y)]
                for prior in ([1.0] * K, [0.1 + 0.01 * (k % 7) for k in range(K)], [1.0] * (K - 1) + [2.5], None):
                    for model in models:
                        for pp in (1e-9, 0.9):
                            for vals in itertools.product(*[axes[k] for k in keys]):
                                c = dict(model=model, X=X, y=y, prior=prior, pp=pp)
                                c.update(zip(keys, vals))
                                if model[0] == 'h':
                                    c['normals'] = [[1.0, 0.0], [0.0, 1.0]]
                                yield c


def near_ties(models, **axes):
    """two cuts (of one feature or of two) whose scores differ by a relative 1e-3 to 1e-10"""
    import itertools
    keys = list(axes)
    for e in (1e-3, 1e-5, 1e-7, 1e-8, 1e-9, 1e-10):
        for sign in (1, -1):
            for zeros in (1, 3, 6):
                for kind in range(3):
                    # the first row and the last one differ from the others, in a symmetric way up to e
                    n = zeros + 2
                    if kind == 0:
                        X = [[float(i)] for i in range(n)]
                    elif kind == 1:
                        X = [[1.0, 0.0]] + [[0.0, 0.0]] * zeros + [[0.0, 1.0]]
                    else:
                        X = [[0.0, 1.0]] + [[0.0, 0.0]] * zeros + [[-1.0, 0.0]]
                    for model in models:
                        for vals in itertools.product(*[axes[k] for k in keys]):
                            if model[1] == 'c':
                                c = dict(model=model, X=X, y=[1] + [0] * zeros + [2], prior=[1.0, 0.25, 0.25 * (1 + sign * e)], pp=0.999)
                            else:
                                c = dict(model=model, X=X, y=[-4.0] + [0.0] * zeros + [4.0 * (1 + sign * e)], prior=[0.0, 1.0, 0.5, 0.0625], pp=0.999)
                            c.update(zip(keys, vals))
                            if e < 1e-5:
                                c['tol'] = 1e-12
                            for order in (0, 1) if model[0] == 'h' and kind else (0,):
                                if model[0] == 'h':
                                    c = dict(c, normals=[[1.0]] if not kind else [[1.0, 0.0], [0.0, 1.0]] if order else [[0.0, 1.0], [1.0, 0.0]])
                                yield c
