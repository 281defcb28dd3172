"""C07: prediction paths."""
import itertools

import numpy as np
import pandas as pd
from scipy.sparse import csc_matrix, csr_matrix

from .. import build, ref, spaces
from ..core import Family, Violation

PID = 'C07'
RULE = ('every tree of the family: the paths of all probe rows (training rows, split values and their neighbours, outside points) in several batch orders, alone, '
        'duplicated, and (small trees) in every permutation/selection of the probes, dense, sparse and as DataFrame; non-trivial: some path has at least two steps')
ASSUMPTIONS = []


def check(m, pb, t, rows, Q, what, st):
    got = m.prediction_paths(Q)
    pred = m.predict(Q)
    if len(got) != len(rows):
        raise Violation('{}: {} paths for {} rows'.format(what, len(got), len(rows)))
    for r, p, v in zip(rows, got, pred):
        exp = ref.route_path(t, r)
        p = [tuple(s) for s in p]
        if len(p) != len(exp) or not all(
                int(a[0]) == b[0] and a[1] == b[1] and build.same(float(a[2]), b[2], 1e-12) and bool(a[3]) == b[3] and len(a) == 4 for a, b in zip(p, exp)):
            raise Violation('{}: path of {} is {} instead of {}'.format(what, r, p, exp))
        leaf = ref.route(t, r)
        if float(v) != ref.leaf_prediction(pb.kind, leaf.post):
            raise Violation('{}: predict({}) is {} but its path ends in a leaf predicting {}'.format(what, r, v, ref.leaf_prediction(pb.kind, leaf.post)))
        st.transitions += len(exp)
    if len(got) > 1 and len({id(p) for p in got}) != len(got):
        raise Violation('{}: rows share one path object'.format(what))
    st.traces += 1


def evaluate(case, st):
    names = case.get('names')
    X, y = build.data(case)
    m = build.make(case)
    if names == 'frame':
        m.fit(pd.DataFrame(X, columns=['col{}'.format(i) for i in range(X.shape[1])]), y)
    elif names:
        m.fit(X, y, feature_names=names[:X.shape[1]])
    else:
        m.fit(X, y)
    pb = build.problem(case)
    t = ref.extract(m)
    st.states += sum(1 for _ in ref.nodes(t))
    st.nontrivial += ref.depth_of(t) >= 2
    st.outcome('{} depth={} leaves={}'.format(case['model'], ref.depth_of(t), ref.leaves_of(t)))
    expected_names = ['col{}'.format(i) for i in range(pb.nd)] if names == 'frame' else list(X.columns) if isinstance(X, pd.DataFrame) else names or ['x{}'.format(i) for i in range(pb.nd)]
    for n in ref.nodes(t):
        if n.split and n.name != expected_names[n.dim]:
            raise Violation('the split feature is called {!r} instead of {!r}'.format(n.name, expected_names[n.dim]))
    rows = build.probe_rows(pb, t, case.get('limit', 40))
    A = np.array(rows, dtype=float)
    check(m, pb, t, rows, A, 'batch', st)
    check(m, pb, t, rows[::-1], A[::-1], 'reversed batch', st)
    idx = sorted(range(len(rows)), key=lambda i: (i * 7) % 11)
    check(m, pb, t, [rows[i] for i in idx], csr_matrix(A[idx]), 'scrambled csr batch', st)
    idx = [i // 2 for i in range(2 * len(rows))] + [0]
    check(m, pb, t, [rows[i] for i in idx], csc_matrix(A[idx]), 'duplicated csc batch', st)
    check(m, pb, t, rows, pd.DataFrame(A), 'frame batch', st)
    for i in range(0, len(rows), 3):
        check(m, pb, t, [rows[i]], A[i:i + 1], 'single row', st)
    if case.get('mult'):
        for mult, B in build.compositions(t, rows, limit=case['mult']):
            check(m, pb, t, B, np.array(B, dtype=float), 'batch of {} rows of the leaves'.format(mult), st)
    k = case.get('perms', 0)
    if k:
        byleaf = {}
        for r in rows:
            byleaf.setdefault(id(ref.route(t, r)), r)
        sel = list(byleaf.values())[:k]
        for n in range(1, len(sel) + 1):
            for p in itertools.permutations(range(len(sel)), n):
                B = np.array([sel[i] for i in p], dtype=float)
                check(m, pb, t, [sel[i] for i in p], B if sum(p) % 2 else csr_matrix(B), 'batch of one row of each of the leaves {}'.format(p), st)


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    f = []
    f.append(Family('1d', lambda: wc(S.labelled_sequence([[float(i)] for i in range(7 if q else 10)], [0, 1], S.has_classes(2)),
                                     pc(model=['pc'], prior=[[0.1, 0.1], [0.5, 0.05]], pp=[0.999999], prune=[False, True])),
                    'all label vectors over {} positions, classification'.format(7 if q else 10)))
    f.append(Family('2d', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 1]), 3, 4 if q else 6, S.all_classes(2)),
                                     pc(model=['pc'], prior=[[0.1, 0.1]], pp=[0.99999], prune=[False])),
                    'all multisets of 3..{} rows over {{0,1}}^2'.format(4 if q else 6)))
    f.append(Family('2d-grid', lambda: wc(S.labelled_sequence([[float(i), float((i * 2) % 7)] for i in range(7 if q else 9)], [0, 1], S.has_classes(2)),
                                          pc(model=['pc'], prior=[[0.1, 0.1], [0.02, 0.05]], pp=[0.999999], prune=[False])),
                    'all label vectors over {} positions in 2d'.format(7 if q else 9)))
    f.append(Family('3class', lambda: wc(S.labelled_sequence([[float(i), float((i * 2) % 5), 1.0 * (i % 2)] for i in range(5 if q else 7)], [0, 1, 2], S.has_classes(3)),
                                         pc(model=['pc'], prior=[[0.1, 0.1, 0.1]], pp=[0.999999], prune=[False, True])),
                    'all label vectors of 3 classes over {} positions in 3d'.format(5 if q else 7)))
    f.append(Family('regression', lambda: wc(S.labelled_sequence([[float(i), float((i * 2) % 5)] for i in range(5 if q else 7)], [0, 1, 4]),
                                             pc(model=['pr'], prior=[[1, 0.1, 0.05, 0.001], [0, 0.5, 2, 0.01]], pp=[0.999999], prune=[False, True])),
                    'all vectors of 3 targets over {} positions in 2d'.format(5 if q else 7)))
    f.append(Family('names', lambda: (dict(c, names=n) for n in (['b', 'a', 'c'], ['', 'x0', 'x1'], [n * 25 for n in ('abc', 'abd', 'x')], 'frame') for c in wc(
        S.labelled_sequence([[float(i), float((i * 2) % 5)] for i in range(5)], [0, 1], S.has_classes(2)),
        pc(model=['pc', 'pr'], prior=[None], pp=[0.99999]))), 'explicit and DataFrame feature names'))
    f.append(Family('permutations', lambda: (dict(c, perms=5 if q else 6) for c in itertools.islice(
        wc(S.labelled_sequence([[float(i), float((i * 2) % 5)] for i in range(5)], [0, 1, 3], lambda y: len(set(y)) == 3),
           pc(model=['pr'], prior=[[1, 0.1, 0.05, 0.001]], pp=[0.999999])), 60 if q else None)),
        'every ordered selection of one row per leaf (up to {} leaves) of {} trees'.format(5 if q else 6, 60 if q else 'all')))
    f.append(Family('compositions', lambda: (dict(c, mult=5 if q else 7, limit=30) for c in build.composition_trees(['pc', 'pr'], 6 if q else 8)),
                    'trees of all shapes over {} positions: batches with every combination of 0, 1 or 3 rows per leaf'.format(6 if q else 8)))
    f.append(Family('deep', lambda: itertools.chain(deep(q), build.deep(['pc', 'pr'], sizes=(20, 40, 80), prune=[False, True])), 'trees of up to {} leaves'.format(80 if q else 120)))
    f.append(Family('cross', lambda: build.cross(['pc', 'pr'], pp=[0.9, 0.9999], prune=[False, True], delta=[0, 0.3]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 2 models x 2 partition priors x pruning x 2 deltas'))
    f.append(Family('many-features', lambda: build.wide(['pc', 'pr'], prune=[False]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; 2 models'))
    f.append(Family('many-rows', lambda: build.tall(['pc', 'pr'], prune=[False], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; 2 models'.format(3001 if q else 6000)))
    f.append(Family('target-offsets', lambda: build.offsets(['pr'], 4 if q else 6, prune=[False, True]), 'regression targets with a common offset (up to 2^40) that dwarfs their spread, the prior mean on it or near it: all vectors of 3 targets over {} positions; 6 offsets x 2 spreads x 2 deltas'.format(4 if q else 6)))
    return f


def deep(q):
    for n in (12, 20, 40) if q else (12, 20, 40, 80, 120):
        for step in range(6):
            y = spaces.de_bruijn_like(n, 2, step)
            X = [[float(i), float((i * 3) % n)] for i in range(n)]
            yield dict(model='pc', X=X, y=y, prior=[0.01, 0.01], pp=0.99999999, limit=120)
            yield dict(model='pr', X=X, y=[float((i * i) % 7) for i in range(n)], prior=[3, 0.1, 0.05, 1e-6], pp=0.99999999, limit=120)
