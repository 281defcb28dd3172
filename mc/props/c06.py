"""C06: pruning."""
import numpy as np

from .. import build, ref, spaces
from ..core import Family, Violation

PID = 'C06'
RULE = ('every training set of the family x hyperparameters: the tree fitted with prune=True against the reference pruning of the tree fitted with prune=False; '
        'non-trivial: at least one split was removed')
ASSUMPTIONS = ['"predict the same value" is exact equality of the values predict() returns']


def compare(kind, a, b, path='root'):
    """a: pruned implementation tree, b: reference"""
    if a.split != b.split:
        raise Violation('{}: {} after pruning'.format(path, 'still split although it should be collapsed' if a.split else 'collapsed although it should not be'))
    if a.n != b.n or not build.same(a.post, b.post, 1e-12):
        raise Violation('{}: pruning changed the node: n={} posterior={} instead of n={} posterior={}'.format(path, a.n, a.post, b.n, b.post))
    if a.split:
        if not build.same(ref.full(a)[1:6], ref.full(b)[1:6], 1e-12):
            raise Violation('{}: pruning changed the split'.format(path))
        compare(kind, a.c1, b.c1, path + '.L')
        compare(kind, a.c2, b.c2, path + '.R')


def evaluate(case, st):
    m0 = build.fit(case, prune=False)
    m1 = build.fit(case, prune=True)
    pb = build.problem(case)
    t0, t1 = ref.extract(m0), ref.extract(m1)
    want = ref.prune_ref(pb.kind, t0)
    st.states += sum(1 for _ in ref.nodes(t0))
    removed = ref.leaves_of(t0) - ref.leaves_of(want)
    st.transitions += removed
    compare(pb.kind, t1, want)
    if m1.get_depth() != ref.depth_of(want) or m1.get_n_leaves() != ref.leaves_of(want):
        raise Violation('depth {} leaves {} instead of {} {}'.format(m1.get_depth(), m1.get_n_leaves(), ref.depth_of(want), ref.leaves_of(want)))
    rows = build.queries(pb, t0, 40)
    Q = np.array(rows, dtype=float)
    p0, p1 = m0.predict(Q), m1.predict(Q)
    for r, a, b in zip(rows, p0, p1):
        if a != b:
            raise Violation('predict({}) is {} without and {} with pruning'.format(r, a, b))
    if case['model'][0] == 'p':
        for r, path in zip(rows, m1.prediction_paths(Q)):
            if not build.same(tuple(tuple(s) for s in path), tuple(ref.route_path(want, r)), 1e-12):
                raise Violation('path of {} in the pruned tree is {}'.format(r, path))
    imp = ref.importance_ref(want, pb.nd)
    if imp is not None and not any(v != v for v in imp) and not build.same(tuple(float(v) for v in m1.feature_importance()), tuple(imp), 1e-7):
        raise Violation('feature importance of the pruned tree is {} instead of {}'.format(m1.feature_importance(), imp))
    st.traces += 2
    st.nontrivial += removed > 0
    st.outcome('{} removed={} of {}'.format(case['model'], removed, ref.leaves_of(t0) - 1))


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    strong = [[1, 1], [0.1, 0.1], [1, 3], [6, 1], [0.5, 2.5]]
    f = []
    f.append(Family('1d-2class', lambda: wc(S.multisets(S.symbols([0, 1, 2], 1, [0, 1]), 2, 5 if q else 7, S.all_classes(2)),
                                            pc(model=['pc'], prior=strong, pp=[0.7, 0.99, 0.999999], delta=[0])),
                    'all multisets of 2..{} rows, 5 priors x 3 partition priors'.format(5 if q else 7)))
    f.append(Family('2d-2class', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 1]), 3, 4 if q else 6, S.all_classes(2)),
                                            pc(model=['pc'] if not q else ['pc', 'hc'], prior=strong, pp=[0.99999], delta=[0])),
                    'all multisets of 3..{} rows over {{0,1}}^2, 5 priors'.format(4 if q else 6)))
    f.append(Family('sequence', lambda: wc(S.labelled_sequence([[float(i)] for i in range(8 if q else 11)], [0, 1], S.has_classes(2)),
                                           pc(model=['pc'], prior=strong, pp=[0.9, 0.999999], delta=[0, 0.5])),
                    'all label vectors over {} positions (deep trees), 5 priors x 2 partition priors x 2 deltas'.format(8 if q else 11)))
    f.append(Family('unbalanced', lambda: wc(unbalanced(9 if q else 14), pc(model=['pc', 'hc'], prior=[[1, 1], [3, 1], [1, 3], [0.1, 0.1], [10, 1], [1, 10]],
                                                                           pp=[0.9, 0.999999], delta=[0, 1], normals=[[[1.0]]])),
                    'runs of labels: every choice of up to 3 run boundaries over {} rows, 6 priors'.format(9 if q else 14)))
    f.append(Family('3class', lambda: wc(S.labelled_sequence([[float(i), float(i % 2)] for i in range(6 if q else 7)], [0, 1, 2], S.has_classes(3)),
                                         pc(model=['pc', 'hc'], prior=[[1, 1, 1], [0.1, 3, 0.1], [2, 0.5, 1]], pp=[0.99999], delta=[0])),
                    'all label vectors of 3 classes over {} positions'.format(6 if q else 7)))
    f.append(Family('hyperplane', lambda: wc(S.multisets(S.symbols([0, 1, 2], 2, [0, 1]), 3, 3 if q else 4, S.all_classes(2)),
                                             pc(model=['hc'], prior=[[1, 1], [1, 3]], pp=[0.99999], delta=[0])),
                    'all multisets of 3{} rows over {{0,1,2}}^2, hyperplane classification'.format('' if q else '..4')))
    f.append(Family('regression', lambda: wc(S.multisets(S.symbols([0, 1, 2], 1, [0, 1, 2]), 2, 4 if q else 6),
                                             pc(model=['pr'], prior=[[1, 0.1, 0.05, 0.01], [0, 1, 1, 1], [1, 2, 0.5, 0.001]], pp=[0.9, 0.999999], delta=[0])),
                    'all multisets of 2..{} rows, regression (children of equal mean included)'.format(4 if q else 6)))
    f.append(Family('regression-symmetric', lambda: wc(symmetric(q), pc(model=['pr', 'hr'], prior=[[0, 0.1, 0.05, 0.001], [0, 1, 2, 0.1]], pp=[0.99, 0.999999], delta=[0, 1], normals=[[[1.0]]])),
                    'regression targets symmetric about the prior mean with unequal spread (splits by variance between equal means)'))
    f.append(Family('sequence-r', lambda: wc(S.labelled_sequence([[float(i)] for i in range(6 if q else 9)], [-1, 1]),
                                             pc(model=['pr', 'hr'], prior=[[0, 0.1, 0.05, 0.001], [0, 1, 1, 1]], pp=[0.999999], delta=[0], normals=[[[1.0]]])),
                    'all target vectors over {} positions, regression, both geometries'.format(6 if q else 9)))
    f.append(Family('near-equal', lambda: near_equal(q), 'regression leaves whose values differ by 1e-3 to 1e-12 of an offset of up to 1e6, 4 arrangements; prior means on, near and off the targets'))
    f.append(Family('cross', lambda: build.cross(['pc', 'pr', 'hc', 'hr'], pp=[0.9, 0.9999], delta=[0, 0.3], precision=[0.0, 1.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 4 models x 2 partition priors x 2 deltas x 2 precisions'))
    f.append(Family('prior-ranges', lambda: build.prior_ranges(['pc', 'pr', 'hc', 'hr'], pps=(0.05, 0.999999) if q else (1e-9, 0.05, 0.6, 0.999999), delta=[0, 0.5]), 'every combination of prior components of different orders of magnitude (classes 1e-8 to 1e5; means -500 to 1e4, other components 1e-6 to 1e4) on 3 training sets; {} partition priors'.format(2 if q else 4)))
    f.append(Family('deep', lambda: build.deep(['pc', 'pr', 'hc', 'hr'], delta=[0, 0.5], sizes=(20, 40, 80) if q else (20, 40, 80, 160)),
                    'trees of up to {} levels in 1 and 2 features: 6 label patterns, 2 partition priors, 4 models, 2 deltas'.format(79 if q else 159)))
    f.append(Family('many-features', lambda: build.wide(['pc', 'pr', 'hc', 'hr'], delta=[0, 0.5]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; 4 models, 2 deltas'))
    f.append(Family('many-rows', lambda: build.tall(['pc', 'pr', 'hc', 'hr'], delta=[0, 0.5], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; 4 models, 2 deltas'.format(3001 if q else 6000)))
    f.append(Family('target-offsets', lambda: build.offsets(['pr', 'hr'], 4 if q else 6), 'regression targets with a common offset (up to 2^40) that dwarfs their spread, the prior mean on it or near it: all vectors of 3 targets over {} positions; 6 offsets x 2 spreads x 2 deltas'.format(4 if q else 6)))
    f.append(Family('many-cuts', lambda: build.many_cuts(['pc', 'pr', 'hc', 'hr'], sizes=(4097, 10007)), 'features of up to 10007 different values, one or two steps'))
    f.append(Family('many-classes', lambda: build.many_classes(['pc', 'hc'], delta=[0, 0.5]), '20 to 300 classes, the first or the last one being the most frequent or not'))
    return f


def unbalanced(n):
    import itertools
    for k in (1, 2, 3):
        for cut in itertools.combinations(range(1, n), k):
            y = []
            for i in range(n):
                y.append(sum(1 for c in cut if i >= c) % 2)
            yield [[float(i)] for i in range(n)], y


def near_equal(q):
    for off in (0.0, 1.0, -1000.0, 1e6):
        for rel in (1e-3, 1e-5, 1e-6, 1e-7, 1e-8, 1e-9, 1e-10, 1e-12):
            eps = rel * max(1.0, abs(off))
            for pattern in ([0, 0, 1, 1], [0, 1, 1, 0, 0], [0, 0, 2, 2, 1, 1], [0, 0, 0, 0, 1], [0, 0, 1, 1, 100, 100]):
                y = [off + eps * v for v in pattern]
                for mu in (off, off + eps / 2, off + 1.0):
                    for model in ('pr', 'hr'):
                        for beta in (1e-3, 1e-10, 1e-25):
                            yield dict(model=model, X=[[float(i)] for i in range(len(y))], y=y, prior=[mu, 1e-3, 0.01, beta], pp=0.9999, delta=0, normals=[[1.0]])


def symmetric(q):
    import itertools
    for a, b in itertools.product([0.001, 0.01, 1, 10], repeat=2):
        for n1, n2 in itertools.product([1, 2, 3], repeat=2):
            y = [a, -a] * n1 + [b, -b] * n2
            for k in range(1 if q else 3):
                yield [[float(i // (k + 1))] for i in range(len(y))], y
            yield [[float(i >= 2 * n1)] for i in range(len(y))], y
