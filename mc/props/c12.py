"""C12: recursive growth of hyperplane trees."""
import numpy as np
from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
from scipy.sparse import csc_matrix, csr_matrix

from .. import build, ref, spaces
from ..core import Family, Violation
from .c01 import itertools_chain
from bayesian_decision_tree import hyperplane_optimization as ho

PID = 'C12'
RULE = ('every training set of the family, grown with an optimizer that proposes the same finite set of orientations at every node (the reference tree is then determined up to '
        'ties) or with the built-in optimizers (structure, row partition, posteriors, growth rule); non-trivial: depth at least 2')
ASSUMPTIONS = ['rows closer to a hyperplane than the rounding error of the projection are excluded from the queries']


def builtin(name):
    return {
        'default': lambda: None,
        'scipy': lambda: ho.ScipyOptimizer(DifferentialEvolutionSolver, 42, popsize=4, maxiter=3, polish=False),
        'random': lambda: ho.RandomHyperplaneOptimizer(6, 1),
        'twopoint': lambda: ho.RandomTwoPointOptimizer(6, 1),
        'quasi': lambda: ho.QuasiRandomHyperplaneOptimizer(7),
        'annealing': lambda: ho.SimulatedAnnealingOptimizer(4, 2, 0.5, 1),
        'gradient': lambda: ho.GradientDescentOptimizer(4, 2),
    }[name]()


def evaluate(case, st):
    name = case.get('builtin')
    opt = builtin(name) if name else None
    m = build.make(case, optimizer=opt) if name else build.make(case)
    X, y = build.data(case)
    XX = {'dense': lambda: X, 'csr': lambda: csr_matrix(X), 'csc': lambda: csc_matrix(X)}[case.get('form', 'dense')]()
    m.fit(XX, y)
    pb = build.problem(case)
    t = ref.extract(m)
    dirs = None if name else case.get('normals') or build.directions(pb.nd)
    ref.conform_hyper(pb, t, st, dirs, check=('map', 'post', 'lp'))
    if name and pb.nd == 1:
        # one feature: there is exactly one orientation, whatever the optimizer
        grow_1d(pb, t, st)
    elif name:
        growth(pb, t)
    # levels, and every query row ends in the leaf on its side of all hyperplanes
    if m.get_depth() != ref.depth_of(t) or m.get_n_leaves() != ref.leaves_of(t):
        raise Violation('depth {} and {} leaves instead of {} and {}'.format(m.get_depth(), m.get_n_leaves(), ref.depth_of(t), ref.leaves_of(t)))
    for n in ref.nodes(t):
        if n.split and n.n != n.c1.n + n.c2.n:
            raise Violation('sample counts {} + {} of the children of a node of {}'.format(n.c1.n, n.c2.n, n.n))
    rows = build.hyper_probe_rows(pb, t, 30)
    if rows:
        for r, got in zip(rows, build.answer_rows(m, np.array(rows, dtype=float))):
            leaf = ref.route(t, r)
            ref.check_answers(pb, tuple(leaf.post), 'row {}'.format(r), got[0], got[1])
            if got[2] is not None and not build.same(got[2][len(leaf.post):], tuple(leaf.post), 1e-9):
                raise Violation('row {} is answered by another leaf: {} instead of {}'.format(r, got[2], leaf.post))
    st.traces += 1
    st.nontrivial += ref.depth_of(t) >= 2
    st.outcome('{} {} depth={} leaves={}'.format(case['model'], name or 'scripted', ref.depth_of(t), ref.leaves_of(t)))


def grow_1d(pb, t, st):
    ref.conform_hyper(pb, t, st, [[1.0], [-1.0]], check=('map',))


def growth(pb, t, rows=None, prior=None, level=0, path='root'):
    """a split of a built-in optimizer is at least as good as not splitting, with the scores of this node's own rows, prior and depth"""
    if rows is None:
        rows, prior = list(range(len(pb.y))), pb.prior
    if not t.split:
        return
    below, above = ref.hyper_sides(t, pb.X, rows)
    s0 = pb.score_stop(rows, prior, level)
    if t.lp0 is not None and not ref.close(float(t.lp0), s0, 1e-7):
        raise Violation('{}: recorded score of not splitting is {!r} instead of {!r}'.format(path, float(t.lp0), s0))
    proj = {r: ref.signed_distance(t, pb.X[r]) for r in rows}
    v = sorted(proj.values())
    gaps = [b - a for a, b in zip(v, v[1:])]
    if all(g > 1e-9 + pb.precision or g == 0 for g in gaps):  # otherwise the number of cuts depends on rounding
        import math
        s = math.log(pb.pp ** (1 + level) / (sum(1 for g in gaps if g > 0) * pb.nd)) + pb.logml(below, prior) + pb.logml(above, prior)
        if t.lp1 is not None and not ref.close(float(t.lp1), s, 1e-7):
            raise Violation('{}: recorded score of the split is {!r} instead of {!r}'.format(path, float(t.lp1), s))
        if s < s0 and not ref.close(s, s0):
            raise Violation('{}: split with a score of {!r} < {!r} of not splitting'.format(path, s, s0))
    for c, rr, side in ((t.c1, below, 'B'), (t.c2, above, 'F')):
        growth(pb, c, rr, prior if ref.is_pure(pb, rr) else pb.posterior(rr, prior, pb.delta), level + 1, path + '.' + side)


D4 = [[1, 0, 0, 0], [1, 1, 1, 1], [1, -1, 1, -1], [0, 0, -1, 0], [1, 1, -1, -1]]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    f = []
    f.append(Family('2d-2class', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 1]), 2, 5 if q else 6, S.all_classes(2)),
                                            pc(model=['hc'], prior=[[0.1, 0.1], [1, 3]], pp=[0.3, 0.9, 0.999] if not q else [0.9, 0.9999])),
                    'all multisets of 2..{} rows over {{0,1}}^2, 6 orientations, 2 priors'.format(5 if q else 6)))
    f.append(Family('2d-grid', lambda: wc(S.multisets(S.symbols([0, 1, 2], 2, [0, 1]), 3, 3 if q else 4, S.all_classes(2)),
                                          pc(model=['hc'], prior=[[0.1, 0.1]], pp=[0.99], delta=[0, 0.5])),
                    'all multisets of 3{} rows over {{0,1,2}}^2, 2 deltas'.format('' if q else '..4')))
    f.append(Family('2d-labels', lambda: wc(S.labelled_sequence([[0, 0], [0, 1], [0, 2], [1, 0], [1, 1], [2, 0], [2, 2]] + ([] if q else [[1, 2], [2, 1]]), [0, 1], S.has_classes(2)),
                                            pc(model=['hc', 'hr'], prior=[None], pp=[0.9, 0.99999], delta=[0, 1])),
                    'all label vectors over {} positions, classification and regression'.format(7 if q else 9)))
    f.append(Family('3class', lambda: wc(S.labelled_sequence([[0, 0], [0, 1], [1, 2], [1, 0], [2, 1]] + ([] if q else [[2, 2], [0, 2]]), [0, 1, 2], S.has_classes(3)),
                                         pc(model=['hc'], prior=[[0.1, 0.1, 0.1], [2, 0.5, 1]], pp=[0.9999])),
                    'all label vectors of 3 classes over {} positions'.format(5 if q else 7)))
    f.append(Family('regression', lambda: wc(S.labelled_sequence([[0, 0], [0, 1], [1, 2], [1, 0], [2, 1]] + ([] if q else [[2, 2]]), [0, 1, 4]),
                                             pc(model=['hr'], prior=[[1, 0.1, 0.05, 0.01], [0, 1, 1, 1]], pp=[0.9, 0.9999])),
                    'all vectors of 3 targets over {} positions'.format(5 if q else 6)))
    f.append(Family('target-differences', lambda: (c for t in ([0, 1e-3, 1], [0, 1e-9, 3e-9], [1e-12, 2e-12, -1e-11], [0, 1e4, 3e8]) for c in wc(
        S.labelled_sequence([[0, 0], [0, 1], [1, 2], [1, 0], [2, 1]] + ([] if q else [[2, 2]]), t),
        pc(model=['hr'], prior=[[0, 0.001, 0.001, 1e-4 * (t[1] - t[0]) ** 2], [t[2], 0.1, 0.05, 1e-3 * (t[1] - t[0]) ** 2]], pp=[0.9, 0.9999], delta=[0, 0.5]))),
        'regression targets of different orders of magnitude (1e-12 to 3e8): all vectors of 4 sets of 3 targets over {} positions'.format(5 if q else 6)))
    f.append(Family('4d', lambda: wc(S.labelled_sequence([[i, (i * 3) % 7, (i * i) % 5, i % 2] for i in range(7 if q else 10)], [0, 1], S.has_classes(2)),
                                     pc(model=['hc', 'hr'], prior=[None], pp=[0.9999], normals=[D4])),
                    'all label vectors over {} positions in 4d (exact orientations)'.format(7 if q else 10)))
    f.append(Family('sparse', lambda: (dict(c, form=fm) for fm in ('csr', 'csc') for c in wc(
        S.labelled_sequence([[0, 0], [0, 1], [0, 2], [1, 0], [1, 1], [2, 0]], [0, 1], S.has_classes(2)), pc(model=['hc', 'hr'], prior=[None], pp=[0.9999]))),
        'sparse training data: all label vectors over 6 positions'))
    f.append(Family('proposal-arrays', lambda: (dict(c, form=fm) for fm in ('dense', 'csr') for c in wc(
        S.labelled_sequence([[0, 0], [0, 1], [0, 2], [1, 0], [1, 1], [2, 0]] + ([] if q else [[2, 1]]), [0, 1], S.has_classes(2)),
        pc(model=['hc', 'hr'], prior=[None, ], pp=[0.9999], how=['buffer', 'matrix'], delta=[0, 0.5]))),
        'proposals in one array that is overwritten each time, or in read-only rows of a matrix: all label vectors over {} positions'.format(6 if q else 7)))
    f.append(Family('1-feature', lambda: (dict(c, builtin=b) for b in ('default', 'scipy', 'random', 'twopoint', 'quasi', 'annealing', 'gradient') for c in wc(
        S.multisets(S.symbols([0, 1, 3], 1, [0, 1]), 2, 3 if q else 5, S.all_classes(2)), pc(model=['hc'], prior=[[0.1, 0.1]], pp=[0.999]))),
        'one feature: all multisets of 2..{} rows x 7 optimizers'.format(3 if q else 5)))
    f.append(Family('1-feature-regression', lambda: (dict(c, builtin=b) for b in ('default', 'random', 'quasi') for c in wc(
        S.labelled_sequence([[0], [1], [1], [3]], [0, 1, 4]), pc(model=['hr'], prior=[None], pp=[0.999]))),
        'one feature, regression: all vectors of 3 targets over 4 positions x 3 optimizers'))
    f.append(Family('built-in', lambda: (dict(c, builtin=b) for b in ('scipy', 'random', 'twopoint', 'quasi', 'annealing') + (() if q else ('default', 'gradient')) for c in wc(
        itertools_chain(S.labelled_sequence([[0, 0.5], [0.25, 1.75], [1.5, 2.1], [1.1, 0.3], [2.7, 1.2]], [0, 1], S.has_classes(2)),
                        S.labelled_sequence([[0, 0.5, 1], [0.25, 1.75, -1], [1.5, 2.1, 0.3], [1.1, 0.3, 0.7], [2.7, 1.2, 2.2]], [0, 1], S.has_classes(2))),
        pc(model=['hc'] + (['hr'] if b != 'twopoint' else []), prior=[None], pp=[0.9999], delta=[0, 0.5]))),
        'all label vectors over 5 rows in 2d and 3d x {} built-in optimizers'.format(5 if q else 7)))
    f.append(Family('large', lambda: large(q), 'structured sets of up to {} rows'.format(60 if q else 250)))
    f.append(Family('cross', lambda: build.cross(['hc', 'hr'], pp=[0.9, 0.9999], prune=[False], delta=[0, 0.3], precision=[0.0, 1.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 2 models x 2 partition priors x 2 deltas x 2 precisions'))
    f.append(Family('prior-ranges', lambda: build.prior_ranges(['hc', 'hr'], delta=[0, 0.5]), 'every combination of prior components of different orders of magnitude (classes 1e-8 to 1e5; means -500 to 1e4, other components 1e-6 to 1e4) on 3 training sets; 4 partition priors'))
    f.append(Family('deep', lambda: build.deep(['hc', 'hr'], delta=[0, 0.5], sizes=(20, 40, 80) if q else (20, 40, 80, 160)),
                    'trees of up to {} levels in 1 and 2 features: 6 label patterns, 2 partition priors, 2 models, 2 deltas'.format(79 if q else 159)))
    f.append(Family('many-features', lambda: build.wide(['hc', 'hr'], delta=[0, 0.5]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; 2 models, 2 deltas'))
    f.append(Family('many-rows', lambda: build.tall(['hc', 'hr'], delta=[0, 0.5], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; 2 models, 2 deltas'.format(3001 if q else 6000)))
    f.append(Family('target-offsets', lambda: build.offsets(['hr'], 5 if q else 7), 'regression targets with a common offset (up to 2^40) that dwarfs their spread, the prior mean on it or near it: all vectors of 3 targets over {} positions; 6 offsets x 2 spreads x 2 deltas'.format(5 if q else 7)))
    f.append(Family('small-partition-prior', lambda: build.stubborn(['hc', 'hr'], q, delta=[0, 0.5]), 'small partition priors (1e-4 to 0.2) and large pure blocks (3 to {} blocks of 25 or 50 rows): {}'.format(8 if q else 10, 'hyperplanes, 2 deltas')))
    f.append(Family('thresholds', lambda: build.thresholds(['hc', 'hr'], q, delta=[0, 0.5]), 'partition priors within 1e-2, 1e-4 and 1e-6 of the point where the best cut of the root or of a child starts to pay: both hyperplane models, 2 deltas'))
    f.append(Family('many-cuts', lambda: build.many_cuts(['hc', 'hr'], sizes=(4097, 10007, 20011)), 'features of up to 20011 different values, one or two steps'))
    f.append(Family('many-classes', lambda: build.many_classes(['hc']), '20 to 300 classes, the first or the last one being the most frequent or not'))
    f.append(Family('near-ties', lambda: build.near_ties(['hc', 'hr']), 'two cuts, of one feature or of two, whose scores differ by a relative 1e-3 to 1e-10'))
    return f


def large(q):
    for n in (20, 40, 60) if q else (20, 40, 60, 120, 250):
        for step in range(6):
            for K in (2, 3):
                y = spaces.de_bruijn_like(n, K, step)
                if len(set(y)) < K:
                    continue
                X = [[i % 16, (i * 3) % 17, (i * i) % 11, (i * 7) % 13] for i in range(n)]
                for model in ('hc', 'hr'):
                    yield dict(model=model, X=X, y=y, prior=[0.1] * K if model == 'hc' else [1, 0.1, 0.05, 0.01], pp=0.9999, normals=D4)
