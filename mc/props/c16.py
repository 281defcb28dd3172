"""C16: delta."""
import numpy as np

from .. import build, ref, spaces
from ..core import Family, Violation

PID = 'C16'
RULE = ('every training set of the family x every delta x every hyperparameter combination, all four models: the whole tree (decisions, recorded scores, posteriors) and all '
        'answers against the reference transition system, in which the prior of every examined child is part of the state; non-trivial: the tree has at least two splits and delta > 0')
ASSUMPTIONS = ['ties in scores may go either way', 'hyperplane trees: an optimizer that proposes a fixed set of exactly representable orientations at every node']


def evaluate(case, st):
    m = build.fit(case)
    pb = build.problem(case)
    t = ref.extract(m)
    check = ('map', 'post', 'lp')
    if case['model'][0] == 'h':
        ref.conform_hyper(pb, t, st, case.get('normals') or build.directions(pb.nd), check=check)
    else:
        ref.conform_perp(pb, t, st, check=check)
    Q = build.queries(pb, t, 12)
    if Q:
        for r, got in zip(Q, build.answer_rows(m, np.array(Q, dtype=float))):
            leaf = ref.route(t, r)
            ref.check_answers(pb, tuple(leaf.post), 'row {}'.format(r), got[0], got[1])
            if got[2] is not None and not build.same(got[2][len(leaf.post):], tuple(leaf.post), 1e-9):
                raise Violation('row {}: raw posterior {} instead of {}'.format(r, got[2], leaf.post))
    if m.get_params()['delta'] != case['delta']:
        raise Violation('the parameter delta changed')
    st.traces += 1
    st.nontrivial += case['delta'] > 0 and ref.leaves_of(t) > 2
    st.outcome('{} delta={} depth={}'.format(case['model'], case['delta'], ref.depth_of(t)))


D4 = [[1, 0, 0, 0], [1, 1, 1, 1], [1, -1, 1, -1], [0, 0, -1, 0], [1, 1, -1, -1]]
DELTAS = [0, 0.005, 0.125, 0.3, 0.5, 0.75, 1, 1.0]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    d_all = DELTAS if not q else [0.01, 0.5, 1]
    line = lambda n: [[float(i)] for i in range(n)]
    grid6 = [[0, 0], [0, 1], [0, 2], [1, 0], [1, 1], [2, 0], [2, 2]]
    f = []
    f.append(Family('classification', lambda: wc(S.labelled_sequence(line(8 if q else 12), [0, 1], S.has_classes(2)),
                                                 pc(model=['pc'], prior=[[0.1, 0.1], [1, 3], [0.5, 0.05]], pp=[0.9, 0.9999], delta=DELTAS)),
                    'all label vectors over {} positions; 3 priors x 2 partition priors x 8 deltas'.format(8 if q else 12)))
    f.append(Family('classification-3', lambda: wc(S.labelled_sequence(line(6 if q else 8), [0, 1, 2], S.has_classes(3)),
                                                   pc(model=['pc'], prior=[[0.1, 0.1, 0.1], [2, 0.5, 1], None], pp=[0.99, 0.999999], delta=d_all)),
                    'all label vectors of 3 classes over {} positions; 3 priors x 2 partition priors'.format(6 if q else 8)))
    f.append(Family('classification-2d', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 1]), 2, 5 if q else 6, S.all_classes(2)),
                                                    pc(model=['pc'], prior=[[0.1, 0.1], [1, 3]], pp=[0.99], delta=d_all)),
                    'all multisets of 2..{} rows over {{0,1}}^2, 2 classes'.format(5 if q else 6)))
    f.append(Family('regression', lambda: wc(S.labelled_sequence(line(8 if q else 11), [0, 1]),
                                             pc(model=['pr'], prior=[[0, 1, 1, 1], [0.5, 0.1, 0.05, 0.01], None], pp=[0.9, 0.9999], delta=DELTAS)),
                    'all target vectors over {} positions; 3 priors x 2 partition priors x 8 deltas'.format(8 if q else 11)))
    f.append(Family('regression-3', lambda: wc(S.labelled_sequence(line(6 if q else 8), [-2, 0.5, 1]),
                                               pc(model=['pr'], prior=[[0, 0.1, 0.05, 0.01], [1, 0.5, 2, 0.1]], pp=[0.99, 0.999999], delta=d_all)),
                    'all vectors of 3 targets over {} positions'.format(6 if q else 8)))
    f.append(Family('regression-2d', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 2]), 2, 5 if q else 6),
                                                pc(model=['pr'], prior=[[0, 0.1, 0.05, 0.05], [2, 10, 5, 20]], pp=[0.99], delta=d_all)),
                    'all multisets of 2..{} rows over {{0,1}}^2, 2 targets'.format(5 if q else 6)))
    f.append(Family('hyper-1d', lambda: wc(S.labelled_sequence(line(7 if q else 10), [0, 1], S.has_classes(2)),
                                           pc(model=['hc', 'hr'], prior=[None], pp=[0.9, 0.9999], delta=DELTAS)),
                    'hyperplane models, one feature: all label vectors over {} positions x 8 deltas'.format(7 if q else 10)))
    f.append(Family('hyper-2d', lambda: wc(S.labelled_sequence(grid6[:6 if q else 7], [0, 1], S.has_classes(2)),
                                           pc(model=['hc'], prior=[[0.1, 0.1], [1, 3], [0.5, 0.05]], pp=[0.9999], delta=d_all)),
                    'hyperplane classification in 2d: all label vectors over {} positions'.format(6 if q else 7)))
    f.append(Family('hyper-2d-regression', lambda: wc(S.labelled_sequence(grid6[:5 if q else 6], [0, 1, 4]),
                                                      pc(model=['hr'], prior=[[0, 1, 1, 1], [1, 0.1, 0.05, 0.01]], pp=[0.9999], delta=d_all)),
                    'hyperplane regression in 2d: all vectors of 3 targets over {} positions'.format(5 if q else 6)))
    f.append(Family('hyper-3', lambda: wc(S.labelled_sequence(grid6[:5 if q else 7], [0, 1, 2], S.has_classes(3)),
                                          pc(model=['hc'], prior=[[0.1, 0.1, 0.1], [2, 0.5, 1]], pp=[0.9999], delta=d_all)),
                    'hyperplane classification, 3 classes: all label vectors over {} positions'.format(5 if q else 7)))
    f.append(Family('hyper-4d', lambda: wc(S.labelled_sequence([[i, (i * 3) % 7, (i * i) % 5, i % 2] for i in range(7 if q else 10)], [0, 1], S.has_classes(2)),
                                           pc(model=['hc', 'hr'], prior=[None], pp=[0.9999], normals=[D4], delta=[0.3, 1])),
                    'hyperplane models in 4d: all label vectors over {} positions'.format(7 if q else 10)))
    f.append(Family('large', lambda: large(q), 'structured sets of up to {} rows (deep chains of priors)'.format(100 if q else 400)))
    f.append(Family('cross', lambda: build.cross(['pc', 'pr', 'hc', 'hr'], pp=[0.9, 0.9999], delta=[0.005, 0.3, 1], precision=[0.0, 1.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 4 models x 2 partition priors x 3 deltas x 2 precisions'))
    f.append(Family('prior-ranges', lambda: build.prior_ranges(['pc', 'pr', 'hc', 'hr'], pps=(0.05, 0.999999) if q else (1e-9, 0.05, 0.6, 0.999999), delta=[0.01, 0.5, 1]), 'every combination of prior components of different orders of magnitude (classes 1e-8 to 1e5; means -500 to 1e4, other components 1e-6 to 1e4) on 3 training sets; {} partition priors'.format(2 if q else 4)))
    f.append(Family('deep', lambda: build.deep(['pc', 'pr', 'hc', 'hr'], delta=[0.01, 0.5, 1], sizes=(20, 40, 80) if q else (20, 40, 80, 160)),
                    'trees of up to {} levels in 1 and 2 features: 6 label patterns, 2 partition priors, 4 models, 3 deltas'.format(79 if q else 159)))
    f.append(Family('many-features', lambda: build.wide(['pc', 'pr', 'hc', 'hr'], delta=[0.01, 0.5, 1]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; 4 models, 3 deltas'))
    f.append(Family('many-rows', lambda: build.tall(['pc', 'pr', 'hc', 'hr'], delta=[0.01, 0.5, 1], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; 4 models, 3 deltas'.format(3001 if q else 6000)))
    f.append(Family('target-offsets', lambda: build.offsets(['pr', 'hr'], 4 if q else 6), 'regression targets with a common offset (up to 2^40) that dwarfs their spread, the prior mean on it or near it: all vectors of 3 targets over {} positions; 6 offsets x 2 spreads x 2 deltas'.format(4 if q else 6)))
    f.append(Family('small-partition-prior', lambda: build.stubborn(['pc', 'pr', 'hc', 'hr'], q, delta=[0.01, 0.5, 1]), 'small partition priors (1e-4 to 0.2) and large pure blocks (3 to {} blocks of 25 or 50 rows): {}'.format(8 if q else 10, '4 models, 3 deltas')))
    f.append(Family('thresholds', lambda: build.thresholds(['pc', 'pr', 'hc', 'hr'], q, delta=[0.25, 1]), 'partition priors within 1e-2, 1e-4 and 1e-6 of the point where the best cut of the root or of a child starts to pay: all four models, 2 deltas'))
    f.append(Family('many-cuts', lambda: build.many_cuts(['pc', 'pr', 'hc', 'hr'], sizes=(4097, 10007, 20011), delta=[0.25]), 'features of up to 20011 different values, one or two steps'))
    f.append(Family('many-classes', lambda: build.many_classes(['pc', 'hc'], delta=[0.5]), '20 to 300 classes, the first or the last one being the most frequent or not'))
    f.append(Family('near-ties', lambda: build.near_ties(['pc', 'pr', 'hc', 'hr'], delta=[0.25]), 'two cuts, of one feature or of two, whose scores differ by a relative 1e-3 to 1e-10'))
    return f


def large(q):
    for n in (40, 100) if q else (40, 100, 200, 400):
        for step in range(6):
            for K in (2, 3):
                y = spaces.de_bruijn_like(n, K, step)
                if len(set(y)) < K:
                    continue
                X = [[float(i), float((i * 7) % 13)] for i in range(n)]
                for delta in (0.1, 0.5, 1):
                    yield dict(model='pc', X=X, y=y, prior=[0.1] * K, pp=0.9999, delta=delta)
                    yield dict(model='pr', X=X, y=[v + 0.1 * (i % 3) for i, v in enumerate(y)], prior=[0.5, 0.1, 0.05, 0.01], pp=0.9999, delta=delta)
                X4 = [[i % 16, (i * 3) % 17, (i * i) % 11, (i * 7) % 13] for i in range(n)]
                if n <= 100:
                    yield dict(model='hc', X=X4, y=y, prior=[0.1] * K, pp=0.9999, delta=0.5, normals=D4)
                    yield dict(model='hr', X=X4, y=y, prior=[0.5, 0.1, 0.05, 0.01], pp=0.9999, delta=0.5, normals=D4)
