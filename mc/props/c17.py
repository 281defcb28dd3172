"""C17: split_precision."""
import math

import numpy as np
from scipy.sparse import csc_matrix, csr_matrix

from .. import build, ref, spaces
from ..core import Family, Violation

PID = 'C17'
RULE = ('every training set of the family x every precision of the family (including 0, every occurring gap exactly, and values between and beyond the gaps), all four models: the '
        'whole tree against the reference with the candidates of the stated rule, and no split between closer points; non-trivial: the precision removes at least one candidate')
ASSUMPTIONS = ['ties in scores may go either way', 'hyperplane trees: precisions equal to a gap are only compared for orientations with exact projections']


def evaluate(case, st):
    if case.get('prior') == 'x':
        case = dict(case, prior=[0.02, 0.05] if case['model'][1] == 'c' else [0.5, 0.1, 0.05, 0.001])
    X, y = build.data(case)
    form = case.get('form', 'dense')
    XX = {'dense': lambda: X, 'csr': lambda: csr_matrix(X), 'csc': lambda: csc_matrix(X)}[form]()
    m = build.make(case)
    m.fit(XX, y)
    pb = build.problem(case)
    t = ref.extract(m)
    if case.get('prune'):
        # the precision in force in a pruned tree: it has to be the pruned form of the unpruned one, which is compared with the reference below
        pruned = t
        m = build.make(case, prune=False).fit(XX, y)
        t = ref.extract(m)
        if ref.full(pruned) != ref.full(ref.prune_ref(pb.kind, t)):
            raise Violation('with pruning and the precision {} the tree is not the pruned one of the same precision:\n{}'.format(pb.precision, m))
        structure(pb, pruned, list(range(len(y))))
    hyper = case['model'][0] == 'h'
    dirs = (case.get('normals') or build.directions(pb.nd)) if hyper else None
    if hyper:
        ref.conform_hyper(pb, t, st, dirs, check=('map', 'post', 'lp'))
        answers(pb, m, dirs)
    else:
        ref.conform_perp(pb, t, st, check=('map', 'post', 'lp'))
    # independently of scores: no split between close points, and none at all beyond the largest gap
    structure(pb, t, list(range(len(y))))
    gaps = [b - a for d in range(pb.nd) for v in [sorted({r[d] for r in pb.X})] for a, b in zip(v, v[1:])]
    if not hyper and (not gaps or pb.precision >= max(gaps)) and t.split:
        raise Violation('a split although no gap of {} is larger than the precision {}'.format(sorted(set(gaps)), pb.precision))
    if m.get_params()['split_precision'] != case['precision']:
        raise Violation('the parameter split_precision changed')
    st.traces += 1
    st.nontrivial += any(g <= pb.precision for g in gaps)
    st.outcome('{} precision={} leaves={}'.format(case['model'], case['precision'], ref.leaves_of(t)))


def structure(pb, t, rows):
    if not t.split:
        return
    if t.normal is not None:
        below, above = ref.hyper_sides(t, pb.X, rows)
        gap = min(ref.signed_distance(t, pb.X[r]) for r in above) - max(ref.signed_distance(t, pb.X[r]) for r in below)
        slack = 1e-9
    else:
        below = [r for r in rows if pb.X[r][t.dim] < t.value]
        above = [r for r in rows if not pb.X[r][t.dim] < t.value]
        gap = min(pb.X[r][t.dim] for r in above) - max(pb.X[r][t.dim] for r in below)
        slack = 0
    if not gap > pb.precision - slack:
        raise Violation('a split between points {} apart with precision {}'.format(gap, pb.precision))
    structure(pb, t.c1, below)
    structure(pb, t.c2, above)


def answers(pb, m, dirs):
    """what the optimizer was answered at the root"""
    log = getattr(m.get_params()['optimizer'], 'log', None)
    if not log:
        return
    rows = list(range(len(pb.y)))
    s0 = pb.score_stop(rows, pb.prior, 0)
    cuts = ref.hyper_cuts(pb, rows, pb.prior, 0, dirs)
    for i, a in enumerate(log[0]):
        best = max([c[0] for c in cuts if c[1] == i], default=None)
        exp = -s0 if best is None else -best
        if not ref.close(a, exp):
            raise Violation('orientation {} was answered with {!r} instead of {!r} (precision {})'.format(dirs[i], a, exp, pb.precision))


AX2 = [[1, 0], [0, 1], [-1, 0]]
D4 = [[1, 0, 0, 0], [1, 1, 1, 1], [1, -1, 1, -1], [0, 0, -1, 0], [1, 1, -1, -1]]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    P1 = [0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 2.5, 8.0]
    vals = [0, 0.5, 1.5, 3.5]  # gaps .5, 1, 2
    pos = [[0.0], [0.5], [0.75], [1.75], [3.75], [4.0], [4.5], [5.5], [5.75], [7.75], [8.0]]
    f = []
    f.append(Family('1d', lambda: wc(S.multisets(S.symbols(vals, 1, [0, 1]), 2, 4 if q else 6, S.all_classes(2)),
                                     pc(model=['pc'], prior=[[0.1, 0.1], [1, 3]], pp=[0.9, 0.9999], precision=P1)),
                    'all multisets of 2..{} rows over {{0,.5,1.5,3.5}}; 9 precisions x 2 priors x 2 partition priors'.format(4 if q else 6)))
    f.append(Family('1d-regression', lambda: wc(S.multisets(S.symbols(vals, 1, [0, 1]), 2, 4 if q else 6),
                                                pc(model=['pr'], prior=[[0, 1, 1, 1], [1, 0.1, 0.05, 0.01]], pp=[0.9999], precision=P1)),
                    'the same for regression'))
    f.append(Family('sequence', lambda: wc(S.labelled_sequence(pos[:8 if q else 11], [0, 1], S.has_classes(2)),
                                           pc(model=['pc', 'pr', 'hc', 'hr'], prior=[None], pp=[0.9999], precision=[0.0, 0.25, 0.4, 0.5, 1.0, 1.5, 2.0], delta=[0, 0.5])),
                    'all label vectors over {} positions with gaps 1/4..2 (deep trees), four models x 7 precisions x 2 deltas'.format(8 if q else 11)))
    f.append(Family('pruned', lambda: wc(S.labelled_sequence(pos[:7 if q else 10], [0, 1], S.has_classes(2)),
                                         pc(model=['pc', 'pr', 'hc', 'hr'], prior=[None, 'x'], pp=[0.999999], precision=[0.0, 0.25, 0.5, 1.0, 1.5], prune=[True])),
                    'pruned trees: all label vectors over {} positions with gaps 1/4..2, four models x 2 priors x 5 precisions'.format(7 if q else 10)))
    f.append(Family('2d', lambda: wc(S.multisets([((a, b), c) for a in (0, 0.5, 1.5) for b in (0, 2) for c in (0, 1)], 2, 4 if q else 5, S.all_classes(2)),
                                     pc(model=['pc'], prior=[[0.1, 0.1]], pp=[0.9999], precision=[0, 0.5, 1.0, 1.25, 2.0])),
                    'all multisets of 2..{} rows over {{0,.5,1.5}} x {{0,2}}, 5 precisions'.format(4 if q else 5)))
    f.append(Family('3-class', lambda: wc(S.labelled_sequence(pos[:6 if q else 7], [0, 1, 2], S.has_classes(3)),
                                          pc(model=['pc', 'hc'], prior=[[0.1, 0.1, 0.1]], pp=[0.9999], precision=[0.0, 0.25, 0.5, 1.0, 1.5])),
                    'all label vectors of 3 classes over {} positions'.format(6 if q else 7)))
    f.append(Family('scales', lambda: scales(q), 'the positions scaled by powers of two and ten from 1e-300 to 1e300 together with the precision, including precisions equal to the gaps'))
    f.append(Family('hyper-axis', lambda: wc(S.multisets([((a, b), c) for a in (0, 0.5, 1.5) for b in (0, 2) for c in (0, 1)], 2, 4, S.all_classes(2)),
                                             pc(model=['hc'] if q else ['hc', 'hr'], prior=[None], pp=[0.9999], normals=[AX2], precision=[0, 0.5, 1.0, 2.0])),
                    'hyperplane models with axis-parallel proposals: all multisets of 2..4 rows, precisions equal to the gaps'))
    f.append(Family('hyper-4d', lambda: wc(S.labelled_sequence([[i, (i * 3) % 7, (i * i) % 5, i % 2] for i in range(6 if q else 9)], [0, 1], S.has_classes(2)),
                                           pc(model=['hc', 'hr'], prior=[None], pp=[0.9999], normals=[D4], precision=[0.0, 0.5, 1.0, 1.5, 2.0, 3.0])),
                    'hyperplane models in 4d with exact oblique projections: all label vectors over {} positions x 6 precisions equal to and between the gaps'.format(6 if q else 9)))
    f.append(Family('hyper-2d', lambda: wc(S.labelled_sequence([[0, 0], [0, 1], [1, 2], [1, 0], [2, 1], [2, 2]], [0, 1], S.has_classes(2)),
                                           pc(model=['hc', 'hr'], prior=[None], pp=[0.9999], precision=[0.1, 0.6, 0.8, 1.2])),
                    'hyperplane models in 2d, oblique proposals, precisions between the gaps'))
    f.append(Family('sparse', lambda: (dict(c, form=fm) for fm in ('csr', 'csc') for c in wc(
        S.labelled_sequence([[0, 0.5], [0, 0], [-1.5, 0], [1, 2], [3, 0], [3.25, 2.5]], [0, 1], S.has_classes(2)),
        pc(model=['pc', 'pr', 'hc', 'hr'], prior=[None], pp=[0.9999], precision=[0.0, 0.25, 0.5, 1.0, 1.5, 2.0], normals=[AX2]))),
        'sparse training data: all label vectors over 6 positions, four models'))
    f.append(Family('cross', lambda: build.cross(['pc', 'pr', 'hc', 'hr'], pp=[0.9, 0.9999], delta=[0, 0.3], precision=[0.0, 0.5, 1.0, 2.0, 5.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 4 models x 2 partition priors x 2 deltas x 5 precisions'))
    f.append(Family('deep', lambda: build.deep(['pc', 'pr', 'hc', 'hr'], precision=[0.0, 0.5, 1.0], sizes=(20, 40, 80) if q else (20, 40, 80, 160)),
                    'trees of up to {} levels in 1 and 2 features: 6 label patterns, 2 partition priors, 4 models, 3 precisions'.format(79 if q else 159)))
    f.append(Family('many-features', lambda: build.wide(['pc', 'pr', 'hc', 'hr'], precision=[0.0, 0.5, 1.0]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; 4 models, 3 precisions'))
    f.append(Family('many-rows', lambda: build.tall(['pc', 'pr', 'hc', 'hr'], precision=[0.0, 0.5, 1.0], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; 4 models, 3 precisions'.format(3001 if q else 6000)))
    f.append(Family('many-cuts', lambda: build.many_cuts(['pc', 'pr', 'hc', 'hr'], sizes=(4097, 10007, 20011), precision=[0.0, 0.25, 1.0]), 'features of up to 20011 different values, one or two steps'))
    return f


def scales(q):
    base = [0.0, 1.0, 2.0, 4.0, 5.0, 8.0]
    for e in (-990, -300, -40, 0, 40, 300, 990) if q else (-990, -700, -500, -300, -100, -40, -10, 0, 10, 40, 100, 300, 500, 700, 990):
        s = 2.0 ** e
        for X, y in spaces.labelled_sequence([[b * s] for b in base], [0, 1], spaces.has_classes(2)):
            for p in (0.0, 0.5, 1.0, 1.5, 2.0, 3.0, 4.0):
                yield dict(model='pc', X=X, y=y, prior=[0.1, 0.1], pp=0.9999, precision=p * s)
                if abs(e) <= 300 and p in (0.0, 1.0, 2.0):
                    yield dict(model='hc', X=X, y=y, prior=[0.1, 0.1], pp=0.9999, precision=p * s)
