"""C08: feature importance."""
import math

import numpy as np

from .. import build, ref, spaces
from ..core import Family, Violation
from .c01 import itertools_chain

PID = 'C08'
RULE = ('every tree of the family: feature_importance() against gains recomputed from the data with the reference likelihoods for every split node of the tree; '
        'non-trivial: at least two split nodes')
ASSUMPTIONS = ['trees with at least one split of positive gain (the importance of a tree without splits is undefined)']


def gains(pb, t, rows=None, prior=None, level=0, out=None, collapsed=None):
    """[(gain, weights per feature)] of all split nodes, from the data"""
    if rows is None:
        rows, prior, out = list(range(len(pb.y))), pb.prior, []
    if not t.split:
        return out
    s0 = pb.score_stop(rows, prior, level)
    if t.normal is not None:
        below, above = ref.hyper_sides(t, pb.X, rows)
        w = [abs(v) for v in t.normal]
        nrm = {r: ref.signed_distance(t, pb.X[r]) for r in rows}
        # only gaps that are not rounding errors are cuts
        order = sorted(rows, key=lambda r: nrm[r])
        n_cuts = sum(1 for a, b in zip(order, order[1:]) if nrm[b] - nrm[a] > max(1e-12, pb.precision))
    else:
        below = [r for r in rows if pb.X[r][t.dim] < t.value]
        above = [r for r in rows if not pb.X[r][t.dim] < t.value]
        w = [float(d == t.dim) for d in range(pb.nd)]
        vals = sorted(pb.X[r][t.dim] for r in rows)
        n_cuts = sum(1 for a, b in zip(vals, vals[1:]) if b - a > pb.precision)
    s = math.log(pb.pp ** (1 + level) / (n_cuts * pb.nd)) + pb.logml(below, prior) + pb.logml(above, prior)
    out.append((s - s0, w))
    for c, rr in ((t.c1, below), (t.c2, above)):
        gains(pb, c, rr, prior if ref.is_pure(pb, rr) else pb.posterior(rr, prior, pb.delta), level + 1, out)
    return out


def evaluate(case, st):
    m = build.fit(case)
    pb = build.problem(case)
    t = ref.extract(m)
    st.states += sum(1 for _ in ref.nodes(t))
    if not t.split:
        st.traces += 1
        st.outcome('no split')
        return
    g = gains(pb, t)
    st.transitions += len(g)
    tot = [math.fsum([v * w[d] for v, w in g]) for d in range(pb.nd)]
    s = math.fsum(tot)
    before = ref.full(t)
    fi = m.feature_importance()
    if np.shape(fi) != (pb.nd,):
        raise Violation('feature_importance() has shape {} for {} features'.format(np.shape(fi), pb.nd))
    scale = max(1.0, max(abs(v) for v, w in g))
    if min(v for v, w in g) < -1e-7 * scale:
        raise Violation('a split has a negative gain: {}'.format(g))
    if s > 1e-6:
        fi = [float(v) for v in fi]
        if abs(math.fsum(fi) - 1) > 1e-9:
            raise Violation('the importances {} do not sum to 1'.format(fi))
        if min(fi) < -1e-9:
            raise Violation('negative importance: {}'.format(fi))
        for d in range(pb.nd):
            if abs(fi[d] - tot[d] / s) > 1e-7 * scale / min(s, 1):
                raise Violation('importance of feature {} is {!r} instead of {!r} (gains {})'.format(d, fi[d], tot[d] / s, [(round(v, 6), w) for v, w in g]))
        again = [float(v) for v in m.feature_importance()]
        if again != fi:
            raise Violation('a second call of feature_importance() gives {} instead of {}'.format(again, fi))
    else:
        st.extra['vanishing_gain'] += 1
    if ref.full(ref.extract(m)) != before:
        raise Violation('feature_importance() changed the model')
    st.traces += 1
    st.nontrivial += len(g) >= 2
    st.outcome('{} splits={} features={}{}'.format(case['model'], min(len(g), 8), sum(1 for v in tot if v > 1e-9), ' pruned' if case.get('prune') else ''))


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    f = []
    f.append(Family('2d-2class', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 1]), 3, 5 if q else 6, S.all_classes(2)),
                                            pc(model=['pc'], prior=[[0.1, 0.1], [1, 3]], pp=[0.999], prune=[False, True])),
                    'all multisets of 3..{} rows over {{0,1}}^2, 2 priors x pruning'.format(5 if q else 6)))
    f.append(Family('2d-hyperplane', lambda: wc(S.multisets(S.symbols([0, 1, 2], 2, [0, 1]), 3, 3 if q else 4, S.all_classes(2)),
                                                pc(model=['hc'], prior=[[0.1, 0.1]], pp=[0.999], prune=[False])),
                    'all multisets of 3{} rows over {{0,1,2}}^2, hyperplane'.format('' if q else '..4')))
    f.append(Family('3d', lambda: wc(S.labelled_sequence([[0, 0, 1], [0, 1, 2], [1, 0, 0], [1, 1, 1], [2, 0, 2], [2, 1, 0]] + ([] if q else [[3, 0, 1], [3, 2, 2]]), [0, 1], S.has_classes(2)),
                                     pc(model=['pc', 'hc'], prior=[[0.1, 0.1], [0.5, 0.05], [1, 1]], pp=[0.9, 0.99999], prune=[False, True], delta=[0, 0.5])),
                    'all label vectors over {} positions in 3d, both geometries; 3 priors x 2 partition priors x pruning x 2 deltas'.format(6 if q else 8)))
    f.append(Family('regression', lambda: wc(S.labelled_sequence([[0, 0, 1], [0, 1, 2], [1, 0, 0], [1, 1, 1], [2, 0, 2]] + ([] if q else [[2, 1, 0]]), [0, 1, 4]),
                                             pc(model=['pr', 'hr'], prior=[[1, 0.1, 0.05, 0.001], [0, 1, 1, 1]], pp=[0.9, 0.99999], delta=[0, 1])),
                    'all vectors of 3 targets over {} positions in 3d, both geometries; 2 priors x 2 partition priors x 2 deltas'.format(5 if q else 6)))
    f.append(Family('3class', lambda: wc(S.labelled_sequence([[float(i), float((i * 2) % 5)] for i in range(5 if q else 7)], [0, 1, 2], S.has_classes(3)),
                                         pc(model=['pc', 'hc'], prior=[[0.1, 0.1, 0.1], None], pp=[0.99999], prune=[False, True])),
                    'all label vectors of 3 classes over {} positions in 2d'.format(5 if q else 7)))
    f.append(Family('precision', lambda: wc(S.labelled_sequence([[float(i), float((i * 2) % 5) * 0.7] for i in range(6)], [0, 1], S.has_classes(2)),
                                            pc(model=['pc', 'pr'], prior=[None], pp=[0.99999], precision=[0.8, 1.2])),
                    'with split precision'))
    f.append(Family('prior-ranges', lambda: build.prior_ranges(['pc', 'pr', 'hc', 'hr'], pps=(0.05, 0.999999) if q else (1e-9, 0.05, 0.6, 0.999999), prune=[False, True]), 'every combination of prior components of different orders of magnitude (classes 1e-8 to 1e5; means -500 to 1e4, other components 1e-6 to 1e4) on 3 training sets; {} partition priors'.format(2 if q else 4)))
    f.append(Family('deep', lambda: itertools_chain(deep(q), build.deep(['pc', 'pr', 'hc', 'hr'], prune=[False, True])), 'trees of up to {} rows and 5 features'.format(80 if q else 120)))
    f.append(Family('cross', lambda: build.cross(['pc', 'pr', 'hc', 'hr'], pp=[0.9, 0.9999], prune=[False, True], delta=[0, 0.3], precision=[0.0, 1.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 4 models x 2 partition priors x pruning x 2 deltas x 2 precisions'))
    f.append(Family('many-features', lambda: build.wide(['pc', 'pr', 'hc', 'hr'], prune=[False, True]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; 4 models, pruned or not'))
    f.append(Family('many-rows', lambda: build.tall(['pc', 'pr', 'hc', 'hr'], prune=[False, True], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; 4 models, pruned or not'.format(3001 if q else 6000)))
    f.append(Family('target-offsets', lambda: build.offsets(['pr', 'hr'], 4 if q else 6, prune=[False, True]), 'regression targets with a common offset (up to 2^40) that dwarfs their spread, the prior mean on it or near it: all vectors of 3 targets over {} positions; 6 offsets x 2 spreads x 2 deltas'.format(4 if q else 6)))
    f.append(Family('many-cuts', lambda: build.many_cuts(['pc', 'pr', 'hc', 'hr']), 'features of up to 66001 different values, one or two steps'))
    f.append(Family('many-classes', lambda: build.many_classes(['pc', 'hc']), '20 to 300 classes, the first or the last one being the most frequent or not'))
    return f


def deep(q):
    for n in (12, 20, 40) if q else (12, 20, 40, 80, 120):
        for step in range(6):
            y = spaces.de_bruijn_like(n, 2, step)
            X = [[float(i), float((i * 3) % n), 5.0, float(i % 3), float((i * i) % 11)] for i in range(n)]
            yield dict(model='pc', X=X, y=y, prior=[0.1, 0.1], pp=0.99999)
            yield dict(model='hc', X=X, y=y, prior=[0.1, 0.1], pp=0.99999, normals=[[1, 0, 0, 0, 0], [0, 1, 1, 1, 1], [-1, 1, 0, 1, -1], [1, -1, 0, 1, 1], [0, 0, 0, 1, 0]])
            yield dict(model='pr', X=X, y=[float((i * i) % 7) for i in range(n)], prior=[3, 0.1, 0.05, 1e-3], pp=0.99999)
