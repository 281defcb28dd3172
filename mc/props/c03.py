"""C03: leaf predictions are the exact posterior of the leaf's training rows (delta = 0)."""
import numpy as np

from .. import build, ref, spaces
from ..core import Family, Violation
from .c01 import block_sets, itertools_chain

PID = 'C03'
RULE = ('every training set of the family x priors x pruning x all four models; every node\'s posterior and sample count and the answers of all query '
        'methods on all probe rows (training rows, split values and their neighbours, points outside) are compared; non-trivial: at least one split')
ASSUMPTIONS = ['hyperplane orientations come from a scripted optimizer (a finite alphabet of directions)']


def evaluate(case, st):
    m = build.make(case)
    kind = case.get('as')
    if kind == 'tuple':
        m.set_params(prior=tuple(case['prior']))
    elif kind == 'list':
        m.set_params(prior=list(case['prior']))
    X, y = build.data(case)
    m.fit(X, y)
    pb = build.problem(case)
    t = ref.extract(m)
    if t.normal is None:
        ref.conform_perp(pb, t, st, check=('post',))
    else:
        ref.conform_hyper(pb, t, st, None, check=('post',))
    part = build.training_partition(pb, t)
    rows = build.queries(pb, t, case.get('probes', 60))
    Q = np.array(rows, dtype=float)
    pred = m.predict(Q)
    proba = m.predict_proba(Q) if pb.kind == 'c' else None
    raw = m._get_raw_leaf_data(Q) if hasattr(m, '_get_raw_leaf_data') else None
    if pred.shape != (len(rows),) or proba is not None and proba.shape != (len(rows), pb.K):
        raise Violation('wrong shape of the answers')
    expected = {}
    for i, x in enumerate(rows):
        leaf = ref.route(t, x)
        k = id(leaf)
        if k not in expected:
            if k not in part:
                raise Violation('a leaf without training rows answers {}'.format(x))
            expected[k] = pb.posterior(part[k], pb.prior)
        ref.check_answers(pb, expected[k], 'row {}'.format(x), pred[i], proba[i] if proba is not None else None, raw[i] if raw is not None else None, pb.prior)
        st.transitions += 1
    st.traces += 1
    st.nontrivial += t.split
    st.outcome('{} leaves={}{}'.format(case['model'], ref.leaves_of(t), ' pruned' if case.get('prune') else ''))


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    f = []
    for mod, dims in (('pc', 1), ('pc', 2), ('hc', 2)):
        n = {'pc1': 4 if q else 6, 'pc2': 4 if q else 5, 'hc2': 3 if q else 4}[mod + str(dims)]
        f.append(Family('{}-{}d-2class'.format(mod, dims), lambda mod=mod, dims=dims, n=n: wc(
            S.multisets(S.symbols([0, 1, 2] if dims == 1 else [0, 1], dims, [0, 1]), 2, n, S.all_classes(2)),
            pc(prior=[[1, 1], [0.1, 0.1], [1, 3], [0.5, 0.05]], pp=[0.9, 0.999], prune=[False, True]), model=mod),
            'all multisets of 2..{} rows, {} feature(s), 2 classes; 4 priors x 2 partition priors x pruning'.format(n, dims)))
    for mod, dims in (('pr', 1), ('pr', 2), ('hr', 2)):
        n = {'pr1': 4 if q else 5, 'pr2': 3 if q else 4, 'hr2': 3 if q else 4}[mod + str(dims)]
        f.append(Family('{}-{}d'.format(mod, dims), lambda mod=mod, dims=dims, n=n: wc(
            S.multisets(S.symbols([0, 1, 2] if dims == 1 else [0, 1], dims, [0, 1, 3] if dims == 1 else [0, 2]), 1, n),
            pc(prior=[[0, 1, 1, 1], [2, 0.1, 0.05, 0.01], [-3, 10, 5, 0.5]], pp=[0.9, 0.999], prune=[False, True]), model=mod),
            'all multisets of 1..{} rows, {} feature(s); 3 priors x 2 partition priors x pruning'.format(n, dims)))
    f.append(Family('3class', lambda: wc(S.labelled_sequence([[float(i), float(i % 2)] for i in range(5 if q else 7)], [0, 1, 2], S.has_classes(3)),
                                         pc(model=['pc', 'hc'], prior=[[1, 1, 1], [0.1, 0.1, 0.1], [2, 0.5, 1]], pp=[0.9999], prune=[False, True])),
                    'all label vectors over {} positions, 3 classes, perpendicular and hyperplane'.format(5 if q else 7)))
    f.append(Family('4-class', lambda: wc(S.labelled_sequence([[float((3 * i) % 5)] for i in range(5)], [0, 1, 2, 3], S.has_classes(4)),
                                          pc(model=['pc', 'hc'], prior=[[1, 1, 1, 1], [0.1, 0.2, 0.3, 0.4], None], pp=[0.9999])),
                    'all label vectors over 5 positions, 4 classes'))
    f.append(Family('blocks', lambda: (c for K in (2, 3, 4, 5, 8) for c in wc(
                        itertools_chain(*[block_sets(K, z) for z in ([2], [5], [3, 7], [12, 1, 6])]),
                        pc(model=['pc', 'hc'], prior=[[1] * K, [0.1] * K, [0.05 + 0.3 * k for k in range(K)], None], pp=[0.999], prune=[False, True])
                        + pc(model=['pr', 'hr'], prior=[[0.5, 0.1, 0.05, 0.01], None], pp=[0.999]))),
                    '2 to 8 classes (or target values) in pure blocks of 1 to 12 rows, 3 orders, all four models'))
    f.append(Family('prior-forms', lambda: (dict(c, **{'as': a}) for a in ('list', 'tuple') for c in wc(
        S.labelled_sequence([[float(i), 0.0] for i in range(4)], [0, 1], S.has_classes(2)),
        pc(model=['pc', 'hc'], prior=[[1, 1], [2, 0.5]], pp=[0.999], prune=[False, True]) + pc(model=['pr', 'hr'], prior=[[0, 1, 1, 1], [0.5, 0.1, 0.05, 0.01]], pp=[0.999]))),
        'priors given as list and tuple, all four models'))
    f.append(Family('default-prior', lambda: wc(S.labelled_sequence([[float(i), float(i // 2)] for i in range(5)], [0, 1], S.has_classes(2)),
                                                pc(model=['pc', 'hc', 'pr', 'hr'], prior=[None], pp=[0.5, 0.999], prune=[False, True])),
                    'default prior, all label vectors over 5 positions, all four models'))
    f.append(Family('sizes', lambda: sized(q), 'boundary sizes of the default prior (99..401 rows) and of narrow integer counters (up to {} rows), all four models'.format(700 if q else 65537)))
    f.append(Family('index-width', lambda: huge(q), 'leaves of more rows than 15- and 16-bit counters hold, all four models'))
    f.append(Family('cross', lambda: build.cross(['pc', 'pr', 'hc', 'hr'], pp=[0.9, 0.9999], prune=[False, True], precision=[0.0, 1.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 4 models x 2 partition priors x pruning x 2 precisions'))
    f.append(Family('prior-ranges', lambda: build.prior_ranges(['pc', 'pr', 'hc', 'hr'], pps=(0.05, 0.999999) if q else (1e-9, 0.05, 0.6, 0.999999), prune=[False, True]), 'every combination of prior components of different orders of magnitude (classes 1e-8 to 1e5; means -500 to 1e4, other components 1e-6 to 1e4) on 3 training sets; {} partition priors'.format(2 if q else 4)))
    f.append(Family('deep', lambda: build.deep(['pc', 'pr', 'hc', 'hr'], prune=[False, True], sizes=(20, 40, 80) if q else (20, 40, 80, 160)),
                    'trees of up to {} levels in 1 and 2 features: 6 label patterns, 2 partition priors, 4 models, pruned or not'.format(79 if q else 159)))
    f.append(Family('many-features', lambda: build.wide(['pc', 'pr', 'hc', 'hr'], prune=[False, True]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; 4 models, pruned or not'))
    f.append(Family('many-rows', lambda: build.tall(['pc', 'pr', 'hc', 'hr'], prune=[False, True], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; 4 models, pruned or not'.format(3001 if q else 6000)))
    f.append(Family('target-offsets', lambda: build.offsets(['pr', 'hr'], 4 if q else 6, delta=[0], prune=[False, True]), 'regression targets with a common offset (up to 2^40) that dwarfs their spread, the prior mean on it or near it: all vectors of 3 targets over {} positions; 6 offsets x 2 spreads'.format(4 if q else 6)))
    f.append(Family('near-equal-priors', lambda: wc(
        S.labelled_sequence([[float(i), float(i % 2)] for i in range(4 if q else 6)], [0, 1], S.has_classes(2)),
        pc(model=['pc', 'hc'], prior=[[a, a + s * e] for a in (0.3, 1.0, 100.0) for s in (-1, 1) for e in (1e-5, 1e-7, 1e-9, 1e-11 * a)], pp=[1e-6, 0.3, 0.999], prune=[False, True])),
        'class priors that differ by 1e-5 to 1e-11: all label vectors over {} positions, 3 partition priors, perpendicular and hyperplane, pruned or not'.format(4 if q else 6)))
    f.append(Family('near-equal-priors-3', lambda: wc(
        S.labelled_sequence([[float(i // 2), float(i % 2)] for i in range(6)], [0, 1, 2], lambda y: sorted(y.count(v) for v in set(y)) in ([2, 2, 2], [1, 1, 4], [1, 2, 3])),
        pc(model=['pc', 'hc'], prior=[[1.0, 1.0 + e, 1.0 + 2 * e] for e in (1e-9, -1e-9)] + [[0.3 + 1e-8, 0.3, 0.3 + 1e-8], [2.0, 2.0 + 1e-9, 2.0]], pp=[1e-6, 0.9])),
        'the same with 3 classes over 6 positions'))
    f.append(Family('many-cuts', lambda: build.many_cuts(['pc', 'pr', 'hc', 'hr'], sizes=(4097, 10007)), 'features of up to 10007 different values, one or two steps'))
    f.append(Family('many-classes', lambda: build.many_classes(['pc', 'hc']), '20 to 300 classes, the first or the last one being the most frequent or not'))
    return f


def sized(q):
    for n in [99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 401, 700, 1101, 2600] + ([] if q else [32768, 65537]):
        for K in (2, 3):
            for step in (0, 2, 4) if n < 1000 else (2,):
                y = spaces.de_bruijn_like(n, K, step)
                if len(set(y)) < K:
                    continue
                X = [[float(i // max(1, n // 9)), float((i * 7) % 4)] for i in range(n)]
                for model in ('pc', 'pr', 'hc', 'hr'):
                    pri = [None, [1.0] * K, [0.05] * K] if model[1] == 'c' else [None, [0.5, 2, 1, 0.5]]
                    for prior in pri:
                        yield dict(model=model, X=X, y=y, prior=prior, pp=0.9, prune=bool(step), normals=[[1, 0], [0, 1], [1, 1]])


def huge(q):
    for n in (33000, 66000) if q else (33000, 66000, 140000):
        for model in ('pc', 'pr', 'hc', 'hr'):
            for k in (5, n // 30):
                X = [[float(i % 11 == 0) if i < k else 0.0] for i in range(n)]
                y = [int(i % 11 == 0 and i < k) for i in range(n)]
                for prior in [None, [1, 2]] if model[1] == 'c' else [None, [0.5, 2, 1, 0.5]]:
                    yield dict(model=model, X=X, y=y if model[1] == 'c' else [v + 0.25 * (i % 2) for i, v in enumerate(y)], prior=prior, pp=0.9, normals=[[1]])
