"""C04: routing of query and training rows; independence of the rows of a batch."""
import itertools

import numpy as np
from scipy.sparse import csc_matrix, csr_matrix

from .. import build, ref, spaces
from ..core import Family, Violation

PID = 'C04'
RULE = ('(a) for every tree of the family, every batch (sequence with repetition, length 0..L) over its probe rows, dense and sparse: each row has to get the answer of the '
        'leaf that the published rule routes it to; (b) every label vector over every short chain of adjacent/extreme floating-point values: each training row has to be '
        'answered by the leaf whose posterior contains it; non-trivial: at least one split')
ASSUMPTIONS = ['finite rows; for hyperplanes, rows closer to a hyperplane than the rounding error of the projection are excluded']


def expected_row(pb, t, part, x):
    leaf = ref.route(t, x)
    if id(leaf) not in part:
        raise Violation('no training row was routed to the leaf that answers {}'.format(list(x)))
    post = pb.posterior(part[id(leaf)], pb.prior)
    if leaf.n != len(part[id(leaf)]) or not build.same(leaf.post, list(post), 1e-8):
        raise Violation('the leaf of {} has posterior {} (n={}) but the rule sends {} training rows with posterior {} there'.format(
            list(x), leaf.post, leaf.n, len(part[id(leaf)]), list(post)))
    path = tuple(ref.route_path(t, x)) if t.normal is None else None
    return leaf, post, path


def check_row(pb, what, got, exp):
    leaf, post, path = exp
    ref.check_answers(pb, post, what, got[0], got[1])
    if got[2] is not None and not build.same(got[2][len(post):], tuple(post), 1e-8):
        raise Violation('{}: raw posterior {} instead of {}'.format(what, got[2][len(post):], post))
    if got[3] is not None and path is not None and not build.same(got[3], tuple((int(a), b, float(c), bool(d)) for a, b, c, d in path), 1e-12):
        raise Violation('{}: path {} instead of {}'.format(what, got[3], path))


def evaluate(case, st):
    m = build.fit(case)
    pb = build.problem(case)
    t = ref.extract(m)
    part = build.training_partition(pb, t)
    st.nontrivial += t.split
    st.outcome('{} leaves={}'.format(case['model'], ref.leaves_of(t)))
    st.states += ref.leaves_of(t)
    # every training row, alone in the order of the training set
    rows = [list(x) for x in pb.X]
    for i, got in enumerate(build.answer_rows(m, np.array(rows, dtype=float))):
        check_row(pb, 'training row {}'.format(rows[i]), got, expected_row(pb, t, part, rows[i]))
    st.traces += 1
    if case.get('big'):
        n = case['big']
        rows = build.queries(pb, t, 40)
        exp = [expected_row(pb, t, part, r) for r in rows]
        mixed = [(i * i + i // 3) % len(rows) for i in range(n)]
        orders = [('mixed order', mixed)]
        for f in range(min(pb.nd, 3)):  # the same rows sorted by each of the first features, both ways
            up = sorted(mixed, key=lambda k: (rows[k][f], k))
            orders += [('ascending in feature {}'.format(f), up), ('descending in feature {}'.format(f), up[::-1])]
        orders.append(('blocks', sorted(mixed)))
        ok = {}
        for j, (name, idx) in enumerate(orders):
            A = np.array([rows[i] for i in idx], dtype=float)
            for Q in (A, csr_matrix(A)) if j == 0 else ((A,) if j % 2 else (csr_matrix(A),)) if n > 5000 else (A, csr_matrix(A), csc_matrix(A)):
                for i, (k, got) in enumerate(zip(idx, build.answer_rows(m, Q))):
                    if ok.get(k) != got:  # this very answer has been checked before
                        check_row(pb, 'row {} of a batch of {} ({})'.format(i, n, name), got, exp[k])
                        ok[k] = got
                st.traces += 1
        return
    if case.get('mult'):
        rows = build.queries(pb, t, 60)
        exp = {tuple(r): expected_row(pb, t, part, r) for r in rows}
        for k, (mult, B) in enumerate(build.compositions(t, rows, limit=case['mult'])):
            A = np.array(B, dtype=float)
            for r, got in zip(B, build.answer_rows(m, (A, csr_matrix(A), csc_matrix(A))[k % 3])):
                check_row(pb, 'row {} in a batch of {} rows of the leaves'.format(r, mult), got, exp[tuple(r)])
                st.transitions += 1
            st.traces += 1
        return
    L = case.get('L', 0)
    if not L:
        # probes one by one and all together
        rows = build.queries(pb, t, 80)
        if case.get('huge'):
            rows = [r for r in rows if np.all(np.isfinite(r))]
        exp = [expected_row(pb, t, part, r) for r in rows]
        A = np.array(rows, dtype=float).reshape(-1, pb.nd)
        for name, Q in (('dense', A), ('csr', csr_matrix(A)), ('csc', csc_matrix(A))):
            if name != 'dense' and case.get('dense_only'):
                break
            for r, got, e in zip(rows, build.answer_rows(m, Q), exp):
                check_row(pb, 'row {} ({})'.format(r, name), got, e)
                st.transitions += 1
            st.traces += 1
        # some of them alone
        k = len(rows)
        for i in sorted({0, k - 1, k // 2, k // 3, 3 * k // 4}) if k else []:
            for name, f in (('dense', np.array), ('csr', csr_matrix), ('csc', csc_matrix)):
                check_row(pb, 'row {} alone ({})'.format(rows[i], name), build.answer_rows(m, f(A[i:i + 1]))[0], exp[i])
            st.transitions += 3
            st.traces += 3
        return
    # probes: one per leaf, a split value itself, its lower neighbour
    byleaf = {}
    for r in build.queries(pb, t, 80):
        byleaf.setdefault(id(ref.route(t, r)), []).append(r)
    probes = []
    for rs in itertools.zip_longest(*byleaf.values()):
        probes += [r for r in rs if r is not None]
    probes = probes[:case['n_probes']]
    exp = [expected_row(pb, t, part, r) for r in probes]
    for n in range(L + 1):
        for seq in itertools.product(range(len(probes)), repeat=n):
            A = np.array([probes[i] for i in seq], dtype=float).reshape(n, pb.nd)
            for form in ('dense', 'csr', 'csc'):
                if form != 'dense' and n == L and n > 2 and (sum(seq) + (form == 'csc')) % 2:
                    continue  # the longest batches alternate between the two sparse formats
                Q = A if form == 'dense' else csr_matrix(A) if form == 'csr' else csc_matrix(A)
                got = build.answer_rows(m, Q)
                if len(got) != n:
                    raise Violation('batch of {} rows got {} answers'.format(n, len(got)))
                for i, g in zip(seq, got):
                    check_row(pb, 'row {} in {} batch {}'.format(probes[i], form, list(seq)), g, exp[i])
                st.transitions += n
                st.traces += 1


EPS = float(np.finfo(float).eps)
TINY = 5e-324
CHAINS = {
    'adjacent-1': [1.0, 1.0 + EPS, 1.0 + 2 * EPS, 1.0 + 3 * EPS],
    'adjacent-below-1': [1.0 - EPS, 1.0 - EPS / 2, 1.0, 1.0 + EPS],
    'denormal': [-TINY, 0.0, TINY, 2 * TINY],
    'signed-zero': [-1.0, -0.0, 0.0, 1.0],
    'adjacent-big': [1e16, 1e16 + 2, 1e16 + 4, 1e16 + 6],
    'adjacent-negative': [-3.0 - 4 * EPS, -3.0 - 2 * EPS, -3.0, -3.0 + 2 * EPS],
    'powers': [1e-300, 1e-10, 1.0, 1e10],
    'extreme': [-1.7e308, -1.0, 1.0, 1.7e308],
    'extreme2': [1.0e308, 1.2e308, 1.5e308, 1.7976931348623157e308],
    'extreme3': [-1.7976931348623157e308, -1.5e308, 0.0, 1.7976931348623157e308],
    'mixed': [-1e300, -TINY, TINY, 1e300],
    'tenths': [0.1, 0.1 + 2.0 ** -56, 0.1 + 2.0 ** -55, 0.30000000000000004],
}


def chain_sets(n, targets):
    """each value once or twice (n rows), all label vectors"""
    for name, vals in CHAINS.items():
        for c in itertools.combinations_with_replacement(range(4), n):
            for i, y in enumerate(itertools.product(targets, repeat=n)):
                if len(set(y)) < 2 or set(y) != set(targets) and targets == [0, 1]:
                    continue
                rows = spaces.scramble([(vals[k], t) for k, t in zip(c, y)], i)
                yield [[r[0]] for r in rows], [r[1] for r in rows]


def batch_sets():
    yield [[0, 0], [1, 0], [2, 1], [3, 1]], [0, 1, 0, 1]
    yield [[0, 0], [1, 3], [2, 2], [3, 1], [4, 0]], [0, 0, 1, 0, 1]
    yield [[5, 0], [5, 1], [-2, 0], [-2, 1]], [0, 1, 1, 1]
    yield [[0, 1], [1, 0], [1, 1], [0, 0], [2, 0], [2, 2]], [1, 1, 0, 0, 1, 0]
    yield [[0, 2], [0, 0], [0, 1]], [1, 0, 0]
    yield [[1, 1], [1, 1], [1, 1]], [1, 0, 0]
    yield [[-5, -1], [-4, -3], [-3, -1], [-2, -2], [-6, -7]], [0, 1, 0, 1, 1]
    yield [[-5], [-3], [-2], [0], [4]], [0, 1, 0, 1, 0]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    f = []
    cls = pc(model=['pc', 'hc'], prior=[[0.1, 0.1]], pp=[0.9999], prune=[False, True])
    reg = pc(model=['pr', 'hr'], prior=[[0.5, 0.1, 0.05, 0.01]], pp=[0.9999], prune=[False])
    f.append(Family('compositions', lambda: (dict(c, mult=5 if q else 7) for c in build.composition_trees(['pc', 'pr', 'hc', 'hr'], 6 if q else 8)),
                    'trees of all shapes over {} positions: batches with every combination of 0, 1 or 3 rows per leaf, dense and sparse'.format(6 if q else 8)))
    f.append(Family('batches', lambda: wc(batch_sets(), cls + reg, L=3 if q else 4, n_probes=5),
                    'all batches of 0..{} rows over 5 probes per tree, dense and sparse, 6 trees x 4 models'.format(3 if q else 4)))
    f.append(Family('long-batches', lambda: wc(batch_sets(), cls[:1] + reg[:1], L=5 if q else 8, n_probes=2),
                    'all batches of 0..{} rows over 2 probes'.format(5 if q else 8)))
    f.append(Family('large-batches', lambda: (
        dict(c, big=n) for n in ([255, 256, 257, 1000, 1001, 2050, 4099, 5001, 10007] if q else [127, 128, 129, 255, 256, 257, 512, 513, 1000, 1001, 1024, 1025, 2050, 4099, 5001, 8193, 10007, 16387, 32769, 65537, 131073]) for c in wc(itertools.islice(batch_sets(), 2), cls[:3:2] + reg)),
        'batches of up to {} rows, all four models'.format(10007 if q else 131073)))
    f.append(Family('index-width', lambda: (dict(c, big=n) for n in ([32769, 65600] if q else [32769, 65600, 140000]) for c in wc(itertools.islice(batch_sets(), 2, 3), cls[:3:2] + reg)),
                    'batches of up to {} rows, all four models'.format(65600 if q else 140000)))
    f.append(Family('grid-1d', lambda: wc(spaces.multisets(spaces.symbols([0, 1, 3], 1, [0, 1]), 2, 5 if q else 6, spaces.all_classes(2)),
                                          pc(model=['pc'], prior=[[0.1, 0.1]], pp=[0.9999], prune=[False, True]) + pc(model=['pr'], prior=[[0.5, 0.1, 0.05, 0.01]], pp=[0.9999])),
                    'all multisets of 2..{} rows, 1 feature: training rows, split values and their neighbours'.format(5 if q else 6)))
    f.append(Family('negative-1d', lambda: wc(spaces.multisets(spaces.symbols([-7, -2, -1, 0], 1, [0, 1]), 2, 4 if q else 5, spaces.all_classes(2)),
                                              pc(model=['pc', 'hc'], prior=[[0.1, 0.1]], pp=[0.9999]) + pc(model=['pr'], prior=[[0.5, 0.1, 0.05, 0.01]], pp=[0.9999])),
                    'all multisets of 2..{} rows over negative values and 0, 1 feature'.format(4 if q else 5)))
    f.append(Family('grid-2d', lambda: wc(spaces.multisets(spaces.symbols([0, 1], 2, [0, 1]), 3, 4 if q else 5, spaces.all_classes(2)), cls + reg),
                    'all multisets of 3..{} rows, 2 features, all four models'.format(4 if q else 5)))
    for n in (2, 3) if q else (2, 3, 4, 5):
        f.append(Family('chains-c{}'.format(n), lambda n=n: wc(chain_sets(n, [0, 1]), pc(model=['pc'], prior=[[0.1, 0.1]], pp=[0.999999]), huge=True),
                        'all label vectors over all multisets of {} values of 12 chains of adjacent/extreme doubles, classification'.format(n)))
    for n in (3,) if q else (3, 4):
        f.append(Family('chains-r{}'.format(n), lambda n=n: wc(chain_sets(n, [0.0, 1.0, 4.0]), pc(model=['pr'], prior=[[1, 0.1, 0.05, 0.01]], pp=[0.999999]), huge=True),
                        'the same with {} rows and 3 targets, regression'.format(n)))
    f.append(Family('cross', lambda: build.cross(['pc', 'pr', 'hc', 'hr'], pp=[0.9, 0.9999], prune=[False, True], precision=[0.0, 1.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 4 models x 2 partition priors x pruning x 2 precisions'))
    f.append(Family('deep', lambda: build.deep(['pc', 'pr', 'hc', 'hr'], prune=[False, True], sizes=(20, 40, 80) if q else (20, 40, 80, 160)),
                    'trees of up to {} levels in 1 and 2 features: 6 label patterns, 2 partition priors, 4 models, pruned or not'.format(79 if q else 159)))
    f.append(Family('many-features', lambda: build.wide(['pc', 'pr', 'hc', 'hr'], prune=[False]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; 4 models'))
    f.append(Family('many-rows', lambda: build.tall(['pc', 'pr', 'hc', 'hr'], prune=[False], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; 4 models'.format(3001 if q else 6000)))
    f.append(Family('scales', lambda: build.scales(['pc', 'pr', 'hc', 'hr'], n=5 if q else 6, prune=[False]), 'feature values multiplied by 2^-300 to 2^300 (both features or the second only): all label vectors over {} positions, 4 models'.format(5 if q else 6)))
    return f
