"""C01: MAP splits of perpendicular classification trees."""
from .. import build, ref, spaces
from ..core import Family

PID = 'C01'
RULE = ('every training set of the family (multisets of (row, label) symbols in a scrambled presentation order, all label vectors over fixed positions, or structured '
        'sets of boundary sizes) x every hyperparameter combination; non-trivial: the fitted tree has at least one split')
ASSUMPTIONS = ['double precision: decisions whose scores differ by less than 1e-8 (relative) are ties and may go either way']


def evaluate(case, st):
    m = build.fit(case)
    pb = build.problem(case)
    t = ref.extract(m)
    ref.conform_perp(pb, t, st, check=('map', 'lp'))
    st.traces += 1
    if t.split:
        st.nontrivial += 1
    st.outcome('depth={} leaves={}'.format(ref.depth_of(t), ref.leaves_of(t)))


def big_sets(sizes, Ks=(2, 3)):
    for n in sizes:
        for K in Ks:
            for step in range(6):
                y = spaces.de_bruijn_like(n, K, step)
                if set(y) != set(range(K)):
                    continue
                # positions: few distinct values and all distinct values
                yield [[float(i // max(1, n // 12))] for i in range(n)], y
                rows = spaces.scramble([([float((i * 7) % n), float(i // max(1, n // 5)), 1.0 * (i % 2)], y[i]) for i in range(n)], step)
                yield [r[0] for r in rows], [r[1] for r in rows]


def dominant_sets(sizes):
    """one class far ahead of the others, which sit at one end, at both ends or in the middle: counts on either side of a cut reach all sizes"""
    for n in sizes:
        for k in (3, 20):
            for where in ('start', 'end', 'middle', 'both'):
                idx = {'start': range(k), 'end': range(n - k, n), 'middle': range(n // 2, n // 2 + k), 'both': list(range(k // 2)) + list(range(n - k + k // 2, n))}[where]
                for maj in (0, 1):
                    y = [maj] * n
                    for i in idx:
                        y[i] = 1 - maj
                    rows = spaces.scramble([([float(i), float(i % 3)], y[i]) for i in range(n)], k + maj)
                    yield [r[0] for r in rows], [r[1] for r in rows]


def huge_sets(sizes):
    for n in sizes:
        k = n // 3
        X = [[float(i % 4), float((i * 5) % n >= k)] for i in range(n)]
        y = [int((i * 5) % n >= k) for i in range(n)]
        yield X, y
        y2 = [int(i % 4 >= 2) if i % 97 else 1 - int(i % 4 >= 2) for i in range(n)]
        yield X, y2
        # one cut, at either end of a scrambled order
        for k in (n // 11, n - n // 11):
            pos = [(i * 7919) % n for i in range(n)]
            yield [[float(p // 500)] for p in pos], [int(p // 500 * 500 >= k) for p in pos]


def rare_sets(sizes):
    """two-valued (and three-valued) features one value of which is rare, alone and next to an ordinary feature"""
    for n in sizes:
        for r in (1, 2, 3):
            for where in (0, n // 2, n - r):
                for noise in (0, 1):
                    y = [int(where <= i < where + r) for i in range(n)]
                    if noise:
                        y[(where + n // 3) % n] ^= 1
                    for kind in range(3):
                        if kind == 0:
                            X = [[float(where <= i < where + r)] for i in range(n)]
                        elif kind == 1:
                            X = [[float(i % 4), -3.0 * (where <= i < where + r)] for i in range(n)]
                        else:
                            X = [[2.0 if where <= i < where + r else float(i % 2), float(i % 5 > 2)] for i in range(n)]
                        yield X, y


def block_sets(K, sizes):
    """K pure blocks of the given sizes (cyclically), in one feature or two, neighbouring classes in several orders"""
    for order in ([*range(K)], [*range(K)][::-1], [(2 * k + 1) % K for k in range(K)] if K % 2 else [k ^ 1 if (k ^ 1) < K else k for k in range(K)]):
        for off in range(len(sizes)):
            y, X = [], []
            for b, k in enumerate(order):
                for j in range(sizes[(b + off) % len(sizes)]):
                    X.append([float(b), float(j % 3)])
                    y.append(k)
            rows = spaces.scramble(list(zip(X, y)), off)
            yield [list(r[0]) for r in rows], [r[1] for r in rows]


MAGNITUDES = [-1e12, -3.0, -1e-9, 0.0, 1e-9, 0.5, 3.0, 1e12]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    f = []
    f.append(Family('1d-2class', lambda: wc(S.multisets(S.symbols([0, 1, 2], 1, [0, 1]), 2, 5 if q else 7, S.all_classes(2)),
                                            pc(prior=S.C2_PRIORS, pp=S.PPS), model='pc'),
                    'all multisets of 2..{} rows over x in {{0,1,2}}, 2 classes; 5 priors x 7 partition priors'.format(5 if q else 7)))
    f.append(Family('2d-2class', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 1]), 2, 4 if q else 6, S.all_classes(2)),
                                            pc(prior=S.C2_PRIORS, pp=S.PPS), model='pc'),
                    'all multisets of 2..{} rows over {{0,1}}^2, 2 classes; 5 priors x 7 partition priors'.format(4 if q else 6)))
    f.append(Family('2d-grid3', lambda: wc(S.multisets(S.symbols([-1, 0, 2], 2, [0, 1]), 4, 4 if q else 5, S.all_classes(2)),
                                           pc(prior=[[0.1, 0.1], [1, 3]], pp=[0.9, 0.999]), model='pc'),
                    'all multisets of 4{} rows over {{-1,0,2}}^2, 2 classes; 2 priors x 2 partition priors'.format('' if q else '..5')))
    f.append(Family('3d', lambda: wc(S.multisets(S.symbols([0, 1], 3, [0, 1]), 4, 4 if q else 5, S.all_classes(2)),
                                     pc(prior=[[0.1, 0.1], [1, 1]], pp=[0.99]), model='pc'),
                    'all multisets of 4{} rows over {{0,1}}^3, 2 classes'.format('' if q else '..5')))
    f.append(Family('sequence-2class', lambda: wc(S.labelled_sequence([[i * 0.75 - 2] for i in range(9 if q else 12)], [0, 1], S.has_classes(2)),
                                                  pc(prior=[[1, 1], [0.1, 0.1], [0.5, 0.05], [3, 4]], pp=[0.3, 0.9, 0.99, 0.999999]), model='pc'),
                    'all label vectors over {} distinct positions, 2 classes (deep trees); 4 priors x 4 partition priors'.format(9 if q else 12)))
    f.append(Family('sequence-3class', lambda: wc(S.labelled_sequence([[float(i)] for i in range(6 if q else 8)], [0, 1, 2], S.has_classes(3)),
                                                  pc(prior=S.C3_PRIORS, pp=[0.5, 0.99, 0.999999]), model='pc'),
                    'all label vectors over {} positions, 3 classes; 4 priors x 3 partition priors'.format(6 if q else 8)))
    f.append(Family('sequence-4class', lambda: wc(S.labelled_sequence([[float(-i), float(i % 3)] for i in range(5 if q else 7)], [0, 1, 2, 3], S.has_classes(4)),
                                                  pc(prior=S.C4_PRIORS, pp=[0.9, 0.9999]), model='pc'),
                    'all label vectors over {} positions in 2d, 4 classes'.format(5 if q else 7)))
    f.append(Family('sequence-5class', lambda: wc(S.labelled_sequence([[float(i), float((i * 2) % 3)] for i in range(5 if q else 6)], range(5), S.has_classes(5)),
                                                  pc(prior=[[1] * 5, [0.1] * 5, [0.5, 0.1, 0.2, 2, 0.3], None], pp=[0.9, 0.9999]), model='pc'),
                    'all label vectors over {} positions in 2d, 5 classes; 3 priors and the default x 2 partition priors'.format(5 if q else 6)))
    f.append(Family('blocks', lambda: (c for K in (3, 4, 5, 6, 8, 12) for c in wc(
                        itertools_chain(*[block_sets(K, z) for z in ([1], [2], [5], [3, 7], [12, 1, 6])]),
                        pc(prior=[[1] * K, [0.1] * K, [0.05 + 0.3 * k for k in range(K)], None], pp=[0.9, 0.999]), model='pc')),
                    '3 to 12 classes in pure blocks of 1 to 12 rows, 3 orders; 3 priors and the default x 2 partition priors'))
    f.append(Family('rare', lambda: wc(rare_sets([40, 65, 130, 260] if q else [40, 64, 65, 100, 129, 130, 260, 520, 1040]),
                                       pc(prior=[[1, 1], [0.1, 0.1], None], pp=[0.5, 0.95]), model='pc'),
                    'features with a rare value (1 to 3 rows of up to {})'.format(260 if q else 1040)))
    f.append(Family('default-prior', lambda: wc(itertools_chain(S.multisets(S.symbols([0, 1, 3], 1, [0, 1]), 3, 5, S.all_classes(2)),
                                                                S.multisets(S.symbols([0, 1], 2, [0, 1, 2]), 4, 4, S.all_classes(3))),
                                                pc(prior=[None], pp=[0.5, 0.99]), model='pc'),
                    'default prior, 2 and 3 classes, 1 and 2 features'))
    f.append(Family('one-class', lambda: wc(S.multisets(S.symbols([0, 1, 2], 1, [0]), 1, 4), pc(prior=[[1], [0.3]], pp=[0.1, 0.9]), model='pc'),
                    'a single class'))
    f.append(Family('magnitudes', lambda: wc(S.multisets(S.symbols(MAGNITUDES, 1, [0, 1]), 2, 3 if q else 4, S.all_classes(2)),
                                             pc(prior=[[0.1, 0.1]], pp=[0.9, 0.999]), model='pc'),
                    'all multisets of 2..{} rows over feature values from -1e12 to 1e12'.format(3 if q else 4)))
    f.append(Family('wide', lambda: wc(wide_sets(7 if q else 12), pc(prior=[[0.1, 0.1], [2, 1]], pp=[0.9, 0.9999]), model='pc'),
                    'up to {} features, every choice of the informative feature(s)'.format(7 if q else 12)))
    f.append(Family('sizes', lambda: sized(q), 'boundary sizes 16..{} with structured labels (also one dominant class), 2 and 3 classes, 1 to 3 features, explicit and default prior'.format(1025 if q else 4097)))
    f.append(Family('index-width', lambda: wc(huge_sets([33000, 65535, 65536, 65537] if q else [32767, 32769, 40000, 65535, 65536, 65537, 70000, 131072]), pc(prior=[[1, 1]], pp=[0.9]), model='pc'),
                    'sizes around the 15- and 16-bit limits, cuts at both ends and in the middle'))
    f.append(Family('cross', lambda: build.cross(['pc'], pp=[0.6, 0.95, 0.9999], delta=[0, 0.3], precision=[0.0, 1.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 3 partition priors x 2 deltas x 2 precisions'))
    f.append(Family('prior-ranges', lambda: build.prior_ranges(['pc'], delta=[0, 0.5]), 'every combination of prior components of different orders of magnitude (classes 1e-8 to 1e5; means -500 to 1e4, other components 1e-6 to 1e4) on 3 training sets; 4 partition priors'))
    f.append(Family('deep', lambda: build.deep(['pc'], delta=[0, 0.5], sizes=(20, 40, 80) if q else (20, 40, 80, 160)),
                    'trees of up to {} levels in 1 and 2 features: 6 label patterns, 2 partition priors, 2 deltas'.format(79 if q else 159)))
    f.append(Family('many-features', lambda: build.wide(['pc'], delta=[0, 0.5]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; classification, 2 deltas'))
    f.append(Family('many-rows', lambda: build.tall(['pc'], delta=[0, 0.5], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; classification, 2 deltas'.format(3001 if q else 6000)))
    f.append(Family('small-partition-prior', lambda: build.stubborn(['pc'], q, delta=[0, 0.5]), 'small partition priors (1e-4 to 0.2) and large pure blocks (3 to {} blocks of 25 or 50 rows): {}'.format(8 if q else 10, 'classification, 2 deltas')))
    f.append(Family('thresholds', lambda: build.thresholds(['pc'], q, delta=[0, 0.5]), 'partition priors within 1e-2, 1e-4 and 1e-6 of the point where the best cut of the root or of a child starts to pay: classification, 2 deltas'))
    f.append(Family('many-cuts', lambda: build.many_cuts(['pc']), 'features of up to 66001 different values, one or two steps'))
    f.append(Family('many-classes', lambda: build.many_classes(['pc']), '20 to 300 classes, the first or the last one being the most frequent or not'))
    f.append(Family('near-ties', lambda: build.near_ties(['pc']), 'two cuts, of one feature or of two, whose scores differ by a relative 1e-3 to 1e-10'))
    return f


def sized(q):
    sizes = [16, 33, 100, 101, 200, 255, 256, 257, 400] if q else [16, 33, 64, 99, 100, 101, 127, 128, 199, 200, 201, 255, 256, 257, 300, 512, 1000]
    many = [130, 150, 258, 300, 513, 1025] if q else [129, 130, 150, 257, 258, 280, 300, 511, 512, 513, 1023, 1025, 4097]
    for X, y in dominant_sets(many):
        for prior in ([1.0, 1.0], [0.1, 0.1], None):
            yield dict(model='pc', X=X, y=y, prior=prior, pp=0.95)
    for X, y in big_sets(sizes):
        K = len(set(y))
        for prior in ([[1.0] * K, None, [0.2 + 0.1 * k for k in range(K)]] if len(y) <= 101 else [[1.0] * K, None]):
            for pp in ([0.9, 0.999] if len(y) <= 101 else [0.95]):
                yield dict(model='pc', X=X, y=y, prior=prior, pp=pp)


def itertools_chain(*its):
    for it in its:
        yield from it


def wide_sets(nmax):
    """n_dim features of which one or two are informative, the others constant or noise"""
    for nd in range(1, nmax + 1):
        for d in range(nd):
            for d2 in sorted({d, (d + 1) % nd, nd - 1}):
                X, y = [], []
                for i in range(8):
                    row = [float((i * (j + 3)) % 2) if j % 2 else 7.0 for j in range(nd)]
                    row[d] = float(i // 4)
                    if d2 != d:
                        row[d2] = float((i // 2) % 2) - 5
                    X.append(row)
                    y.append((i // 4) ^ ((i // 2) % 2 if d2 != d and i >= 4 else 0))
                yield X, y
