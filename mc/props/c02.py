"""C02: MAP splits of perpendicular regression trees."""
from .. import build, ref, spaces
from ..core import Family
from .c01 import big_sets, huge_sets, itertools_chain, rare_sets, wide_sets

PID = 'C02'
RULE = ('every training set of the family (multisets of (row, target) symbols in a scrambled presentation order, all target vectors over fixed positions, or structured '
        'sets of boundary sizes) x every hyperparameter combination; non-trivial: the fitted tree has at least one split')
ASSUMPTIONS = ['double precision: decisions whose scores differ by less than 1e-8 (relative) are ties and may go either way']


def evaluate(case, st):
    m = build.fit(case)
    pb = build.problem(case)
    t = ref.extract(m)
    ref.conform_perp(pb, t, st, check=('map', 'lp'))
    st.traces += 1
    if t.split:
        st.nontrivial += 1
    st.outcome('depth={} leaves={}'.format(ref.depth_of(t), ref.leaves_of(t)))


R3 = [[0, 1, 1, 1], [0, 0.01, 0.005, 0.005], [2, 10, 5, 20]]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    f = []
    f.append(Family('1d', lambda: wc(S.multisets(S.symbols([0, 1, 2], 1, [0, 1, 3]), 1, 4 if q else 6),
                                     pc(prior=S.R_PRIORS, pp=[0.01, 0.5, 0.9, 0.9999]), model='pr'),
                    'all multisets of 1..{} rows over x in {{0,1,2}}, y in {{0,1,3}}; 5 priors x 4 partition priors'.format(4 if q else 6)))
    f.append(Family('1d-negative', lambda: wc(S.multisets(S.symbols([-2, 0, 0.5], 1, [-1.5, 0.25, 4]), 2, 4 if q else 6),
                                              pc(prior=R3 + [[-3, 0.5, 2, 0.1]], pp=[0.5, 0.99]), model='pr'),
                    'all multisets of 2..{} rows over x in {{-2,0,.5}}, y in {{-1.5,.25,4}}; 4 priors x 2 partition priors'.format(4 if q else 6)))
    f.append(Family('2d', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 2]), 2, 4 if q else 6),
                                     pc(prior=S.R_PRIORS, pp=[0.2, 0.9, 0.999]), model='pr'),
                    'all multisets of 2..{} rows over {{0,1}}^2, y in {{0,2}}; 5 priors x 3 partition priors'.format(4 if q else 6)))
    f.append(Family('2d-3targets', lambda: wc(S.multisets(S.symbols([0, 1], 2, [0, 1, 5]), 3, 4 if q else 5),
                                              pc(prior=[[0, 0.1, 0.05, 0.05], [2, 10, 5, 20]], pp=[0.9]), model='pr'),
                    'all multisets of 3..{} rows over {{0,1}}^2, y in {{0,1,5}}; 2 priors'.format(4 if q else 5)))
    f.append(Family('3d', lambda: wc(S.multisets(S.symbols([0, 1], 3, [-1, 1]), 4, 4 if q else 5),
                                     pc(prior=[[0, 0.1, 0.05, 0.05]], pp=[0.99]), model='pr'),
                    'all multisets of 4{} rows over {{0,1}}^3, y in {{-1,1}}'.format('' if q else '..5')))
    f.append(Family('sequence-2', lambda: wc(S.labelled_sequence([[i * 0.75 - 2] for i in range(8 if q else 11)], [0, 1]),
                                             pc(prior=[[0, 1, 1, 1], [0.5, 0.01, 0.005, 0.00005], [0.5, 0.1, 0.05, 0.01]], pp=[0.3, 0.9, 0.99, 0.999999]), model='pr'),
                    'all target vectors over {} distinct positions, 2 targets (deep trees); 3 priors x 4 partition priors'.format(8 if q else 11)))
    f.append(Family('sequence-3', lambda: wc(S.labelled_sequence([[float(i)] for i in range(6 if q else 8)], [-2, 0.5, 1]),
                                             pc(prior=[[0, 0.1, 0.05, 0.01], [1, 0.5, 2, 0.1]], pp=[0.5, 0.99, 0.999999]), model='pr'),
                    'all target vectors over {} positions, 3 targets; 2 priors x 3 partition priors'.format(6 if q else 8)))
    f.append(Family('sequence-2d', lambda: wc(S.labelled_sequence([[float(-i), float(i % 3)] for i in range(5 if q else 7)], [0, 1, 2, 4]),
                                              pc(prior=[[1, 0.1, 0.05, 0.01], [0, 2, 1, 3]], pp=[0.9, 0.9999]), model='pr'),
                    'all vectors of 4 targets over {} positions in 2d'.format(5 if q else 7)))
    f.append(Family('default-prior', lambda: wc(itertools_chain(S.multisets(S.symbols([0, 1, 3], 1, [0, 1, 4]), 1, 4 if q else 5),
                                                                S.multisets(S.symbols([0, 1], 2, [-1, 0, 3]), 3, 3 if q else 4)),
                                                pc(prior=[None], pp=[0.5, 0.99]), model='pr'),
                    'default prior, 1 and 2 features'))
    f.append(Family('target-scale', lambda: with_prior(scaled(S.labelled_sequence([[float(i)] for i in range(5)], [0, 1, 3])),
                                               pc(pp=[0.5, 0.99]), model='pr'),
                    'all vectors of 3 targets over 5 positions, targets and prior scaled by 1e-6, 1e-2, 1e3, 1e6 and shifted'))
    f.append(Family('target-differences', lambda: (c for t in ([0, 1e-3, 1], [0, 1e-9, 3e-9], [1e-12, 2e-12, -1e-11], [0, 1e4, 3e8]) for c in wc(
        S.labelled_sequence([[float(i)] for i in range(5 if q else 6)], t),
        pc(prior=[[0, 0.001, 0.001, 1e-4 * (t[1] - t[0]) ** 2], [t[2], 0.1, 0.05, 1e-3 * (t[1] - t[0]) ** 2]], pp=[0.9, 0.9999], delta=[0, 0.5]), model='pr')),
        'targets of different orders of magnitude (1e-12 to 3e8): all vectors of 4 sets of 3 targets over {} positions'.format(5 if q else 6)))
    f.append(Family('target-offsets', lambda: build.offsets(['pr'], 5 if q else 7), 'targets with a common offset (up to 2^40) that dwarfs their spread, the prior mean on it or near it: all vectors of 3 targets over {} positions; 6 offsets x 2 spreads x 2 partition priors x 2 deltas'.format(5 if q else 7)))
    f.append(Family('magnitudes', lambda: wc(S.multisets(S.symbols([-1e12, -1e-9, 0.0, 1e-9, 3.0, 1e12], 1, [0, 1]), 2, 3 if q else 4),
                                             pc(prior=[[0, 0.1, 0.05, 0.01]], pp=[0.9, 0.999]), model='pr'),
                    'all multisets of 2..{} rows over feature values from -1e12 to 1e12'.format(3 if q else 4)))
    f.append(Family('wide', lambda: wc(((X, [float(v) for v in y]) for X, y in wide_sets(7 if q else 12)), pc(prior=[[0, 0.1, 0.05, 0.01], None], pp=[0.9, 0.9999]), model='pr'),
                    'up to {} features, every choice of the informative feature(s)'.format(7 if q else 12)))
    f.append(Family('sizes', lambda: sized(q), 'boundary sizes 16..{} with structured targets, 1 and 3 features, explicit and default prior'.format(257 if q else 1000)))
    f.append(Family('rare', lambda: wc(((X, [v * 2.5 + 0.125 * (i % 3) for i, v in enumerate(y)]) for X, y in rare_sets([40, 65, 130, 260] if q else [40, 64, 65, 100, 130, 260, 520])),
                                       pc(prior=[[0, 0.5, 0.25, 0.05], None], pp=[0.5, 0.95]), model='pr'),
                    'features with a rare value (1 to 3 rows of up to {})'.format(260 if q else 520)))
    f.append(Family('index-width', lambda: index_width(q), 'sizes around the 15- and 16-bit limits, cuts at both ends and in the middle'))
    f.append(Family('cross', lambda: build.cross(['pr'], pp=[0.6, 0.95, 0.9999], delta=[0, 0.3], precision=[0.0, 1.0]),
                    '8 training sets of 1 to 12 features x 10 representations x 3 priors x 3 partition priors x 2 deltas x 2 precisions'))
    f.append(Family('prior-ranges', lambda: build.prior_ranges(['pr'], delta=[0, 0.5]), 'every combination of prior components of different orders of magnitude (classes 1e-8 to 1e5; means -500 to 1e4, other components 1e-6 to 1e4) on 3 training sets; 4 partition priors'))
    f.append(Family('deep', lambda: build.deep(['pr'], delta=[0, 0.5], sizes=(20, 40, 80) if q else (20, 40, 80, 160)),
                    'trees of up to {} levels in 1 and 2 features: 6 label patterns, 2 partition priors, 2 deltas'.format(79 if q else 159)))
    f.append(Family('many-features', lambda: build.wide(['pr'], delta=[0, 0.5]), 'up to 300 features (22 counts), two of which matter, in 4 places, with and without noise; regression, 2 deltas'))
    f.append(Family('many-rows', lambda: build.tall(['pr'], delta=[0, 0.5], sizes=(300, 700, 1500, 3001) if q else (300, 700, 1500, 3001, 6000)), 'up to {} rows in 2 and 3 features: nested boxes; regression, 2 deltas'.format(3001 if q else 6000)))
    f.append(Family('small-partition-prior', lambda: build.stubborn(['pr'], q, delta=[0, 0.5]), 'small partition priors (1e-4 to 0.2) and large pure blocks (3 to {} blocks of 25 or 50 rows): {}'.format(8 if q else 10, 'regression, 2 deltas')))
    f.append(Family('thresholds', lambda: build.thresholds(['pr'], q, delta=[0, 0.5]), 'partition priors within 1e-2, 1e-4 and 1e-6 of the point where the best cut of the root or of a child starts to pay: regression, 2 deltas'))
    f.append(Family('many-cuts', lambda: build.many_cuts(['pr']), 'features of up to 66001 different values, one or two steps'))
    f.append(Family('near-ties', lambda: build.near_ties(['pr']), 'two cuts, of one feature or of two, whose scores differ by a relative 1e-3 to 1e-10'))
    return f


def scaled(datasets):
    for X, y in datasets:
        for a, b in ((1e-6, 0), (1e-2, 1), (1e3, -500), (-1e6, 2e6)):
            # the prior moves along with the targets, so that all depths occur; kappa etc. differ by case
            yield X, [a * v + b for v in y], [b, 0.1, 0.05, 0.02 * a * a]



def with_prior(triples, cfgs, **common):
    for X, y, prior in triples:
        for c in cfgs:
            d = dict(common)
            d.update(X=X, y=y, prior=prior, **c)
            yield d


def sized(q):
    sizes = [16, 33, 100, 101, 200, 255, 256, 257] if q else [16, 33, 64, 99, 100, 101, 127, 128, 199, 200, 201, 255, 256, 257, 300, 512, 1000]
    for X, y in big_sets(sizes):
        yy = [float(v) + 0.25 * ((i * 3) % 4 - 1.5) for i, v in enumerate(y)]
        for prior in ([0, 0.5, 0.25, 0.05], None, [1, 5, 2.5, 4]):
            for pp in ([0.9, 0.999] if len(y) <= 101 else [0.95]):
                yield dict(model='pr', X=X, y=yy, prior=prior, pp=pp)


def index_width(q):
    for X, y in huge_sets([33000, 65535, 65536, 65537] if q else [32767, 32769, 40000, 65535, 65536, 65537, 70000, 131072]):
        yield dict(model='pr', X=X, y=[2.0 * v + 0.25 * (i % 2) for i, v in enumerate(y)], prior=[0, 1, 0.5, 0.5], pp=0.9)
