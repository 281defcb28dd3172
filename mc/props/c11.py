"""C11: a hyperplane node keeps the best split among all proposals, whatever the optimizer proposes."""
import itertools
import math

import numpy as np
from scipy.sparse import csc_matrix, csr_matrix

from .. import build, ref, spaces
from ..core import Family, Violation
from .c01 import itertools_chain
from bayesian_decision_tree.hyperplane_optimization import HyperplaneOptimizer
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface

PID = 'C11'
RULE = ('every training set of the family x every sequence of proposals up to the length bound over the direction alphabet (including repeated, scaled, reversed, zero and '
        'NaN proposals): every answer and the final hyperplane of the root are compared with the reference; non-trivial: at least two different orientations were proposed')
ASSUMPTIONS = ['scores closer than 1e-8 are ties; the distance rule is required where equal scores are exactly equal by construction (same oriented partition, same number of cuts)',
               'proposals whose length neither overflows nor underflows']

NAN = 'nan'


class Script(HyperplaneOptimizer):
    def __init__(self, proposals, hypercube=False, reuse=False):
        super().__init__(search_space_is_unit_hypercube=hypercube)
        self.proposals = proposals
        self.reuse = reuse  # all proposals are handed over in the same array, which is overwritten in between
        self.log = []
        self.mutated = False

    def solve(self, optimization_function):
        answers = []
        buffer = None
        for n in self.proposals:
            a = np.array(n, dtype=float)
            if self.reuse:
                if buffer is None:
                    buffer = np.empty_like(a)
                buffer[:] = a
                a = buffer
            before = a.copy()
            answers.append(float(optimization_function.compute(a)))
            if self.search_space_is_unit_hypercube and not np.array_equal(a, before):
                self.mutated = True
            if self.reuse:
                buffer[:] = 0.77
        self.log.append(answers)


def num(v):
    return [math.nan if a == NAN else float(a) for a in v]


def effective(v):
    """the unit vector a proposal stands for"""
    w = [0.0 if a != a else a for a in v]
    if all(a == 0 for a in w):
        w[0] = 1.0
    nrm = math.sqrt(math.fsum([a * a for a in w]))
    return [a / nrm for a in w]


class Prop:
    """reference result of one proposal for one data set"""

    def __init__(self, pb, unit):
        self.unit = unit
        rows = list(range(len(pb.y)))
        proj = {r: math.fsum([a * b for a, b in zip(pb.X[r], unit)]) for r in rows}
        # projections that are equal up to rounding errors are the same position
        order = sorted(rows, key=lambda r: proj[r])
        pos, last = {}, None
        for r in order:
            if last is not None and proj[r] - last < 1e-12:
                pos[r] = last
            else:
                pos[r] = last = proj[r]
        res, order = pb.cuts_along(rows, pb.prior, 0, pos)
        self.cuts = []
        for s, i in res:
            lo, hi = pos[order[i - 1]], pos[order[i]]
            below, above = frozenset(order[:i]), frozenset(order[i:])
            mid = 0.5 * (lo + hi)
            dist = math.fsum([abs(pos[r] - mid) for r in rows])
            p1 = {pb.X[r] for r in below if pos[r] == lo}
            p2 = {pb.X[r] for r in above if pos[r] == hi}
            self.cuts.append((s, below, dist, p1, p2, len(res)))
        self.best = max(c[0] for c in self.cuts) if self.cuts else None
        top = [c for c in self.cuts if ref.close(c[0], self.best)] if self.cuts else []
        self.unique = top[0] if len(top) == 1 else None


def check(pb, props, seq, opt, m, X):
    s0 = pb.score_stop(list(range(len(pb.y))), pb.prior, 0)
    if not opt.log:
        raise Violation('the optimizer was not run')
    for i, (p, a) in enumerate(zip([props[k] for k in seq], opt.log[0])):
        exp = -s0 if p.best is None else -p.best
        if not ref.close(a, exp):
            raise Violation('proposal {} (unit vector {}) was answered with {!r} instead of {!r}'.format(i, p.unit, a, exp))
    if opt.mutated:
        raise Violation('compute() changed the optimizer\'s proposal')
    t = ref.extract(m)
    cands = [(c, props[k]) for k in dict.fromkeys(seq) for c in props[k].cuts]
    best = max((c[0] for c, _ in cands), default=-math.inf)
    if not t.split:
        if best > s0 and not ref.close(best, s0, pb.tol):
            raise Violation('no split although a proposal has score {!r} > {!r}'.format(best, s0))
        return 'leaf'
    if abs(math.fsum([v * v for v in t.normal]) - 1) > 1e-9:
        raise Violation('normal {} is not of unit length'.format(t.normal))
    below = frozenset(r for r, x in enumerate(pb.X) if ref.signed_distance(t, x) < 0)
    mine = [(c, p) for c, p in cands if c[1] == below and all(abs(a - b) < 1e-9 for a, b in zip(p.unit, t.normal))]
    if not mine:
        raise Violation('hyperplane (normal {}, origin {}) is not a candidate of any proposal'.format(t.normal, t.origin))
    c, p = mine[0]
    if c[0] < best and not ref.close(c[0], best, pb.tol):
        raise Violation('kept score {!r} although {!r} was proposed'.format(c[0], best))
    if c[0] < s0 and not ref.close(c[0], s0, pb.tol):
        raise Violation('split with score {!r} < {!r}'.format(c[0], s0))
    if t.lp1 is not None and not ref.close(float(t.lp1), c[0], 1e-7) or t.lp0 is not None and not ref.close(float(t.lp0), s0, 1e-7):
        raise Violation('recorded scores {!r}, {!r} instead of {!r}, {!r}'.format(t.lp1, t.lp0, c[0], s0))
    mids = [[0.5 * (u + v) for u, v in zip(a, b)] for a in c[3] for b in c[4]]
    if not any(all(abs(u - v) < 1e-6 * (1 + abs(u)) for u, v in zip(t.origin, o)) for o in mids):
        raise Violation('origin {} is not midway between two rows adjacent to the cut: {}'.format(t.origin, mids))
    for k in dict.fromkeys(seq):
        u = props[k].unique
        if u is not None and u[1] == below and u[5] == c[5] and u[2] > c[2] + 1e-9 * (1 + u[2]):
            raise Violation('equal score: kept the hyperplane with summed distance {!r} (normal {}) although {!r} (normal {}) was proposed'.format(
                c[2], p.unit, u[2], props[k].unit))
    return 'split'


def evaluate(case, st):
    if case['prior'] == 'x':
        case = dict(case, prior=[0.1, 0.1] if case['model'] == 'hc' else [0.5, 0.1, 0.05, 0.01])
    X, y = build.data(case)
    pb = build.problem(case)
    if case.get('hypercube'):
        alpha = [[float(v) for v in u] for u in case['alphabet']]
        units = [effective([float(v) for v in hypercube_to_hypersphere_surface(np.array(u), half_hypersphere=True)]) for u in alpha]
    else:
        alpha = [num(v) for v in case['alphabet']]
        units = [effective(v) for v in alpha]
    props = [Prop(pb, u) for u in units]
    XX = {'dense': lambda: X, 'csr': lambda: csr_matrix(X), 'csc': lambda: csc_matrix(X), 'float32': lambda: X.astype(np.float32)}[case.get('form', 'dense')]()
    for n in range(case['lo'], case['hi'] + 1):
        for seq in itertools.product(range(len(alpha)), repeat=n):
            if case.get('pad'):
                # a long run: the first proposal, or all in turn, again and again, and the sequence at the end or in the middle
                pad = [0] * case['pad'] if case['run'] == 'same' else [k % case['run'] for k in range(case['pad'])]
                seq = tuple(pad) + seq + (tuple(pad) if case['twice'] else ())
            opt = Script([alpha[k] for k in seq], bool(case.get('hypercube')), reuse=(sum(seq) + n) % 2 == 1)
            m = build.make(case, optimizer=opt)
            m.fit(XX, y)
            try:
                res = check(pb, props, seq, opt, m, X)
            except Violation as e:
                raise Violation('proposals {}: {}'.format([alpha[k] for k in seq], e))
            st.traces += 1
            st.states += len(seq) + 1
            st.transitions += len(seq)
            st.outcome('{} {} len={}'.format(case['model'], res, len(seq)))
    st.nontrivial += case['hi'] >= 2 or case.get('pad', 0) > 0


FULL = [[1, 0], [0, 1], [1, 1], [1, -1], [2, 0], [-1, 0], [1, 2], [0, 0], [NAN, 1], [-0.5, -0.5], [NAN, NAN], [1e6, 0], [-1e-5, 2e-5]]
SMALL = [[1, 0], [0, 1], [1, 1], [-1, 0], [1, 2], [0, -3]]
TINYA = [[1, 0], [0, 1], [1, 1], [-1, -1]]
CUBE = [[0.1], [0.3], [0.35], [0.6], [0.85], [0.5]]
CUBE3 = [[0.1, 0.2], [0.3, 0.9], [0.65, 0.4], [0.8, 0.15]]
SCALES = [[1, 0], [0, 1], [1, 1], [1e-12, 0], [0, -1e-30], [1e150, -1e150], [-1e-140, 2e-140], [3e-9, 1e-9], [1e9, 2e9], [1e-8, NAN], [0, 1e-100], [1e100, 0]]
TILTED = [[1, 0], [1, 1e-3], [1, 1e-6], [1, -1e-6], [1, 0.1], [1e-9, 1], [0, 1]]
D3 = [[1, 0, 0], [0, 1, 0], [0, 0, 2], [1, 1, 0], [0, 1, -1], [-1, 0, 0]]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    f = []
    cls = pc(model=['hc'], prior=[[0.1, 0.1], [1, 3]], pp=[0.9])
    reg = pc(model=['hr'], prior=[[0.5, 0.1, 0.05, 0.01]], pp=[0.9])
    grid = [[0, 0], [2, 1], [1, 2], [0, 1], [2, 2]]
    f.append(Family('single', lambda: wc(S.multisets(S.symbols([0, 1, 2], 2, [0, 1]), 2, 3 if q else 4, S.all_classes(2)), cls + reg, alphabet=FULL, lo=0, hi=1),
                    'all multisets of 2..{} rows over {{0,1,2}}^2: no proposal and every single proposal of 13'.format(3 if q else 4)))
    f.append(Family('pairs', lambda: wc(S.multisets(S.symbols([0, 1, 2], 2, [0, 1]), 3, 3, S.all_classes(2)), pc(model=['hc'], prior=[[0.1, 0.1]], pp=[0.9]) + ([] if q else reg),
                                        alphabet=SMALL if q else FULL, lo=2, hi=2),
                    'all multisets of 3 rows: all pairs of proposals over {}'.format(len(SMALL if q else FULL))))
    f.append(Family('sequences', lambda: wc(S.labelled_sequence(grid[:4], [0, 1], S.has_classes(2)), pc(model=['hc', 'hr'], prior=[None], pp=[0.5, 0.99]),
                                            alphabet=FULL, lo=2, hi=2 if q else 3),
                    'all label vectors over 4 rows: all proposal sequences of length 2{} over 13 proposals'.format('' if q else '..3')))
    f.append(Family('triples', lambda: wc(S.labelled_sequence(grid, [0, 1], S.has_classes(2)), pc(model=['hc'], prior=[[0.1, 0.1]], pp=[0.9]), alphabet=SMALL, lo=3, hi=3 if q else 4),
                    'all label vectors over 5 rows: all proposal sequences of length {} over 6 proposals'.format('3' if q else '3..4')))
    f.append(Family('ties', lambda: wc(tie_sets(q), pc(model=['hc', 'hr'], prior=[None], pp=[0.9]), alphabet=TINYA, lo=1, hi=4 if q else 5),
                    'separable data (equal scores, different distances): all proposal sequences of length 1..{} over 4 proposals'.format(4 if q else 5)))
    f.append(Family('near-ties', lambda: ({**c, 'alphabet': [[1, 0], [0, 1], [-1, 0], [0, -2]], 'lo': 1, 'hi': 3 if q else 5} for c in build.near_ties(['hc', 'hr']) if len(c['X'][0]) == 2),
                    'two proposals whose scores differ by a relative 1e-3 to 1e-10: all sequences of length 1..{} over 4 proposals'.format(3 if q else 5)))
    f.append(Family('far-ties', lambda: wc(far_tie_sets(), pc(model=['hc', 'hr'], prior=[None], pp=[0.9]), alphabet=[[0, 1], [1, 0], [1, 1e-3], [2, -1e-3], [1e-3, 1]], lo=1, hi=3 if q else 5),
                    'separable data that are far apart along the other feature (worse proposals with larger distances between equal ones): all sequences of length 1..{} over 5 proposals'.format(3 if q else 5)))
    f.append(Family('scales', lambda: wc(S.labelled_sequence(grid, [0, 1], S.has_classes(2)), pc(model=['hc', 'hr'], prior=[None], pp=[0.9, 0.2]), alphabet=SCALES, lo=1, hi=2 if q else 3),
                    'proposals of length 1e-140 to 1e150: all label vectors over 5 rows x all sequences of length 1..{} over {} proposals'.format(2 if q else 3, len(SCALES))))
    f.append(Family('tilted', lambda: wc(itertools_chain(S.labelled_sequence([[0, 0], [0, 1], [0, 3], [1, 0], [1, 2]], [0, 1], S.has_classes(2)),
                                                         S.labelled_sequence([[0, 0], [1, 0], [3, 0], [0, 1], [2, 1], [0, 5]], [0, 1], S.has_classes(2))),
                                         pc(model=['hc', 'hr'], prior=[None, 'x'], pp=[0.9]), alphabet=TILTED, lo=1, hi=2 if q else 3),
                    'nearly parallel proposals that order the rows differently: all label vectors over 5 and 6 rows x all sequences of length 1..{} over 7 proposals'.format(2 if q else 3)))
    f.append(Family('hypercube-2d', lambda: wc(S.labelled_sequence(grid, [0, 1], S.has_classes(2)), pc(model=['hc', 'hr'], prior=[None], pp=[0.9]), alphabet=CUBE, hypercube=1, lo=1, hi=2 if q else 3),
                    'unit-hypercube search space, 2 features: all sequences of 1..{} over 6 points'.format(2 if q else 3)))
    f.append(Family('hypercube-3d', lambda: wc(S.labelled_sequence([[0, 0, 1], [2, 1, 0], [1, 2, 2], [0, 1, 1], [2, 2, 1]], [0, 1], S.has_classes(2)),
                                               pc(model=['hc', 'hr'], prior=[None], pp=[0.9]), alphabet=CUBE3, hypercube=1, lo=1, hi=2 if q else 3),
                    'unit-hypercube search space, 3 features: all sequences of 1..{} over 4 points'.format(2 if q else 3)))
    f.append(Family('3d', lambda: wc(S.labelled_sequence([[0, 0, 1], [2, 1, 0], [1, 2, 2], [0, 1, 1], [2, 2, 1]], [0, 1, 2], S.has_classes(3)),
                                     pc(model=['hc'], prior=[[0.1, 0.1, 0.1], [2, 0.5, 1]], pp=[0.9]), alphabet=D3, lo=1, hi=1 if q else 2),
                    '3 features, 3 classes: all label vectors x all sequences of 1{} over 6 directions'.format('' if q else '..2')))
    f.append(Family('forms', lambda: (dict(c, form=fm) for fm in ('csr', 'csc', 'float32') for c in wc(
        S.labelled_sequence(grid, [0, 1], S.has_classes(2)), pc(model=['hc', 'hr'], prior=[None], pp=[0.9]), alphabet=FULL[:9], lo=1, hi=1 if q else 2)),
        'sparse and 32-bit training data: all label vectors x all sequences of 1{} over 9 proposals'.format('' if q else '..2')))
    f.append(Family('long', lambda: (dict(c, pad=pad, run=run, twice=twice) for pad in ([60, 300, 1100] if q else [60, 130, 300, 520, 1100, 2100, 5000]) for run in ('same', 2) for twice in (0, 1)
                                     for c in wc(S.labelled_sequence([[1, 0], [1, 1], [1, 3], [1, 4.5]], [0, 1], S.has_classes(2)), pc(model=['hc', 'hr'], prior=[None], pp=[0.9]),
                                                 alphabet=[[1, 0], [-2, 0], [0, 1], [1, 1], [0, -1]], lo=1, hi=1)),
                    'optimizers that make up to {} proposals, first useless ones: all label vectors over 4 rows x 5 last proposals x position of the last proposal'.format(2201 if q else 10001)))
    f.append(Family('precision', lambda: wc(S.labelled_sequence(grid, [0, 1], S.has_classes(2)), pc(model=['hc', 'hr'], prior=[None], pp=[0.9], precision=[0.6, 0.9, 1.2]),
                                            alphabet=SMALL, lo=1, hi=1 if q else 2),
                    'with a split precision: all label vectors x all sequences of 1{} over 6 proposals'.format('' if q else '..2')))
    return f


def far_tie_sets():
    yield [[0, 100], [1, -100], [3, 99], [4, 101]], [0, 0, 1, 1]
    yield [[4, -50], [0, 60], [3, 70], [1, -80]], [1, 0, 1, 0]
    yield [[0, 30], [1, -30], [7, 31], [6, -33], [8, 34]], [0, 0, 1, 1, 1]


def tie_sets(q):
    yield [[0, 0], [0, 1], [3, 1], [4, 3]], [0, 0, 1, 1]
    yield [[0, 0], [1, 3], [5, 4], [4, 9]], [0, 0, 1, 1]
    yield [[0, 0], [0, 2], [1, 1], [4, 5], [3, 6]], [1, 1, 1, 0, 0]
    yield [[-3, 0], [-1, -1], [1, 1], [2, 5]], [0, 0, 1, 1]
    yield [[0, 0], [0, 0], [2, 7], [2, 7]], [0, 0, 1, 1]
    if not q:
        yield [[0, 0], [7, 1], [8, 2], [9, 3]], [0, 1, 1, 1]
        yield [[0, 0], [1, 7], [2, 8], [3, 9], [-1, 6]], [0, 1, 1, 1, 1]
