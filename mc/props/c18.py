"""C18: symmetries of the problem: complete orbits under row, feature and class permutations, scalings, shifts, mirrors and affine target maps."""
import itertools
import math

import numpy as np

from .. import build, ref, spaces
from ..core import Family, Violation

PID = 'C18'
RULE = ('every training set of the family whose reference tree has no score ties x the complete orbit of the transformation kind: the answers of the transformed problem to the '
        'transformed queries have to be the transformed answers; non-trivial: the tree has at least one split and the transformation is not the identity')
ASSUMPTIONS = ['pruned trees: class permutations only where no node has two equally probable top classes', 'sets whose decisions are closer than 1e-6 are skipped (counted as measured_ambiguous)', 'scalings by powers of two and shifts for which all positions stay exact',
               'hyperplane trees: a fixed set of proposed orientations, transformed together with the features']


def perms(n, full):
    if n <= full:
        yield from itertools.permutations(range(n))
        return
    if n > 12:
        # large sets: reversal, rotations, strides, odd-even, swaps of the ends, of neighbours and across the middle
        base = list(range(n))
        out = [base, base[::-1], base[1:] + base[:1], base[n // 2:] + base[:n // 2], base[::2] + base[1::2], base[1::2][::-1] + base[::2],
               [i ^ 1 if i ^ 1 < n else i for i in base]]
        out += [[i * k % n for i in base] for k in (3, 7, 11, 101) if math.gcd(k, n) == 1]
        for i, j in ((0, n - 1), (0, n // 2), (n - 2, n - 1)):
            q = list(base)
            q[i], q[j] = q[j], q[i]
            out.append(q)
        yield from [tuple(q) for q in out[:full]] if full > 5 else [tuple(q) for q in out]
        return
    # generators of the symmetric group and their neighbours: all transpositions, rotations and reversals
    base = tuple(range(n))
    seen = set()
    for i, j in itertools.combinations(range(n), 2):
        p = list(base)
        p[i], p[j] = p[j], p[i]
        seen.add(tuple(p))
    for k in range(n):
        seen.add(base[k:] + base[:k])
        seen.add((base[k:] + base[:k])[::-1])
    yield from sorted(seen)


def query_rows(pb, t):
    rows = [list(r) for r in dict.fromkeys(pb.X)]
    per = []
    for d in range(pb.nd):
        v = sorted({r[d] for r in pb.X})
        w = v[-1] - v[0] or 1.0
        per.append([v[0] - w] + [a + (b - a) * 0.375 for a, b in zip(v, v[1:])] + [a + (b - a) * 0.625 for a, b in zip(v, v[1:])] + [v[-1] + w])
    for i in range(max(len(p) for p in per)):
        rows.append([p[i % len(p)] for p in per])
        rows.append([p[(i * (d + 2)) % len(p)] for d, p in enumerate(per)])
    ok = []
    for r in rows:
        n, good = t, True
        while n.split:
            if n.normal is not None:
                dist = ref.signed_distance(n, r)
                if abs(dist) < 1e-9 * (1 + sum(abs(v) for v in r)):
                    good = False
                n = n.c1 if dist < 0 else n.c2
            else:
                if r[n.dim] == n.value:
                    good = False
                n = n.c1 if r[n.dim] < n.value else n.c2
        if good:
            ok.append(r)
    return ok


class Answers:
    def __init__(self, m, Q):
        rows = build.answer_rows(m, np.array(Q, dtype=float))
        self.pred = [r[0] for r in rows]
        self.proba = [r[1] for r in rows]
        self.raw = [None if r[2] is None else r[2] for r in rows]
        self.path = [r[3] for r in rows]
        self.imp = [float(v) for v in m.feature_importance()] if m.get_depth() else None
        self.shape = (m.get_depth(), m.get_n_leaves())


def eq(what, got, exp, case, tol=1e-9):
    if not build.same(got, exp, tol):
        raise Violation('{}: {} instead of {}'.format(what, got, exp))


def fit_answers(c, Q):
    return Answers(build.fit(c), Q)


def map_normals(c, f):
    """the scripted orientations, transformed like the features"""
    if c['model'][0] == 'h':
        return {'normals': [f(list(n)) for n in (c.get('normals') or build.directions(len(c['X'][0])))]}
    return {}


def class_tied(proba):
    s = sorted(proba, reverse=True)
    return len(s) > 1 and s[0] - s[1] < 1e-9


def evaluate(case, st):
    pb = build.problem(case)
    hyper = case['model'][0] == 'h'
    if hyper and ref.ambiguous_hyper(pb, case.get('normals') or build.directions(pb.nd)) or not hyper and ref.ambiguous(pb)[0]:
        st.extra['ambiguous'] += 1
        return
    m = build.fit(case)
    t = ref.extract(m)
    kind = case['kind']
    if kind == 'classes' and case.get('prune') and any(class_tied(n.post) for n in ref.nodes(ref.extract(build.fit(case, prune=False)))):
        # which of the equally probable classes is predicted depends on their order, and so does what is pruned
        st.extra['ambiguous'] += 1
        return
    Q = query_rows(pb, t)
    base = Answers(m, Q)
    n_trans = {'rows': t_rows, 'features': t_features, 'classes': t_classes, 'scale': t_scale, 'targets': t_targets}[kind](case, pb, Q, base)
    st.states += 1 + n_trans
    st.transitions += n_trans
    st.traces += n_trans
    st.nontrivial += t.split
    st.outcome('{} {} leaves={}'.format(case['model'], kind, ref.leaves_of(t)))


def t_rows(case, pb, Q, base):
    k = 0
    X, y = case['X'], case['y']
    for p in perms(len(y), case.get('full', 5)):
        a = fit_answers(dict(case, X=[X[i] for i in p], y=[y[i] for i in p]), Q)
        eq('training rows in the order {}: answers'.format(p), [a.pred, a.proba, a.raw, a.path, a.imp, a.shape], [base.pred, base.proba, base.raw, base.path, base.imp, base.shape], case)
        k += 1
    # permuted queries
    for p in ([list(range(len(Q)))[::-1], list(range(1, len(Q))) + [0]] if Q else []):
        m = build.fit(case)
        a = Answers(m, [Q[i] for i in p])
        eq('query rows in the order {}'.format(p), [a.pred, a.proba, a.raw, a.path], [[b[i] for i in p] for b in (base.pred, base.proba, base.raw, base.path)], case)
    return k


def t_features(case, pb, Q, base):
    k = 0
    for p in perms(pb.nd, 5):
        f = lambda r: [r[i] for i in p]  # new feature j is old feature p[j]
        a = fit_answers(dict(case, X=[f(r) for r in case['X']], **map_normals(case, f)), [f(r) for r in Q])
        eq('features in the order {}: answers'.format(p), [a.pred, a.proba, a.raw, a.shape], [base.pred, base.proba, base.raw, base.shape], case)
        if base.imp is not None:
            eq('features in the order {}: importance'.format(p), a.imp, f(base.imp), case)
        if base.path and base.path[0] is not None:
            inv = {old: new for new, old in enumerate(p)}
            eq('features in the order {}: paths'.format(p), [[(s[0], s[2], s[3]) for s in path] for path in a.path], [[(inv[s[0]], s[2], s[3]) for s in path] for path in base.path], case)
        k += 1
    return k


def t_classes(case, pb, Q, base):
    k = 0
    for p in itertools.permutations(range(pb.K)):
        # old class c becomes p[c]
        prior = None
        if case.get('prior') is not None:
            prior = [None] * pb.K
            for c in range(pb.K):
                prior[p[c]] = case['prior'][c]
        a = fit_answers(dict(case, y=[p[int(v)] for v in case['y']], prior=prior), Q)
        for i in range(len(Q)):
            what = 'classes renamed to {}: row {}'.format(p, Q[i])
            eq(what + ' probabilities', [a.proba[i][p[c]] for c in range(pb.K)], list(base.proba[i]), case)
            if not class_tied(base.proba[i]):
                eq(what + ' class', a.pred[i], float(p[int(base.pred[i])]), case)
        eq('classes renamed to {}'.format(p), [a.path, a.imp, a.shape], [base.path, base.imp, base.shape], case)
        k += 1
    return k


def t_scale(case, pb, Q, base):
    """all combinations of per-feature maps x -> s*x + b (perpendicular), or of common scale, mirrors and shifts (hyperplane)"""
    k = 0
    hyper = case['model'][0] == 'h'
    maps = [(s, b) for s in case['scales'] for b in case['shifts']]
    if hyper:
        combos = [[(sc * sg, b) for sg, b in zip(signs, bs)] for sc in {abs(s) for s in case['scales']} for signs in itertools.product([1, -1], repeat=pb.nd)
                  for bs in itertools.product(case['shifts'], repeat=1) for bs in [[bs[0]] * pb.nd]]
    elif pb.nd == 1 or len(maps) ** pb.nd <= 150:
        combos = [list(c) for c in itertools.product(maps, repeat=pb.nd)]
    else:
        combos = [[maps[0]] * d + [mp] + [maps[0]] * (pb.nd - d - 1) for d in range(pb.nd) for mp in maps] + [[mp] * pb.nd for mp in maps]
    for combo in combos:
        f = lambda r: [s * v + b for v, (s, b) in zip(r, combo)]
        g = lambda r: [math.copysign(1, s) * v for v, (s, b) in zip(r, combo)]
        if any((v - b) / s != u for r in case['X'] for u, v, (s, b) in zip(r, f(r), combo)):
            raise AssertionError('a shift that is not exact in the space')
        a = fit_answers(dict(case, X=[f(r) for r in case['X']], **map_normals(case, g)), [f(r) for r in Q])
        what = 'features mapped by {}'.format(combo)
        eq(what, [a.pred, a.proba, a.raw, a.imp, a.shape], [base.pred, base.proba, base.raw, base.imp, base.shape], case)
        if not hyper:
            exp = [[(s[0], combo[s[0]][0] * s[2] + combo[s[0]][1], s[3] == (combo[s[0]][0] > 0)) for s in path] for path in base.path]
            eq(what + ': paths', [[(s[0], s[2], s[3]) for s in path] for path in a.path], exp, case)
        k += 1
    return k


def t_targets(case, pb, Q, base):
    k = 0
    mu, kappa, alpha, beta = pb.prior
    for a_, b_ in case['maps']:
        a = fit_answers(dict(case, y=[a_ * v + b_ for v in case['y']], prior=[a_ * mu + b_, kappa, alpha, a_ * a_ * beta]), Q)
        what = 'targets mapped by {}*y+{}'.format(a_, b_)
        exp = [a_ * v + b_ for v in base.pred]
        for g, e in zip(a.pred, exp):
            if abs(g - e) > 1e-9 * (abs(a_) * (1 + max(abs(v) for v in case['y'])) + abs(b_)):
                raise Violation('{}: predictions {} instead of {}'.format(what, a.pred, exp))
        eq(what, [a.path, a.shape], [base.path, base.shape], case)
        if base.imp is not None:
            eq(what + ': importance', a.imp, base.imp, case, 1e-6)
        k += 1
    return k


D4 = [[1, 0, 0, 0], [1, 1, 1, 1], [1, -1, 1, -1], [0, 0, 1, 0], [1, 1, -1, -1]]
IRR1 = [[0.0], [1.0], [3.0], [4.0], [7.5], [8.0], [12.0]]
IRR2 = [[0.0, 2.0], [1.0, 7.0], [3.0, 0.0], [4.0, 3.5], [7.5, 1.0], [8.0, 5.0], [12.0, 4.0]]
IRR3 = [[0.0, 2.0, 5.0], [1.0, 7.0, 1.0], [3.0, 0.0, 2.0], [4.0, 3.5, 8.0], [7.5, 1.0, 0.0], [8.0, 5.0, 4.0], [12.0, 4.0, 3.0]]
IRR4 = [[0, 2, 5, 1], [1, 7, 1, 4], [3, 0, 2, 6], [4, 3, 8, 0], [7, 1, 0, 5], [9, 5, 4, 2], [2, 4, 7, 9]]
CP = [[0.1, 0.3], [1, 3], [0.5, 0.05]]
CP3 = [[0.1, 0.2, 0.3], [2, 0.5, 1]]
RP = [[0.3, 0.1, 0.05, 0.01], [0, 1, 1, 1]]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces

    def both(rows, n_c, n_r, kinds_c, kinds_r, models_c=('pc',), models_r=('pr',), pp=0.999, normals=None, deltas=(0, 0.5), **kw):
        if normals:
            kw = dict(kw, normals=normals)
        for kind in kinds_c:
            yield from wc(S.labelled_sequence(rows[:n_c], [0, 1], S.has_classes(2)), pc(model=models_c, prior=CP, delta=deltas), kind=kind, pp=pp, **kw)
        for kind in kinds_r:
            yield from wc(S.labelled_sequence(rows[:n_r], [0, 1.5, 5]), pc(model=models_r, prior=RP, delta=deltas), kind=kind, pp=pp, **kw)

    SC = dict(scales=[1.0, 2.0 ** 10, 2.0 ** -5, -1.0, -4.0], shifts=[0.0, 64.0, -1024.0])
    SCX = dict(scales=[1.0, 2.0 ** -300, -2.0 ** -60, 2.0 ** -30, 2.0 ** 40, -2.0 ** 300], shifts=[0.0])
    SC2 = dict(scales=[1.0, 4.0, -1.0], shifts=[0.0, -64.0])
    f = []
    f.append(Family('rows', lambda: itertools.chain(both(IRR1, 5, 4, ['rows'], ['rows'], deltas=[0]), both(IRR2, 5, 4, ['rows'], ['rows'], deltas=[0.5])),
                    'all label vectors over 5 positions (regression: 4) x all row permutations, 1 and 2 features'))
    f.append(Family('rows-multisets', lambda: wc(S.multisets(S.symbols([0, 1, 3], 1, [0, 1]), 3, 5 if q else 6, S.all_classes(2)), pc(model=['pc'], prior=[[0.1, 0.3]]), kind='rows', pp=0.999,
                                                 full=4 if q else 6),
                    'all multisets of 3..{} rows with duplicates x all row permutations (from 5 rows on: transpositions, rotations, reversals in quick)'.format(5 if q else 6)))
    f.append(Family('rows-long', lambda: both(IRR2, 7, 5 if q else 6, ['rows'], ['rows'], full=4 if q else 5),
                    'all label vectors over 7 positions x all transpositions, rotations and reversals of the rows'))
    f.append(Family('features', lambda: itertools.chain(both(IRR3, 6 if q else 7, 5 if q else 6, ['features'], ['features']), both(IRR4, 5 if q else 7, 4 if q else 6, ['features'], ['features'])),
                    'all label vectors over 6 positions in 3d and 5 in 4d x all feature permutations'))
    f.append(Family('classes', lambda: itertools.chain(both(IRR2, 7, 0, ['classes'], []), wc(S.labelled_sequence(IRR2[:6 if q else 7], [0, 1, 2], S.has_classes(3)),
                                                                                          pc(model=['pc'], prior=CP3, delta=[0, 0.5]), kind='classes', pp=0.999),
                                                       wc(S.labelled_sequence(IRR1[:5 if q else 6], [0, 1, 2, 3], S.has_classes(4)), pc(model=['pc'], prior=[[0.1, 0.2, 0.3, 0.4], None]), kind='classes', pp=0.999)),
                    'all label vectors of 2, 3 and 4 classes x all class permutations'))
    f.append(Family('scale', lambda: itertools.chain(both(IRR1, 7, 5, ['scale'], ['scale'], **SC), both(IRR2, 6 if q else 7, 4 if q else 5, ['scale'], ['scale'], **SC2)),
                    'all label vectors x all combinations of scalings, mirrors and shifts per feature'))
    f.append(Family('scale-extreme', lambda: itertools.chain(both(IRR1, 5, 4, ['scale'], ['scale'], **SCX), both(IRR2, 5, 4, ['scale'], ['scale'], **SCX)),
                    'all label vectors x scalings from 2^-300 to 2^300 per feature'))
    SHX = dict(scales=[1.0, -1.0], shifts=[0.0, 2.0 ** 20, 2.0 ** 34, -2.0 ** 38, 2.0 ** 44])
    f.append(Family('shift-extreme', lambda: itertools.chain(both(IRR1, 6 if q else 7, 5 if q else 6, ['scale'], ['scale'], **SHX), both(IRR2, 5 if q else 6, 4 if q else 5, ['scale'], ['scale'], **dict(SHX, scales=[1.0]))),
                    'all label vectors x mirrors and shifts of up to 2^44 per feature'))
    f.append(Family('hyper-shift-extreme', lambda: both(IRR4, 5 if q else 6, 4, ['scale'], ['scale'], ['hc'], ['hr'], normals=D4, deltas=[0], scales=[1.0], shifts=[2.0 ** 30, -2.0 ** 38, 2.0 ** 42]),
                    'hyperplane models in 4d: all mirrors x shifts of up to 2^42'))
    f.append(Family('hyper-scale-extreme', lambda: both(IRR4, 5, 4, ['scale'], ['scale'], ['hc'], ['hr'], normals=D4, deltas=[0], scales=[2.0 ** -300, 2.0 ** -60, 2.0 ** -30, 2.0 ** 40, 2.0 ** 300], shifts=[0.0]),
                    'hyperplane models in 4d: all mirrors x common scalings from 2^-300 to 2^300'))
    f.append(Family('targets', lambda: itertools.chain(both(IRR1, 0, 6 if q else 7, [], ['targets'], maps=MAPS), both(IRR2, 0, 5 if q else 6, [], ['targets'], maps=MAPS)),
                    'all target vectors over 6 positions (2d: 5) x 15 affine maps'))
    f.append(Family('hyper-rows', lambda: both(IRR4, 5, 4, ['rows'], ['rows'], ['hc'], ['hr'], normals=D4, full=4 if q else 5, deltas=[0.5] if q else [0, 0.5]),
                    'hyperplane models in 4d: all label vectors over 5 positions x row permutations'))
    f.append(Family('hyper-features', lambda: both(IRR4, 5 if q else 7, 4 if q else 5, ['features'], ['features'], ['hc'], ['hr'], normals=D4, deltas=[0] if q else [0, 0.5]),
                    'hyperplane models in 4d: all feature permutations (with the proposals)'))
    f.append(Family('hyper-classes', lambda: itertools.chain(both(IRR4, 6 if q else 7, 0, ['classes'], [], ['hc'], normals=D4), wc(S.labelled_sequence(IRR4[:5 if q else 6], [0, 1, 2], S.has_classes(3)),
                    pc(model=['hc'], prior=CP3), kind='classes', pp=0.999, normals=D4)), 'hyperplane models: all class permutations'))
    f.append(Family('hyper-scale', lambda: both(IRR4, 5 if q else 6, 4, ['scale'], ['scale'], ['hc'], ['hr'], normals=D4, deltas=[0], scales=[1.0, 8.0, 0.25], shifts=[0.0, 64.0]),
                    'hyperplane models in 4d: all mirrors x common scalings and shifts'))
    SCD = dict(scales=[1.0, 2.0 ** 10, -1.0, -0.25], shifts=[0.0, 64.0])
    AXES = dict(rows={}, features={}, classes={}, scale=SCD, targets=dict(maps=MAPS))

    def mixed(gen, kinds, max_nd=99):
        """every applicable kind of transformation for the training sets of a generator (called for one model)"""
        for kind in kinds:
            for model in ('pc', 'pr', 'hc', 'hr'):
                if kind == 'classes' and model[1] == 'r' or kind == 'targets' and model[1] == 'c':
                    continue
                for c in gen(model):
                    if kind == 'targets' and c.get('prior') is None or kind == 'features' and len(c['X'][0]) == 1 or len(c['X'][0]) > max_nd:
                        continue
                    yield dict(c, kind=kind, **AXES[kind])

    ALL = ['rows', 'features', 'classes', 'scale', 'targets']
    f.append(Family('deep', lambda: mixed(lambda m: build.deep([m], sizes=(20, 40) if q else (20, 40, 80, 120), delta=[0, 0.25]), ALL), 'trees of up to {} levels x all kinds of transformations'.format(39 if q else 119)))
    f.append(Family('cross', lambda: mixed(lambda m: build.cross([m], pp=[0.9, 0.9999], prune=[False, True], delta=[0, 0.5]) if not q else
                                           build.cross([m], pp=[0.999], prune=[False, True]), ALL, 6), '8 training sets x representations x priors x all kinds of transformations'))
    f.append(Family('many-features', lambda: mixed(lambda m: build.wide([m], (9, 33, 129, 257) if q else (8, 9, 17, 32, 33, 65, 128, 129, 200, 256, 257, 300)), ['features', 'rows', 'classes', 'targets']), 'up to 300 features'))
    f.append(Family('many-rows', lambda: mixed(lambda m: build.tall([m], (300, 700) if q else (300, 700, 1500, 3001)), ALL), '300 to {} rows'.format(700 if q else 3001)))
    f.append(Family('hyper-targets', lambda: both(IRR4, 0, 5 if q else 6, [], ['targets'], [], ['hr'], normals=D4, maps=MAPS), 'hyperplane regression: all target vectors x 15 affine maps'))
    return f


MAPS = [[1, 3], [1, -0.5], [2, 0], [-1, 0], [-0.5, 2], [1024, -1], [0.001, 0], [-3, 7], [10, 100], [2.0 ** 20, 0], [-3e6, 0], [1e-6, 0], [1e12, 0], [1, 2.0 ** 28], [-2, 1e7]]
