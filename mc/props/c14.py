"""C14: the hypercube-to-hypersphere map and the R2 sequence."""
import decimal
import itertools
import math

import numpy as np

from .. import build, ref  # noqa: F401
from ..core import Family, Violation
from bayesian_decision_tree.utils import hypercube_to_hypersphere_surface, r2_series_generator

PID = 'C14'
RULE = ('every point of the grid of the family (cell centres, faces and corners of the unit hypercube): unit length, independence of the batch, half space, injectivity and the '
        'volume factor from the Jacobian by central differences; R2: every element of the first terms in every dimension; non-trivial: interior points and sequence elements')
ASSUMPTIONS = ['between the grid points the map is assumed to be smooth, apart from a null set', 'volume factors are computed with a step of 1e-6 and compared to 1e-4']


def points(grid, D, lo=0, hi=None):
    """the grid^D cell centres number lo..hi"""
    c = [(i + 0.5) / grid for i in range(grid)]
    return np.array(list(itertools.islice(itertools.product(c, repeat=D), lo, hi)))


def sphere(P, half):
    return np.asarray(hypercube_to_hypersphere_surface(P.copy(), half))


def as_rows(S, n, D):
    S = np.asarray(S, dtype=float)
    if S.size != n * (D + 1):
        raise Violation('{} points of dimension {} are mapped to an array of shape {}'.format(n, D, S.shape))
    return S.reshape(n, D + 1)


def check_points(P, D, half, st):
    n = len(P)
    before = P.copy()
    S = as_rows(hypercube_to_hypersphere_surface(P, half), n, D)
    if not np.array_equal(P, before):
        raise Violation('the points handed in were modified')
    if not np.all(np.isfinite(S)) or np.max(np.abs(np.sum(S ** 2, axis=1) - 1)) > 1e-9:
        i = int(np.argmax(~np.isfinite(S).all(axis=1) | (np.abs(np.sum(S ** 2, axis=1) - 1) > 1e-9)))
        raise Violation('D={} half={}: {} is mapped to {}, which is not a unit vector'.format(D, half, P[i].tolist(), S[i].tolist()))
    if half and np.min(S[:, 0]) < -1e-12:
        i = int(np.argmin(S[:, 0]))
        raise Violation('D={}: {} is mapped to {}, outside of the half sphere'.format(D, P[i].tolist(), S[i].tolist()))
    return S


def evaluate(case, st):
    kind = case['kind']
    if kind == 'r2':
        return evaluate_r2(case, st)
    D, half = case['D'], case['half']
    if kind == 'large':
        return evaluate_large(case, st)
    if kind == 'batch':
        return evaluate_batch(case, st)
    if kind == 'approach':
        return evaluate_approach(case, st)
    if kind == 'corners':
        P = np.array(list(itertools.product(case['values'], repeat=D)), dtype=float)
        S = check_points(P, D, half, st)
        for i in range(len(P)):
            one = as_rows(sphere(P[i], half), 1, D)[0]
            if np.max(np.abs(one - S[i])) > 1e-7:
                raise Violation('D={} half={}: {} alone is mapped to {}, in a batch to {}'.format(D, half, P[i].tolist(), one.tolist(), S[i].tolist()))
        st.traces += len(P)
        st.states += len(P)
        st.transitions += len(P)
        st.outcome('corners D={} half={}'.format(D, half))
        return
    if kind == 'injective':
        P = points(case['grid'], D)
        S = check_points(P, D, half, st)
        # distinct axes: points of different cells are mapped to different vectors (half sphere: also not to opposite ones)
        best = math.inf
        for i in range(len(S)):
            d = np.min(np.sum((S[i + 1:] - S[i]) ** 2, axis=1), initial=math.inf)
            if half:
                d = min(d, np.min(np.sum((S[i + 1:] + S[i]) ** 2, axis=1), initial=math.inf))
            best = min(best, d)
        if math.sqrt(best) < 0.02 / case['grid']:
            raise Violation('D={} half={}: two of the {} cell centres are mapped to vectors only {} apart'.format(D, half, len(S), math.sqrt(best)))
        st.traces += len(P)
        st.states += len(P)
        st.transitions += len(P) * (len(P) - 1) // 2
        st.nontrivial += 1
        st.outcome('injective D={} half={}'.format(D, half))
        return
    # volume
    P = near_centre(D, case['star'])[case['lo']:case['hi']] if 'star' in case else points(case['grid'], D, case['lo'], case['hi'])
    check_points(P, D, half, st)
    h = 1e-6
    J = np.empty((len(P), D + 1, D))
    for d in range(D):
        A, B = P.copy(), P.copy()
        A[:, d] += h
        B[:, d] -= h
        J[:, :, d] = (as_rows(sphere(A, half), len(P), D) - as_rows(sphere(B, half), len(P), D)) / (2 * h)
    vol = np.sqrt(np.maximum(0, np.linalg.det(np.einsum('nij,nik->njk', J, J))))
    area = 2 * math.pi ** ((D + 1) / 2) / math.gamma((D + 1) / 2)
    if half:
        area /= 2
    bad = np.abs(vol / area - 1) > 1e-4
    if bad.any():
        i = int(np.argmax(bad))
        raise Violation('D={} half={}: the volume factor at {} is {} instead of {}'.format(D, half, P[i].tolist(), vol[i], area))
    st.traces += len(P)
    st.states += len(P)
    st.transitions += len(P) * 2 * D
    st.nontrivial += 1
    st.outcome('volume D={} half={}'.format(D, half))


def near_centre(D, k):
    """all points that differ from a base point in at most k coordinates, each by one of two steps"""
    base = [0.5 + 0.11 * ((3 * j) % 5 - 2) for j in range(D)]
    out = [base]
    for n in range(1, k + 1):
        for dims in itertools.combinations(range(D), n):
            for steps in itertools.product((-0.27, 0.26), repeat=n):
                p = list(base)
                for d, s in zip(dims, steps):
                    p[d] += s
                out.append(p)
    return np.array(out)


LAYOUTS = {
    'C': lambda P: P,
    'F': np.asfortranarray,
    'strided': lambda P: np.repeat(np.repeat(P, 2, axis=0), 3, axis=1)[::2, ::3],
    'reversed': lambda P: np.ascontiguousarray(P[::-1, ::-1])[::-1, ::-1],
    'transposed': lambda P: np.ascontiguousarray(P.T).T,
}


def evaluate_large(case, st):
    """batches of boundary sizes in several memory layouts give the points' own images"""
    D, half, n = case['D'], case['half'], case['n']
    P = np.array([[((i * (2 * j + 3) + j) % 101 + 0.5) / 101 for j in range(D)] for i in range(n)])
    own = {}
    for p in P:
        k = tuple(p)
        if k not in own:
            own[k] = as_rows(sphere(np.array(k), half), 1, D)[0]
    for name, f in LAYOUTS.items():
        Q = f(P.copy())
        Q.setflags(write=name == 'C')
        S = check_points(Q, D, half, st)
        want = np.array([own[tuple(p)] for p in P])
        if np.max(np.abs(S - want)) > 1e-7:
            i = int(np.argmax(np.max(np.abs(S - want), axis=1)))
            raise Violation('D={} half={}: {} is mapped to {} as number {} of a {} batch of {} but to {} alone'.format(
                D, half, P[i].tolist(), S[i].tolist(), i, name, n, want[i].tolist()))
        st.traces += 1
        st.transitions += n
    st.states += n
    st.nontrivial += 1
    st.outcome('large batch D={} half={}'.format(D, half))


def evaluate_approach(case, st):
    """ever smaller steps towards a face in one coordinate: every step is seen (nothing is clipped or rounded), and the face is their limit"""
    D, half, j, top = case['D'], case['half'], case['j'], case['top']
    base = [[0.5 + 0.11 * ((3 * i) % 5 - 2) for i in range(D)], [0.9 - 0.07 * (i % 5) for i in range(D)]][case['base']]
    P = []
    for k in range(2, 36):
        p = list(base)
        p[j] = 1 - 2.0 ** -k if top else 2.0 ** -k
        P.append(p)
    p = list(base)
    p[j] = 1.0 if top else 0.0
    P.append(p)
    S = check_points(np.array(P), D, half, st)
    d = np.sqrt(np.sum(np.diff(S, axis=0) ** 2, axis=1))
    for k in range(2, 36):
        if d[k - 2] < 0.005 * 2.0 ** -k:
            raise Violation('D={} half={}: {} and {} are mapped to vectors only {} apart'.format(D, half, P[k - 2], P[k - 1], d[k - 2]))
    if d[-1] > 4 * (D + 1) * d[-2] + 1e-12:  # u^(1/n) approaches 0 slowly
        raise Violation('D={} half={}: the image jumps by {} between {} and {}'.format(D, half, d[-1], P[-2], P[-1]))
    st.traces += len(P)
    st.states += len(P)
    st.transitions += len(P) - 1
    st.nontrivial += 1
    st.outcome('approach D={} half={}'.format(D, half))


def evaluate_batch(case, st):
    """all batches (orders and multiplicities) over an alphabet of points give the points' own images"""
    D, half = case['D'], case['half']
    alphabet = [[0.5] * D, [0.0] * D, [((j * 3 + 1) % 7) / 7 for j in range(D)], [1.0 if j % 2 else 0.25 for j in range(D)]]
    own = [as_rows(sphere(np.array(a), half), 1, D)[0] for a in alphabet]
    for n in range(1, case['length'] + 1):
        for c in itertools.product(range(len(alphabet)), repeat=n):
            P = np.array([alphabet[i] for i in c])
            S = check_points(P, D, half, st)
            for k, i in enumerate(c):
                if np.max(np.abs(S[k] - own[i])) > 1e-7:
                    raise Violation('D={} half={}: {} is mapped to {} in the batch {} but to {} alone'.format(D, half, alphabet[i], S[k].tolist(), P.tolist(), own[i].tolist()))
            st.states += 1
            st.transitions += n
            st.traces += 1
    st.nontrivial += 1
    st.outcome('batches D={} half={}'.format(D, half))


def golden(D):
    """root of x^(D+1) = x + 1 with 60 digits, by bisection"""
    with decimal.localcontext() as ctx:
        ctx.prec = 60
        lo, hi = decimal.Decimal(1), decimal.Decimal(2)
        for _ in range(190):
            m = (lo + hi) / 2
            if m ** (D + 1) < m + 1:
                lo = m
            else:
                hi = m
        return lo


def evaluate_r2(case, st):
    D, n = case['D'], case['n']
    with decimal.localcontext() as ctx:
        ctx.prec = 60
        phi = golden(D)
        alpha = [1 / phi ** (j + 1) for j in range(D)]
        gens = [r2_series_generator(D)]
        other = r2_series_generator(D + 1)
        half = decimal.Decimal('0.5')
        for i in range(1, n + 1):
            x = np.asarray(next(gens[0]))
            if i % 3 == 0:
                next(other)  # another generator in between
            if x.shape != (D,) or not np.all((x >= 0) & (x < 1)):
                raise Violation('R2: element {} in {} dimensions is {}'.format(i, D, x))
            for j in range(D):
                e = float((half + i * alpha[j]) % 1)
                d = abs(float(x[j]) - e)
                if min(d, 1 - d) > 1e-9:
                    raise Violation('R2: component {} of element {} in {} dimensions is {} instead of {}'.format(j, i, D, x[j], e))
            x *= 0  # the element belongs to the caller
            st.states += 1
        again = list(itertools.islice(r2_series_generator(D), 20))
        first = list(itertools.islice(r2_series_generator(D), 20))
        if not all(np.array_equal(a, b) for a, b in zip(again, first)):
            raise Violation('R2: two generators in {} dimensions differ'.format(D))
    st.traces += n
    st.transitions += n
    st.nontrivial += 1
    st.outcome('R2 D={}'.format(D))


def families(tier):
    q = tier == 'quick'
    grids = {1: 20000, 2: 300, 3: 60, 4: 21, 5: 11, 6: 7, 7: 5, 8: 4, 9: 3, 10: 3} if q else {1: 100000, 2: 1000, 3: 120, 4: 40, 5: 19, 6: 12, 7: 8, 8: 6, 9: 5, 10: 4, 11: 3, 12: 3}
    inj = {1: 2000, 2: 70, 3: 16, 4: 8, 5: 5, 6: 4, 7: 3, 8: 3} if q else {1: 10000, 2: 150, 3: 28, 4: 12, 5: 8, 6: 5, 7: 4, 8: 4, 9: 3}
    corner = {1: 12, 2: 12, 3: 6, 4: 4, 5: 3, 6: 3, 7: 2, 8: 2, 9: 2, 10: 2} if q else {1: 12, 2: 12, 3: 12, 4: 6, 5: 5, 6: 4, 7: 3, 8: 3, 9: 2, 10: 2, 11: 2, 12: 2}
    vals = [0.0, 1.0, 0.5, 1e-300, 0.25, 1 - 2 ** -53, 0.75, 2 ** -53, 1 / 3, 1e-9, 1 - 1e-9, 0.125]

    def volume():
        for D, g in grids.items():
            for half in (True, False):
                for lo in range(0, g ** D, 4000):
                    yield dict(kind='volume', D=D, half=half, grid=g, lo=lo, hi=lo + 4000)

    def high():
        for D in range(9, 17 if q else 25):
            n = len(near_centre(D, 2))
            for half in (True, False):
                for lo in range(0, n, 200):
                    yield dict(kind='volume', D=D, half=half, star=2, lo=lo, hi=lo + 200)

    sizes = [1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 1000, 1025] + ([] if q else [2049, 4097, 10000, 65537])
    return [
        Family('high-dimensions', high, 'all points that differ from a base point in at most two coordinates (two steps each), {} dimensions'.format('9..16' if q else '9..24')),
        Family('large-batches', lambda: (dict(kind='large', D=D, half=h, n=n) for n in sizes for D in (*range(1, 10), 15, 20) for h in (True, False)),
               'batches of {} sizes from 1 to {} in 5 memory layouts, 11 dimensions'.format(len(sizes), sizes[-1])),
        Family('approach', lambda: (dict(kind='approach', D=D, half=h, j=j, top=t, base=b) for D in range(1, 13 if q else 25) for h in (True, False) for j in range(D) for t in (False, True) for b in (0, 1)),
               'steps of 2^-2 ... 2^-35 towards every face from two base points, dimensions 1..{}'.format(12 if q else 24)),
        Family('volume', volume, 'cell centres of the grids {} (dimension: points per axis), half and full sphere'.format(grids)),
        Family('injective', lambda: (dict(kind='injective', D=D, half=h, grid=g) for D, g in inj.items() for h in (True, False)), 'all pairs of cell centres of the grids {}'.format(inj)),
        Family('corners', lambda: (dict(kind='corners', D=D, half=h, values=vals[:k]) for D, k in corner.items() for h in (True, False)),
               'all points with coordinates among the first k of 0, 1, 1/2, 1e-300, 1/4, 1-2^-53 ... ({}), singly and in one batch'.format(corner)),
        Family('batches', lambda: (dict(kind='batch', D=D, half=h, length=4 if q else 6) for D in range(1, 9) for h in (True, False)),
               'all batches of up to {} points over an alphabet of 4, dimensions 1..8'.format(4 if q else 6)),
        Family('r2-long', lambda: (dict(kind='r2', D=D, n=70000 if q else 1000000) for D in ((1, 2, 3) if q else (1, 2, 3, 4, 7))), 'the first {} elements in few dimensions'.format(70000 if q else 1000000)),
        Family('r2', lambda: (dict(kind='r2', D=D, n=2000 if q else 50000) for D in (range(1, 33) if q else range(1, 65))),
               'the first {} elements in {}'.format(2000 if q else 50000, '1..32 dimensions' if q else '1..64 dimensions')),
    ]
