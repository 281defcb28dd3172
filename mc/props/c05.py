"""C05: independence of the representation of the data."""
import itertools

import numpy as np

from .. import build, forms, ref, spaces
from ..core import Family, Violation

PID = 'C05'
RULE = ('the full product of training sets x representation of X x representation of y (those that can hold the numbers) x representation of the query x all four '
        'models; the tree has to be the reference tree and, unless scores tie, identical to the one fitted to C-contiguous float64 arrays; non-trivial: at least one split')
ASSUMPTIONS = ['the numbers are exactly representable in the representations compared']


def tree_of(case, X, y):
    m = build.make(case)
    m.fit(X, y)
    return m


def evaluate(case, st):
    A, b = np.array(case['X'], dtype=float), np.array(case['y'], dtype=float)
    pb = build.problem(case)
    X = forms.X_FORMS[case['xf']](A)
    if X is None or case['xf'].endswith('duplicates') and case['model'][0] == 'h':
        # (summands of one value are projected separately, which rounds differently: positions that coincide may be torn apart)
        st.extra['not_representable'] += 1
        return
    base = tree_of(case, A.copy(), b.copy())
    tb = ref.extract(base)
    dirs = (case.get('normals') or build.directions(pb.nd)) if case['model'][0] == 'h' else None
    amb = ref.ambiguous(pb)[0] if dirs is None else ref.ambiguous_hyper(pb, dirs)
    Q = A.copy() if case.get('square') else query_rows(A, case)
    answers = build.answer_rows(base, Q)
    m0 = None
    for yf in case['yfs']:
        y = forms.Y_FORMS[yf](b)
        if y is None:
            continue
        what = 'X as {}, y as {}'.format(case['xf'], yf)
        m = tree_of(case, X, y)
        t = ref.extract(m)
        try:
            if dirs is None:
                ref.conform_perp(pb, t, st)
            else:
                ref.conform_hyper(pb, t, st, dirs)
            if not amb:
                if not build.same(ref.shape(t), ref.shape(tb), 1e-12):
                    raise Violation('the tree differs: {} instead of {}'.format(ref.shape(t), ref.shape(tb)))
                if 'frame' not in case['xf'] and not build.same(build.answer_rows(m, Q), answers, 1e-7):
                    raise Violation('the answers differ')
        except Violation as e:
            raise Violation('{}: {}'.format(what, e))
        st.traces += 1
        m0 = m0 or m
    if case.get('qfs'):
        own = build.answer_rows(m0, Q)
        for qf in case['qfs']:
            q = forms.X_FORMS[qf](Q)
            if q is None and not case.get('float32'):
                continue
            if q is not None:
                got = build.answer_rows(m0, q)
                if not build.same(got, own, 1e-12):
                    raise Violation('fitted to X as {}, queried with rows as {}: {} instead of {}'.format(case['xf'], qf, got, own))
            st.traces += 1
            # single rows as well
            for i in range(case.get('singles', 1)):
                q = forms.X_FORMS[qf](Q[i:i + 1])
                if q is None:
                    continue
                if not build.same(build.answer_rows(m0, q), own[i:i + 1], 1e-12):
                    raise Violation('fitted to X as {}, queried with the single row {} as {}: different answer'.format(case['xf'], Q[i], qf))
                st.transitions += 1
    st.nontrivial += tb.split
    st.outcome('{} leaves={}{}'.format(case['model'], ref.leaves_of(tb), ' ambiguous' if amb else ''))


def query_rows(A, case):
    vals = sorted({v for r in case['X'] for v in r})
    nd = A.shape[1]
    rows = A.tolist()
    for r in itertools.islice(itertools.product(vals[:3], repeat=nd), 9):
        if list(r) not in rows:
            rows.append(list(r))
    return np.array(rows[:12], dtype=float)


def small_sets():
    """few rows, values in {0,1} (representable everywhere) or {0..3}"""
    yield [[0, 1], [1, 0], [1, 1], [0, 0], [0, 1]], [0, 1, 1, 0, 0]
    yield [[0, 0], [0, 1], [0, 1], [0, 0], [1, 0], [1, 1]], [0, 1, 1, 0, 1, 1]
    yield [[1, 0, 0], [0, 0, 1], [0, 1, 0], [1, 1, 0], [0, 0, 0], [1, 0, 1]], [1, 0, 1, 0, 1, 0]
    yield [[3, 0], [0, 1], [2, 0], [1, 1], [0, 2]], [1, 0, 1, 0, 0]
    yield [[0], [3], [1], [2], [1]], [0, 1, 1, 0, 0]
    yield [[0, 5, 0, 0], [0, 0, 2, 0], [7, 0, 0, 0], [0, 0, 2, 1], [0, 5, 0, 0]], [0, 1, 1, 0, 0]


EXTREMES = {
    'uint8': ([[250, 3], [255, 1], [128, 2], [0, 0], [127, 3], [200, 1]], [0, 1, 1, 0, 0, 1]),
    'int8': ([[-128, 1], [127, 0], [-1, 1], [0, 0], [100, 1], [-100, 0]], [0, 1, 0, 1, 1, 0]),
    'int16': ([[-32768, 1], [32767, 0], [20000, 1], [-20000, 0], [0, 1]], [0, 1, 1, 0, 0]),
    'uint16': ([[65535, 1], [40000, 0], [0, 1], [30000, 0], [65534, 1]], [1, 0, 0, 1, 0]),
    'int32': ([[-2147483648, 1], [2147483647, 0], [1500000000, 1], [-1500000000, 0], [7, 1]], [0, 1, 1, 0, 0]),
    'uint32': ([[4294967295, 1], [3000000000, 0], [0, 1], [4294967294, 0]], [1, 0, 0, 1]),
    'int64': ([[-9007199254740992, 1], [9007199254740992, 0], [9007199254740991, 1], [0, 0]], [0, 1, 0, 1]),
    'uint64': ([[9007199254740992, 1], [9007199254740991, 0], [1, 1], [0, 0]], [1, 0, 1, 0]),
    'float32': ([[16777216.0, 0.5], [16777215.0, 0.25], [-0.125, 3], [1e-3 * 1024, 4]], [1, 0, 1, 0]),
    'float16': ([[2048, 0.5], [2047, 0.25], [-0.125, 3], [60000, 4]], [1, 0, 1, 0]),
    # numbers that the next smaller type would merge
    'float32-fraction': ([[1000.25, 1.0], [1000.5, 1.0009765625], [999.75, 1.0], [1000.0, 1.0009765625], [1000.25, 2.0]], [0, 1, 1, 0, 0]),
    'float32-small': ([[2.0 ** -30, 0.0], [2.0 ** -31, 1.0], [-2.0 ** -30, 1.0], [0.0, 0.0], [3 * 2.0 ** -31, 1.0]], [0, 1, 1, 0, 1]),
    'float64-fraction': ([[0.1, 1.0], [0.1 + 2e-9, 1e-9], [0.1 - 2e-9, 2e-9], [0.3, 1.0], [0.1 + 4e-9, 0.0]], [0, 1, 1, 0, 0]),
    'float64-large': ([[2.0 ** 40 + 1, 1e300], [2.0 ** 40, 1e299], [2.0 ** 40 - 1, -1e300], [2.0 ** 40 + 2, 0.0]], [0, 1, 0, 1]),
}

Y_EXTREMES = [
    ('uint8', [250, 255, 128, 0, 127, 200]),
    ('int8', [-128, 127, -1, 0, 100, -100]),
    ('int16', [-32768, 32767, 20000, -20000, 0, 300]),
    ('uint16', [65535, 40000, 0, 30000, 65534, 2]),
    ('int32', [-2147483648, 2147483647, 1500000000, -1500000000, 7, 65536]),
    ('uint32', [4294967295, 3000000000, 0, 1, 2, 4294967294]),
    ('int64', [-94906265, 94906267, 0, 3037000500, 5, -3037000500]),
    ('uint64', [94906267, 0, 4294967296, 3037000500, 5, 6]),
    ('float16', [256.0, 300.0, -2000.0, 0.5, 0.25, 60000.0]),
    ('float32', [3001.5, 5001.25, -4000.0, 16777215.0, 0.25, 1.0]),
    ('float32', [1000.25, 1000.5, 1000.25, 1001.0, 1001.25, 1001.0]),
]


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    xfs = list(forms.X_FORMS)
    yfs = list(forms.Y_FORMS)
    dense_y = ['float64', 'list', 'series-reversed-index']
    cls = pc(model=['pc', 'hc'], prior=[[0.1, 0.1]], pp=[0.9999])
    reg = pc(model=['pr', 'hr'], prior=[[0.3, 0.1, 0.05, 0.01]], pp=[0.9999])

    def fam_xq():
        for c in wc(small_sets(), cls + reg):
            for xf in xfs:
                yield dict(c, xf=xf, yfs=['float64'], qfs=xfs)

    def fam_xy():
        for c in wc(small_sets(), cls + reg):
            for xf in xfs:
                yield dict(c, xf=xf, yfs=yfs)

    def fam_extreme():
        for t, (X, y) in EXTREMES.items():
            for c in wc([(X, y), ([[r[0]] for r in X], y)], [c for c in cls + reg if c['model'][0] == 'p']):
                for xf in xfs:
                    yield dict(c, xf=xf, yfs=dense_y, qfs=xfs)

    def fam_gaps():
        for t in ('int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64'):
            bits = int(t.lstrip('uint'))
            if t[0] == 'u':
                vals = [0, 1, 2 ** (bits - 2), 2 ** (bits - 1) - 1, 2 ** (bits - 1), 3 * 2 ** (bits - 2), 2 ** bits - 1]
            else:
                top = 2 ** (bits - 1) - 1 if bits < 64 else 2 ** 63 - 1024
                vals = [-2 ** (bits - 1), -2 ** (bits - 2), -1, 0, 1, 2 ** (bits - 2), top]
            for n in (2, 3):
                for xs in itertools.combinations(vals, n):
                    for y in itertools.product([0, 1], repeat=n):
                        if y[0] != 0 or 1 not in y:
                            continue
                        for c in cls[:1] + reg[:1]:
                            for precision in (0.0, float(2 ** (bits - 2)), float(2 ** (bits - 1)) - 1):
                                for xf in [f for f in xfs if t in f.split('-')]:
                                    yield dict(c, X=[[v] for v in xs[::-1]], y=list(y), precision=precision, xf=xf, yfs=['float64'], qfs=[t])

    def fam_float32():
        for name, v in (('tenth', np.float32(0.1)), ('one', np.float32(1)), ('big', np.float32(2 ** 24)), ('small', np.float32(1e-30)), ('negative', np.float32(-7.3)), ('huge', np.float32(3.3e38))):
            up, down = np.nextafter(v, np.float32(np.inf)), np.nextafter(v, np.float32(-np.inf))
            ulp = float(up) - float(v)
            vals = [float(down), float(v) - 0.125 * ulp, float(v), float(v) + 2.0 ** -28 * ulp, float(v) + 0.25 * ulp, float(up), 0.0]
            for n in (2, 3):
                for xs in itertools.combinations(vals, n):
                    for y in itertools.product([0, 1], repeat=n):
                        if y[0] != 0 or 1 not in y:
                            continue
                        for c in cls[:1] + reg[:1] + ([dict(cls[1], normals=[[1.0]])] if n == 2 or not q else []):
                            for precision in (0.0, 0.1, ulp, abs(float(v)), float(str(v))):
                                if c['model'][0] == 'h' and precision:
                                    continue
                                for xf in ('C', 'float32', 'csr-float32', 'csc-float32', 'frame-float32', 'frame-mixed') if n == 2 or not q else ('C', 'float32'):
                                    if xf in forms.X_FORMS:
                                        yield dict(c, X=[[x] for x in xs[::-1]], y=list(y)[::-1], precision=precision, xf=xf, yfs=['float64'], qfs=['float32', 'csr-float32', 'frame-float32'], singles=n, float32=True)

    def fam_yextreme():
        for t, y in Y_EXTREMES:
            for X in ([[i] for i in range(len(y))], [[i % 3, i // 3] for i in range(len(y))]):
                var = max(abs(v) for v in y) ** 2
                mean = sum(y) / len(y)
                sd2 = sum((v - mean) ** 2 for v in y) / len(y)
                for prior in ([mean, 0.5, 0.25, 0.25 * 0.01 * sd2], [0, 1, 0.5, 0.5 * var]):
                    for model in ('pr', 'hr'):
                        yield dict(model=model, X=X, y=y, prior=prior, pp=0.999, xf='C', yfs=yfs)

    def fam_all():
        gens = [spaces.labelled_sequence([[1, 0], [0, 1], [0, 0], [1, 1], [2, 1]], [0, 1], spaces.has_classes(2))]
        if not q:
            gens.append(spaces.multisets(spaces.symbols([0, 1], 2, [0, 1]), 4, 4, spaces.all_classes(2)))
        for g in gens:
            for c in wc(g, cls + reg):
                for xf in xfs:
                    yield dict(c, xf=xf, yfs=['float64', 'bool', 'series-reversed-index'])

    def fam_3class():
        for X, y in spaces.labelled_sequence([[1, 0], [0, 3], [0, 0], [2, 2]], [0, 1, 2], spaces.has_classes(3)):
            for model in ('pc', 'hc'):
                for prior in ([0.1, 0.1, 0.1], None):
                    for xf in xfs:
                        yield dict(model=model, X=X, y=y, prior=prior, pp=0.9999, xf=xf, yfs=yfs if xf in ('C', 'csr') else ['int64'])

    def fam_square():
        for n in range(1, 9):
            for v in range(3):
                X = [[float((i * (j + 2 + v) + i * i + j * v) % (n + 1)) for j in range(n)] for i in range(n)]
                y = [int((i * i + v) % 3 == 1) for i in range(n)]
                if n > 1 and len(set(y)) < 2 or n == 1 and y != [0]:
                    y = [0] * (n - 1) + [int(n > 1)]
                for c in cls + reg:
                    if c['model'][1] == 'c' and n == 1:
                        continue
                    if c['model'][0] == 'h':
                        c = dict(c, normals=[[float(i == j) for i in range(n)] for j in range(n)])
                    for xf in xfs:
                        yield dict(c, X=X, y=y if c['model'][1] == 'c' else [1.5 * t + 0.25 * (i % 2) for i, t in enumerate(y)], xf=xf, yfs=['float64'], qfs=xfs[v::3], square=True)

    return [
        Family('train-x-query', fam_xq, '6 training sets x 4 models x {0} representations of X x {0} of the query'.format(len(xfs))),
        Family('x-by-y', fam_xy, '6 training sets x 4 models x {} representations of X x {} of y'.format(len(xfs), len(yfs))),
        Family('type-limits-x', fam_extreme, 'feature values at the limits of 10 dtypes, or that the next smaller dtype would merge x all representations that hold them, perpendicular models'),
        Family('type-gaps', fam_gaps, 'all sets of 2..3 values of 7 per integer type (gaps up to its whole range) x all labels x 3 precisions'),
        Family('float32', fam_float32, 'all sets of 2..3 values of 7 around 6 single precision numbers (their neighbours in single precision and values in between) x all labels x 5 precisions, '
                                       'training and query data in single and double precision'),
        Family('type-limits-y', fam_yextreme, 'regression targets at the limits of 10 dtypes x all representations of y that hold them'),
        Family('all-labels', fam_all, 'all label vectors over 5 rows{} x 4 models x all representations of X'.format('' if q else ' and all multisets of 4 rows over {0,1}^2')),
        Family('square', fam_square, 'as many rows as features (1 to 8, training data and query): 3 training sets each x 4 models x all representations of X, a third of them of the query'),
        Family('3-class', fam_3class, 'all label vectors of 3 classes over 4 rows x all representations'),
    ]
