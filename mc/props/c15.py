"""C15: rejection of invalid input, acceptance of valid input, and survival of the state."""
import itertools

import numpy as np
import pandas as pd
from scipy.sparse import csc_matrix, csr_matrix

from .. import build, ref
from ..core import Family, Violation
from bayesian_decision_tree.hyperplane_optimization import QuasiRandomHyperplaneOptimizer

PID = 'C15'
RULE = ('every shape, label vector, representation and query width of the family, on a never-fitted and on an already fitted model of all four kinds; the verdict (accepted or '
        'ValueError) is compared with the stated rule and the state of the model before and after every rejected call is compared completely; non-trivial: rejected calls')
ASSUMPTIONS = ['training sets have at least one row and one feature', 'extents of 1 in y are dropped and one-dimensional X is one row, as in the documentation of the input']

BASE_X = np.array([[0, 1], [1, 0], [2, 2], [3, 1]], dtype=float)
BASE_Y = {'c': np.array([0, 1, 1, 0], dtype=float), 'r': np.array([0.5, 1, 4, -1], dtype=float)}


def make(mk, K=2, default=False):
    prior = None if default else [0.2] * K if mk[1] == 'c' else [0.5, 0.1, 0.05, 0.01]
    kw = {'optimizer': QuasiRandomHyperplaneOptimizer(5)} if mk[0] == 'h' else {}
    return build.MODELS[mk](0.999, prior, **kw)


def query_calls(m, X=None):
    out = [('predict', lambda x: m.predict(x))]
    for name in ('predict_proba', 'prediction_paths', '_get_raw_leaf_data'):
        if hasattr(m, name):
            out.append((name, lambda x, name=name: getattr(m, name)(x)))
    return out


def is_fitted(m):
    return bool(m.is_fitted()) if hasattr(m, 'is_fitted') else True


def snapshot(m, fitted, Q):
    if not fitted:
        return (is_fitted(m), str(m), tuple(sorted((k, str(v)) for k, v in m.get_params().items())))
    imp = tuple(m.feature_importance()) if m.get_depth() else ()
    return (is_fitted(m), str(m), tuple(sorted((k, str(v)) for k, v in m.get_params().items())), ref.full(ref.extract(m)), tuple(build.answer_rows(m, Q)), imp,
            tuple(np.asarray(getattr(m, 'classes_', [])).tolist()))


def expect_unfitted(m, Q, what):
    if is_fitted(m):
        raise Violation('{}: an unfitted model says that it is fitted'.format(what))
    for name, f in query_calls(m) + [('feature_importance', lambda x: m.feature_importance())]:
        try:
            r = f(Q)
        except ValueError:
            continue
        raise Violation('{}: {} on an unfitted model returned {!r}'.format(what, name, r))


def subject(mk, state, K=2):
    """-> (model, fitted?, query rows): a never-fitted model, or one fitted before"""
    m = make(mk, K)
    if state == 'new':
        return m, False, BASE_X
    y = BASE_Y[mk[1]] if mk[1] == 'r' else np.arange(4.) % K
    m.fit(BASE_X, y)
    return m, True, np.vstack([BASE_X, [[0.5, 0.5], [2.5, 9]]])


def attempt(m, fitted, Q, X, y, valid, what, st, fresh=None):
    before = snapshot(m, fitted, Q)
    try:
        r = m.fit(X, y)
    except ValueError as e:
        if valid:
            raise Violation('{}: valid input was rejected: {}'.format(what, e))
        st.nontrivial += 1
        if snapshot(m, fitted, Q) != before:
            raise Violation('{}: the rejected fit changed the model'.format(what))
        if not fitted:
            expect_unfitted(m, Q, what)
        st.outcome('rejected, {}'.format('fitted' if fitted else 'unfitted'))
        return
    if not valid:
        raise Violation('{}: invalid input was accepted'.format(what))
    if r is not m or not is_fitted(m):
        raise Violation('{}: accepted, but the model is not fitted'.format(what))
    st.outcome('accepted, {}'.format('fitted' if fitted else 'unfitted'))


def evaluate(case, st):
    {'shapes': shapes, 'labels': labels, 'things': things, 'queries': queries, 'integers': integers, 'sequence': sequence, 'large': large, 'deep': deep}[case['kind']](case, st)
    st.states += 1


# ---------------------------------------------------------------- inputs whose best tree is deep

def deep(case, st):
    n, mk = case['n'], case['model']
    y = [i % 2 for i in range(n)]
    c = dict(model=mk, X=[[float(i)] for i in range(n)], y=y if mk[1] == 'c' else [0.5 * v for v in y], prior=[0.01, 0.01] if mk[1] == 'c' else [0.25, 0.01, 0.005, 1e-6],
             pp=0.99999999, normals=[[1.0]], prune=case['prune'])
    try:
        m = build.fit(c)
        pred = m.predict(c['X'])
    except RecursionError:
        raise Violation('{}: {} rows whose targets alternate are rejected with RecursionError'.format(mk, n), key='depth-{}-{}'.format(mk, n))
    if len(pred) != n or m.get_n_leaves() < 2:
        raise Violation('{}: {} rows whose targets alternate: {} leaves'.format(mk, n, m.get_n_leaves()))
    st.traces += 1
    st.nontrivial += 1
    st.outcome('{} depth {}'.format(mk, m.get_depth()))


# ---------------------------------------------------------------- shapes

def cells(shape):
    return np.array([(i * 7) % 5 for i in range(int(np.prod(shape)))], dtype=float).reshape(shape)


def y_of(kind, shape):
    n = int(np.prod(shape))
    return np.array([i % 2 for i in range(n)], dtype=float).reshape(shape)


def shapes(case, st):
    mk, xs, form = case['model'], tuple(case['x']), case['form']
    A = cells(xs)
    if form == 'list':
        A = A.tolist()
    elif form == 'frame':
        A = pd.DataFrame(A)
    elif form == 'csr':
        A = csr_matrix(A)
    elif form == 'csc':
        A = csc_matrix(A)
    elif form == 'int':
        A = A.astype(int)
    rows = 1 if len(xs) == 1 else xs[0]
    for ys in case['y']:
        ys = tuple(ys)
        y = y_of(mk[1], ys)
        dims = [v for v in ys if v != 1]
        n_y = 1 if not dims and ys else dims[0] if dims else None  # None: a scalar
        one_dim = len(ys) == 1 or (len(ys) > 1 and len(dims) <= 1)
        K = 2 if y.size > 1 else 1
        valid = len(xs) <= 2 and one_dim and n_y == rows
        for yform in ('array', 'list'):
            for state in ('new', 'fitted'):
                m, fitted, Q = subject(mk, state, K)
                attempt(m, fitted, Q, A, y if yform == 'array' else y.tolist(), valid, '{} {} X{} {} y{} {}'.format(mk, state, xs, form, ys, yform), st)
                st.traces += 1
                st.transitions += 1


# ---------------------------------------------------------------- labels

LABELS = [0.0, 1.0, 2.0, -1.0, 0.5, 3.0]


def labels(case, st):
    """all label vectors of the length for all numbers of classes"""
    mk, n = case['model'], case['n']
    X = cells((n, 2))
    alphabet = LABELS + ([float('nan'), float('inf')] if case.get('special') else [])
    for y in itertools.product(alphabet, repeat=n):
        if case['first'] != alphabet.index(y[0]) and y[0] == y[0]:
            continue
        if y[0] != y[0] and case['first'] != len(LABELS):
            continue
        distinct = set(y)
        for K in (1, 2, 3, None):
            if K is not None:
                valid = distinct == set(range(K))
            else:
                valid = distinct == set(range(len(distinct)))
            if any(v != v for v in y):
                valid = False
            if case.get('state') == 'fitted':
                if K is None:
                    continue
                m, fitted, Q = subject(mk, 'fitted', K)
            else:
                m, fitted, Q = make(mk, K or 1, K is None), False, X
            what = '{} {} prior of {} classes, labels {}'.format(mk, case.get('state', 'new'), K, list(y))
            attempt(m, fitted, Q, X, np.array(y), valid, what, st)
            if not valid:
                # ... and a valid fit afterwards works as on a new model
                if st.traces % 5 == 0:
                    k = K or 2
                    if k <= 4:
                        again, fresh = m, make(mk, K or 1, K is None)
                        yy = np.arange(4.) % k
                        if ref.full(ref.extract(again.fit(BASE_X, yy))) != ref.full(ref.extract(fresh.fit(BASE_X, yy))):
                            raise Violation('{}: a fit after the rejected one gives another tree than a new model'.format(what))
            st.traces += 1
            st.transitions += 1


# ---------------------------------------------------------------- things that are no numbers

def bad_xs():
    return {
        'strings': lambda: [['a', 'b'], ['c', 'd'], ['e', 'f'], ['g', 'h']],
        'string in object array': lambda: np.array([[1, 2], [3, 'x'], [4, 5], [6, 7]], dtype=object),
        'None in object array': lambda: np.array([[1, 2], [3, None], [4, 5], [6, 7]], dtype=object),
        'complex': lambda: np.array([[1, 2], [3, 1j], [4, 5], [6, 7]]),
        'text column': lambda: pd.DataFrame({'a': [1, 2, 3, 4], 'b': list('wxyz')}),
        'huge integer': lambda: np.array([[1, 2], [3, 2 ** 53 + 1], [4, 5], [6, 7]]),
        'huge unsigned integer': lambda: np.array([[1, 2], [3, 2 ** 64 - 1], [4, 5], [6, 7]], dtype=np.uint64),
        'huge integers, all equal': lambda: np.full((4, 2), 2 ** 60 + 1),
        'huge integer, list': lambda: [[1, 2], [3, 2 ** 53 + 1], [4, 5], [6, 7]],
        'huge integer, frame': lambda: pd.DataFrame({'a': [1, 2, 3, 4], 'b': [1, 2 ** 53 + 1, 3, 4]}),
        'huge integer, csr': lambda: csr_matrix(np.array([[1, 2], [3, 2 ** 53 + 1], [4, 5], [6, 7]])),
        'huge integer, csc': lambda: csc_matrix(np.array([[1, 2], [3, 2 ** 53 + 1], [4, 5], [6, 7]])),
        'negative huge integer': lambda: np.array([[1, 2], [3, -2 ** 53 - 1], [4, 5], [6, 7]]),
    }


def good_xs():
    """values at the edge of what floats can hold"""
    return {
        'largest exact integer': lambda: np.array([[1, 2], [3, 2 ** 53], [4, 5], [6, 7]]),
        'large even integer': lambda: np.array([[1, 2], [3, 2 ** 53 + 2], [4, 5], [6, 7]]),
        'large even integer, csr': lambda: csr_matrix(np.array([[1, 2], [3, 2 ** 53 + 2], [4, 5], [6, 7]])),
        'large power of two': lambda: np.array([[1, 2], [3, 2 ** 63], [4, 5], [6, 7]], dtype=np.uint64),
        'smallest int64': lambda: np.array([[1, 2], [3, -2 ** 63], [4, 5], [6, 7]]),
        'largest int64 that is exact': lambda: np.array([[1, 2], [3, 2 ** 63 - 1024], [4, 5], [6, 7]]),
        'int8': lambda: np.array([[1, -128], [3, 127], [4, 5], [6, 7]], dtype=np.int8),
        'object': lambda: np.array([[1, 2.5], [3, True], [4, 5], [6, 7]], dtype=object),
        'bool': lambda: np.array([[1, 0], [0, 1], [1, 1], [0, 0]], dtype=bool),
        'bool csr': lambda: csr_matrix(np.array([[1, 0], [0, 1], [1, 1], [0, 0]], dtype=bool)),
        'float32': lambda: np.array([[0.1, 2], [3, 0.7], [4, 5], [6, 7]], dtype=np.float32),
        'large floats': lambda: np.array([[1e150, 2], [3, -1e150], [4, 5], [6, 7]]),
        'constant': lambda: np.full((4, 2), 7.0),
        'float16': lambda: np.array([[0.1, 2], [3, 0.7], [4, 5], [6, 7]], dtype=np.float16),
    }


def bad_ys(kind):
    d = {
        'strings': lambda: ['a', 'b', 'a', 'b'],
        'None': lambda: [0, 1, None, 1],
        'complex': lambda: np.array([0, 1, 1j, 1]),
        'huge integer': lambda: np.array([0, 1, 2 ** 53 + 1, 1]),
        'huge unsigned integer': lambda: np.array([0, 1, 2 ** 64 - 1, 1], dtype=np.uint64),
        'two columns': lambda: np.array([[0, 1], [1, 0], [0, 0], [1, 1]]),
        'too short': lambda: [0, 1, 1],
        'too long': lambda: [0, 1, 1, 0, 1],
        'scalar': lambda: 1,
        'long double': lambda: np.array([0, 1, 0, 1]) + np.array([0, np.longdouble(2) ** -60, 0, 0]) if np.finfo(np.longdouble).nmant > 60 else [0],
        'series of strings': lambda: pd.Series(['a', 'b', 'a', 'b']),
        'two columns, frame': lambda: pd.DataFrame({'a': [0, 1, 0, 1], 'b': [0, 1, 0, 1]}),
    }
    if kind == 'c':
        d.update({'negative': lambda: [0, -1, 0, -1], 'fractions': lambda: [0, 0.5, 1, 1], 'from 1': lambda: [1, 2, 1, 2], 'class missing': lambda: [0, 0, 0, 0],
                  'too many classes': lambda: [0, 1, 2, 1], 'minus zero and a half': lambda: [-0.5, 0, 1, 1], 'tiny offset': lambda: [0, 1, 1e-12, 1], 'nan': lambda: [0, 1, float('nan'), 1]})
    return d


def good_ys(kind):
    d = {
        'bools': lambda: [False, True, False, True],
        'int8': lambda: np.array([0, 1, 0, 1], dtype=np.int8),
        'uint64': lambda: np.array([0, 1, 0, 1], dtype=np.uint64),
        'object': lambda: np.array([0, 1, True, 0.0], dtype=object),
        'column': lambda: np.array([[0], [1], [0], [1]]),
        'row': lambda: np.array([[0, 1, 0, 1]]),
        'minus zero': lambda: [-0.0, 1, 0, 1],
        'series': lambda: pd.Series([0, 1, 0, 1], index=[9, 8, 7, 6]),
        'tuple': lambda: (0, 1, 0, 1),
        'float32': lambda: np.array([0, 1, 0, 1], dtype=np.float32),
        'float16': lambda: np.array([0, 1, 0, 1], dtype=np.float16),
        'frame': lambda: pd.DataFrame({'a': [0, 1, 0, 1]}),
    }
    if kind == 'r':
        d.update({'equal': lambda: [2, 2, 2, 2], 'negative': lambda: [-1, -2.5, 3, 0], 'large even integer': lambda: np.array([0, 1, 2 ** 53, 1]), 'one class': lambda: [0, 0, 0, 0]})
    return d


def things(case, st):
    mk = case['model']
    X, y = BASE_X, BASE_Y[mk[1]]
    valid = case['valid']
    tab = {('x', True): good_xs(), ('x', False): bad_xs(), ('y', True): good_ys(mk[1]), ('y', False): bad_ys(mk[1])}[(case['arg'], valid)]
    v = tab[case['name']]()
    m, fitted, Q = subject(mk, case['state'])
    attempt(m, fitted, Q, v if case['arg'] == 'x' else X, v if case['arg'] == 'y' else y, valid, '{} {} {}: {}'.format(mk, case['state'], case['arg'], case['name']), st)
    st.traces += 1
    st.transitions += 1


# ---------------------------------------------------------------- integers around the limit of exactness

def integers(case, st):
    mk, base = case['model'], case['base']
    for off in range(-case['width'], case['width'] + 1):
        v = base + off
        dt = np.uint64 if v >= 2 ** 63 else np.int64
        if v < 0 and dt is np.uint64 or v < -2 ** 63 or v > 2 ** 64 - 1:
            continue
        exact = int(float(v)) == v
        for where in ('dense', 'csr', 'query', 'query-csc', 'y'):
            A = np.array([[1, 0], [0, 0], [0, 0], [0, 1]], dtype=dt)
            A[1, 1] = v
            m, fitted, Q = subject(mk, 'fitted')
            what = '{} integer {} in {}'.format(mk, v, where)
            if where == 'y':
                if mk[1] == 'c':
                    continue
                attempt(m, fitted, Q, BASE_X, np.array([1, v, 0, 0], dtype=dt), exact, what, st)
            elif where in ('dense', 'csr'):
                attempt(m, fitted, Q, A if where == 'dense' else csr_matrix(A), BASE_Y[mk[1]], exact, what, st)
            else:
                B = A if where == 'query' else csc_matrix(A)
                for name, f in query_calls(m):
                    try:
                        f(B)
                    except ValueError:
                        if exact:
                            raise Violation('{}: {} rejected it'.format(what, name))
                    else:
                        if not exact:
                            raise Violation('{}: {} accepted it although floats cannot represent it'.format(what, name))
            st.traces += 1
            st.transitions += 1


# ---------------------------------------------------------------- one bad entry among many

def large(case, st):
    mk, n, w = case['model'], case['n'], case['w']
    at = {'first': 0, 'second': 1, 'middle': n // 2, 'last': n - 1}[case['at']]
    col = 0 if case['at'] == 'first' else w - 1
    good = np.zeros((n, w), dtype=np.int64)
    good[::2, 0] = 1
    y = np.zeros(n, dtype=np.int64)
    y[::2] = 1
    m, fitted, Q = subject(mk, 'fitted')
    if w != 2:
        m.fit(good[:6], y[:6])
        Q = good[:2].astype(float)
    for v in (2 ** 53 + 1, -2 ** 53 - 1, 2 ** 53 + 2):
        exact = int(float(v)) == v
        A = good.copy()
        A[at, col] = v
        for name, f in (('array', lambda: A), ('F', lambda: np.asfortranarray(A)), ('frame', lambda: pd.DataFrame(A)), ('csr', lambda: csr_matrix(A)), ('csc', lambda: csc_matrix(A)), ('uint64', lambda: A.astype(np.uint64))):
            if name == 'uint64' and v < 0:
                continue
            what = '{} {}x{} matrix ({}) with {} at {}, {}'.format(mk, n, w, name, v, at, col)
            for qname, q in query_calls(m)[:2]:
                try:
                    q(f())
                except ValueError:
                    if exact:
                        raise Violation('{}: {} rejected it'.format(what, qname))
                else:
                    if not exact:
                        raise Violation('{}: {} accepted it although floats cannot represent it'.format(what, qname))
            if not exact:
                attempt(m, fitted, Q, f(), y, False, what, st)
            st.traces += 1
            st.transitions += 3
    for v in ([0.5, -1.0, 2.0, 1 + 2.0 ** -52, 1e-300, float('nan')] if mk[1] == 'c' else []):
        b = y.astype(float)
        b[at] = v
        attempt(m, fitted, Q, good, b, False, '{} {} labels, label {} is {}'.format(mk, n, at, v), st)
        st.traces += 1
        st.transitions += 1
    b = y.copy()
    b[at] = 2 ** 53 + 1
    attempt(m, fitted, Q, good, b, False, '{} {} targets, target {} is {}'.format(mk, n, at, b[at]), st)
    for k in (n - 1, n + 1):
        attempt(m, fitted, Q, good, np.resize(y, k), False, '{} {} rows and {} targets'.format(mk, n, k), st)
    st.traces += 3
    st.transitions += 3


# ---------------------------------------------------------------- queries

def queries(case, st):
    mk, nd, state = case['model'], case['nd'], case['state']
    m = make(mk)
    n = 5
    X = np.array([[float((i * (j + 2) + j) % 5) for j in range(nd)] for i in range(n)])
    y = np.array([0, 1, 0, 1, 1], dtype=float)
    fitted = state != 'new'
    if fitted:
        m.fit(X, y if state == 'fitted' else np.zeros(n) if mk[1] == 'r' else y)
    Q = X
    before = snapshot(m, fitted, Q)
    for width in range(1, case['widths'] + 1):
        for rows in (0, 1, 2, 3):
            for form in ('array', 'list', 'frame', 'csr', 'csc', '1d', '3d', 'int', 'bool', 'float32'):
                A = np.array([[float((i + j) % 3) for j in range(width)] for i in range(rows)]).reshape(rows, width)
                if form in ('list', '1d', '3d') and rows == 0:
                    continue
                B = {'array': lambda: A, 'list': lambda: A.tolist(), 'frame': lambda: pd.DataFrame(A), 'csr': lambda: csr_matrix(A), 'csc': lambda: csc_matrix(A), '1d': lambda: A[0],
                     '3d': lambda: np.array([A] * 2), 'int': lambda: A.astype(int), 'bool': lambda: A > 0, 'float32': lambda: A.astype(np.float32)}[form]()
                ok = fitted and width == nd and form != '3d'
                for name, f in query_calls(m):
                    what = '{} {} fitted on {} features: {} with {} rows of {} features as {}'.format(mk, state, nd, name, rows, width, form)
                    try:
                        r = f(B)
                    except ValueError as e:
                        if ok:
                            raise Violation('{}: rejected ({})'.format(what, e))
                        st.nontrivial += 1
                        st.outcome('query rejected')
                        continue
                    finally:
                        st.traces += 1
                        st.transitions += 1
                    if not ok:
                        raise Violation('{}: returned {!r}'.format(what, r))
                    expected = 1 if form == '1d' else rows
                    if len(r) != expected:
                        raise Violation('{}: {} answers'.format(what, len(r)))
                    st.outcome('query answered')
    if not fitted:
        expect_unfitted(m, X, '{} new'.format(mk))
    if snapshot(m, fitted, Q) != before:
        raise Violation('{} {}: rejected queries changed the model'.format(mk, state))


# ---------------------------------------------------------------- sequences of rejected calls

def sequence(case, st):
    """all sequences of rejected calls on a fitted and a new model, then a valid fit: as if they had not happened"""
    mk = case['model']
    X, y = BASE_X, BASE_Y[mk[1]]
    ops = {
        'labels': lambda m: m.fit(X, y + 0.5) if mk[1] == 'c' else m.fit(X, np.vstack([y, y]).T),
        'length': lambda m: m.fit(X, y[:3]),
        'more rows': lambda m: m.fit(np.vstack([X, X, X])[:, [0, 1, 0]], y),
        'classes': lambda m: m.fit(np.vstack([X, X]), list(y) + [7, 8, 9, 5] if mk[1] == 'c' else ['a'] * 8),
        'cube': lambda m: m.fit(np.zeros((4, 2, 2)), y),
        'text': lambda m: m.fit([['a', 'b']] * 4, y),
        'width': lambda m: m.predict(np.zeros((2, 5))),
        'names': lambda m: m.fit(np.zeros((4, 2)), y[:2], feature_names=['p', 'q']),
        'more classes': lambda m: m.fit(X, [0, 1, 2, 0, 1, 2]),
        'one class': lambda m: m.fit(X, [0, 0, 0]),
    }
    for seq in itertools.product(ops, repeat=case['length']):
        if 'first' in case and seq[0] != list(ops)[case['first']]:
            continue
        for default in (False, True):
            for state in ('new', 'fitted', 'leaf'):
                m = make(mk, 2, default)
                fitted = state != 'new'
                if fitted:
                    # 'leaf': no split is possible, so that the model is a single leaf
                    m.fit(X if state == 'fitted' else np.ones_like(X), y)
                before = snapshot(m, fitted, X)
                for op in seq:
                    try:
                        ops[op](m)
                    except ValueError:
                        continue
                    raise Violation('{} {}: {} was accepted'.format(mk, state, op))
                if snapshot(m, fitted, X) != before:
                    raise Violation('{} {}: the rejected calls {} changed the model'.format(mk, state, seq))
                if not fitted:
                    expect_unfitted(m, X, '{} after {}'.format(mk, seq))
                m.fit(X[::-1], y)
                fresh = make(mk, 2, default).fit(X[::-1], y)
                if ref.full(ref.extract(m)) != ref.full(ref.extract(fresh)):
                    raise Violation('{} {}: a fit after the rejected calls {} gives another tree'.format(mk, state, seq))
                st.traces += 1
                st.transitions += len(seq) + 2
                st.nontrivial += 1
                st.outcome('sequence {}'.format(state))


def families(tier):
    q = tier == 'quick'
    models = list(build.MODELS)
    ext = [1, 2, 3] if q else [1, 2, 3, 4]
    y_shapes = [[]] + [list(s) for k in (1, 2, 3) for s in itertools.product([1, 2, 3] if q else [1, 2, 3, 4], repeat=k)]
    x1 = [[k] for k in ext]
    x2 = [list(s) for s in itertools.product(ext, repeat=2)]
    x3 = [list(s) for s in itertools.product([1, 2, 3] if not q else [1, 2], repeat=3)]
    f = []
    f.append(Family('shapes', lambda: (dict(kind='shapes', model=mk, x=x, form=form, y=ys) for mk in models for x in x1 + x2 + x3
                                       for form in (['array', 'list', 'int'] + (['frame', 'csr', 'csc'] if len(x) == 2 else []))
                                       for ys in [y_shapes[i:i + 10] for i in range(0, len(y_shapes), 10)]),
                    'all shapes of X of 1..3 dimensions and of y of 0..3 dimensions with extents up to {}; 6 representations, new and fitted models'.format(max(ext))))
    f.append(Family('labels', lambda: (dict(kind='labels', model=mk, n=n, first=i, state=s) for s in ('new', 'fitted') for mk in ('pc', 'hc') for n in range(1, 5 if q else 6)
                                       for i in range(len(LABELS))),
                    'all label vectors of 1..{} rows over {}, priors of 1..3 classes and the default prior'.format(4 if q else 5, LABELS)))
    f.append(Family('special-labels', lambda: (dict(kind='labels', model=mk, n=n, first=i, special=True) for mk in ('pc', 'hc') for n in range(1, 4) for i in range(len(LABELS) + 2)),
                    'the same with NaN and infinity, 1..3 rows'))
    f.append(Family('things', lambda: (dict(kind='things', model=mk, arg=a, name=n, valid=v, state=s) for mk in models for a, v, tab in (
        ('x', False, bad_xs()), ('x', True, good_xs()), ('y', False, bad_ys(mk[1])), ('y', True, good_ys(mk[1]))) for n in tab for s in ('new', 'fitted')),
        'every kind of non-numeric or inexact data, and of exact data, as X and as y'))
    f.append(Family('integers', lambda: (dict(kind='integers', model=mk, base=b, width=4 if q else 40) for mk in models for b in (
        2 ** 31, 2 ** 52, 2 ** 53, 2 ** 53 * 3, 2 ** 54, 2 ** 60, 2 ** 63, 2 ** 64 - 1, -2 ** 53, -2 ** 62, -2 ** 63)),
        'all integers within {} of 11 powers of two, as features, queries and targets'.format(4 if q else 40)))
    f.append(Family('large', lambda: (dict(kind='large', model=mk, n=n, w=w, at=a) for mk in models for n, w in (
        [(100, 2), (1000, 2), (1025, 2), (5000, 2), (12, 300), (20000, 2), (70000, 2)] + ([] if q else [(257, 2), (300, 300), (10001, 2), (131073, 2), (300000, 2), (8, 5000)]))
        for a in ('first', 'second', 'middle', 'last')),
        'one inexact integer or invalid label at 4 places of up to {} rows, or of 300 features'.format(70000 if q else 300000)))
    f.append(Family('queries', lambda: (dict(kind='queries', model=mk, nd=nd, state=s, widths=5 if q else 8) for mk in models for nd in range(1, 5 if q else 8)
                                        for s in ('new', 'fitted', 'fitted-constant')),
                    'all query shapes up to 3 rows and {} features in 10 representations against models of 1..{} features'.format(5 if q else 8, 4 if q else 7)))
    f.append(Family('sequences', lambda: (dict(kind='sequence', model=mk, length=k, first=i) for mk in models for k in range(1, 3 if q else 5) for i in range(10)),
                    'all sequences of up to {} rejected calls out of 10 kinds'.format(2 if q else 4)))
    f.append(Family('deep', lambda: (dict(kind='deep', model=mk, n=n, prune=p) for mk in models for n in [2, 20, 100, 200, 300, 1100] for p in ([False, True] if n < 1000 else [False])),
                    'rows whose best tree is a chain of up to 299 levels (and of 1099, see the known findings)'))
    return f
