"""C09: history independence: breadth-first exploration of operation histories of one model against an abstract state machine."""
import copy
import io
import itertools
import pickle
from contextlib import redirect_stdout

import numpy as np
import pandas as pd
from scipy.sparse import csr_matrix, issparse
from sklearn.base import clone

from .. import build, forms, ref
from ..core import Family, Stats, Violation
from bayesian_decision_tree.hyperplane_optimization import QuasiRandomHyperplaneOptimizer, RandomHyperplaneOptimizer, SimulatedAnnealingOptimizer

PID = 'C09'
RULE = ('every sequence of operations up to the depth bound over the alphabet, executed on a real model next to the abstract machine (constructor parameters, parameters '
        'and data of the last successful fit); after the last operation the model (and every copy made on the way) is compared with a fresh model fitted once; '
        'non-trivial: at least two state-changing operations')
ASSUMPTIONS = ['single-threaded histories; parameters of the documented domain']

# ---- data
X1 = [[0, 1], [1, 0], [2, 2], [3, 1], [4, 0], [5, 2]]
Y1 = [0, 0, 1, 0, 1, 1]
X2 = [[0, 1, 3], [1, 0, 1], [2, 2, 2], [3, 1, 0], [4, 0, 2], [5, 2, 1], [2, 5, 0]]
Y2 = [1, 0, 1, 1, 0, 0, 1]
X3 = [[7, 7], [7, 7], [7, 7]]
Y3 = [0, 1, 1]
DATA = {'D1': (X1, Y1), 'D2': (X2, Y2), 'D3': (X3, Y3), 'D4': ([[2, 1]], [0]),
        # as many features as D1 (and, for D5, as many rows)
        'D6': ([[0, 2], [1, 1], [2, 0], [3, 2], [4, 1], [5, 5], [6, 0]], [0, 2, 1, 1, 0, 2, 2]),
        'D7': ([[0, 2], [1, 1], [2, 0], [3, 2], [4, 1]], [3, 2, 1, 1, 0]),
        'D8': ([[0, 1], [1, 1], [2, 0], [3, 2], [4, 0], [5, 0], [6, 1]], [0, 0, 0, 0, 0, 1, 0]),
        'D5': ([[0, 2], [3, 1], [1, 1], [2, 0], [4, 2], [5, 0]], [1, 0, 1, 1, 0, 0])}
NAMES = ['alpha', 'beta']


def optimizers():
    return {'o1': RandomHyperplaneOptimizer(6, 3), 'o2': QuasiRandomHyperplaneOptimizer(7), 'o3': SimulatedAnnealingOptimizer(3, 2, 0.5, 9)}


SETS = {
    'S_pp': ('partition_prior', 0.2),
    'S_prune': ('prune', True),
    'S_delta': ('delta', 0.5),
    'S_prior': ('prior', 'B'),
    'S_prior0': ('prior', None),
    'S_prec': ('split_precision', 1.5),
    'S_opt': ('optimizer', 'o2'),
}
PRIORS = {'c': {'A': [0.2, 0.2], 'B': [3, 1], 'one': [0.7]}, 'r': {'A': [0.5, 0.1, 0.05, 0.01], 'B': [0, 2, 1, 0.2]}}

FITS = {'F1': ('D1', 'plain'), 'F2': ('D2', 'plain'), 'F3': ('D3', 'plain'), 'F4': ('D4', 'plain'), 'FN': ('D1', 'named'), 'FV': ('D2', 'verbose'), 'F5': ('D5', 'plain'), 'FM': ('D5', 'scribbled')}
MORE_FITS = {'F6': ('D6', 'plain'), 'F7': ('D7', 'plain'), 'F8': ('D8', 'plain')}  # three and four classes; much to prune
FITS = {**FITS, **MORE_FITS}
QUERIES = {'Q': 'all queries', 'QB': 'rejected query'}
BAD = ['B_label', 'B_len', 'B_dim', 'B_str']
COPIES = ['clone', 'clone_keep', 'deepcopy', 'deepcopy_keep', 'pickle', 'pickle_keep']


class World:
    """the caller's objects: handed to the models and never to be changed by them"""

    def __init__(self, kind):
        self.priors = {k: list(v) for k, v in PRIORS[kind].items()}
        self.priors['B'] = np.array(self.priors['B'], dtype=float)  # one prior is a list, the other one an array
        self.opts = optimizers()
        self.data = {k: (np.array(X, dtype=float), np.array(y, dtype=float)) for k, (X, y) in DATA.items()}
        self.frame = pd.DataFrame(self.data['D1'][0].copy(), columns=NAMES)
        self.names = ['n1', 'n2', 'n3']

    def param(self, name, v):
        return self.priors[v] if name == 'prior' and v is not None else self.opts[v] if name == 'optimizer' and v is not None else v

    def check(self, kind):
        fresh = World(kind)
        if any(type(self.priors[k]) is not type(v) or list(self.priors[k]) != list(v) for k, v in fresh.priors.items()) or self.names != fresh.names:
            raise Violation('the caller\'s prior or feature names were modified: {}'.format(self.priors))
        for k in fresh.data:
            for a, b in zip(self.data[k], fresh.data[k]):
                if a.dtype != b.dtype or not np.array_equal(a, b):
                    raise Violation('the caller\'s training data {} were modified'.format(k))
        if not self.frame.equals(fresh.frame):
            raise Violation('the caller\'s DataFrame was modified')
        for k in fresh.opts:
            if str(self.opts[k]) != str(fresh.opts[k]):
                raise Violation('the optimizer was modified: {} instead of {}'.format(self.opts[k], fresh.opts[k]))


def base_params(mk):
    p = {'partition_prior': 0.999, 'prior': 'A', 'delta': 0, 'prune': False, 'split_precision': 0.0}
    if mk[0] == 'h':
        p['optimizer'] = 'o1'
    return p


def construct(mk, params, world):
    return build.MODELS[mk](**{k: world.param(k, v) for k, v in params.items()})


def do_fit(m, op, world):
    data, how = FITS[op]
    X, y = world.data[data]
    if how == 'named':
        r = m.fit(world.frame, y)
    elif how == 'verbose':
        with redirect_stdout(io.StringIO()):
            r = m.fit(X, y, verbose=True, feature_names=world.names)
    elif how == 'scribbled':
        # the caller goes on to use the arrays for something else
        names = ['a', 'b']
        X, y = X.copy(), y.copy()
        r = m.fit(X, y, feature_names=names)
        X[:] = -77
        y[:] = 0
        names[:] = ['?', '?', '?']
    else:
        r = m.fit(X, y)
    if r is not m:
        raise Violation('fit() returned another object')


def one_row(m, params, world):
    m.set_params(prior=world.priors['one'])
    do_fit(m, 'F4', world)
    m.set_params(prior=world.param('prior', params['prior']))


def bad_fit(m, op, mk, world):
    X, y = world.data['D2']
    try:
        if op == 'B_label':
            m.fit(X, y + 1.5 if mk[1] == 'c' else np.vstack([y, y]).T)
        elif op == 'B_len':
            m.fit(X, list(range(3)))
        elif op == 'B_dim':
            m.fit(np.zeros((2, 2, 2)), [0, 1])
        else:
            m.fit([['a', 'b'], ['c', 'd']], [0, 1])
    except ValueError:
        return
    raise Violation('{}: an invalid training set was accepted'.format(op))


QX = {2: [[0, 1], [2.5, 1], [3, 3], [9, -1], [1, 2], [4, 0]], 3: [[0, 1, 3], [2.5, 1, 0], [3, 3, 1], [9, -1, 2], [4, 0, 0]]}


def full_csr(A):
    """a CSR matrix that stores every entry (also zeros), so that all values can be overwritten in place"""
    n, d = A.shape
    return csr_matrix((A.ravel().copy(), np.tile(np.arange(d), n), np.arange(0, n * d + 1, d)), shape=(n, d))


_buffers = {}


def reused_buffers(m, nd, rows):
    """the caller fills the same objects with other rows between two queries (and between the models of a process)"""
    A = np.array(QX[nd], dtype=float)
    if nd not in _buffers:
        shown = A.copy()
        _buffers[nd] = {'array': shown, 'frame': pd.DataFrame(shown, copy=False), 'csr': full_csr(A), 'csc': full_csr(A).tocsc()}
    for name, Q in _buffers[nd].items():
        for order in (slice(None, None, -1), slice(None)):
            B = A[order]
            if name == 'csr':
                Q.data[:] = B.ravel()
            elif name == 'csc':
                Q.data[:] = B.T.ravel()
            else:
                _buffers[nd]['array'][:] = B  # the frame shows the array
            if name == 'frame' and not np.array_equal(Q.values, B):
                raise AssertionError('the frame is a copy')
            if [float(v) for v in m.predict(Q)] != [r[0] for r in rows][order]:
                raise Violation('predict() of a reused {} gives {} instead of {}'.format(name, m.predict(Q), [r[0] for r in rows][order]))
    got = build.answer_rows(m, _buffers[nd]['csr'], raw=False)
    if not build.same([(r[0], r[1], r[3]) for r in got], [(r[0], r[1], r[3]) for r in rows], 0):
        raise Violation('a reused csr matrix gives {} instead of {}'.format(got, rows))


def observe(m):
    """all answers of the model, as plain values"""
    if not m.is_fitted():
        for q in ('predict', 'predict_proba', 'prediction_paths', 'feature_importance'):
            f = getattr(m, q, None)
            if f is None:
                continue
            try:
                f() if q == 'feature_importance' else f([[0, 1]])
            except ValueError:
                continue
            raise Violation('{}() on an unfitted model did not raise ValueError'.format(q))
        return ('unfitted', str(m))
    t = ref.extract(m)
    out = [('tree', ref.full(t)), ('depth', m.get_depth()), ('leaves', m.get_n_leaves()), ('str', str(m), repr(m))]
    nd = int(m.n_dim_)
    rows = build.answer_rows(m, np.array(QX[nd], dtype=float), raw=len(t.post) > 1)
    # the raw prior is a parameter rather than a fitted quantity (and does not fit the posterior of one class if it was changed)
    out.append(('rows', tuple((r[0], r[1], r[2][len(r[2]) // 2:] if r[2] is not None else None, r[3]) for r in rows)))
    reused_buffers(m, nd, rows)
    if t.split:
        out.append(('importance', tuple(float(v) for v in m.feature_importance())))
    if hasattr(m, 'predict_proba'):
        out.append(('classes', tuple(float(v) for v in m.classes_)))
    return tuple(out)


_expected = {}


def expected(mk, fitted):
    if fitted is None:
        return ('unfitted', 'Unfitted model')
    key = (mk, tuple(sorted(fitted[0].items(), key=str)), fitted[1])
    if key not in _expected:
        w = World(mk[1])
        m = construct(mk, fitted[0], w)
        do_fit(m, fitted[1], w)
        _expected[key] = observe(m)
        # the fresh model itself has to be what the reference says: global state must not have leaked into it
        X, y = DATA[FITS[fitted[1]][0]]
        p = fitted[0]
        prior = None if p['prior'] is None else PRIORS[mk[1]][p['prior']]
        if not p['prune']:
            pb = ref.Problem(X, y, mk[1], prior, p['partition_prior'], p['delta'], p['split_precision'])
            if mk[0] == 'p':
                ref.conform_perp(pb, ref.extract(m), Stats())
            else:
                ref.conform_hyper(pb, ref.extract(m), Stats(), None)
    return _expected[key]


def check_model(mk, m, params, fitted, what):
    got, exp = observe(m), expected(mk, fitted)
    if not build.same(got, exp, 1e-12):
        diff = [(a, b) for a, b in zip(got, exp) if not build.same(a, b, 1e-12)][:1]
        raise Violation('{}: the model answers unlike a fresh one fitted once ({}): {}'.format(what, fitted, diff))
    w = World(mk[1])
    p = m.get_params()
    for k, v in params.items():
        e = w.param(k, v)
        same = str(p[k]) == str(e) if k == 'optimizer' else p[k] == e if k != 'prior' or e is None or p[k] is None else list(p[k]) == list(e)
        if not same:
            raise Violation('{}: constructor parameter {} reads {!r} instead of {!r}'.format(what, k, p[k], e))


def snapshot(o):
    """everything the caller can see of an object handed to a model"""
    if isinstance(o, pd.DataFrame):
        return ('frame', o.to_numpy(dtype=object, copy=True).tolist(), list(o.columns), list(o.index), [str(t) for t in o.dtypes])
    if isinstance(o, (pd.Series, pd.Index)):
        return ('series', o.tolist(), str(o.dtype), list(o.index) if isinstance(o, pd.Series) else None)
    if issparse(o):
        return ('sparse', o.format, o.shape, str(o.dtype), o.data.tobytes(), o.indices.tobytes(), o.indptr.tobytes())
    if isinstance(o, np.ndarray):
        return ('array', str(o.dtype), o.shape, o.strides, o.flags.writeable, o.tolist() if o.dtype == object else o.tobytes())
    return (type(o).__name__, repr(o))


SHOWN = {
    'plain': ([[0, 1], [1, 0], [2, 2], [3, 1], [4, 0], [5, 2]], [0, 0, 1, 0, 1, 1]),
    'zeros': ([[0, -0.0], [-0.0, 0], [2, 0], [0, -1], [-3, 0], [0, 0]], [0, -0.0, 1, 0, 1, 1]),
    'large': ([[1e6 + i, -1e6 * i] for i in (3, 1, 2, 5, 4)], [1, 0, 0, 1, 1]),
    'repeated': ([[2, 2], [2, 2], [1, 2], [1, 2], [0.5, 2]], [1, 1, 0, 0, 1]),
}
SHOWN_TARGETS = [(1, 0), (2, 1e6), (1e-9, 3), (0.1, -0.3), (-1e9, 0)]


def evaluate_callers_objects(case, st):
    """one fit and all queries with objects of the caller, none of which may change"""
    A, b = np.array(case['X'], dtype=float), np.array(case['y'], dtype=float)
    X, y, Q = forms.X_FORMS[case['xf']](A), forms.Y_FORMS[case['yf']](b), forms.X_FORMS[case['xf']](A[::-1])
    if X is None or y is None or Q is None:
        st.extra['not_representable'] += 1
        return
    m = build.make(case)
    names = ['p', 'q']
    shown = {'X': X, 'y': y, 'prior': m.prior, 'query': Q, 'feature names': names}
    before = {k: snapshot(v) for k, v in shown.items()}

    def check(what):
        for k, v in shown.items():
            if snapshot(v) != before[k]:
                raise Violation('{} with {} as {}, targets as {}: {} of the caller changed from {} to {}'.format(
                    what, 'X', case['xf'], case['yf'], k, before[k], snapshot(v)))
    for _ in range(2):
        m.fit(X, y, feature_names=names if case['xf'] in ('C', 'csr') else None)
        check('fit')
    for q in ('predict', 'predict_proba', 'prediction_paths', '_get_raw_leaf_data'):
        if hasattr(m, q):
            r = getattr(m, q)(Q)
            check(q)
            if isinstance(r, np.ndarray) and r.flags.writeable:
                again = r.copy()
                r[...] = -5  # the answer belongs to the caller
                if not np.array_equal(np.asarray(getattr(m, q)(Q)), again):
                    raise Violation('{}: overwriting the answer changes the model'.format(q))
            elif isinstance(r, list):
                again = copy.deepcopy(r)
                for p in r:
                    p.append('x')
                if getattr(m, q)(Q) != again:
                    raise Violation('{}: overwriting the answer changes the model'.format(q))
    if case['yf'] in ('float64', 'readonly', 'series'):
        m.score(Q, y)
    str(m)
    if not m.is_leaf():
        r = m.feature_importance()
        again = r.copy()
        r[...] = -5
        if not np.array_equal(m.feature_importance(), again):
            raise Violation('feature_importance: overwriting the answer changes the model')
    check('score')
    st.traces += 1
    st.states += 1
    st.nontrivial += not m.is_leaf()
    st.outcome('objects of the caller')


def callers_objects(q):
    for name, (X, y) in SHOWN.items():
        for mk in ('pc', 'pr', 'hc', 'hr'):
            for a, c in SHOWN_TARGETS if mk[1] == 'r' else [(1, 0)]:
                yy = [a * v + c for v in y]
                for xf in forms.X_FORMS:
                    for yf in forms.Y_FORMS:
                        if xf not in ('C', 'csr', 'F') and yf not in ('float64', 'readonly', 'series', 'column') or (a, c) != (1, 0) and xf not in ('C', 'csc', 'frame'):
                            continue
                        for delta in (0, 0.5) if xf in ('C', 'csr') else (0,):
                            yield dict(kind='caller', model=mk, X=X, y=yy, xf=xf, yf=yf, delta=delta, pp=0.999, pf=build.PRIOR_FORMS[len(xf) % 5],
                                       prior=[0.2, 0.3] if mk[1] == 'c' else [c, 0.1, 0.05, 0.01 * a * a])


def evaluate(case, st):
    if case.get('kind') == 'caller':
        return evaluate_callers_objects(case, st)
    mk = case['model']
    world = World(mk[1])
    params = dict(base_params(mk), **case.get('params', {}))
    m = construct(mk, params, world)
    fitted = None
    side = []
    for i, op in enumerate(case['ops']):
        st.transitions += 1
        if op == 'F4' and mk[1] == 'c':
            # a single row has a single class
            one_row(m, params, world)
            fitted = (dict(params, prior='one'), op)
        elif op in FITS:
            do_fit(m, op, world)
            fitted = (dict(params), op)
        elif op in BAD:
            bad_fit(m, op, mk, world)
        elif op == 'Q':
            observe(m)
        elif op == 'QB':
            if fitted is not None:
                for q in ('predict', 'predict_proba', 'prediction_paths'):
                    if hasattr(m, q):
                        try:
                            getattr(m, q)(np.zeros((2, 5)))
                        except ValueError:
                            continue
                        raise Violation('{}() accepted rows with too many features'.format(q))
        elif op in SETS:
            k, v = SETS[op]
            m.set_params(**{k: world.param(k, v)})
            params[k] = v
        elif op.startswith('set:'):
            for k, v in combination(mk, int(op[4:])).items():
                m.set_params(**{k: world.param(k, v)})
                params[k] = v
        elif op.startswith('clone'):
            side.append((m, dict(params), fitted)) if op == 'clone' else side.append((clone(m), dict(params), None))
            if op == 'clone':
                m, fitted = clone(m), None
        else:
            c = copy.deepcopy(m) if op.startswith('deepcopy') else pickle.loads(pickle.dumps(m))
            if op.endswith('_keep'):
                side.append((c, dict(params), fitted))
            else:
                side.append((m, dict(params), fitted))
                m = c
    what = ' '.join(case['ops'])
    check_model(mk, m, params, fitted, what)
    for k, (c, p, f) in enumerate(side):
        check_model(mk, c, p, f, what + ' (other object {})'.format(k + 1))
    world.check(mk[1])
    st.traces += 1
    st.states += 1 + len(side)
    ops = case['ops']
    st.nontrivial += sum(1 for o in ops if o not in QUERIES) >= 2
    st.outcome('{} {}'.format(mk, 'unfitted' if fitted is None else fitted[1]))


SWITCHED = [('prune', False, True), ('prior', 'A', 'B'), ('delta', 0, 0.5), ('split_precision', 0.0, 1.5), ('partition_prior', 0.999, 0.2), ('optimizer', 'o1', 'o2')]


def combination(mk, mask):
    return {k: (a, b)[mask >> i & 1] for i, (k, a, b) in enumerate(SWITCHED) if k != 'optimizer' or mk[0] == 'h'}


def alphabet(mk):
    return [f for f in FITS if f not in MORE_FITS] + list(QUERIES) + BAD + [s for s in SETS if s != 'S_opt' or mk[0] == 'h'] + COPIES


def families(tier):
    q = tier == 'quick'
    fs = []

    fs.append(Family('callers-objects', lambda: callers_objects(q),
                     '4 data sets x 4 models x {} representations of X x {} of y (targets on 5 scales): no object handed to fit or a query changes, and answers are the caller\'s own'.format(
                         len(forms.X_FORMS), len(forms.Y_FORMS))))

    def seqs(mk, alpha, lo, hi, prefix=(), suffix=(), params=None):
        for n in range(lo, hi + 1):
            for ops in itertools.product(alpha, repeat=n):
                c = dict(model=mk, ops=list(prefix) + list(ops) + list(suffix))
                if params:
                    c['params'] = params
                yield c

    d = 3 if q else 4
    for mk in ('pc', 'pr', 'hc', 'hr'):
        dd = d if mk[0] == 'p' or not q else 3
        fs.append(Family('histories-' + mk, lambda mk=mk, dd=dd: seqs(mk, alphabet(mk), 0, dd),
                         'all histories of 0..{} operations over an alphabet of {}'.format(dd, len(alphabet(mk)))))
    for mk in ('pc', 'pr', 'hc', 'hr'):
        n = 64 if mk[0] == 'h' else 32
        fs.append(Family('there-and-back-' + mk, lambda mk=mk, n=n: (
            dict(model=mk, params=combination(mk, a), ops=[f, 'set:{}'.format(b), g]) for f, g in (('F8', 'F8'), ('F1', 'F8'), ('F8', 'F5')) + (() if q else (('F2', 'F2'), ('F6', 'F8')))
            for a in range(n) for b in range(n) if f != 'F6' or mk[1] == 'r'),
            'two fits with every pair of the {} combinations of two values per parameter'.format(n)))
    small = ['F1', 'F2', 'F3', 'F5', 'Q', 'B_label', 'S_prune', 'S_delta', 'S_prior', 'pickle']
    dd = 4 if q else 6
    fs.append(Family('deep-pc', lambda: seqs('pc', small, dd, dd), 'all histories of {} operations over {}'.format(dd, small)))
    small_r = ['F1', 'F2', 'FM', 'Q', 'B_len', 'S_delta', 'S_prior', 'deepcopy_keep']
    ddr = 4 if q else 5
    fs.append(Family('deep-pr', lambda: seqs('pr', small_r, ddr, ddr), 'all histories of {} operations over {}'.format(ddr, small_r)))
    small_h = ['F1', 'F2', 'F5', 'S_opt', 'S_prune', 'clone', 'B_label']
    fs.append(Family('deep-hc', lambda: seqs('hc', small_h, ddr, ddr), 'all histories of {} operations over {}'.format(ddr, small_h)))
    classes = ['F1', 'F2', 'F3', 'F6', 'F7', 'Q', 'B_len', 'pickle', 'deepcopy_keep']
    for mk in ('pc', 'hc'):
        dc = 4 if mk == 'pc' else 3
        fs.append(Family('classes-' + mk, lambda mk=mk, dc=dc: seqs(mk, classes, 1, dc, params={'prior': None}),
                         'all histories of 1..{} operations over {} without prior (2, 3 and 4 classes)'.format(dc, classes)))
    for mk in ('hc', 'hr'):
        fs.append(Family('other-optimizers-' + mk, lambda mk=mk: itertools.chain(*[
            seqs(mk, ['F1', 'F2', 'F3', 'F5', 'pickle', 'clone'], 2, 2 if q else 3, params={'optimizer': o}) for o in ('o2', 'o3')]),
            'two or three operations with the quasi-random and the annealing optimizer'))
        fs.append(Family('default-optimizer-' + mk, lambda mk=mk: seqs(mk, ['F1', 'F3', 'F5', 'clone'] if q else ['F1', 'F2', 'F3', 'F5', 'pickle', 'clone'], 2, 2 if q else 3, params={'optimizer': None}),
                         'two or three operations with the default optimizer (differential evolution)'))
    return fs
