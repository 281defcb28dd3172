"""C20: models as scikit-learn estimators, against manual loops."""
import copy
import io
import itertools
import math
import pickle

import joblib
import numpy as np
import pandas as pd
from scipy.sparse import csc_matrix, csr_matrix
from sklearn.base import clone, is_classifier, is_regressor
from sklearn.compose import ColumnTransformer
from sklearn.ensemble import BaggingClassifier, BaggingRegressor, VotingClassifier, VotingRegressor
from sklearn.inspection import permutation_importance
from sklearn.model_selection import GridSearchCV, KFold, LeaveOneOut, StratifiedKFold, cross_val_predict, cross_val_score, cross_validate, learning_curve, validation_curve
from sklearn.multiclass import OneVsRestClassifier
from sklearn.multioutput import MultiOutputClassifier, MultiOutputRegressor
from sklearn.pipeline import Pipeline, make_pipeline
from sklearn.preprocessing import FunctionTransformer, StandardScaler

from .. import build, ref, spaces
from ..core import Family, Violation
from bayesian_decision_tree.hyperplane_optimization import QuasiRandomHyperplaneOptimizer, RandomHyperplaneOptimizer, SimulatedAnnealingOptimizer

PID = 'C20'
RULE = ('every combination of constructor parameters, every subset of changed parameters, every target vector x splitter x scorer / meta-estimator of the family: the result '
        'through scikit-learn equals the result of fitting and evaluating models by hand on the same folds and parameters; non-trivial: the model that is used has a split or a parameter was changed')
ASSUMPTIONS = ['the splitters, scalers and scorer definitions of the installed scikit-learn are trusted; accuracy, log loss, Brier score, AUC and errors are recomputed by hand',
               'every training fold contains every class (labels have to be 0..K-1)']


def optimizer(name):
    return {None: lambda: None, 'quasi': lambda: QuasiRandomHyperplaneOptimizer(6), 'random': lambda: RandomHyperplaneOptimizer(5, 3), 'annealing': lambda: SimulatedAnnealingOptimizer(3, 2, 0.5, 9)}[name]()


def kwargs(mk, c):
    """c: JSON-able values -> constructor arguments"""
    kw = dict(c)
    how = kw.pop('typed', None)
    if how:
        kw = {k: typed(v, how) for k, v in kw.items()}
    if kw.get('prior') == 'array':
        kw['prior'] = np.array([0.3, 0.7] if mk[1] == 'c' else [0.5, 0.2, 0.1, 0.05])
    elif kw.get('prior') == 'list':
        kw['prior'] = [0.2, 0.1] if mk[1] == 'c' else [0.5, 1, 0.5, 0.1]
    elif kw.get('prior') == 'tuple':
        kw['prior'] = (0.2, 0.1) if mk[1] == 'c' else (0.5, 1, 0.5, 0.1)
    if mk[0] == 'h':
        kw['optimizer'] = optimizer(kw.get('optimizer', 'quasi'))
    else:
        kw.pop('optimizer', None)
    return kw


def tree(m):
    return ref.full(ref.extract(m))


def typed(v, how):
    """the same value as another scalar type"""
    if isinstance(v, bool):
        return np.bool_(v) if how == 'numpy' else int(v)
    if isinstance(v, (int, float)):
        return np.float64(v) if how == 'numpy' else int(v) if v == int(v) else v
    return v


def same_params(m, kw, what):
    p = m.get_params()
    for k, v in kw.items():
        if k not in p:
            raise Violation('{}: get_params() lacks {}'.format(what, k))
        a = p[k]
        if hasattr(v, 'solve'):
            ok = type(a) is type(v) and str(a) == str(v)
        elif v is None or a is None:
            ok = v is a
        else:
            ok = np.array_equal(np.asarray(a, dtype=float), np.asarray(v, dtype=float)) and (isinstance(a, (bool, np.bool_)) == isinstance(v, (bool, np.bool_)))
        if not ok:
            raise Violation('{}: parameter {} is {!r} instead of {!r}'.format(what, k, a, v))


def fitted(m):
    return m.is_fitted()


XS = np.array([[0, 2], [1, 7], [3, 0], [4, 3], [7, 1], [8, 5], [12, 4], [2, 6]], dtype=float)


def evaluate(case, st):
    {'params': params, 'subsets': subsets, 'score': score, 'cv': cv, 'grid': grid, 'meta': meta, 'copies': copies}[case['kind']](case, st)
    st.outcome('{} {}'.format(case['kind'], case['model']))


# ---------------------------------------------------------------- parameters

def params(case, st):
    mk = case['model']
    cls = build.MODELS[mk]
    kw = kwargs(mk, case['kw'])
    X, y = XS[:6], np.array([0, 1, 1, 0, 1, 0], dtype=float)
    m = cls(**kw)
    same_params(m, kw, 'constructed')
    t = tree(m.fit(X, y))
    same_params(m, kw, 'fitted')
    if 'typed' in case['kw'] and tree(cls(**kwargs(mk, {k: v for k, v in case['kw'].items() if k != 'typed'})).fit(X, y)) != t:
        raise Violation('parameters given as other scalar types: another tree')
    c = clone(m)
    if fitted(c):
        raise Violation('the clone of a fitted model is fitted')
    same_params(c, kw, 'clone')
    if not fitted(m) or tree(m) != t:
        raise Violation('cloning changed the original')
    if tree(c.fit(X, y)) != t:
        raise Violation('the clone is fitted to another tree')
    c2 = clone(cls(**kwargs(mk, case['kw'])), safe=True)
    if tree(c2.fit(X, y)) != t:
        raise Violation('the clone of an unfitted model is fitted to another tree')
    s = cls(0.5).set_params(**kwargs(mk, case['kw']))
    same_params(s, kw, 'set_params')
    c3 = clone(clone(s))
    same_params(c3, kw, 'clone of a clone after set_params')
    if tree(c3.fit(X, y)) != t:
        raise Violation('a clone after set_params is fitted to another tree')
    if tree(s.fit(X, y)) != t:
        raise Violation('a model with set_params is fitted to another tree')
    r = cls(**{k: v for k, v in m.get_params().items() if k != 'level'})
    if tree(r.fit(X, y)) != t:
        raise Violation('a model from get_params is fitted to another tree')
    if is_classifier(m) != (mk[1] == 'c') or is_regressor(m) != (mk[1] == 'r'):
        raise Violation('the kind of the estimator is wrong')
    if mk[1] == 'c':
        if list(m.classes_) != [0, 1] or m.predict_proba(X).shape != (len(X), 2):
            raise Violation('classes_ is {} with probabilities of shape {}'.format(m.classes_, m.predict_proba(X).shape))
    elif hasattr(m, 'predict_proba'):
        raise Violation('a regression tree has predict_proba')
    st.traces += 5
    st.states += 5
    st.transitions += 5
    st.nontrivial += t[0] == 'S'


A = {'partition_prior': 0.999, 'prior': 'list', 'delta': 0, 'prune': False, 'split_precision': 0.0, 'optimizer': 'quasi'}
B = {'partition_prior': 0.3, 'prior': 'array', 'delta': 0.5, 'prune': True, 'split_precision': 1.5, 'optimizer': 'annealing'}


def subsets(case, st):
    """a model with all parameters A, then (in every order) the subset set to B, before or after a fit: like a model constructed that way"""
    mk = case['model']
    cls = build.MODELS[mk]
    X, y = XS[:6], np.array([0, 1, 1, 0, 1, 0], dtype=float)
    names = case['names']
    exp = tree(cls(**kwargs(mk, dict(A, **{n: B[n] for n in names}))).fit(X, y))
    for order in (itertools.permutations(names) if len(names) <= 3 else [tuple(names), tuple(names)[::-1]]):
        for when in ('new', 'fitted'):
            m = cls(**kwargs(mk, A))
            if when == 'fitted':
                t0 = tree(m.fit(X, y))
            for n in order:
                r = m.set_params(**{n: kwargs(mk, B)[n]})
                if r is not m:
                    raise Violation('set_params does not return the model')
            same_params(m, kwargs(mk, dict(A, **{n: B[n] for n in names})), 'after set_params')
            if when == 'fitted' and tree(m) != t0:
                raise Violation('set_params changed a fitted tree')
            c = clone(m)
            if tree(c.fit(X, y)) != exp or tree(m.fit(X, y)) != exp:
                raise Violation('after set_params of {} the model is fitted to another tree'.format(order))
            st.traces += 1
            st.states += 2
            st.transitions += len(order) + 2
    st.nontrivial += 1


# ---------------------------------------------------------------- scores

def by_hand(name, y, pred, proba):
    n = len(y)
    if name in ('accuracy', None):
        return sum(float(a) == float(b) for a, b in zip(y, pred)) / n
    if name == 'balanced_accuracy':
        cl = sorted(set(y))
        return sum(sum(float(a) == float(b) for a, b in zip(y, pred) if a == c) / sum(a == c for a in y) for c in cl) / len(cl)
    if name == 'neg_log_loss':
        eps = np.finfo(float).eps
        return math.fsum(math.log(min(max(p[int(a)], eps), 1 - eps) if False else p[int(a)]) for a, p in zip(y, proba)) / n
    if name == 'neg_brier_score':
        return -math.fsum((p[1] - a) ** 2 for a, p in zip(y, proba)) / n
    if name == 'roc_auc':
        pos = [p[1] for a, p in zip(y, proba) if a == 1]
        neg = [p[1] for a, p in zip(y, proba) if a == 0]
        return math.fsum(1.0 if abs(a - b) > 1e-14 and a > b else 0.5 if abs(a - b) <= 1e-14 else 0.0 for a in pos for b in neg) / (len(pos) * len(neg))
    if name == 'r2':
        mean = math.fsum(y) / n
        return 1 - math.fsum((a - b) ** 2 for a, b in zip(y, pred)) / math.fsum((a - mean) ** 2 for a in y)
    if name == 'neg_mean_squared_error':
        return -math.fsum((a - b) ** 2 for a, b in zip(y, pred)) / n
    if name == 'neg_mean_absolute_error':
        return -math.fsum(abs(a - b) for a, b in zip(y, pred)) / n
    if name == 'max_error':
        return -max(abs(a - b) for a, b in zip(y, pred))
    raise AssertionError(name)


SCORERS = {'c': ['accuracy', 'balanced_accuracy', 'neg_log_loss', 'neg_brier_score', 'roc_auc', None], 'r': ['r2', 'neg_mean_squared_error', 'neg_mean_absolute_error', 'max_error', None]}


def score(case, st):
    mk = case['model']
    X, y = np.array(case['X'], dtype=float), np.array(case['y'], dtype=float)
    m = build.MODELS[mk](**kwargs(mk, case['kw'])).fit(X, y)
    for k in range(2, len(y) + 1):
        for yy in ([y[:k], y[::-1][:k]] if mk[1] == 'c' else [y[:k], y[::-1][:k] + 0.25]):
            Q = X[:k]
            if mk[1] == 'r' and len(set(yy)) < 2:
                continue
            pred = m.predict(Q).tolist()
            exp = by_hand('accuracy' if mk[1] == 'c' else 'r2', yy.tolist(), pred, None)
            forms = [(Q, yy), (Q.tolist(), yy.tolist()), (csr_matrix(Q), yy), (csc_matrix(Q), pd.Series(yy, index=range(7, 7 + k))), (pd.DataFrame(Q), pd.Series(yy)), (np.asfortranarray(Q), tuple(yy))]
            if mk[1] == 'r':
                forms.append((Q, yy.reshape(-1, 1)))
            for i, (QQ, yyy) in enumerate(forms):
                got = m.score(QQ, yyy)
                if not ref.close(got, exp):
                    raise Violation('score with data of form {} is {!r} instead of {!r}'.format(i, got, exp))
            for w in (np.arange(1, k + 1), np.array([3.0, 0.0, 0.5, 2.0, 1.0, 0.25, 4.0, 1.0])[:k]):
                for ww in (w, w.tolist(), pd.Series(w)):
                    if mk[1] == 'c':
                        exp = sum(v for v, a, b in zip(w, yy, pred) if a == b) / w.sum()
                    else:
                        mean = math.fsum(v * a for v, a in zip(w, yy)) / math.fsum(w)
                        total = math.fsum(v * (a - mean) ** 2 for v, a in zip(w, yy))
                        if total < 1e-9:
                            continue
                        exp = 1 - math.fsum(v * (a - b) ** 2 for v, a, b in zip(w, yy, pred)) / total
                    if not ref.close(m.score(Q, yy, sample_weight=ww), exp):
                        raise Violation('the weighted score is not {!r}'.format(exp))
            st.traces += 1
            st.transitions += 1
    st.states += 1
    st.nontrivial += m.get_depth() > 0


def splitters(name, kind):
    return {'2': KFold(2), '3': KFold(3), '3s': KFold(3, shuffle=True, random_state=1), 'strat': StratifiedKFold(2), 'strat-shuffled': StratifiedKFold(2, shuffle=True, random_state=5), 'loo': LeaveOneOut(),
            'default': 2}[name]


def folds(name, kind, X, y):
    s = splitters(name, kind)
    if s == 2:
        s = StratifiedKFold(2) if kind == 'c' else KFold(2)
    return [(list(a), list(b)) for a, b in s.split(X, y)]


def as_form(X, form):
    return {'dense': lambda: X, 'csr': lambda: csr_matrix(X), 'csc': lambda: csc_matrix(X), 'frame': lambda: pd.DataFrame(X, columns=['a', 'b'][:X.shape[1]])}[form]()


def cv(case, st):
    mk, form = case['model'], case.get('form', 'dense')
    kind = mk[1]
    X, y = np.array(case['X'], dtype=float), np.array(case['y'], dtype=float)
    K = len(set(y))
    kw = case['kw']
    try:
        f = folds(case['split'], kind, X, y)
    except ValueError:
        return
    if kind == 'c' and any(len(set(y[tr])) < K for tr, te in f):
        return
    make = lambda: build.MODELS[mk](**kwargs(mk, kw))
    models = [make().fit(X[tr], y[tr]) for tr, te in f]
    XX = as_form(X, form)
    split = splitters(case['split'], kind)
    # predictions
    got = cross_val_predict(make(), XX, y, cv=split)
    exp = np.zeros(len(y))
    for m, (tr, te) in zip(models, f):
        exp[te] = m.predict(X[te])
    if not build.same(got.tolist(), exp.tolist()):
        raise Violation('cross_val_predict gives {} instead of {}'.format(got, exp))
    if kind == 'c':
        got = cross_val_predict(make(), XX, y, cv=split, method='predict_proba')
        exp = np.zeros((len(y), K))
        for m, (tr, te) in zip(models, f):
            exp[te] = m.predict_proba(X[te])
        if not build.same(got.tolist(), exp.tolist()):
            raise Violation('cross_val_predict gives the probabilities {} instead of {}'.format(got, exp))
    # scores
    for scorer in SCORERS[kind]:
        exp = []
        for m, (tr, te) in zip(models, f):
            yt = y[te].tolist()
            if scorer in ('neg_brier_score', 'roc_auc') and (K != 2 or len(set(yt)) < 2) or scorer == 'neg_log_loss' and len(set(yt)) < K or kind == 'r' and scorer in ('r2', None) and len(set(yt)) < 2:
                break
            exp.append(by_hand(scorer if scorer else 'accuracy' if kind == 'c' else 'r2', yt, m.predict(X[te]).tolist(), m.predict_proba(X[te]).tolist() if kind == 'c' else None))
        else:
            got = cross_val_score(make(), XX, y, cv=split, scoring=scorer, error_score='raise')
            if not build.same(got.tolist(), exp, 1e-9):
                raise Violation('cross_val_score with {} gives {} instead of {}'.format(scorer, got.tolist(), exp))
            st.traces += 1
            st.transitions += len(f)
    res = cross_validate(make(), XX, y, cv=split, return_estimator=True, scoring='accuracy' if kind == 'c' else 'neg_mean_squared_error', error_score='raise')
    for e, m in zip(res['estimator'], models):
        if tree(e) != tree(m) and form != 'frame':
            raise Violation('cross_validate fitted {} instead of {}'.format(e, m))
    st.traces += 2
    st.transitions += 2 * len(f)
    st.states += len(f)
    st.nontrivial += any(m.get_depth() for m in models)


# ---------------------------------------------------------------- grid search

def grid(case, st):
    mk = case['model']
    kind = mk[1]
    X, y = np.array(case['X'], dtype=float), np.array(case['y'], dtype=float)
    K = len(set(y))
    f = folds('3', kind, X, y)
    if kind == 'c' and any(len(set(y[tr])) < K for tr, te in f):
        return
    values = {k: list(v) for k, v in case['grid'].items()}
    base = case['kw']
    conv = {k: [kwargs(mk, dict(base, **{k: x}))[k] for x in v] for k, v in values.items()}
    scorer = 'neg_log_loss' if kind == 'c' and all(len(set(y[te])) == K for tr, te in f) else 'accuracy' if kind == 'c' else 'neg_mean_squared_error'
    g = GridSearchCV(build.MODELS[mk](**kwargs(mk, base)), conv, cv=KFold(3), scoring=scorer, error_score='raise').fit(X, y)
    exp = []
    names = sorted(values)
    for combo in itertools.product(*[values[n] for n in names]):
        kw = kwargs(mk, dict(base, **dict(zip(names, combo))))
        s = []
        for tr, te in f:
            m = build.MODELS[mk](**kw).fit(X[tr], y[tr])
            s.append(by_hand(scorer, y[te].tolist(), m.predict(X[te]).tolist(), m.predict_proba(X[te]).tolist() if kind == 'c' else None))
        exp.append((combo, s))
    got = [[float(g.cv_results_['split{}_test_score'.format(i)][j]) for i in range(len(f))] for j in range(len(exp))]
    if not build.same(got, [s for c, s in exp]):
        raise Violation('grid search scores {} instead of {}'.format(got, [s for c, s in exp]))
    means = [sum(s) / len(s) for c, s in exp]
    best = max(means)
    if not ref.close(g.best_score_, best):
        raise Violation('grid search finds {} instead of {}'.format(g.best_score_, best))
    refit = build.MODELS[mk](**kwargs(mk, dict(base, **dict(zip(names, exp[g.best_index_][0]))))).fit(X, y)
    if tree(g.best_estimator_) != tree(refit):
        raise Violation('the best estimator is {} instead of {}'.format(g.best_estimator_, refit))
    if not build.same(g.predict(X).tolist(), refit.predict(X).tolist()):
        raise Violation('the grid search does not predict like its best estimator')
    st.traces += len(exp)
    st.states += len(exp)
    st.transitions += len(exp) * len(f)
    st.nontrivial += refit.get_depth() > 0


# ---------------------------------------------------------------- meta-estimators

def meta(case, st):
    mk = case['model']
    kind = mk[1]
    X, y = np.array(case['X'], dtype=float), np.array(case['y'], dtype=float)
    K = len(set(y))
    make = lambda **o: build.MODELS[mk](**kwargs(mk, dict(case['kw'], **o)))
    Q = np.vstack([X, X + 0.3, X - 1.7])
    # pipelines
    scaler = StandardScaler().fit(X)
    m = make().fit(scaler.transform(X), y)
    p = make_pipeline(StandardScaler(), make()).fit(X, y)
    if not build.same(p.predict(Q).tolist(), m.predict(scaler.transform(Q)).tolist()):
        raise Violation('the pipeline predicts {} instead of {}'.format(p.predict(Q), m.predict(scaler.transform(Q))))
    fn = FunctionTransformer(lambda A: np.hstack([A, A[:, :1] * A[:, -1:]]))
    p2 = Pipeline([('f', fn), ('t', make())])
    p2.set_params(t__partition_prior=0.6).fit(X, y)
    m2 = make(partition_prior=0.6).fit(fn.transform(X), y)
    if not build.same(p2.predict(Q).tolist(), m2.predict(fn.transform(Q)).tolist()) or tree(p2.named_steps['t']) != tree(m2):
        raise Violation('the second pipeline predicts {} instead of {}'.format(p2.predict(Q), m2.predict(fn.transform(Q))))
    if p2.get_params()['t__partition_prior'] != 0.6:
        raise Violation('nested parameter')
    a, b = make().fit(X, y), make(partition_prior=0.2).fit(X, y)
    if kind == 'c':
        if not build.same(p.predict_proba(Q).tolist(), m.predict_proba(scaler.transform(Q)).tolist()):
            raise Violation('probabilities of the pipeline')
        if not ref.close(p.score(X, y), by_hand('accuracy', y.tolist(), m.predict(scaler.transform(X)).tolist(), None)):
            raise Violation('score of the pipeline')
        v = VotingClassifier([('a', make()), ('b', make(partition_prior=0.2))], voting='soft').fit(X, y)
        exp = (a.predict_proba(Q) + b.predict_proba(Q)) / 2
        if not build.same(v.predict_proba(Q).tolist(), exp.tolist()):
            raise Violation('soft voting gives {} instead of {}'.format(v.predict_proba(Q), exp))
        if K > 2:
            o = OneVsRestClassifier(make(prior='list')).fit(X, y)
            P = np.array([make(prior='list').fit(X, (y == c).astype(int)).predict_proba(Q)[:, 1] for c in range(K)]).T
            P = P / P.sum(axis=1, keepdims=True)
            if not build.same(o.predict_proba(Q).tolist(), P.tolist()):
                raise Violation('one-versus-rest gives {} instead of {}'.format(o.predict_proba(Q), P))
    else:
        v = VotingRegressor([('a', make()), ('b', make(partition_prior=0.2))]).fit(X, y)
        exp = (a.predict(Q) + b.predict(Q)) / 2
        if not build.same(v.predict(Q).tolist(), exp.tolist()):
            raise Violation('voting gives {} instead of {}'.format(v.predict(Q), exp))
    # ensembles of subsets of the features
    B = (BaggingClassifier if kind == 'c' else BaggingRegressor)(make(), n_estimators=3, max_features=1, bootstrap=False, random_state=4).fit(X, y)
    parts = [make().fit(X[:, f], y) for f in B.estimators_features_]
    for e, f, x in zip(B.estimators_, B.estimators_features_, parts):
        if tree(e) != tree(x):
            raise Violation('bagging fitted {} instead of {}'.format(e, x))
    get = lambda e, A: (e.predict_proba if kind == 'c' else e.predict)(A)
    exp = sum(get(x, Q[:, f]) for x, f in zip(parts, B.estimators_features_)) / len(parts)
    if not build.same(get(B, Q).tolist(), exp.tolist()):
        raise Violation('bagging gives {} instead of {}'.format(get(B, Q), exp))
    # columns of a frame by name
    F = lambda A: pd.DataFrame(A, columns=list('ab'))
    ct = make_pipeline(ColumnTransformer([('t', 'passthrough', ['b', 'a'])]), make()).fit(F(X), y)
    m3 = make().fit(X[:, ::-1], y)
    if tree(ct[-1]) != tree(m3) or not build.same(ct.predict(F(Q)).tolist(), m3.predict(Q[:, ::-1]).tolist()):
        raise Violation('the pipeline with selected columns predicts {} instead of {}'.format(ct.predict(F(Q)), m3.predict(Q[:, ::-1])))
    # several targets at once
    M = (MultiOutputClassifier if kind == 'c' else MultiOutputRegressor)(make()).fit(X, np.array([y, y[::-1]]).T)
    exp = np.array([make().fit(X, t).predict(Q) for t in (y, y[::-1])]).T
    if not build.same(M.predict(Q).tolist(), exp.tolist()):
        raise Violation('several targets: {} instead of {}'.format(M.predict(Q), exp))
    # importance by permutation: three permutations per column
    r = permutation_importance(make().fit(X, y), X, y, n_repeats=3, random_state=2, scoring='accuracy' if kind == 'c' else 'neg_mean_squared_error')
    name = 'accuracy' if kind == 'c' else 'neg_mean_squared_error'
    used = {n.dim for n in ref.nodes(ref.extract(a)) if n.split} if mk[0] == 'p' else {0, 1}
    for i in range(X.shape[1]):
        if i not in used and any(r.importances[i] != 0):
            raise Violation('permuting feature {}, which is in no split, changes the score'.format(i))
    # curves over a parameter and over the number of rows
    cvs = [(list(range(len(y))), list(range(len(y))))]
    pps = [0.2, 0.9, 0.999]
    tr_s, te_s = validation_curve(make(), X, y, param_name='partition_prior', param_range=pps, cv=cvs, scoring=name, error_score='raise')
    exp = [[by_hand(name, y.tolist(), make(partition_prior=v).fit(X, y).predict(X).tolist(), None)] for v in pps]
    if not build.same(tr_s.tolist(), exp) or not build.same(te_s.tolist(), exp):
        raise Violation('the validation curve is {} instead of {}'.format(te_s, exp))
    sizes = [k for k in range(2, len(y) + 1) if len(set(y[:k])) == K or kind == 'r']
    if sizes:
        got = learning_curve(make(), X, y, train_sizes=sizes, cv=cvs, scoring=name, error_score='raise')
        models = [make().fit(X[:k], y[:k]) for k in sizes]
        for j, (lo, hi) in enumerate(((1, None), (2, None))):
            exp = [[by_hand(name, (y[:k] if j == 0 else y).tolist(), mm.predict(X[:k] if j == 0 else X).tolist(), None)] for k, mm in zip(sizes, models)]
            if not build.same(got[1 + j].tolist(), exp):
                raise Violation('the learning curve is {} instead of {}'.format(got[1 + j], exp))
    st.traces += 10
    st.states += 10
    st.transitions += 10
    st.nontrivial += m.get_depth() > 0


# ---------------------------------------------------------------- copies

def copies(case, st):
    mk = case['model']
    X, y = np.array(case['X'], dtype=float), np.array(case['y'], dtype=float)
    m = build.MODELS[mk](**kwargs(mk, case['kw'])).fit(X, y)
    Q = np.vstack([X, X + 0.3, X - 1.7])

    def state(a):
        imp = a.feature_importance().tolist() if a.get_depth() else None
        return (tree(a), build.answer_rows(a, Q), imp, str(a), a.get_depth(), a.get_n_leaves(), {k: str(v) for k, v in a.get_params().items()})

    ref_state = state(m)

    def job(a):
        f = io.BytesIO()
        joblib.dump(a, f)
        f.seek(0)
        return joblib.load(f)

    ways = {'pickle{}'.format(k): (lambda a, k=k: pickle.loads(pickle.dumps(a, k))) for k in range(2, pickle.HIGHEST_PROTOCOL + 1)}
    ways.update({'deepcopy': copy.deepcopy, 'joblib': job, 'twice': lambda a: pickle.loads(pickle.dumps(copy.deepcopy(a)))})
    for name, f in ways.items():
        c = f(m)
        if type(c) is not type(m) or not build.same(list(state(c)), list(ref_state), 0):
            raise Violation('the copy by {} answers {} instead of {}'.format(name, state(c), ref_state))
        # the copy lives on its own
        c.fit(X[:, ::-1], y[::-1])
        if not build.same(list(state(m)), list(ref_state), 0):
            raise Violation('fitting the copy by {} changed the original'.format(name))
        fresh = build.MODELS[mk](**kwargs(mk, case['kw'])).fit(X[:, ::-1], y[::-1])
        if tree(c) != tree(fresh):
            raise Violation('fitting the copy by {} gives another tree than a new model'.format(name))
        st.traces += 1
        st.states += 1
        st.transitions += 2
    u = pickle.loads(pickle.dumps(build.MODELS[mk](**kwargs(mk, case['kw']))))
    if fitted(u) or tree(u.fit(X, y)) != ref_state[0]:
        raise Violation('the copy of an unfitted model')
    st.nontrivial += m.get_depth() > 0


def families(tier):
    q = tier == 'quick'
    S = spaces
    models = list(build.MODELS)
    KW = {'partition_prior': 0.999, 'prior': None}

    def param_space():
        for mk in models:
            for pp, prior, delta, prune, prec in itertools.product([0.01, 0.9, 0.9999], ['list', 'array', 'tuple', None], [0, 0.5, 1], [False, True], [0.0, 1.5] if q else [0.0, 1, 1.5, 100]):
                for o in ([None] if mk[0] == 'p' else ['quasi', 'annealing'] if q else ['quasi', 'random', 'annealing', None]):
                    if o is None and mk[0] == 'h' and prec:
                        continue
                    kw = {'partition_prior': pp, 'prior': prior, 'delta': delta, 'prune': prune, 'split_precision': prec, 'optimizer': o}
                    yield dict(kind='params', model=mk, kw=kw)
                    if prior in ('list', None):
                        for how in ('numpy', 'integer'):
                            yield dict(kind='params', model=mk, kw=dict(kw, typed=how))

    def subset_space():
        for mk in models:
            names = [n for n in A if mk[0] == 'h' or n != 'optimizer']
            for k in range(0, len(names) + 1):
                for s in itertools.combinations(names, k):
                    yield dict(kind='subsets', model=mk, names=list(s))

    rows = XS.tolist()
    cl = lambda n, K=2: S.labelled_sequence(rows[:n], list(range(K)), S.has_classes(K))
    rg = lambda n: S.labelled_sequence(rows[:n], [0, 1.5, 5])

    def data(n_c, n_r, n_3=0, models=models):
        for mk in models:
            for X, y in (cl(n_c) if mk[1] == 'c' else rg(n_r)):
                yield dict(model=mk, X=X, y=y)
            if n_3 and mk[1] == 'c':
                for X, y in cl(n_3, 3):
                    yield dict(model=mk, X=X, y=y)

    def with_(gen, **kw):
        for d in gen:
            yield dict(d, kw=KW, **kw)

    def cv_space():
        for split in ('2', '3s', 'strat', 'default') if q else ('2', '3', '3s', 'strat', 'strat-shuffled', 'loo', 'default'):
            yield from with_(data(6 if q else 7, 4 if q else 5, 5 if q else 6), kind='cv', split=split)
        for form in ('csr', 'csc', 'frame'):
            yield from with_(data(5 if q else 6, 4), kind='cv', split='2', form=form)

    GRIDS = {'c': [{'partition_prior': [0.2, 0.9, 0.9999], 'prior': ['list', 'array']}, {'delta': [0, 0.5], 'prune': [False, True], 'split_precision': [0.0, 1.5]}],
             'r': [{'partition_prior': [0.2, 0.9, 0.9999], 'prior': ['list', 'array', None]}, {'delta': [0, 0.5], 'prune': [False, True], 'split_precision': [0.0, 1.5]}]}

    def grid_space():
        for d in data(6 if q else 8, 4 if q else 5):
            for g in GRIDS[d['model'][1]]:
                if d['model'][0] == 'h' and 'prior' not in g:
                    g = dict(g, optimizer=['quasi', 'random'])
                yield dict(d, kind='grid', kw=KW, grid=g)

    return [
        Family('params', param_space, 'all combinations of parameter values x 4 models'),
        Family('subsets', subset_space, 'all subsets of parameters changed with set_params (all orders up to 3), before and after a fit'),
        Family('score', lambda: with_(data(6 if q else 8, 4 if q else 6, 5 if q else 6), kind='score'), 'all target vectors: score() on all prefixes'),
        Family('cross-validation', cv_space, 'all target vectors over 4..7 rows x splitters x scorers by name, dense, sparse and DataFrame'),
        Family('grid-search', grid_space, 'all target vectors x 2 parameter grids'),
        Family('meta', lambda: with_(data(5 if q else 7, 4 if q else 5, 4 if q else 6), kind='meta'), 'all target vectors: pipelines, selected columns, voting, one-versus-rest, bagging, several targets, permutation importance, validation and learning curves'),
        Family('copies', lambda: with_(data(5 if q else 7, 4 if q else 5, 4 if q else 6), kind='copies'), 'all target vectors: pickle (all protocols), joblib, deepcopy'),
    ]
