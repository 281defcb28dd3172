"""C10: thread interleavings of queries on a shared model and of fits of different models."""
import copy
import itertools

import numpy as np
import pandas as pd
from scipy.optimize._differentialevolution import DifferentialEvolutionSolver
from scipy.sparse import csr_matrix, csc_matrix
from sklearn.base import clone

from .. import build, ref
from ..core import Family, Violation
from ..sched import Scheduler
from bayesian_decision_tree.hyperplane_optimization import (
    GradientDescentOptimizer, QuasiRandomHyperplaneOptimizer, RandomHyperplaneOptimizer, RandomTwoPointOptimizer, ScipyOptimizer, SimulatedAnnealingOptimizer)

PID = 'C10'
RULE = ('every schedule of the scenario\'s threads with at most the stated number of preemptions at the stated granularity (lines or bytecode instructions of the '
        'package); results and final models are compared with sequential execution; non-trivial: a preemption took place')
ASSUMPTIONS = ['one bytecode instruction or library call (numpy, scipy, pandas) is atomic; calls are made from Python threads under the GIL']
CASE_TIMEOUT = 600

X = np.array([[0, 1], [1, 0], [2, 2], [3, 1]], dtype=float)
Y = np.array([0, 1, 1, 0], dtype=float)
X2 = np.array([[5, 0, 1], [4, 1, 0], [3, 0, 1]], dtype=float)
Y2 = np.array([1, 1, 0], dtype=float)
X3 = np.array([[5, 0], [4, 1], [3, 0], [2, 1], [1, 0]], dtype=float)  # three classes
Y3 = np.array([1, 2, 0, 0, 2], dtype=float)
XL = np.array([[i % 5, i // 50] for i in range(250)], dtype=float)  # enough rows for another default prior
YL = (XL[:, 1] >= 3).astype(float)
DATA = {'base': (X, Y), 'other': (X2, Y2), 'three': (X3, Y3), 'long': (XL, YL)}
Q = np.array([[0, 1], [2, 2], [9, -1], [3, 1]], dtype=float)
Q1 = np.array([[4, 0], [0, 0], [1, 5]], dtype=float)
Q2 = np.array([[2, 2], [4, 0], [0, 1], [0, 0]], dtype=float)  # as many rows as Q

QB = np.array([[(i * 7) % 11 - 3, i % 9 - 1] for i in range(300)], dtype=float)  # large batches
QB2 = np.array([[(i * 5) % 13 - 2, (i * i) % 7] for i in range(300)], dtype=float)

PRI = {'c': [0.1, 0.1], 'r': [0.5, 0.1, 0.05, 0.01]}
NORMALS = [[1, 0], [0, 1], [1, 1]]


def optimizer(name):
    return {'random': lambda: RandomHyperplaneOptimizer(2, 3), 'quasi': lambda: QuasiRandomHyperplaneOptimizer(2),
            'annealing': lambda: SimulatedAnnealingOptimizer(2, 1, 0.5, 3), 'two-point': lambda: RandomTwoPointOptimizer(2, 3),
            'gradient': lambda: GradientDescentOptimizer(1, 1), 'scipy': lambda: ScipyOptimizer(DifferentialEvolutionSolver, 5, popsize=2, maxiter=1, polish=False)}[name]()


def new(mk, prior, opt=None, prune=False):
    kw = dict(partition_prior=0.999, prior=prior, prune=prune)
    if mk[0] == 'h':
        kw['optimizer'] = opt
    return build.MODELS[mk](**kw)


def plain(v):
    if isinstance(v, np.ndarray):
        return tuple(plain(a) for a in v)
    if isinstance(v, (list, tuple)):
        return tuple(plain(a) for a in v)
    if isinstance(v, (np.floating, np.integer, np.bool_)):
        return float(v)
    return v


def observe(m):
    return (ref.full(ref.extract(m)), str(m))


QUERY = {
    'predict': lambda m, q: m.predict(q),
    'proba': lambda m, q: m.predict_proba(q),
    'paths': lambda m, q: m.prediction_paths(q),
    'raw': lambda m, q: m._get_raw_leaf_data(q) if hasattr(m, '_get_raw_leaf_data') else None,
    'importance': lambda m, q: m.feature_importance(),
    'str': lambda m, q: str(m),
    'shape': lambda m, q: (m.get_depth(), m.get_n_leaves(), m.is_fitted()),
    'misc': lambda m, q: (tuple(m.classes_) if hasattr(m, 'predict_proba') else 0, repr(sorted(m.get_params())), m.is_leaf()),
}


def queries_of(mk):
    return [q for q in QUERY if not (q == 'proba' and mk[1] == 'r') and not (q == 'paths' and mk[0] == 'h')]


FORM = {'dense': lambda a: a, 'csr': csr_matrix, 'csc': csc_matrix, 'list': lambda a: a.tolist(), 'frame': lambda a: pd.DataFrame(a)}


def setup(sc):
    """-> (thread bodies, final observation function); everything is built anew for every schedule"""
    kind, mk = sc['kind'], sc['model']
    prior = None if sc.get('default') else np.array(PRI[mk[1]], dtype=float)
    opt = optimizer(sc.get('opt', 'random'))
    if kind == 'queries':
        m = new(mk, prior, opt)
        m.fit(XL, YL if mk[1] == 'c' else YL + XL[:, 0] * (XL[:, 1] < 2)) if sc.get('large') else m.fit(X, Y)
        q = FORM[sc['form']](QB if sc.get('large') else Q)
        bodies = []
        for i, name in enumerate(sc['queries']):
            qq = q if i == 0 or sc.get('shared') else FORM[sc['form']](QB2 if sc.get('large') else Q2 if sc.get('same_size') else Q1)
            bodies.append(lambda name=name, qq=qq: plain(QUERY[name](m, qq)))
        return bodies, lambda: observe(m)
    if kind == 'fit-fit':
        # different models sharing data, prior and optimizer
        a = new(mk, prior, opt, prune=sc.get('prune', False))
        b = clone(a) if sc['second'] == 'clone' else new(sc['second'], prior if sc['second'][1] == mk[1] or prior is None else np.array(PRI[sc['second'][1]]), opt)
        Xa, ya = DATA[sc.get('data1', 'base')]
        Xa = FORM[sc['form']](Xa)
        Xb, yb = (Xa, ya) if sc['data'] == 'same' else DATA[sc['data']]
        if sc['data'] != 'same':
            Xb = FORM[sc['form']](Xb)
        if 'delta' in sc:
            a.set_params(delta=sc['delta'], split_precision=0.5)
            b.set_params(partition_prior=0.9)
        names = (None, None) if not sc.get('names') else (['p', 'q'], ['r', 's', 't'])

        def fit(m, XX, yy, nn):
            m.fit(XX, yy, feature_names=nn)
            return observe(m)
        return [lambda: fit(a, Xa, ya, names[0]), lambda: fit(b, Xb, yb, names[1])], lambda: (observe(a), observe(b))
    if kind == 'fit-query':
        a = new(mk, prior, opt).fit(X, Y)
        b = clone(a) if sc['second'] == 'clone' else copy.deepcopy(a) if sc['second'] == 'copy' else new(mk, prior, opt)
        q = FORM[sc['form']](Q)

        def fit():
            b.fit(FORM[sc['form']](X2), Y2)
            return observe(b)
        return [fit, lambda: plain([QUERY[n](a, q) for n in sc['queries']])], lambda: (observe(a), observe(b))
    raise ValueError(kind)


_seq = {}


def sequential(sc):
    key = repr(sorted(sc.items(), key=str))
    if key not in _seq:
        results = []
        n = len(setup(sc)[0])
        for i in range(n):  # each thread alone
            bodies, _ = setup(sc)
            results.append(bodies[i]())
        bodies, fin = setup(sc)
        for b in bodies:
            b()
        _seq[key] = (results, fin())
    return _seq[key]


def lengths(sc, opcodes):
    bodies, _ = setup(sc)
    return Scheduler(bodies, range(len(bodies)), [], opcodes).run().points


def run_schedule(sc, order, plan, opcodes, st):
    results, final = sequential(sc)
    bodies, fin = setup(sc)
    s = Scheduler(bodies, order, plan, opcodes).run()
    st.traces += 1
    st.transitions += sum(s.points)
    st.states += s.used + 1
    st.nontrivial += s.used > 0
    for i, (r, e) in enumerate(zip(s.results, s.errors)):
        if e is not None:
            raise Violation('thread {} fails under schedule order={} preemptions={}: {}: {}'.format(i, order, plan, type(e).__name__, e))
        if not build.same(r, results[i], 1e-12):
            raise Violation('thread {} returns {} instead of {} under schedule order={} preemptions={}'.format(i, r, results[i], order, plan))
    f = fin()
    if not build.same(f, final, 1e-12):
        raise Violation('models differ after schedule order={} preemptions={}: {} instead of {}'.format(order, plan, f, final))
    return s


def evaluate(case, st):
    sc = case['scenario']
    st.outcome(sc['kind'] + ' ' + sc['model'])
    if 'plan' in case:
        run_schedule(sc, case['order'], case['plan'], case['opcodes'], st)
        return
    # all schedules whose first preemption is in [lo, hi) with `depth` preemptions
    for k1 in range(case['lo'], case['hi']):
        if case['depth'] == 1:
            s = run_schedule(sc, case['order'], [k1], case['opcodes'], st)
        else:
            n = lengths_cached(sc, case['opcodes'])
            second = case['order'][1]
            for k2 in range(1, n[second] + 1):
                run_schedule(sc, case['order'], [k1, k2], case['opcodes'], st)


_len = {}


def lengths_cached(sc, opcodes):
    key = (repr(sorted(sc.items(), key=str)), opcodes)
    if key not in _len:
        _len[key] = lengths(sc, opcodes)
    return _len[key]


def schedules(scenarios, depth, opcodes, chunk):
    for sc in scenarios:
        n = lengths_cached(sc, opcodes)
        for order in itertools.permutations(range(len(n))):
            if len(n) > 2 and depth == 1 or len(n) == 2:
                for lo in range(1, n[order[0]] + 1, chunk):
                    yield {'scenario': sc, 'order': list(order), 'lo': lo, 'hi': min(lo + chunk, n[order[0]] + 1), 'depth': depth, 'opcodes': opcodes}
            else:
                for lo in range(1, n[order[0]] + 1, chunk):
                    yield {'scenario': sc, 'order': list(order), 'lo': lo, 'hi': min(lo + chunk, n[order[0]] + 1), 'depth': depth, 'opcodes': opcodes}


def query_pairs(mk, form, shared=False):
    for i, (a, b) in enumerate(itertools.combinations_with_replacement(queries_of(mk), 2)):
        yield {'kind': 'queries', 'model': mk, 'form': form, 'queries': [a, b], 'shared': shared, 'same_size': i % 3 < 2}


def families(tier):
    q = tier == 'quick'
    fams = []

    def fam(name, scs, depth, opcodes, chunk, bound):
        fams.append(Family(name, lambda: schedules(scs, depth, opcodes, chunk), bound))

    models = ['pc', 'pr', 'hc', 'hr']
    pairs = [s for mk in models for s in query_pairs(mk, 'dense')]
    fam('query-pairs', pairs, 1, False, 40, 'all pairs of queries on one model, all four models: 1 preemption at every line')
    fam('query-pairs-sparse', [s for mk in models for s in query_pairs(mk, 'csr', True) if set(s['queries']) <= {'predict', 'proba', 'paths', 'raw'}], 1, False, 40,
        'the same with a shared CSR query matrix')
    fam('query-pairs-other-sparse', [s for mk in models for s in query_pairs(mk, 'csr') if set(s['queries']) <= {'predict', 'proba', 'paths', 'raw'}], 1, False, 40,
        'the same with different CSR query matrices')
    fam('query-pairs-frames', [s for mk in models for f in (['frame'] if q else ['frame', 'csc', 'list']) for s in query_pairs(mk, f) if set(s['queries']) <= {'predict', 'proba', 'paths'}], 1, False, 40,
        'the same with different data frames' + ('' if q else ', CSC matrices and lists'))
    fam('query-pairs-large', [dict(s, large=True) for mk in models for f in (['dense'] if q else ['dense', 'csr', 'frame']) for s in query_pairs(mk, f) if set(s['queries']) <= {'predict', 'proba', 'paths'}], 1, False, 40,
        'batches of 300 rows against a model of 250 rows: 1 preemption at every line')
    some = [{'kind': 'queries', 'model': mk, 'form': 'dense', 'queries': list(p), 'same_size': True}
            for mk in models for p in ([('predict', 'predict'), ('predict', 'importance')] + ([('predict', 'proba')] if mk[1] == 'c' else []) + ([('paths', 'predict')] if mk[0] == 'p' else []))]
    fam('query-pairs-2', some if not q else [some[0]], 2, False, 4, 'pairs of queries: 2 preemptions at every pair of lines')
    fam('query-pairs-opcode', some if q else pairs, 1, True, 100, 'pairs of queries: 1 preemption at every bytecode instruction')
    fits = []
    for mk in models:
        fits.append({'kind': 'fit-fit', 'model': mk, 'second': mk, 'data': 'other', 'form': 'dense', 'prune': True})
        fits.append({'kind': 'fit-fit', 'model': mk, 'second': {'pc': 'hc', 'hc': 'pr', 'pr': 'hr', 'hr': 'pc'}[mk], 'data': 'same', 'form': 'csr'})
        if not q:
            fits.append({'kind': 'fit-fit', 'model': mk, 'second': 'clone', 'data': 'same', 'form': 'dense'})
    fits.append({'kind': 'fit-fit', 'model': 'hc', 'second': 'hc', 'data': 'other', 'form': 'dense', 'opt': 'quasi'})
    fits.append({'kind': 'fit-fit', 'model': 'hr', 'second': 'hr', 'data': 'same', 'form': 'csc', 'opt': 'quasi'})
    for opt in ('scipy', 'two-point', 'gradient'):
        fits.append({'kind': 'fit-fit', 'model': 'hc', 'second': 'hc', 'data': 'other', 'form': 'dense', 'opt': opt})
    for mk in models:
        fits.append({'kind': 'fit-fit', 'model': mk, 'second': mk, 'data': 'other', 'form': 'dense', 'delta': 0.5, 'names': True})
        fits.append({'kind': 'fit-fit', 'model': mk, 'second': mk, 'data': 'three' if mk[1] == 'c' else 'other', 'form': 'dense', 'default': True})
        fits.append({'kind': 'fit-fit', 'model': mk, 'second': mk, 'data': 'base', 'data1': 'long', 'form': 'dense', 'default': True})
    fits.append({'kind': 'fit-fit', 'model': 'pc', 'second': 'pc', 'data1': 'three', 'data': 'base', 'form': 'dense', 'default': True, 'prune': True})
    fits.append({'kind': 'fit-fit', 'model': 'pc', 'second': 'pr', 'data1': 'three', 'data': 'other', 'form': 'csr', 'default': True})
    fam('fit-fit', fits, 1, False, 40, 'fits of two models sharing data, prior and optimizer: 1 preemption at every line')
    fq = [{'kind': 'fit-query', 'model': mk, 'second': s, 'form': f, 'queries': [x for x in queries_of(mk)]}
          for mk in models for s, f in ([('clone', 'dense'), ('copy', 'csr')] if q else [('clone', 'dense'), ('new', 'csr'), ('copy', 'frame')])]
    fam('fit-query', fq, 1, False, 40, 'a fit next to all queries on another model (clone, copy, same prior and optimizer): 1 preemption at every line')
    triples = [{'kind': 'queries', 'model': mk, 'form': 'dense', 'queries': ['predict', 'importance', 'shape']} for mk in models]
    fam('three-threads', triples, 2 if not q else 1, False, 4 if not q else 40, 'three query threads: {} preemption(s) at every line, every order'.format(1 if q else 2))
    if not q:
        fam('fit-fit-opcode', fits, 1, True, 100, 'two fits: 1 preemption at every bytecode instruction')
        fam('fit-query-opcode', fq, 1, True, 100, 'fit and queries: 1 preemption at every bytecode instruction')
        fam('fit-fit-annealing', [{'kind': 'fit-fit', 'model': 'hc', 'second': 'hc', 'data': 'other', 'form': 'dense', 'opt': 'annealing'}], 1, False, 40,
            'two fits sharing an annealing optimizer: 1 preemption at every line')
        fam('fit-fit-2', fits[:1] + [{'kind': 'fit-fit', 'model': 'pr', 'second': 'clone', 'data': 'same', 'form': 'dense'}], 2, False, 1, 'two fits: 2 preemptions at every pair of lines')
    return fams
