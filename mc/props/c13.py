"""C13: the built-in optimizers against an adversarial objective function."""
import itertools
import random

import numpy as np
from scipy.optimize._differentialevolution import DifferentialEvolutionSolver

from .. import build, optuna_stub, ref, spaces
from ..core import Family, Violation
from bayesian_decision_tree import hyperplane_optimization as ho

optuna_stub.install()

PID = 'C13'
RULE = ('every optimizer configuration x number of features x answer strategy of the objective: a base sequence with every choice of up to the stated number of calls at which the '
        'environment deviates; the proposals are monitored (search space, number, termination) and have to be the same when repeated, reused, interleaved and '
        'under any global random state; non-trivial: the environment deviates or more than ten proposals were made')
ASSUMPTIONS = ['the objective takes finitely many different finite values (as the real one does); at most 200000 proposals count as termination',
               'OptunaOptimizer runs against a stand-in for optuna (not installed here) with the argument order of the real functions']
CASE_TIMEOUT = 300

CALL_LIMIT = 200000

CONFIGS = {
    'random-1': lambda: ho.RandomHyperplaneOptimizer(1, 0),
    'random-7': lambda: ho.RandomHyperplaneOptimizer(7, 666),
    'twopoint-1': lambda: ho.RandomTwoPointOptimizer(1, 0),
    'twopoint-9': lambda: ho.RandomTwoPointOptimizer(9, 5),
    'quasi-1': lambda: ho.QuasiRandomHyperplaneOptimizer(1),
    'quasi-12': lambda: ho.QuasiRandomHyperplaneOptimizer(12),
    'annealing-4-2': lambda: ho.SimulatedAnnealingOptimizer(4, 2, 0.9, 1),
    'annealing-1-1': lambda: ho.SimulatedAnnealingOptimizer(1, 1, 0.5, 2),
    'annealing-5-3': lambda: ho.SimulatedAnnealingOptimizer(5, 3, 1.0, 3),
    'annealing-2-5': lambda: ho.SimulatedAnnealingOptimizer(2, 5, 0.9, 4),
    'annealing-spreading': lambda: ho.SimulatedAnnealingOptimizer(4, 2, 1.5, 1),
    'annealing-exploding': lambda: ho.SimulatedAnnealingOptimizer(3, 3, 20.0, 0),
    'annealing-frozen': lambda: ho.SimulatedAnnealingOptimizer(3, 1, 0.0, 9),
    'gradient-1-4': lambda: ho.GradientDescentOptimizer(1, 4),
    'gradient-3-2': lambda: ho.GradientDescentOptimizer(3, 2),
    'gradient-1-1': lambda: ho.GradientDescentOptimizer(1, 1),
    'gradient-6-3': lambda: ho.GradientDescentOptimizer(6, 3),
    'scipy-4': lambda: ho.ScipyOptimizer(DifferentialEvolutionSolver, 666, popsize=5, maxiter=2),
    'scipy-nopolish': lambda: ho.ScipyOptimizer(DifferentialEvolutionSolver, 1, popsize=4, maxiter=4, polish=False),
    'scipy-0': lambda: ho.ScipyOptimizer(DifferentialEvolutionSolver, 0, popsize=4, maxiter=2),
    'scipy-last': lambda: ho.ScipyOptimizer(DifferentialEvolutionSolver, 2 ** 32 - 1, popsize=3, maxiter=2, polish=False),
    'random-last': lambda: ho.RandomHyperplaneOptimizer(4, 2 ** 32 - 1),
    'twopoint-numpy': lambda: ho.RandomTwoPointOptimizer(5, np.int64(12)),
    'annealing-0': lambda: ho.SimulatedAnnealingOptimizer(4, 2, 0.8, 0),
    'optuna-1': lambda: ho.OptunaOptimizer(1, 0),
    'optuna-9': lambda: ho.OptunaOptimizer(9, 3),
    'optuna-40': lambda: ho.OptunaOptimizer(40, 2 ** 32 - 1),
    'random-700': lambda: ho.RandomHyperplaneOptimizer(700, 11),
    'twopoint-700': lambda: ho.RandomTwoPointOptimizer(700, 12),
    'quasi-700': lambda: ho.QuasiRandomHyperplaneOptimizer(700),
    'quasi-4099': lambda: ho.QuasiRandomHyperplaneOptimizer(4099),
    'optuna-300': lambda: ho.OptunaOptimizer(300, 7),
    'annealing-60-40': lambda: ho.SimulatedAnnealingOptimizer(60, 40, 0.95, 5),
    'gradient-40-20': lambda: ho.GradientDescentOptimizer(40, 20),
    'default': None,
}
COUNT = {'random-1': 1, 'random-7': 7, 'twopoint-1': 1, 'twopoint-9': 9, 'quasi-1': 1, 'quasi-12': 12, 'random-last': 4, 'twopoint-numpy': 5, 'optuna-1': 1, 'optuna-9': 9, 'optuna-40': 40,
         'random-700': 700, 'twopoint-700': 700, 'quasi-700': 700, 'quasi-4099': 4099, 'optuna-300': 300}

BASES = {
    'zero': lambda i: 0.0,
    'alternate': lambda i: float(i % 2),
    'saw': lambda i: float(i % 5),
    'down': lambda i: -float(min(i, 40)),
    'up': lambda i: float(min(i, 40)),
    'late': lambda i: -1.0 if i in (30, 60, 61, 90) else 0.0,
    'big': lambda i: [1e6, -1e6, 0.0, 1e-6][(i * i) % 4],
}


class Capture(ho.HyperplaneOptimizer):
    def __init__(self, cube):
        super().__init__(search_space_is_unit_hypercube=cube)

    def solve(self, optimization_function):
        self.f = optimization_function


class TooMany(Exception):
    pass


def objective(cube, nd, shift=0):
    """a real optimization function over nd features, whose compute() can be replaced"""
    X = np.array([[float((i * (j + 2) + j + shift) % 7) for j in range(nd)] for i in range(6)])
    y = np.array([0, 1, 1, 0, 2, 1], dtype=float)
    if nd % 2:
        # equal rows of different classes
        X[1] = X[3] = X[0]
    c = Capture(cube)
    build.MODELS['hc'](0.9, [1, 1, 1], optimizer=c).fit(X, y)
    return c.f


def play(opt, nd, base, deviations, name, shift=0, f=None):
    """-> proposals"""
    cube = opt.search_space_is_unit_hypercube
    f = f or objective(cube, nd, shift)
    calls = []
    fun = BASES[base]

    def compute(v):
        v = np.array(v, dtype=float)
        i = len(calls)
        if i >= CALL_LIMIT:
            raise TooMany()
        if cube:
            if v.shape != (nd - 1,) or not np.all(np.isfinite(v)) or not np.all(v >= 0) or not np.all(v <= 1):
                raise Violation('{}: proposal {} is {}, which is not in the unit hypercube of dimension {}'.format(name, i, v, nd - 1))
        elif v.shape != (nd,) or not np.all(np.isfinite(v)):
            raise Violation('{}: proposal {} is {}, which is not a finite vector of dimension {}'.format(name, i, v, nd))
        calls.append(tuple(v.tolist()))
        return deviations.get(i, fun(i))

    f.compute = compute
    try:
        opt.solve(f)
    except TooMany:
        raise Violation('{}: does not terminate (more than {} proposals)'.format(name, CALL_LIMIT))
    return calls


def make_opt(name):
    if CONFIGS[name] is not None:
        return CONFIGS[name]()
    # the default optimizer: what a model without optimizer uses; only reachable by fitting
    return ho.ScipyOptimizer(DifferentialEvolutionSolver, 666)


def global_state():
    s = np.random.get_state()
    return (s[0], tuple(s[1].tolist()), s[2:], random.getstate())


def evaluate(case, st):
    if case.get('trees'):
        return evaluate_trees(case, st)
    name, nd, base = case['config'], case['nd'], case['base']
    dev = {int(k): v for k, v in case['dev']}
    np.random.seed(1)
    random.seed(1)
    g0 = global_state()
    opt = make_opt(name)
    before = str(opt)
    calls = play(opt, nd, base, dev, name)
    if global_state() != g0:
        raise Violation('{}: the global random state changed'.format(name))
    if name in COUNT and len(calls) != COUNT[name]:
        raise Violation('{}: {} proposals instead of {}'.format(name, len(calls), COUNT[name]))
    if not calls:
        raise Violation('{}: nothing was proposed'.format(name))
    # reuse of the object under another global state, after use for another problem
    np.random.seed(77)
    random.seed(77)
    play(opt, nd + 1, 'saw', {}, name, shift=1)
    again = play(opt, nd, base, dev, name)
    if again != calls:
        raise Violation('{}: the reused optimizer proposes {} instead of {}'.format(name, diff(again, calls), diff(calls, again)))
    fresh = play(make_opt(name), nd, base, dev, name)
    if fresh != calls:
        raise Violation('{}: a second optimizer with the same arguments proposes {} instead of {}'.format(name, diff(fresh, calls), diff(calls, fresh)))
    if str(opt) != before:
        raise Violation('{}: solving changed the optimizer: {} instead of {}'.format(name, opt, before))
    st.traces += 4
    st.states += len(calls)
    st.transitions += len(calls)
    st.nontrivial += bool(dev) or len(calls) > 10
    st.outcome('{} proposals~{}'.format(name, len(calls) if len(calls) < 20 else 10 * (len(calls) // 10)))


def diff(a, b):
    for i, (x, y) in enumerate(itertools.zip_longest(a, b)):
        if x != y:
            return '{}: {}'.format(i, x)
    return ''


def evaluate_trees(case, st):
    """real objective: trees do not depend on the optimizer object's history or on the global random state"""
    name = case['config']
    X = np.array(case['X'], dtype=float)
    y = np.array(case['y'], dtype=float)
    X2 = np.array([[float((i * (j + 2)) % 5) for j in range(X.shape[1] + 1)] for i in range(7)])
    y2 = np.array([0, 1, 0, 1, 1, 0, 1], dtype=float)

    def tree(opt, XX=X, yy=y):
        return ref.full(ref.extract(build.MODELS[case['model']](0.9999, None, optimizer=opt).fit(XX, yy)))

    mk = lambda: None if CONFIGS[name] is None else CONFIGS[name]()
    shared = mk()
    np.random.seed(5)
    random.seed(5)
    g = global_state()
    first = tree(shared)
    if global_state() != g:
        raise Violation('{}: fitting changed the global random state'.format(name))
    other = tree(shared, X2, y2)
    np.random.seed(6)
    random.seed(6)
    if tree(shared) != first or tree(mk()) != first:
        raise Violation('{}: the tree differs when the optimizer is reused or created anew'.format(name))
    if tree(shared, X2, y2) != other:
        raise Violation('{}: the tree of another problem differs when the optimizer is reused'.format(name))
    st.traces += 5
    st.states += 2
    st.transitions += 5
    st.nontrivial += 1
    st.outcome('trees {}'.format(name))


def families(tier):
    q = tier == 'quick'
    fams = []
    cheap = [c for c in CONFIGS if not c.startswith(('scipy', 'default'))]

    def singles(configs, nds, bases, n, values):
        for c in configs:
            for nd in nds:
                for b in bases:
                    yield dict(config=c, nd=nd, base=b, dev=[])
                    for i in range(n):
                        for v in values:
                            yield dict(config=c, nd=nd, base=b, dev=[[i, v]])

    def doubles(configs, nds, bases, n, values):
        for c in configs:
            for nd in nds:
                for b in bases:
                    for i, j in itertools.combinations(range(n), 2):
                        for v, w in itertools.product(values, repeat=2):
                            yield dict(config=c, nd=nd, base=b, dev=[[i, v], [j, w]])

    def trees(configs, models):
        for X, y in itertools.islice(spaces.labelled_sequence([[0, 0.5], [0.25, 1.75], [1.5, 2.1], [1.1, 0.3], [2.7, 1.2]], [0, 1], spaces.has_classes(2)), 0, None, 3 if q else 1):
            for c in configs:
                for mk in models:
                    if c.startswith('twopoint') and mk == 'hr':
                        continue
                    yield dict(trees=True, config=c, model=mk, X=X, y=y)

    def prefixes(configs, nds, length, alphabet):
        """all answer sequences of the given length, followed by the last value"""
        for c in configs:
            for nd in nds:
                for seq in itertools.product(alphabet, repeat=length):
                    yield dict(config=c, nd=nd, base='zero', dev=[[i, v] for i, v in enumerate(seq)])

    ann = ['annealing-4-2', 'annealing-1-1', 'annealing-5-3', 'annealing-2-5', 'annealing-spreading']
    grad = ['gradient-3-2', 'gradient-1-1', 'gradient-6-3', 'gradient-1-4']
    fams.append(Family('bases', lambda: singles(list(CONFIGS), [2, 3, 4], list(BASES), 0, []), 'all {} configurations x 2..4 features x 7 answer sequences'.format(len(CONFIGS))))
    fams.append(Family('one-deviation', lambda: singles(ann + grad, [2, 3], list(BASES) if not q else ['zero', 'alternate', 'down'], 60 if q else 120, [-50.0, 0.5]),
                       'annealing and gradient descent: a deviation at every one of the first {} answers'.format(60 if q else 120)))
    fams.append(Family('answer-prefixes', lambda: prefixes(grad + ann, [2, 3], 5 if q else 7, [0.0, -1.0, 1.0]),
                       'annealing and gradient descent: all sequences of the first {} answers over 3 values'.format(5 if q else 7)))
    fams.append(Family('gradient-answers', lambda: prefixes(['gradient-1-1'], [2, 3], 8 if q else 10, [0.0, -1.0, 1.0]),
                       'gradient descent of one candidate: all sequences of the first {} answers over 3 values'.format(8 if q else 10)))
    fams.append(Family('two-deviations', lambda: doubles(ann + grad, [2], ['zero', 'down'], 14 if q else 50, [-50.0, 0.5]),
                       'annealing and gradient descent: two deviations among the first {} answers'.format(14 if q else 50)))
    fams.append(Family('scipy', lambda: singles(['scipy-4', 'scipy-nopolish', 'scipy-0'], [2, 3], list(BASES) if not q else ['zero', 'saw'], 12 if q else 60, [-50.0, 0.5]),
                       'differential evolution: a deviation at every one of the first {} answers'.format(12 if q else 60)))
    fams.append(Family('oblivious', lambda: itertools.chain(singles([c for c in cheap if c in COUNT], [2, 3, 5, 8, 13], ['zero', 'big'], 8, [-50.0]),
                                                        singles(['random-1', 'random-7', 'twopoint-1', 'twopoint-9'], [1], ['zero', 'big'], 8, [-50.0])),
                       'the non-adaptive optimizers: up to 13 features, a deviation at every answer'))
    long = ['random-700', 'twopoint-700', 'quasi-700', 'quasi-4099', 'optuna-300', 'annealing-60-40', 'gradient-40-20']
    fams.append(Family('trees-long', lambda: itertools.islice(trees(long, ['hc', 'hr']), 26 if q else None), 'the same with optimizers of up to 4099 proposals'))
    fams.append(Family('trees', lambda: trees([c for c in CONFIGS if c not in ['default'] + long], ['hc', 'hr']), 'identical trees from reused and new optimizer objects under different global random states'))
    fams.append(Family('trees-default', lambda: itertools.islice(trees(['default'], ['hc', 'hr']), 6 if q else None), 'the same with the default optimizer'))
    return fams
