"""A stand-in for optuna, which is not installed here: the calls OptunaOptimizer makes, with the argument order of the real functions (optuna 1.x to 4.x).

The sampler is a simple adaptive one: every second trial of a parameter is drawn around the best value so far. Without a seed it takes its
randomness from the operating system, as the real one does."""
import sys
import types

import numpy as np


class TPESampler:
    def __init__(self, consider_prior=True, prior_weight=1.0, consider_magic_clip=True, consider_endpoints=False, n_startup_trials=10, n_ei_candidates=24,
                 gamma=None, weights=None, seed=None, *, multivariate=False, group=False, warn_independent_sampling=True, constant_liar=False):
        self.rng = np.random.RandomState(seed)


class RandomSampler:
    def __init__(self, seed=None):
        self.rng = np.random.RandomState(seed)


class Trial:
    def __init__(self, study, number):
        self.study, self.number, self.params = study, number, {}

    def suggest_float(self, name, low, high, *, step=None, log=False):
        if low > high:
            raise ValueError('low > high')
        if name not in self.params:
            u = self.study.sampler.rng.uniform(low, high)
            if self.number % 2 and self.study.best is not None and name in self.study.best[1]:
                u = min(max(low, self.study.best[1][name] + 0.1 * (u - 0.5 * (low + high))), high)
            self.params[name] = u
        return self.params[name]

    def suggest_uniform(self, name, low, high):
        return self.suggest_float(name, low, high)


class Study:
    def __init__(self, sampler, sign):
        self.sampler, self.sign, self.best, self.n = sampler, sign, None, 0

    def optimize(self, func, n_trials=None, timeout=None, n_jobs=1, catch=(), callbacks=None, gc_after_trial=False, show_progress_bar=False):
        if n_trials is None:
            raise NotImplementedError('without a limit')
        for _ in range(n_trials):
            trial = Trial(self, self.n)
            self.n += 1
            v = self.sign * float(func(trial))
            if self.best is None or v < self.best[0]:
                self.best = (v, dict(trial.params))


def create_study(*, storage=None, sampler=None, pruner=None, study_name=None, direction=None, load_if_exists=False, directions=None):
    return Study(sampler or TPESampler(), -1 if direction == 'maximize' else 1)


def install():
    optuna = types.ModuleType('optuna')
    optuna.create_study, optuna.Study, optuna.Trial = create_study, Study, Trial
    optuna.samplers = types.ModuleType('optuna.samplers')
    optuna.samplers.TPESampler, optuna.samplers.RandomSampler = TPESampler, RandomSampler
    optuna.logging = types.ModuleType('optuna.logging')
    optuna.logging.set_verbosity = lambda verbosity: None
    for k, v in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40), ('CRITICAL', 50), ('FATAL', 50)):
        setattr(optuna.logging, k, v)
    for m in (optuna, optuna.samplers, optuna.logging):
        sys.modules[m.__name__] = m
