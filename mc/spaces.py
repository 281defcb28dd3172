"""Bounded spaces of training sets, enumerated completely and deterministically, simplest first."""
import itertools


def scramble(rows, i):
    """deterministic presentation order number i of a list of rows (rows of a multiset are never only seen sorted)"""
    n = len(rows)
    k = i % 5
    if k == 0:
        return rows[::-1]
    if k == 1:
        return rows[::2] + rows[1::2][::-1]
    if k == 2:
        h = n // 2
        return rows[h:] + rows[:h]
    if k == 3:
        return list(rows)
    return rows[1::2] + rows[::2]


def multisets(symbols, n_min, n_max, accept=None):
    """all multisets of n_min..n_max (x, y) symbols -> (X, y) lists"""
    i = 0
    for n in range(n_min, n_max + 1):
        for c in itertools.combinations_with_replacement(symbols, n):
            if accept is not None and not accept(c):
                continue
            rows = scramble(list(c), i)
            i += 1
            yield [list(r[0]) for r in rows], [r[1] for r in rows]


def all_classes(K):
    full = set(range(K))
    return lambda c: {r[1] for r in c} == full


def symbols(values, dims, targets):
    return [(x, t) for x in itertools.product(values, repeat=dims) for t in targets]


def labelled_sequence(xs, targets, accept=None):
    """fixed distinct positions xs (list of rows), all target vectors"""
    for i, y in enumerate(itertools.product(targets, repeat=len(xs))):
        if accept is not None and not accept(y):
            continue
        rows = scramble(list(zip(xs, y)), i)
        yield [list(r[0]) for r in rows], [r[1] for r in rows]


def has_classes(K):
    full = set(range(K))
    return lambda y: set(y) == full


def de_bruijn_like(n, K, step):
    """structured label pattern number `step`: runs, alternations, blocks"""
    pats = [
        lambda i: (i // max(1, n // (2 * K))) % K,
        lambda i: i % K,
        lambda i: min(K - 1, i * K // n),
        lambda i: (i * i // 7) % K,
        lambda i: 0 if i < n - K + 1 else K - 1 - (n - 1 - i),
        lambda i: (i // 3 + i // 5) % K,
    ]
    return [pats[step % len(pats)](i) for i in range(n)]


def with_cfg(datasets, cfgs, **common):
    for X, y in datasets:
        for c in cfgs:
            d = dict(common)
            d.update(X=X, y=y, **c)
            yield d


def product_cfg(**axes):
    keys = list(axes)
    for vals in itertools.product(*[axes[k] for k in keys]):
        yield dict(zip(keys, vals))


def count(gen):
    return sum(1 for _ in gen)


# the hyperparameter alphabets
C2_PRIORS = [[1, 1], [0.1, 0.1], [10, 10], [1, 3], [0.5, 0.05]]
C3_PRIORS = [[1, 1, 1], [0.1, 0.1, 0.1], [2, 0.5, 1], [5, 1, 0.2]]
C4_PRIORS = [[1, 1, 1, 1], [0.1, 0.2, 0.3, 0.4]]
PPS = [0.01, 0.2, 0.5, 0.7, 0.9, 0.99, 0.999999]
R_PRIORS = [[0, 1, 1, 1], [0, 0.01, 0.005, 0.005], [2, 10, 5, 20], [-3, 0.5, 2, 0.1], [1, 0.1, 0.5, 0.001]]
