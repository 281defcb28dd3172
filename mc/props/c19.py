"""C19: depth, leaf count, printed tree, names and verbosity: the printed text is parsed back into a tree and has to be bisimilar to the model."""
import contextlib
import io
import itertools
import re

import numpy as np
import pandas as pd
from scipy.sparse import csc_matrix, csr_matrix

from .. import build, ref, spaces
from ..core import Family, Violation

PID = 'C19'
RULE = ('every training set of the family x model x pruning x naming variant: the printed tree is parsed and compared node by node with the fitted tree and followed for all query '
        'rows; depth, leaves, counts, training output and the independence of the model from names and verbosity are compared; non-trivial: at least two splits')
ASSUMPTIONS = ['feature names without line breaks; numbers are printed with at least 7 significant digits in vectors and exactly for split values',
               'up to 1000 classes (numpy abbreviates longer vectors); a vector may go on in the next line']

NAMES = {
    'none': lambda nd: None,
    'list': lambda nd: ['feature {}'.format(i) for i in range(nd)],
    'tuple': lambda nd: tuple('abcdefgh'[:nd]),
    'array': lambda nd: np.array(['n{}'.format(i) for i in range(nd)]),
    'index': lambda nd: pd.Index(['p{}'.format(i) for i in range(nd)]),
    'odd': lambda nd: ['a=1', 'x: y', '≥3', '', ' ├ ', '<', 'y=0, n=3'][:nd],
    'swapped': lambda nd: ['x{}'.format(nd - 1 - i) for i in range(nd)],
    'equal': lambda nd: ['same'] * nd,
    'numbers': lambda nd: list(range(nd, 2 * nd)),
    'zero-based': lambda nd: list(range(nd))[::-1],
    'empty': lambda nd: ['', ' ', '\t', '  '][:nd],
    'falsy': lambda nd: [0.0, False, 0, ''][:nd],
    'numpy-int': lambda nd: np.arange(nd),
    'series': lambda nd: pd.Series(['s{}'.format(i) for i in range(nd)]),
    'long': lambda nd: ['the {} feature '.format(i) + 'very ' * 60 + 'long name {}'.format(i) for i in range(nd)],
    'medium': lambda nd: ['abcdefghijklmnopqrstuvwxyz0123456789{}'.format(i) for i in range(nd)],
    'unicode': lambda nd: ['größe', '温度', 'é', '\U0001F600'][:nd],
    'percent': lambda nd: ['%s', '{}', '{0}', '%d\\n'][:nd],
    'pairs': lambda nd: [('a', i) for i in range(nd)],
    'spaces': lambda nd: ['  x{}  '.format(i) for i in range(nd)],
    'upper': lambda nd: ['X{}'.format(i) for i in range(nd)],
    'frame-default': None,
    'frame-multi': None,
    'frame': None,
    'frame-int': None,
    'frame-explicit': None,
}


def training(case, X):
    nd = X.shape[1]
    v = case.get('names', 'none')
    if v == 'frame':
        cols = ['col {}'.format(i) for i in range(nd)]
        return pd.DataFrame(X, columns=cols), None, cols
    if v == 'frame-multi':
        cols = pd.MultiIndex.from_tuples([('c', i) for i in range(nd)])
        return pd.DataFrame(X, columns=cols), None, list(cols)
    if v in ('frame-int', 'frame-default'):
        cols = list(range(10, 10 + nd)) if v == 'frame-int' else list(range(nd))
        return pd.DataFrame(X, columns=cols), None, cols
    if v == 'frame-explicit':
        names = ['z{}'.format(i) for i in range(nd)]
        return pd.DataFrame(X, columns=['col {}'.format(i) for i in range(nd)]), names, names
    names = NAMES[v](nd)
    form = case.get('form', 'dense')
    XX = X if form == 'dense' else csr_matrix(X) if form == 'csr' else csc_matrix(X) if form == 'csc' else X.tolist()
    return XX, names, ['x{}'.format(i) for i in range(nd)] if names is None else list(names)


# ---------------------------------------------------------------- parsing

class Text:
    """a printed node"""


NUM = r'[-+]?(?:\d+\.?\d*(?:[eE][-+]?\d+)?|\.\d+(?:[eE][-+]?\d+)?|inf|nan)'
LEAF = re.compile(r'^y=(%s), n=(\d+)(?:, p\(y\)=\[(.*)\])?$' % NUM)
HP = re.compile(r'^HP\(origin=\[(.*?)\], normal=\[(.*?)\]\)$')
OPEN = re.compile(r'(?:p\(y\)|origin|normal)=\[[^\]]*$')
CHILD = re.compile(r'^((?: (?:│|  ))*) (├|└) (.*)$')


def vector(s):
    return [float(v) for v in s.split()]


def logical_lines(text):
    """one line per node: vectors may go on in the next line, as numpy prints long ones"""
    lines = []
    for part in text.split('\n'):
        if lines and OPEN.search(lines[-1]):
            lines[-1] += ' ' + part.strip()
        else:
            lines.append(part)
    return lines


def parse(text, hyper):
    lines = logical_lines(text)
    pos = [0]

    def node(column):
        """column: of the marker of this node, None for the root"""
        if pos[0] >= len(lines):
            raise Violation('the printed tree ends too early:\n' + text)
        line = lines[pos[0]]
        k = pos[0]
        pos[0] += 1
        t = Text()
        t.side = t.bound = None
        t.column = column
        rest = line
        if column is not None:
            m = CHILD.match(line)
            if not m:
                raise Violation('line {} of the printed tree is not a node: {!r}\n{}'.format(k, line, text))
            t.column = len(m.group(1)) + 1
            t.marker = m.group(2)
            rest = m.group(3)
            if hyper:
                m = re.match(r'^(back|front) *: (.*)$', rest)
                if not m:
                    raise Violation('line {} has no side: {!r}'.format(k, line))
                t.side, rest = m.groups()
            else:
                m = re.match(r'^(<|≥)(%s): (.*)$' % NUM, rest)
                if not m:
                    raise Violation('line {} has no bound: {!r}'.format(k, line))
                t.side, t.bound, rest = m.group(1), float(m.group(2)), m.group(3)
        t.line = k
        m = LEAF.match(rest)
        if m and (column is not None or len(lines) == 1):
            t.leaf, t.y, t.n = True, float(m.group(1)), int(m.group(2))
            t.p = None if m.group(3) is None else vector(m.group(3))
            return t
        t.leaf = False
        if hyper:
            m = HP.match(rest)
            if not m:
                raise Violation('line {} is neither a leaf nor a split: {!r}'.format(k, line))
            t.origin, t.normal = vector(m.group(1)), vector(m.group(2))
        else:
            if '=' not in rest:
                raise Violation('line {} is neither a leaf nor a split: {!r}'.format(k, line))
            t.name, v = rest.rsplit('=', 1)
            t.value = float(v)
        t.c1 = node(0)
        t.c2 = node(0)
        for c, marker, sides in ((t.c1, '├', '<back'), (t.c2, '└', '≥front')):
            if c.marker != marker or c.side not in sides:
                raise Violation('line {} of the printed tree is on the wrong side: {!r}\n{}'.format(c.line, lines[c.line], text))
        if t.c1.column != t.c2.column or column is not None and not t.c1.column > t.column:
            raise Violation('line {} of the printed tree is not aligned: {!r}\n{}'.format(t.c2.line, lines[t.c2.line], text))
        for i in range(t.c1.line + 1, t.c2.line):
            if lines[i][t.c1.column] != '│':
                raise Violation('line {} of the printed tree has no connecting bar: {!r}\n{}'.format(i, lines[i], text))
        return t

    t = node(None)
    if pos[0] != len(lines):
        raise Violation('the printed tree has {} lines too many:\n{}'.format(len(lines) - pos[0], text))
    return t


def compare(pb, p, t, names, st, text):
    """printed tree p against fitted tree t"""
    st.states += 1
    if p.leaf != (not t.split):
        raise Violation('a {} is printed as a {}:\n{}'.format('split' if t.split else 'leaf', 'leaf' if p.leaf else 'split', text))
    if p.leaf:
        if p.n != t.n:
            raise Violation('a leaf of {} rows is printed with n={}:\n{}'.format(t.n, p.n, text))
        ref.check_answers(pb, tuple(t.post), 'printed leaf', p.y)
        if (p.p is None) != (pb.kind == 'r'):
            raise Violation('probabilities in the printed tree: {}'.format(text))
        if p.p is not None:
            tot = sum(t.post)
            if len(p.p) != len(t.post) or any(abs(a - b / tot) > 1e-7 for a, b in zip(p.p, t.post)):
                raise Violation('a leaf with the posterior {} is printed with the probabilities {}:\n{}'.format(t.post, p.p, text))
        return
    if t.normal is not None:
        if not all(len(a) == len(b) and all(abs(x - y) <= 1e-6 * (1 + max(abs(v) for v in b)) for x, y in zip(a, b)) for a, b in ((p.normal, t.normal), (p.origin, t.origin))):
            raise Violation('the hyperplane {} {} is printed as {} {}'.format(t.origin, t.normal, p.origin, p.normal))
    else:
        if p.value != t.value or p.name != str(names[t.dim]):
            raise Violation('the split of {!r} at {!r} is printed as {!r} at {!r}'.format(names[t.dim], t.value, p.name, p.value))
        for c in (p.c1, p.c2):
            if c.bound != t.value:
                raise Violation('a child of the split at {!r} is printed with the bound {!r}'.format(t.value, c.bound))
    st.transitions += 2
    compare(pb, p.c1, t.c1, names, st, text)
    compare(pb, p.c2, t.c2, names, st, text)


def follow(p, names, x):
    """prediction of a reader of the printed tree"""
    while not p.leaf:
        if hasattr(p, 'normal'):
            d = sum(n * (v - o) for n, v, o in zip(p.normal, x, p.origin))
            if abs(d) < 1e-6:
                return None
            p = p.c1 if d < 0 else p.c2
        else:
            dims = [i for i, n in enumerate(names) if str(n) == p.name]
            if len(dims) != 1:
                return None
            p = p.c1 if x[dims[0]] < p.value else p.c2
    return p.y


def examined(t, y_of_rows, X, rows, level, out):
    """(level, number of rows) of the nodes that are examined for splitting, in order"""
    if level == 0 or len(rows) > 1 and len({y_of_rows[r] for r in rows}) > 1:
        out.append((level, len(rows)))
    if t.split:
        if t.normal is not None:
            below = [r for r in rows if ref.signed_distance(t, X[r]) < 0]
        else:
            below = [r for r in rows if X[r][t.dim] < t.value]
        s = set(below)
        examined(t.c1, y_of_rows, X, below, level + 1, out)
        examined(t.c2, y_of_rows, X, [r for r in rows if r not in s], level + 1, out)
    return out


def capture(f):
    out, err = io.StringIO(), io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        f()
    return out.getvalue()


def evaluate(case, st):
    X, y = build.data(case)
    pb = build.problem(case)
    nd = pb.nd
    XX, arg, names = training(case, X)
    m = build.make(case)
    if str(m) != 'Unfitted model' or repr(m) != str(m):
        raise Violation('an unfitted model is printed as {!r}'.format(str(m)))
    kw = {} if arg is None and case.get('names', 'none') in ('none', 'frame', 'frame-int', 'frame-default', 'frame-multi') else {'feature_names': arg}
    if 'before' in case:
        # the same object was fitted to other targets, with other names, and queried
        earlier = case['before']
        m.fit(X, np.array(earlier, dtype=float), feature_names=['old {}'.format(i) for i in range(nd)])
        m.get_depth(), m.get_n_leaves(), str(m), repr(m), m.predict(X)
        if m.get_depth():
            m.feature_importance()
        if hasattr(m, 'prediction_paths'):
            m.prediction_paths(X)
    out = capture(lambda: m.fit(XX, y, **kw))
    if out:
        raise Violation('fitting prints {!r} without verbose'.format(out))
    t = ref.extract(m)
    hyper = case['model'][0] == 'h'
    # counters
    if m.get_depth() != ref.depth_of(t) or m.get_n_leaves() != ref.leaves_of(t):
        raise Violation('depth {} and {} leaves instead of {} and {}'.format(m.get_depth(), m.get_n_leaves(), ref.depth_of(t), ref.leaves_of(t)))
    for n in ref.nodes(t):
        if n.split and n.n != n.c1.n + n.c2.n:
            raise Violation('a node of {} rows has children of {} and {}'.format(n.n, n.c1.n, n.c2.n))
        if n.split and n.dim is not None and n.name != names[n.dim]:
            raise Violation('split of feature {} is called {!r} instead of {!r}'.format(n.dim, n.name, names[n.dim]))
    if t.n != len(y):
        raise Violation('the root has {} instead of {} rows'.format(t.n, len(y)))
    # text
    text = str(m)
    if repr(m) != text:
        raise Violation('repr and str differ')
    p = parse(text, hyper)
    compare(pb, p, t, names, st, text)
    Q = build.queries(pb, t, 40)
    if Q:
        QQ = np.array(Q, dtype=float)
        pred = m.predict(QQ)
        for x, v in zip(Q, pred):
            f = follow(p, names, x)
            if f is not None and not ref.close(f, float(v)):
                raise Violation('following the printed tree for {} gives {} instead of {}:\n{}'.format(x, f, v, text))
        if hasattr(m, 'prediction_paths'):
            for x, path in zip(Q, m.prediction_paths(QQ)):
                if [s[1] for s in path] != [names[s[0]] for s in path]:
                    raise Violation('names on the path of {}: {}'.format(x, path))
    if str(m) != text:
        raise Violation('queries change the printed tree')
    # neither names nor verbosity influence the model
    plain = build.fit(case)
    strip = lambda n: tuple(strip(c) if isinstance(c, tuple) else c for c in (n[:3] + n[4:] if n and n[0] == 'S' else n))
    if strip(ref.full(ref.extract(plain))) != strip(ref.full(t)):
        raise Violation('the model with the names {} differs from the one without'.format(names))
    loud = build.make(case)
    out = capture(lambda: loud.fit(XX, y, verbose=True, **kw))
    if ref.full(ref.extract(loud)) != ref.full(t):
        raise Violation('the model fitted with verbose differs')
    got = [(int(a), int(b)) for a, b in re.findall(r'level (\d+).*?with +(\d+) data points', out)]
    whole = t if not case.get('prune') else ref.extract(build.fit(case, prune=False))
    exp = examined(whole, pb.y, pb.X, list(range(len(y))), 0, [])
    if sorted(got) != sorted(exp):
        raise Violation('verbose output names the (level, rows) {} instead of {}:\n{}'.format(got, exp, out))
    st.traces += 1
    st.nontrivial += ref.leaves_of(t) > 2
    st.outcome('{} depth={} leaves={}'.format(case['model'], ref.depth_of(t), ref.leaves_of(t)))


def families(tier):
    q = tier == 'quick'
    wc = spaces.with_cfg
    pc = lambda **k: list(spaces.product_cfg(**k))
    S = spaces
    line = lambda n: [[i * 0.75 - 2] for i in range(n)]
    g2 = [[0, 2], [1, 7], [3, 0], [4, 3], [7, 1], [8, 5], [12, 4]]
    g4 = [[0, 2, 5, 1], [1, 7, 1, 4], [3, 0, 2, 6], [4, 3, 8, 0], [7, 1, 0, 5], [9, 5, 4, 2]]
    f = []
    f.append(Family('1d', lambda: wc(S.labelled_sequence(line(7 if q else 10), [0, 1], S.has_classes(2)), pc(model=['pc', 'pr', 'hc', 'hr'], prior=[None, 'x'], pp=[0.9999], prune=[False, True])),
                    'all label vectors over {} positions, four models, 2 priors, pruned or not'.format(7 if q else 10)))
    f.append(Family('3-class', lambda: wc(S.labelled_sequence(line(6 if q else 8), [0, 1, 2], S.has_classes(3)), pc(model=['pc', 'hc'], prior=[[0.1, 0.1, 0.1], [0.3, 1, 2]], pp=[0.999], prune=[False, True])),
                    'all label vectors of 3 classes over {} positions'.format(6 if q else 8)))
    f.append(Family('2d', lambda: wc(S.labelled_sequence(g2[:6 if q else 7], [0, 1], S.has_classes(2)), pc(model=['pc', 'hc', 'pr', 'hr'], prior=[None], pp=[0.9999], prune=[False, True], delta=[0, 0.5])),
                    'all label vectors over {} positions in 2d, four models'.format(6 if q else 7)))
    f.append(Family('regression', lambda: wc(S.labelled_sequence(g2[:5 if q else 6], [-1.5, 0, 1e-3, 250]), pc(model=['pr', 'hr'], prior=[[0, 0.1, 0.05, 0.01]], pp=[0.9999], prune=[False, True])),
                    'all vectors of 4 targets of different magnitude over {} positions in 2d'.format(5 if q else 6)))
    f.append(Family('names', lambda: wc(S.labelled_sequence(g4[:5 if q else 6], [0, 1], S.has_classes(2)),
                                        pc(model=['pc', 'pr', 'hc', 'hr'], prior=[None], pp=[0.9999], names=list(NAMES), prune=[False, True])),
                    'all label vectors over {} positions in 4d x {} naming variants, four models'.format(5 if q else 6, len(NAMES))))
    f.append(Family('forms', lambda: wc(S.labelled_sequence(g4[:5], [0, 1], S.has_classes(2)), pc(model=['pc', 'pr', 'hc', 'hr'], prior=[None], pp=[0.9999], names=['none', 'list', 'odd'], form=['csr', 'csc', 'list'])),
                    'the same for sparse matrices and lists'))
    f.append(Family('values', lambda: wc(S.multisets(S.symbols([-1e12, -1e-9, 0.0, 1e-9, 0.1, 1 / 3, 1e12, 1e300], 1, [0, 1]), 2, 3 if q else 4, S.all_classes(2)), pc(model=['pc'], prior=[[0.1, 0.1]], pp=[0.9999])),
                    'split values of all magnitudes: all multisets of 2..{} rows over 8 values'.format(3 if q else 4)))
    f.append(Family('large', lambda: large(q), 'structured sets of up to {} rows with deep trees, pruned or not'.format(100 if q else 400)))
    f.append(Family('deep', lambda: build.deep(['pc', 'pr', 'hc', 'hr'], sizes=(20, 40, 80), prune=[False, True]), 'trees of up to 79 levels in 1 and 2 features'))
    f.append(Family('many-features', lambda: itertools.chain(build.wide(['pc', 'pr']), build.wide(['hc', 'hr'], counts=(8, 9, 15, 16, 17, 31, 64, 65, 128, 300))), 'up to 300 features, all four models'))
    f.append(Family('many-classes', lambda: many_classes(q), '2 to {} classes in pure and mixed blocks of rows'.format(14 if q else 40)))
    f.append(Family('many-rows', lambda: build.tall(['pc', 'pr', 'hc', 'hr'], sizes=(700, 1000, 1500) if q else (700, 1000, 1500, 12000)), 'up to {} rows'.format(1500 if q else 12000)))
    f.append(Family('refit', lambda: refits(q), 'all ordered pairs of label vectors over {} positions with equal class counts: the model is fitted to the first one and printed, then to the second'.format(6 if q else 8)))
    return [Family(a.name, (lambda gen: lambda: (fix(c) for c in gen()))(a.gen), a.bound) for a in f]


def fix(c):
    if c.get('prior') == 'x':
        c = dict(c, prior=[0.5, 0.05] if c['model'][1] == 'c' else [0.5, 0.1, 0.05, 0.01])
    return c


D4 = [[1, 0, 0, 0], [1, 1, 1, 1], [1, -1, 1, -1], [0, 0, -1, 0], [1, 1, -1, -1]]


def many_classes(q):
    for K in (2, 3, 4, 5, 6, 7, 8, 10, 14) if q else range(2, 41):
        for rows, mix in ((1, 0), (3, 0), (4, 5), (7, 3)):
            y = [i // rows % K if not mix or i % mix else (i * i) % K for i in range(rows * K)]
            if len(set(y)) < K:
                continue
            for model in ('pc', 'hc'):
                for prior in (None, [0.1] * K, [0.013 * (k + 1) for k in range(K)]):
                    for prune in (False, True):
                        yield dict(model=model, X=[[float(i), float(i % 4)] for i in range(len(y))], y=y, prior=prior, pp=0.999, prune=prune, normals=[[1, 0], [0, 1], [1, 1]])


def large(q):
    for n in (30, 100) if q else (30, 100, 400):
        for step in range(6):
            for K in (2, 3, 5):
                y = spaces.de_bruijn_like(n, K, step)
                if len(set(y)) < K:
                    continue
                for prune in (False, True):
                    yield dict(model='pc', X=[[float(i), float((i * 7) % 13)] for i in range(n)], y=y, prior=[0.1] * K, pp=0.9999, prune=prune)
                    if n <= 100:
                        yield dict(model='hc', X=[[i % 16, (i * 3) % 17, (i * i) % 11, (i * 7) % 13] for i in range(n)], y=y, prior=[0.1] * K, pp=0.9999, prune=prune, normals=D4)


def refits(q):
    n = 6 if q else 8
    for k in range(1, n // 2 + 1):
        sets = [[int(i in ones) for i in range(n)] for ones in itertools.combinations(range(n), k)]
        for a, b in itertools.permutations(sets, 2):
            for model in ('pc', 'pr', 'hc', 'hr'):
                for prune in (False, True):
                    yield dict(model=model, X=[[float(i), float((i * 4) % 7)] for i in range(n)], y=b, before=a, prior=[0.02, 0.1] if model[1] == 'c' else [0.5, 0.1, 0.05, 0.001],
                               pp=0.99999, prune=prune, normals=[[0, 1], [1, 0]], names=('none', 'list', 'frame')[(sum(a[::2]) + k) % 3])
