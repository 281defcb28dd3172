"""Representations of the same numbers. Every function returns None if the numbers cannot be held by the representation."""
from . import env  # noqa: F401
import numpy as np
import pandas as pd
from scipy.sparse import csc_matrix, csr_matrix


def _cast(A, dtype):
    with np.errstate(all='ignore'):
        B = A.astype(dtype)
    return B if np.array_equal(B.astype(np.float64), A) and np.array_equal(B.astype(object), A.astype(object)) else None


def _strided(A):
    big = np.full((2 * A.shape[0] + 1, 2 * A.shape[1] + 1), 77.0)
    big[::2, ::2][:A.shape[0], :A.shape[1]] = A
    return big[::2, ::2][:A.shape[0], :A.shape[1]]


def _reversed(A):
    return np.ascontiguousarray(A[::-1, ::-1])[::-1, ::-1]


def _readonly(A):
    B = A.copy()
    B.setflags(write=False)
    return B


def _unsorted(A, cls):
    S = cls(A)
    data, indices = S.data.copy(), S.indices.copy()
    for i in range(len(S.indptr) - 1):
        a, b = S.indptr[i], S.indptr[i + 1]
        data[a:b], indices[a:b] = data[a:b][::-1].copy(), indices[a:b][::-1].copy()
    return cls((data, indices, S.indptr.copy()), shape=S.shape)


def _explicit_zeros(A, cls):
    n, d = A.shape
    if cls is csr_matrix:
        return cls((A.ravel().copy(), np.tile(np.arange(d), n), np.arange(0, n * d + 1, d)), shape=A.shape)
    return cls((A.T.ravel().copy(), np.tile(np.arange(n), d), np.arange(0, n * d + 1, n)), shape=A.shape)


def _duplicates(A, cls, whole=False, dtype=float):
    """every entry is stored twice (or three times) and sums up to the value: a non-canonical sparse matrix.

    whole: one of the summands is the value itself, so that no rounding occurs in products either"""
    S = cls(A)
    data, indices, indptr = [], [], [0]
    for i in range(len(S.indptr) - 1):
        part = []
        for k in range(S.indptr[i], S.indptr[i + 1]):
            v, j = float(S.data[k]), int(S.indices[k])
            for w in ((v, 0.0) if (i + j) % 2 else (0.0, v)) if whole else ((v * 0.25, v * 0.75) if (i + j) % 2 else (v * 4, v * -2, v * -1)):
                part.append((w, j))
        part = part[::2] + part[1::2] if not whole else part
        data += [w for w, _ in part]
        indices += [j for _, j in part]
        indptr.append(len(data))
    R = cls((np.array(data, dtype=dtype), np.array(indices, dtype=np.int32), np.array(indptr, dtype=np.int32)), shape=S.shape)
    return R if np.array_equal(R.toarray(), A) else None


def _sparse_cast(A, cls, dtype):
    B = _cast(A, dtype)
    return None if B is None else cls(B)


def _frame(A, dtype=float, index=None, columns=None):
    B = _cast(A, dtype)
    return None if B is None else pd.DataFrame(B, index=index, columns=columns)


def _mixed_frame(A):
    d = {}
    for j in range(A.shape[1]):
        B = None
        for dt in [(np.bool_, np.int8, np.float32), (np.uint8, np.int64, np.float64), (np.float32, np.int16)][j % 3]:
            B = _cast(A[:, j], dt)
            if B is not None:
                break
        d['c{}'.format(j)] = A[:, j] if B is None else B
    return pd.DataFrame(d)


INTS = ['int8', 'uint8', 'int16', 'uint16', 'int32', 'uint32', 'int64', 'uint64']

X_FORMS = {
    'C': lambda A: np.ascontiguousarray(A),
    'list': lambda A: A.tolist(),
    'list-int': lambda A: [[int(v) for v in r] for r in A] if np.array_equal(A, np.round(A)) else None,
    'list-tuples': lambda A: [tuple(r) for r in A.tolist()],
    'list-arrays': lambda A: [r.copy() for r in A],
    'F': lambda A: np.asfortranarray(A),
    'strided': _strided,
    'reversed': _reversed,
    'readonly': _readonly,
    'object': lambda A: A.astype(object),
    'bool': lambda A: _cast(A, np.bool_),
    'float16': lambda A: _cast(A, np.float16),
    'float32': lambda A: _cast(A, np.float32),
    'float32-F': lambda A: None if _cast(A, np.float32) is None else np.asfortranarray(_cast(A, np.float32)),
    'big-endian': lambda A: A.astype('>f8'),
    'frame': lambda A: _frame(A),
    'frame-int': lambda A: _frame(A, np.int64, columns=[10 - i for i in range(A.shape[1])]),
    'frame-index': lambda A: _frame(A, float, index=list(range(len(A)))[::-1], columns=['f{}'.format(i) for i in range(A.shape[1])]),
    'frame-float32': lambda A: _frame(A, np.float32),
    'frame-mixed': _mixed_frame,
    'frame-same-names': lambda A: _frame(A, float, columns=['a'] * A.shape[1]),
    'frame-pairs': lambda A: _frame(A, float, columns=['c{}'.format(i // 2) for i in range(A.shape[1])]),
    'frame-multi': lambda A: _frame(A, float, index=pd.MultiIndex.from_tuples([(i // 2, -i) for i in range(len(A))]),
                                    columns=pd.MultiIndex.from_tuples([('a', -i) for i in range(A.shape[1])])),
    'frame-same-index': lambda A: _frame(A, float, index=[7] * len(A)),
    'frame-nullable': lambda A: None if _cast(A, np.int64) is None else _frame(A, np.int64).astype('Int64'),
    'frame-object': lambda A: _frame(A).astype(object),
    'frame-sparse': lambda A: _frame(A).astype(pd.SparseDtype(float, 0.0)),
    'longdouble': lambda A: A.astype(np.longdouble),
    'csr': lambda A: csr_matrix(A),
    'csc': lambda A: csc_matrix(A),
    'csr-unsorted': lambda A: _unsorted(A, csr_matrix),
    'csc-unsorted': lambda A: _unsorted(A, csc_matrix),
    'csr-zeros': lambda A: _explicit_zeros(A, csr_matrix),
    'csc-zeros': lambda A: _explicit_zeros(A, csc_matrix),
    'csr-duplicates': lambda A: _duplicates(A, csr_matrix),
    'csc-duplicates': lambda A: _duplicates(A, csc_matrix),
    'csr-duplicates0': lambda A: _duplicates(A, csr_matrix, True),
    'csc-duplicates0': lambda A: _duplicates(A, csc_matrix, True),
    'csc-int64-duplicates0': lambda A: None if _cast(A, np.int64) is None else _duplicates(A, csc_matrix, True, np.int64),
    'csr-bool': lambda A: _sparse_cast(A, csr_matrix, np.bool_),
    'csc-bool': lambda A: _sparse_cast(A, csc_matrix, np.bool_),
    'csr-int64': lambda A: _sparse_cast(A, csr_matrix, np.int64),
    'csc-int8': lambda A: _sparse_cast(A, csc_matrix, np.int8),
    'csr-uint8': lambda A: _sparse_cast(A, csr_matrix, np.uint8),
    'csc-float32': lambda A: _sparse_cast(A, csc_matrix, np.float32),
    'csr-float32': lambda A: _sparse_cast(A, csr_matrix, np.float32),
}
for _t in INTS:
    X_FORMS[_t] = lambda A, t=_t: _cast(A, np.dtype(t))

Y_FORMS = {
    'float64': lambda y: y.copy(),
    'list': lambda y: y.tolist(),
    'list-int': lambda y: [int(v) for v in y] if np.array_equal(y, np.round(y)) else None,
    'tuple': lambda y: tuple(y.tolist()),
    'bool': lambda y: _cast(y, np.bool_),
    'list-bool': lambda y: [bool(v) for v in y] if set(y.tolist()) <= {0.0, 1.0} else None,
    'object': lambda y: y.astype(object),
    'float16': lambda y: _cast(y, np.float16),
    'float32': lambda y: _cast(y, np.float32),
    'column': lambda y: y.reshape(-1, 1),
    'column-int': lambda y: None if _cast(y, np.int64) is None else _cast(y, np.int64).reshape(-1, 1),
    'strided': lambda y: np.repeat(y, 3)[::3],
    'reversed': lambda y: np.ascontiguousarray(y[::-1])[::-1],
    'readonly': _readonly,
    'list-column': lambda y: y.reshape(-1, 1).tolist(),
    'row': lambda y: y.reshape(1, -1),
    'longdouble': lambda y: y.astype(np.longdouble),
    'big-endian': lambda y: y.astype('>f8'),
    'index': lambda y: pd.Index(y),
    'series-nullable': lambda y: None if _cast(y, np.int64) is None else pd.Series(_cast(y, np.int64)).astype('Int64'),
    'series-category': lambda y: pd.Series(y).astype('category'),
    'series-same-index': lambda y: pd.Series(y, index=[3] * len(y)),
    'series': lambda y: pd.Series(y),
    'series-reversed-index': lambda y: pd.Series(y, index=list(range(len(y)))[::-1]),
    'series-offset-index': lambda y: pd.Series(y, index=[i + 5 for i in range(len(y))]),
    'series-str-index': lambda y: pd.Series(y, index=['r{}'.format(i) for i in range(len(y))]),
    'series-int': lambda y: None if _cast(y, np.int32) is None else pd.Series(_cast(y, np.int32), index=[(i * 7 + 3) % 101 for i in range(len(y))]),
    'series-bool': lambda y: None if _cast(y, np.bool_) is None else pd.Series(_cast(y, np.bool_), index=list(range(len(y)))[::-1]),
    'frame-column': lambda y: pd.DataFrame({'t': y}, index=list(range(len(y)))[::-1]),
}
for _t in INTS:
    Y_FORMS[_t] = lambda y, t=_t: _cast(y, np.dtype(t))
