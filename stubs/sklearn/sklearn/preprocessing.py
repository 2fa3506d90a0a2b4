import numpy as np

from symx import core as _core
from ._strict import module_getattr as _m, unsupported
from .base import BaseEstimator, TransformerMixin
from .exceptions import NotFittedError
from .utils.validation import _finite, _values, check_array, column_or_1d


def _uniq(xs):
    """Sorted distinct values (symbolic comparisons fork)."""
    out = []
    for x in xs:
        if not any(bool(x == y) for y in out):
            out.append(x)
    import functools
    return sorted(out, key=functools.cmp_to_key(lambda a, b: -1 if bool(a < b) else 1))


def _pos(cats, x):
    for i, c in enumerate(cats):
        if bool(c == x):
            return i
    raise ValueError("Found unknown categories [%r] in column 0 during transform" % (x,))


def _asarr(xs):
    if any(_core.is_sym(x) for x in xs) or any(isinstance(x, str) for x in xs):
        out = np.empty(len(xs), dtype=object)
        out[:] = xs
        if not any(_core.is_sym(x) for x in xs):
            return np.array(xs)
        return out
    return np.array(xs)


class StandardScaler(TransformerMixin, BaseEstimator):
    def __init__(self, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def fit(self, X, y=None):
        a = check_array(X)
        n = a.shape[0]
        self.n_features_in_ = a.shape[1]
        self.mean_ = np.array([sum(a[:, j]) / n for j in range(a.shape[1])])
        self.var_ = np.array([sum((x - self.mean_[j]) * (x - self.mean_[j]) for x in a[:, j]) / n for j in range(a.shape[1])])
        sc = []
        for v in self.var_:
            if _core.is_sym(v):
                sc.append(1.0 if bool(v == 0) else v.sqrt())
            else:
                sc.append(1.0 if v == 0 else float(np.sqrt(v)))
        self.scale_ = np.array(sc)
        return self

    def _chk(self, X):
        if not hasattr(self, "mean_"):
            raise NotFittedError("This StandardScaler instance is not fitted yet.")
        a = check_array(X)
        if a.shape[1] != self.n_features_in_:
            raise ValueError("X has %d features, but StandardScaler is expecting %d features as input." % (a.shape[1], self.n_features_in_))
        return a

    def transform(self, X):
        a = self._chk(X)
        if self.with_mean:
            a = a - self.mean_
        return a / self.scale_ if self.with_std else a

    def inverse_transform(self, X):
        a = self._chk(X)
        if self.with_std:
            a = a * self.scale_
        return a + self.mean_ if self.with_mean else a


class LabelEncoder(TransformerMixin, BaseEstimator):
    def fit(self, y):
        self.classes_ = _asarr(_uniq(list(column_or_1d(y))))
        return self

    def transform(self, y):
        return np.array([_pos(self.classes_, x) for x in column_or_1d(y)], dtype=int)

    def fit_transform(self, y):
        return self.fit(y).transform(y)

    def inverse_transform(self, y):
        return self.classes_[np.asarray(y, dtype=int)]


class OneHotEncoder(TransformerMixin, BaseEstimator):
    def __init__(self, categories="auto", drop=None, sparse=True, dtype=np.float64, handle_unknown="error", sparse_output=None):
        self.categories, self.drop, self.sparse, self.dtype, self.handle_unknown = categories, drop, sparse, dtype, handle_unknown
        self.sparse_output = sparse_output
        if (sparse if sparse_output is None else sparse_output) is not False:
            unsupported("sparse one-hot output")
        if drop not in (None, "first") or handle_unknown not in ("error", "ignore"):
            unsupported("OneHotEncoder options")

    def fit(self, X, y=None):
        a = check_array(X)
        if self.categories == "auto":
            self.categories_ = [_asarr(_uniq(list(a[:, j]))) for j in range(a.shape[1])]
        else:
            self.categories_ = [np.asarray(c) for c in self.categories]
        return self

    def transform(self, X):
        if not hasattr(self, "categories_"):
            raise NotFittedError("This OneHotEncoder instance is not fitted yet.")
        a = check_array(X)
        if a.shape[1] != len(self.categories_):
            raise ValueError("X has %d features, but OneHotEncoder is expecting %d features as input." % (a.shape[1], len(self.categories_)))
        blocks = []
        for j, cats in enumerate(self.categories_):
            b = np.zeros((a.shape[0], len(cats)))
            for i, x in enumerate(a[:, j]):
                try:
                    b[i, _pos(cats, x)] = 1.0
                except ValueError:
                    if self.handle_unknown == "error":
                        raise
            blocks.append(b[:, 1:] if self.drop == "first" else b)
        return np.hstack(blocks)


class OrdinalEncoder(TransformerMixin, BaseEstimator):
    def __init__(self, categories="auto", dtype=np.float64):
        self.categories, self.dtype = categories, dtype

    def fit(self, X, y=None):
        a = check_array(X)
        if self.categories == "auto":
            self.categories_ = [_asarr(_uniq(list(a[:, j]))) for j in range(a.shape[1])]
        else:
            self.categories_ = [np.asarray(c) for c in self.categories]
        return self

    def transform(self, X):
        if not hasattr(self, "categories_"):
            raise NotFittedError("This OrdinalEncoder instance is not fitted yet.")
        a = check_array(X)
        return np.array([[float(_pos(self.categories_[j], a[i, j])) for j in range(a.shape[1])] for i in range(a.shape[0])])


__getattr__ = _m("preprocessing")
