import numpy as np

from symx import core as _core
from .._strict import unsupported
from ..exceptions import NotFittedError


def _values(X):
    if hasattr(X, "to_numpy"):
        X = X.to_numpy()
    return np.asarray(X)


def _finite(a, allow=False):
    for x in a.ravel():
        if _core.is_sym(x):
            continue
        if x is None:
            raise ValueError("Input contains NaN, infinity or a value too large for dtype('float64').")
        if isinstance(x, (float, np.floating)) and not np.isfinite(x):
            raise ValueError("Input contains NaN, infinity or a value too large for dtype('float64').")
        if isinstance(x, str):
            raise ValueError("could not convert string to float: %r" % x)


def check_array(array, accept_sparse=False, ensure_2d=True, dtype="numeric", force_all_finite=True, copy=False, ensure_min_samples=1,
                ensure_min_features=1, allow_nd=False, **k):
    if k:
        unsupported("check_array(%s)" % (list(k),))
    a = _values(array)
    if ensure_2d:
        if a.ndim == 0:
            raise ValueError("Expected 2D array, got scalar array instead")
        if a.ndim == 1:
            raise ValueError("Expected 2D array, got 1D array instead")
    if a.ndim >= 3 and not allow_nd:
        raise ValueError("Found array with dim %d. Estimator expected <= 2." % a.ndim)
    if force_all_finite is True:
        _finite(a)
    if a.shape[0] < ensure_min_samples:
        raise ValueError("Found array with %d sample(s) while a minimum of %d is required." % (a.shape[0], ensure_min_samples))
    if a.ndim == 2 and a.shape[1] < ensure_min_features:
        raise ValueError("Found array with %d feature(s) while a minimum of %d is required." % (a.shape[1], ensure_min_features))
    return a.copy() if copy else a


def column_or_1d(y, warn=False):
    a = _values(y)
    if a.ndim == 1:
        return a
    if a.ndim == 2 and a.shape[1] == 1:
        return a.ravel()
    raise ValueError("y should be a 1d array, got an array of shape %s instead." % (a.shape,))


def check_X_y(X, y, y_numeric=False, **k):
    if k:
        unsupported("check_X_y(%s)" % (list(k),))
    if y is None:
        raise ValueError("y cannot be None")
    X = check_array(X)
    y = column_or_1d(y)
    _finite(y)
    if X.shape[0] != y.shape[0]:
        raise ValueError("Found input variables with inconsistent numbers of samples: %r" % [X.shape[0], y.shape[0]])
    return X, y


def check_is_fitted(est, attributes=None, **k):
    if attributes is not None:
        at = attributes if isinstance(attributes, (list, tuple)) else [attributes]
        ok = all(hasattr(est, a) for a in at)
    else:
        ok = any(v.endswith("_") and not v.startswith("__") for v in vars(est))
    if not ok:
        raise NotFittedError("This %s instance is not fitted yet. Call 'fit' with appropriate arguments before using this estimator." % type(est).__name__)
