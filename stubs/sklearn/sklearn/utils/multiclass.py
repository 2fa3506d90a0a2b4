import numpy as np

from symx import core as _core
from .validation import _values


def type_of_target(y):
    v = list(_values(y).ravel())
    if any(_core.is_sym(x) and not x.isint for x in v if not isinstance(x, _core.SymBool)):
        return "continuous"
    if any(isinstance(x, (float, np.floating)) and x != int(x) for x in v if not _core.is_sym(x)):
        return "continuous"
    return "multiclass" if len(set(v)) > 2 else "binary"


def check_classification_targets(y):
    if type_of_target(y) not in ("binary", "multiclass"):
        raise ValueError("Unknown label type: continuous")


def unique_labels(*ys):
    return np.array(sorted({x for y in ys for x in _values(y).ravel()}))
