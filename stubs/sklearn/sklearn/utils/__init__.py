from .validation import check_array, check_X_y, check_is_fitted, column_or_1d
from .._strict import module_getattr as _m
__getattr__ = _m("utils")
