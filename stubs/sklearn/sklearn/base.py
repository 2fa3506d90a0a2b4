import inspect


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        sig = inspect.signature(cls.__init__)
        return sorted(p.name for p in sig.parameters.values() if p.name != "self" and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL))

    def get_params(self, deep=True):
        return {k: getattr(self, k) for k in self._get_param_names()}

    def set_params(self, **kw):
        ok = self._get_param_names()
        for k, v in kw.items():
            if k not in ok:
                raise ValueError("Invalid parameter %s" % k)
            setattr(self, k, v)
        return self


class TransformerMixin:
    def fit_transform(self, X, y=None, **kw):
        if y is None:
            return self.fit(X, **kw).transform(X)
        return self.fit(X, y, **kw).transform(X)


class RegressorMixin:
    _estimator_type = "regressor"


class ClassifierMixin:
    _estimator_type = "classifier"


def clone(e, safe=True):
    return type(e)(**e.get_params())


from ._strict import module_getattr as _m
__getattr__ = _m("base")
