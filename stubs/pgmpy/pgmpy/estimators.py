import itertools

import numpy as np
import pandas as pd

from symx import core as _core

from .models import TabularCPD, _unsupported

HOOK = None  # a check may replace the estimation (called with the estimator and its options)


class _Estimator:
    def __init__(self, model, data, state_names=None, complete_samples_only=True, **kw):
        if kw:
            _unsupported("estimator options")
        self.model, self.data = model, data
        if not set(model.nodes()) <= set(data.columns):
            raise ValueError("variable names of the model must be identical to column names in data")
        self.state_names = {v: list(state_names[v]) if state_names and v in state_names else sorted(set(data[v].dropna())) for v in data.columns}

    def _counts(self, node, parents):
        s = self.state_names
        combos = list(itertools.product(*[s[p] for p in parents]))
        tab = [[0] * len(combos) for _ in s[node]]
        for i in range(len(self.data)):
            row = {v: self.data[v].iloc[i] for v in [node] + parents}
            if any(pd.isnull(x) for x in row.values()):
                continue
            for a, st in enumerate(s[node]):
                here = _core.equals(row[node], st)
                if not _core.is_sym(here) and not here:
                    continue
                for b, co in enumerate(combos):
                    conds = [here] + [_core.equals(row[p], x) for p, x in zip(parents, co)]
                    if any(_core.is_sym(x) for x in conds):
                        tab[a][b] = tab[a][b] + _core.indicator(_core.And(*conds))
                    elif all(bool(x) for x in conds):
                        tab[a][b] += 1
        return np.array(tab, dtype=object)

    def _cpd(self, node, pseudo):
        parents = sorted(self.model.get_parents(node))
        c = self._counts(node, parents)
        n, m = c.shape
        vals = np.empty((n, m), dtype=object)
        for j in range(m):
            col = [c[i, j] + pseudo(n, m) for i in range(n)]
            tot = sum(col)
            for i in range(n):
                vals[i, j] = 1.0 / n if tot == 0 else col[i] / tot
        if not any(_core.is_sym(x) for x in vals.ravel()):
            vals = vals.astype("float64")
        return TabularCPD(node, n, vals, parents, [len(self.state_names[p]) for p in parents],
                          {v: self.state_names[v] for v in [node] + parents})


class MaximumLikelihoodEstimator(_Estimator):
    def get_parameters(self, **kw):
        if HOOK:
            return HOOK(self, "mle", kw)
        if kw:
            _unsupported("estimator options")
        return [self._cpd(n, lambda a, b: 0) for n in sorted(self.model.nodes())]


class BayesianEstimator(_Estimator):
    def get_parameters(self, prior_type="BDeu", equivalent_sample_size=5, pseudo_counts=None, **kw):
        if kw:
            _unsupported("estimator options")
        if HOOK:
            return HOOK(self, "bayes", dict(prior_type=prior_type, equivalent_sample_size=equivalent_sample_size))
        if prior_type == "K2":
            f = lambda a, b: 1
        elif prior_type == "BDeu":
            f = lambda a, b: float(equivalent_sample_size) / (a * b)
        else:
            _unsupported("prior_type %r" % (prior_type,))
        return [self._cpd(n, f) for n in sorted(self.model.nodes())]


def __getattr__(name):
    if name.startswith("__"):
        raise AttributeError(name)
    _unsupported("estimators.%s" % name)
