import itertools

import networkx as nx
import numpy as np
import pandas as pd

from symx import core as _core


def _unsupported(what):
    raise _core.EngineError("pgmpy model: %s is not modelled" % (what,))


class TabularCPD:
    """variables = [node] + evidence; values has one axis per variable, indexed by state position."""

    def __init__(self, variable, variable_card, values, evidence=None, evidence_card=None, state_names=None):
        self.variable = variable
        self.variables = [variable] + list(evidence or [])
        card = [variable_card] + list(evidence_card or [])
        self.cardinality = np.array(card)
        self.variable_card = variable_card
        self.values = np.asarray(values).reshape(card)
        self.state_names = state_names or {v: list(range(c)) for v, c in zip(self.variables, card)}

    def get_values(self):
        return self.values.reshape(self.values.shape[0], -1)

    def get_evidence(self):
        return self.variables[:0:-1]

    def copy(self):
        return TabularCPD(self.variable, self.variable_card, self.values.copy(), self.variables[1:], list(self.cardinality[1:]), dict(self.state_names))

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        _unsupported("TabularCPD.%s" % n)


class BayesianModel(nx.DiGraph):
    def __init__(self, ebunch=None):
        super().__init__()
        if ebunch:
            self.add_edges_from(ebunch)
        self.cpds = []

    def add_edge(self, u, v, **kw):
        if u == v:
            raise ValueError("Self loops are not allowed.")
        if u in self.nodes() and v in self.nodes() and nx.has_path(self, v, u):
            raise ValueError("Loops are not allowed. Adding the edge from (%s->%s) forms a loop." % (u, v))
        super().add_edge(u, v, **kw)

    def add_edges_from(self, ebunch, **kw):
        for e in list(ebunch):
            self.add_edge(*e[:2], **kw)

    def get_parents(self, node):
        return list(self.predecessors(node))

    def get_children(self, node):
        return list(self.successors(node))

    def add_cpds(self, *cpds):
        for c in cpds:
            self.cpds = [x for x in self.cpds if x.variable != c.variable] + [c]

    def get_cpds(self, node=None):
        if node is None:
            return self.cpds
        for c in self.cpds:
            if c.variable == node:
                return c
        return None

    def fit(self, data, estimator=None, state_names=[], complete_samples_only=True, **kw):  # pylint: disable=dangerous-default-value
        est = estimator(self, data, state_names=state_names, complete_samples_only=complete_samples_only)
        self.add_cpds(*est.get_parameters(**kw))

    # -- exact inference
    def _joint(self, asg):
        p = 1
        for c in self.cpds:
            p = p * c.values[tuple(c.state_names[v].index(asg[v]) for v in c.variables)]
        return p

    def _check(self, data):
        if set(data.columns) == set(self.nodes()):
            raise ValueError("No variable missing in data. Nothing to predict")
        if set(data.columns) - set(self.nodes()):
            raise ValueError("Data has variables which are not in the model")
        return [n for n in self.nodes() if n not in list(data.columns)]

    def _rows(self, data):
        for i in range(len(data)):
            ev = {}
            for col in data.columns:
                x = data[col].iloc[i]
                names = self.get_cpds(col).state_names[col]
                if pd.isnull(x) or not any(s == x for s in names):
                    raise KeyError(x)
                ev[col] = [s for s in names if s == x][0]
            yield ev

    def predict(self, data, **kw):
        if kw:
            _unsupported("predict options")
        missing = self._check(data)
        states = {n: self.get_cpds(n).state_names[n] for n in missing}
        out = {n: [] for n in missing}
        for ev in self._rows(data):
            best = None
            for combo in itertools.product(*[states[n] for n in missing]):
                p = self._joint({**ev, **dict(zip(missing, combo))})
                if best is None or bool(p > best[0]):
                    best = (p, combo)
            for n, s in zip(missing, best[1]):
                out[n].append(s)
        return pd.DataFrame(out, index=data.index)

    def predict_probability(self, data, **kw):
        if kw:
            _unsupported("predict_probability options")
        missing = self._check(data)
        states = {n: self.get_cpds(n).state_names[n] for n in missing}
        out = {}
        for ev in self._rows(data):
            mass = {(n, s): 0 for n in missing for s in states[n]}
            tot = 0
            for combo in itertools.product(*[states[n] for n in missing]):
                p = self._joint({**ev, **dict(zip(missing, combo))})
                tot = tot + p
                for n, s in zip(missing, combo):
                    mass[(n, s)] = mass[(n, s)] + p
            for (n, s), m in mass.items():
                out.setdefault("%s_%s" % (n, s), []).append(m / tot)
        return pd.DataFrame(out, index=data.index)

    def __getattr__(self, n):
        if n.startswith("_"):
            raise AttributeError(n)
        _unsupported("BayesianModel.%s" % n)


BayesianNetwork = BayesianModel
