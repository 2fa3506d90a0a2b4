"""Fitted Bayesian networks with symbolic conditional tables, and the brute-force oracle for them."""
import itertools

from checks import env
from symx import core

import pgmpy.estimators as est
from pgmpy.models import TabularCPD

from .bbn_common import Net, check_query, marginals, sym_table  # noqa: F401

STATES = {
    "int": [0, 1],
    "bool": [False, True],
    "str": ["lo", "hi"],
    "tri": ["b", "c", "a"],
    "int3": [10, 2, 7],
    "float": [0.5, -1.0],
    "neg": [3, -2],
    "one": ["only"],
}
NET = [None]


def _hook(e, kind, kw):
    """Estimation replaced by arbitrary tables, in the layout of the estimator (axes by sorted parents, positions by index)."""
    net = NET[0]
    out = []
    for n in sorted(e.model.nodes()):
        parents = sorted(e.model.get_parents(n))
        import numpy as np

        dims = [n] + parents
        pos = {v: {i: s for i, s in enumerate(sorted(net.doms[v]))} for v in dims}
        names = {v: list(e.state_names[v]) for v in dims}
        vals = np.empty([len(names[v]) for v in dims], dtype=object)
        for ix in itertools.product(*[range(len(names[v])) for v in dims]):
            lab = {v: pos[v][names[v][i]] for v, i in zip(dims, ix)}
            vals[ix] = net.table[(n, tuple(lab[p] for p in net.parents[n]), lab[n])]
        if not any(core.is_sym(x) for x in vals.ravel()):
            vals = vals.astype(float)
        out.append(TabularCPD(n, len(names[n]), vals, parents, [len(names[p]) for p in parents], names))
    return out


def make(c, names, kinds, edges, zeros=None):
    """names in topological order; edges as index pairs; returns (net, BayesianNetwork fitted to its tables)."""
    par = {names[j]: [names[i] for i, k in edges if k == j] for j in range(len(names))}
    doms = {n: list(STATES[k]) for n, k in zip(names, kinds)}
    net = Net(list(names), par, doms, sym_table(c, list(names), par, doms, zeros))
    return net, fit(c, net, [(names[i], names[j]) for i, j in edges])


def fit(c, net, edges):
    import pandas as pd
    from causalnex.network import BayesianNetwork
    from causalnex.structure.structuremodel import StructureModel

    sm = StructureModel()
    sm.add_edges_from(edges)
    bn = BayesianNetwork(sm)
    bn.node_states = {n: set(d) for n, d in net.doms.items()}
    NET[0] = net
    est.HOOK = _hook
    try:
        k = max(len(d) for d in net.doms.values())
        bn.fit_cpds(pd.DataFrame({n: [d[i % len(d)] for i in range(k)] for n, d in net.doms.items()}))
    finally:
        est.HOOK = None
    return bn


def engine(c, bn):
    m = env.inference()
    return c.no_raise("engine-builds", lambda: m.InferenceEngine(bn))


def truncated(net, interventions):
    """The network after the interventions: intervened nodes lose their parents and follow the given distribution."""
    par = {n: ([] if n in interventions else list(p)) for n, p in net.parents.items()}
    t = {k: v for k, v in net.table.items() if k[0] not in interventions}
    for n, d in interventions.items():
        for s in net.doms[n]:
            t[(n, (), s)] = d[s]
    return Net(net.nodes, par, net.doms, t)


def check_marginals(c, net, res, evidence=None, label="posterior"):
    """res: {node: {state: probability}}"""
    want = {n: set(d) for n, d in net.doms.items()}
    c.check(label + "-keys", {n: set(d) for n, d in res.items()} == want, lambda: "result %r" % (res,))
    m, tot = marginals(net, evidence)
    for (n, s), v in m.items():
        got = [p for st, p in res[n].items() if st == s][0]
        c.check_eq(label, got, v / tot if evidence else v, "P(%s=%s|%s)" % (n, s, evidence))


def choose_evidence(c, net, tag="", hi=None, lo=0):
    ev = {}
    for n in net.nodes:
        if hi is not None and len(ev) >= hi:
            break
        i = c.choice("evidence%s(%s)" % (tag, n), [None] + list(range(len(net.doms[n]))))
        if i is not None:
            ev[n] = net.doms[n][i]
    if len(ev) < lo:
        raise core.PathEnd()
    return ev


def possible(c, net, ev):
    if ev:
        c.assume(marginals(net, ev)[1] > 0)


def cpds_snapshot(bn):
    return {n: (list(d.index), [tuple(x) if isinstance(x, tuple) else x for x in d.columns], [list(r) for r in d.values]) for n, d in bn.cpds.items()}


def same_cpds(c, label, a, b):
    c.check(label, set(a) == set(b) and all(a[n][0] == b[n][0] and a[n][1] == b[n][1] for n in a), lambda: "tables %r became %r" % (a, b))
    for n in a:
        for r1, r2 in zip(a[n][2], b[n][2]):
            for x, y in zip(r1, r2):
                c.check_eq(label, x, y, "table of %s" % n)
