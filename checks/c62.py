"""Dynamic data: rows follow the structural equations of the labelled graph, lagged columns repeat earlier rows."""
from checks import env, npx
from checks import gen_common as gc
from symx import core

import numpy as np

KINDS = {"linear-gauss": "normal", "linear-exp": "exponential", "linear-gumbel": "gumbel"}


def rows(c, names, p, edges, n, burn_in, drift=False):
    W = npx.load("causalnex.structure.data_generators.wrappers")
    from causalnex.structure.structuremodel import StructureModel

    node = lambda v, k: "%s_lag%d" % (v, k)
    nodes = [node(v, k) for v in names for k in range(p + 1)]
    order = c.choice("node-order", ["variables", "lags", "reversed"])
    if order == "lags":
        nodes = [node(v, k) for k in range(p + 1) for v in names]
    elif order == "reversed":
        nodes.reverse()
    g = StructureModel()
    g.add_nodes_from(nodes)
    w = {}
    for u, k, v in edges:
        w[(u, k, v)] = c.real("w-%s%d>%s" % (u, k, v))
        c.assume(core.Or(w[(u, k, v)] > 0, w[(u, k, v)] < 0))
        g.add_edge(node(u, k), node(v, 0), weight=w[(u, k, v)])
    kind = c.choice("sem_type", sorted(KINDS))
    scale = c.real("noise_scale", pos=True, default=0.5)
    kw = {}
    base = {v: 0 for v in names}
    if drift:
        # nodes listed in sorted order and sorted columns give the same meaning to "for each node"
        own = order != "reversed" and names == sorted(names)
        base = {v: c.real("drift-%s" % v if own else "drift") for v in names}
        kw["drift"] = np.array([base[v] for v in names], dtype=object if npx.symbolic() else float)
    noise = gc.Draws(c)
    with npx.source(noise):
        df = c.no_raise("accepted", lambda: W.generate_dataframe_dynamic(g, n_samples=n, burn_in=burn_in, sem_type=kind, noise_scale=scale, **kw))
    c.check("columns", sorted(df.columns) == sorted(nodes), lambda: "columns %r" % (list(df.columns),))
    c.check("rows", len(df) == n, "%d rows" % len(df))
    val = lambda v, k, t: df[node(v, k)].values[t]
    used = set()
    for t in range(n):
        for v in names:
            for k in range(1, p + 1):
                if t >= k:
                    c.check_eq("lag-columns", val(v, k, t), val(v, 0, t - k), "row %d of %s" % (t, node(v, k)))
                elif burn_in == 0:
                    c.check_eq("lag-columns", val(v, k, t), 0, "row %d of %s before the start" % (t, node(v, k)))
        for v in names:
            res = val(v, 0, t) - base[v]
            for (a, k, b), x in w.items():
                if b == v:
                    res = res - x * val(a, k, t)
            cand = [(d.kind, i, z) for d in noise.calls for i, z in enumerate(np.asarray(d.z, dtype=object).ravel())]
            cand = [(k, z) for k, (kd, _, z) in enumerate(cand) if kd == KINDS[kind] and k not in used]

            def h(k, z):
                def run():
                    r = gc.same(res, scale * z)
                    if r is True:
                        used.add(k)
                    return r
                return run

            gc.one_of(c, "equation", [h(k, z) for k, z in cand], "row %d: %s is not its weighted parents plus noise of its own" % (t, node(v, 0)))


def reject(c):
    W = npx.load("causalnex.structure.data_generators.wrappers")
    from causalnex.structure.structuremodel import StructureModel

    g = StructureModel()
    g.add_edge("a_lag1", "a_lag0", weight=c.real("w"))
    kind = c.choice("sem_type", ["linear", "", "gauss", "linear_exp", "LINEAR-GAUSS"])
    with npx.source(gc.Draws(c)):
        c.raises("invalid-rejected", ValueError, lambda: W.generate_dataframe_dynamic(g, n_samples=2, sem_type=kind))


LABELS = ["columns", "rows", "lag-columns", "equation", "invalid-rejected"]
ASSUMPTIONS = ["the graph holds every variable at every lag, lagged edges end at lag 0, edges within lag 0 are acyclic, weights are nonzero", "random draws are arbitrary",
               "drift: one term per variable where the order of the graph and of the columns agree, else the same for every variable (its order is not documented)", "pandas, numpy and networkx are replaced by models where numbers are symbolic"]
BOUNDS = {"quick": "1-3 variables, lags up to 3 (11 for one variable), up to 4 rows, every noise type, arbitrary weights, noise scale and noise", "thorough": "3 variables, 3 lags, 5 rows; 12 lags with two variables"}


def cases(tier):
    out = [
        ("one-lag", rows, dict(names=["b", "a"], p=1, edges=[("a", 1, "b"), ("b", 0, "a")], n=3, burn_in=0), 3),
        ("two-lags", rows, dict(names=["b", "a"], p=2, edges=[("a", 1, "b"), ("a", 2, "a"), ("b", 2, "a"), ("a", 0, "b")], n=3, burn_in=0), 5),
        ("burn-in", rows, dict(names=["b", "a"], p=2, edges=[("b", 1, "a"), ("a", 2, "b")], n=2, burn_in=2), 5),
        ("drift", rows, dict(names=["b", "a"], p=1, edges=[("a", 1, "b"), ("b", 0, "a")], n=2, burn_in=1, drift=True), 3),
        ("own-drift", rows, dict(names=["a", "b"], p=1, edges=[("a", 1, "b"), ("b", 0, "a")], n=2, burn_in=0, drift=True), 3),
        ("own-drift3", rows, dict(names=["a", "b", "c"], p=1, edges=[("a", 1, "b"), ("c", 0, "b")], n=1, burn_in=0, drift=True), 3),
        ("three", rows, dict(names=["c", "a", "b"], p=1, edges=[("c", 0, "b"), ("b", 0, "a"), ("a", 1, "c"), ("c", 0, "a")], n=2, burn_in=0), 3),
        ("self", rows, dict(names=["a"], p=3, edges=[("a", 1, "a"), ("a", 3, "a")], n=4, burn_in=0), 3),
        ("many-lags", rows, dict(names=["a"], p=11, edges=[("a", 2, "a"), ("a", 10, "a")], n=4, burn_in=8), 3),
        ("no-intra", rows, dict(names=["b", "a"], p=1, edges=[("a", 1, "b"), ("b", 1, "a")], n=3, burn_in=0), 3),
        ("reject", reject, {}, 1),
    ]
    if tier == "thorough":
        out += [
            ("three-lags", rows, dict(names=["c", "a", "b"], p=3, edges=[("c", 0, "b"), ("b", 3, "a"), ("a", 1, "c"), ("c", 2, "a")], n=5, burn_in=0), 20),
            ("ten-lags", rows, dict(names=["b", "a"], p=12, edges=[("b", 2, "a"), ("a", 10, "b")], n=3, burn_in=10), 20),
        ]
    return out
