"""Construction of a Bayesian network: exactly connected acyclic structures, and complete, non-missing states."""
from .ie_common import core, env, make  # noqa: F401
from .sm_common import choose_edges, components, cyclic


def _bn():
    from causalnex.network import BayesianNetwork
    from causalnex.structure.structuremodel import StructureModel

    return BayesianNetwork, StructureModel


def accept(c, names, pool=None, loops=False):
    BN, SM = _bn()
    es = [e for e in pool if c.bool("edge-%s>%s" % e)] if pool else choose_edges(c, names, loops)
    sm = SM()
    sm.add_nodes_from(names)
    for i, (u, v) in enumerate(es):
        sm.add_edge(u, v, weight=c.real("w%d" % i), origin="expert")
    n = len(components(names, es))
    before = (list(sm.nodes), {e: dict(sm.edges[e]) for e in sm.edges})
    if n > 1 or cyclic(es):
        c.raises("invalid-rejected", ValueError, lambda: BN(sm), "edges %r" % (es,))
        return
    bn = c.no_raise("accepted", lambda: BN(sm), "edges %r" % (es,))
    c.check("structure", sorted(map(str, bn.nodes)) == sorted(map(str, names)) and sorted(map(str, bn.edges)) == sorted(map(str, es)), lambda: "nodes %r edges %r" % (bn.nodes, bn.edges))
    got = bn.structure
    c.check("structure", list(got.nodes) == before[0] and {e: dict(got.edges[e]) for e in got.edges} == before[1])
    if c.choice("then", ["nothing", "set-structure"]) == "set-structure":
        def put():
            bn.structure = SM()

        c.raises("structure-fixed", AttributeError, put)
        c.check("structure", set(bn.structure.edges) == set(es) and set(bn.edges) == set(es))
    # what the caller does with the returned lists does not matter
    bn.nodes.clear()
    bn.edges.clear()
    c.check("structure", len(bn.nodes) == len(names) and len(bn.edges) == len(es))


def states(c):
    """States are taken as given; a missing node or a missing value is refused and leaves the earlier states in force."""
    import numpy as np
    import pandas as pd

    BN, SM = _bn()
    bn = BN(SM([("b", "a"), ("c", "a")]))
    good = {"a": {0, 1}, "b": {"y", "x"}, "c": {True, False}}
    given = c.choice("earlier", [False, True])
    if given:
        bn.node_states = {"a": {5}, "b": {"q"}, "c": {1.5, 2}}
    kind = c.choice("states", ["good", "extra", "missing", "none", "nan", "missing-last", "as-lists"])
    who = c.choice("node", ["a", "b", "c"])
    new = {k: set(v) for k, v in good.items()}

    def put():
        bn.node_states = new

    if kind in ("good", "extra", "as-lists"):
        if kind == "extra":
            new["zz"] = {1, 2}
        if kind == "as-lists":
            new = {k: sorted(v, reverse=True) for k, v in new.items()}
        c.no_raise("accepted", put)
        c.check("states", all(bn.node_states[n] == set(new[n]) for n in "abc"), lambda: "states %r" % (bn.node_states,))
        new["a"].clear()
        bn.node_states["b"].clear()
        c.check("states", all(bn.node_states[n] == good[n] for n in "abc"), lambda: "states %r after the caller's changes" % (bn.node_states,))
        return
    if kind in ("missing", "missing-last"):
        del new[who]
        if kind == "missing-last":
            new["other"] = {1}
        c.raises("missing-node-rejected", KeyError, put)
    else:
        new[who] = {None} if kind == "none" else {float("nan"), 1.5}
        if c.choice("with-others", [True, False]) and kind == "none":
            new[who] = {None, "x"}
        c.raises("missing-value-rejected", ValueError, put)
    if given:
        c.check("earlier-kept", bn.node_states == {"a": {5}, "b": {"q"}, "c": {1.5, 2}}, lambda: "states %r" % (bn.node_states,))


def from_data(c, rows, hi):
    """The states learned from data are exactly the values that occur."""
    import pandas as pd

    BN, SM = _bn()
    bn = BN(SM([("b", "a")]))
    xs, ys = [c.int("a%d" % i, 0, hi) for i in range(rows)], [c.int("b%d" % i, 0, hi) for i in range(rows)]
    df = pd.DataFrame({"a": xs, "b": ys})
    res = c.no_raise("fits", lambda: bn.fit_node_states(df))
    c.check("self", res is bn)
    for n, vals in (("a", xs), ("b", ys)):
        got = set(int(s) for s in bn.node_states[n])
        c.check("states", got == set(int(v) for v in vals), lambda: "states of %s: %r" % (n, got))


def nulls(c):
    import pandas as pd

    BN, SM = _bn()
    bn = BN(SM([("b", "a")]))
    col = c.choice("column", ["a", "b"])
    vals = {"a": ["x", "y", "x"], "b": ["u", "u", "v"]}
    i = c.choice("row", [0, 1, 2])
    vals[col] = [None if j == i else v for j, v in enumerate(vals[col])]
    c.raises("missing-value-rejected", ValueError, lambda: bn.fit_node_states(pd.DataFrame(vals)))
    c.raises("missing-node-rejected", KeyError, lambda: bn.fit_node_states(pd.DataFrame({"a": ["x", "y"]})))


LABELS = ["invalid-rejected", "structure", "structure-fixed", "states", "missing-node-rejected", "missing-value-rejected", "earlier-kept"]
ASSUMPTIONS = ["the structure has at least two nodes", "pgmpy is replaced by stubs/pgmpy (edges and parents of a directed graph), pandas by stubs/pandas"]
BOUNDS = {"quick": "every directed graph on 3 nodes, with self-loops on 2, every subset of an 8-edge pool on 4 nodes; data of up to 3 rows with arbitrary values among 3",
          "thorough": "every directed graph on 4 nodes; 3 nodes with self-loops; 4 rows"}


def cases(tier):
    th = tier == "thorough"
    pool = [("d", "b"), ("b", "a"), ("a", "d"), ("c", "a"), ("b", "c"), ("c", "d"), ("c", "b"), ("c", "c")]
    out = [("graphs3", accept, dict(names=["b", "a", "c"]), 5), ("loops2", accept, dict(names=["b", "a"], loops=True), 1), ("graphs4", accept, dict(names=["d", "b", "a", "c"], pool=pool), 8),
           ("labels", accept, dict(names=[2, "b", ("t", 1)], pool=[(2, "b"), ("b", 2), ("b", ("t", 1)), (("t", 1), 2)]), 1),
           ("states", states, {}, 1), ("from-data", from_data, dict(rows=4 if th else 3, hi=2), 5), ("nulls", nulls, {}, 1)]
    if th:
        out += [("graphs4-all", accept, dict(names=["d", "b", "a", "c"]), 100), ("loops3", accept, dict(names=["b", "a", "c"], loops=True), 20)]
    return out
