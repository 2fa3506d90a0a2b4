"""The inference engine answers queries exactly from the fitted tables."""
from .ie_common import check_marginals, choose_evidence, cpds_snapshot, engine, env, make, possible, same_cpds


def query(c, names, kinds, edges, hi=None, zeros=0):
    cells = [0]

    def z(n, pv, v):
        if cells[0] >= zeros:
            return False
        r = c.choice("zero(%s=%s|%s)" % (n, v, pv), [False, True])
        cells[0] += bool(r)
        return r

    net, bn = make(c, names, kinds, edges, z if zeros else None)
    before = cpds_snapshot(bn)
    ie = engine(c, bn)
    ev = choose_evidence(c, net, hi=hi)
    if zeros:
        possible(c, net, ev)
    given = dict(ev)
    arg = ev if ev else c.choice("no-evidence-as", [None, {}])
    res = c.no_raise("query-returns", lambda: ie.query(arg) if arg is not None else ie.query())
    check_marginals(c, net, res, ev)
    c.check("arguments-unchanged", ev == given)
    same_cpds(c, "network-unchanged", before, cpds_snapshot(bn))


def repeat(c, names, kinds, edges):
    """A second query is unaffected by the first and by what the caller does with its answer."""
    net, bn = make(c, names, kinds, edges)
    ie = engine(c, bn)
    ev1 = choose_evidence(c, net, "1", hi=1)
    res = c.no_raise("query-returns", lambda: ie.query(ev1))
    for n in list(res):
        res[n].clear()
    res.clear()
    ev2 = choose_evidence(c, net, "2", hi=1)
    check_marginals(c, net, c.no_raise("query-returns", lambda: ie.query(ev2)), ev2, "second")


def reject(c):
    import pandas as pd
    from causalnex.network import BayesianNetwork
    from causalnex.structure.structuremodel import StructureModel

    m = env.inference()
    bad = c.choice("name", ["a b", "a-b", "é", "a.b", "", "a\n", "(a)", "B_2", "x9"])
    pos = c.choice("position", ["parent", "child"])
    sm = StructureModel([(bad, "c")] if pos == "parent" else [("c", bad)])
    bn = BayesianNetwork(sm)
    if c.choice("fitted", [True, False]):
        bn.fit_node_states_and_cpds(pd.DataFrame({bad: [0, 1, 0], "c": [1, 1, 0]}))
        if bad in ("B_2", "x9"):
            res = c.no_raise("accepted", lambda: m.InferenceEngine(bn).query())
            c.check_eq("valid-name", res[bad][1], 1 / 3)
            c.check_eq("valid-name", res["c"][1], 2 / 3)
            return
        if bad == "a\n":
            return
    c.raises("invalid-rejected", ValueError, lambda: m.InferenceEngine(bn), "name %r" % bad)


LABELS = ["posterior", "posterior-keys", "second", "network-unchanged", "invalid-rejected", "valid-name"]
ASSUMPTIONS = ["evidence has positive probability", "pgmpy is replaced by a table container (stubs/pgmpy), pandas by stubs/pandas; the tables are arbitrary", "node names are Python identifiers (documented pattern without a leading digit)"]
BOUNDS = {"quick": "12 connected networks of 2-4 nodes with 1-3 states of mixed label kinds, evidence on up to 2 nodes, all positive tables, up to 1 zero entry on 3 nodes",
          "thorough": "evidence on any set of nodes, up to 3 zero entries, 5-node networks"}

SHAPES = [
    ("pair", ("b", "a"), ("str", "tri"), [(0, 1)]),
    ("pair2", ("a", "b"), ("int3", "bool"), [(0, 1)]),
    ("chain", ("c", "a", "b"), ("bool", "tri", "int"), [(0, 1), (1, 2)]),
    ("fork", ("b", "c", "a"), ("tri", "str", "neg"), [(0, 1), (0, 2)]),
    ("collider", ("c", "a", "b"), ("str", "tri", "int"), [(0, 2), (1, 2)]),
    ("collider2", ("z", "B", "m"), ("int3", "float", "bool"), [(1, 2), (0, 2)]),
    ("full", ("b", "a", "c"), ("int", "str", "bool"), [(0, 1), (0, 2), (1, 2)]),
    ("single-state", ("x_1", "_a", "C"), ("one", "str", "int"), [(0, 1), (1, 2)]),
    ("diamond", ("d", "a", "c", "b"), ("bool", "int", "str", "neg"), [(0, 1), (0, 2), (1, 3), (2, 3)]),
    ("three-parents", ("c", "a", "d", "b"), ("int", "str", "bool", "neg"), [(2, 3), (0, 3), (1, 3)]),
    ("tree", ("d", "b", "a", "c"), ("tri", "int", "bool", "str"), [(0, 1), (0, 2), (2, 3)]),
    ("mixed", ("d", "b", "a", "c"), ("int", "str", "tri", "bool"), [(0, 2), (1, 2), (2, 3)]),
]


def cases(tier):
    th = tier == "thorough"
    out = [(s[0], query, dict(names=s[1], kinds=s[2], edges=s[3], hi=None if th else 2), 3) for s in SHAPES]
    out += [("zeros-" + s[0], query, dict(names=s[1], kinds=s[2], edges=s[3], hi=1, zeros=3 if th else 1), 5) for s in SHAPES if s[0] in ("collider", "chain", "full")]
    out += [("repeat-" + s[0], repeat, dict(names=s[1], kinds=s[2], edges=s[3]), 3) for s in SHAPES[2:5]]
    out.append(("reject", reject, {}, 1))
    if th:
        out += [("five", query, dict(names=("e", "c", "a", "d", "b"), kinds=("bool",) * 5, edges=[(0, 2), (1, 2), (2, 3), (2, 4), (3, 4)], hi=2), 30)]
    return out
