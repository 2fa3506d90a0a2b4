"""Predictions: the tables' conditional distribution given what each row contains, under the right state labels."""
import itertools

from .ie_common import core, cpds_snapshot, env, make, marginals, same_cpds  # noqa: F401


def _rows(c, net, columns, k):
    return [{n: net.doms[n][c.choice("row%d-%s" % (i, n), list(range(len(net.doms[n]))))] for n in columns} for i in range(k)]


def _frame(pd, rows, columns, index):
    return pd.DataFrame({n: [r[n] for r in rows] for n in columns}, index=index, columns=list(columns))


def posterior(c, names, kinds, edges, node, columns, nrows=1, zeros=None):
    import pandas as pd

    net, bn = make(c, names, kinds, edges)
    before = cpds_snapshot(bn)
    rows = _rows(c, net, columns, nrows)
    index = c.choice("index", [list(range(nrows)), [7 - 2 * i for i in range(nrows)]])
    df = _frame(pd, rows, columns, index)
    parents = net.parents[node]
    complete = set(parents) <= set(columns)
    if complete and c.choice("other-column", [False, True]):
        df["unrelated"] = [None] * nrows
    given = [{x: df[x].values[i] for x in df.columns} for i in range(nrows)]
    res = c.no_raise("probabilities", lambda: bn.predict_probability(df, node))
    want = {"%s_%s" % (node, s): s for s in net.doms[node]}
    c.check("columns", sorted(res.columns) == sorted(want) and list(res.index) == list(index), lambda: "columns %r index %r" % (list(res.columns), list(res.index)))
    for i, r in enumerate(rows):
        ev = {n: r[n] for n in (parents if complete else [x for x in columns if x != node])}
        m, tot = marginals(net, ev)
        for col, s in want.items():
            c.check_eq("probability", res[col].values[i], m[(node, s)] / tot, "row %d: P(%s=%s|%s)" % (i, node, s, ev))
    c.check("data-unchanged", [{x: df[x].values[i] for x in df.columns} for i in range(nrows)] == given and list(df.columns) == list(given[0]), "the data frame changed")
    same_cpds(c, "network-unchanged", before, cpds_snapshot(bn))


def state(c, names, kinds, edges, node, columns, nrows=1):
    import pandas as pd

    net, bn = make(c, names, kinds, edges)
    rows = _rows(c, net, columns, nrows)
    index = c.choice("index", [list(range(nrows)), [7 - 2 * i for i in range(nrows)]])
    df = _frame(pd, rows, columns, index)
    parents = net.parents[node]
    complete = set(parents) <= set(columns)
    before = cpds_snapshot(bn)
    given = [list(df[x].values) for x in df.columns]
    res = c.no_raise("prediction", lambda: bn.predict(df, node))
    c.check("data-unchanged", list(df.columns) == list(columns) and [list(df[x].values) for x in df.columns] == given and list(df.index) == list(index), "the data frame changed")
    same_cpds(c, "network-unchanged", before, cpds_snapshot(bn))
    c.check("columns", list(res.columns) == [node + "_prediction"] and list(res.index) == list(index), lambda: "columns %r index %r" % (list(res.columns), list(res.index)))
    for i, r in enumerate(rows):
        got = res[node + "_prediction"].values[i]
        dom = net.doms[node]
        c.check("prediction-is-a-state", any(got == s for s in dom) and type(got) in (type(dom[0]), *_np_types(dom[0])), lambda: "row %d predicted %r, states %r" % (i, got, dom))
        if complete:
            ev = {n: r[n] for n in parents}
            m, _ = marginals(net, ev)
            best = [m[(node, s)] for s in dom]
            mine = [m[(node, s)] for s in dom if s == got][0]
        else:
            # the node's state in a most probable completion of the row
            ev = {n: r[n] for n in columns if n != node}
            by = {s: [] for s in dom}
            for a, p in net.joint():
                if all(a[k] == v for k, v in ev.items()):
                    by[a[node]].append(p)
            best = [p for s in dom for p in by[s]]
            cand = [p for s in dom if s == got for p in by[s]]
            c.check("most-probable", core.Or(*[core.And(*[q <= p for q in best]) for p in cand]) if c.symbolic else max(cand) >= max(best) - 1e-9, lambda: "row %d predicted %r" % (i, got))
            continue
        c.check("most-probable", core.And(*[q <= mine for q in best]) if c.symbolic else mine >= max(best) - 1e-9, lambda: "row %d: predicted %r with probability %r of %r" % (i, got, mine, best))


def _np_types(s):
    import numpy as np

    return {bool: (np.bool_,), int: (np.int64, float, np.float64), float: (np.float64,), str: (np.str_,)}.get(type(s), ())


LABELS = ["probability", "columns", "most-probable", "prediction-is-a-state", "data-unchanged", "network-unchanged"]
ASSUMPTIONS = ["the observed values have positive probability", "rows holding all parents are answered from the node's table as documented; otherwise all columns other than the node's own are evidence",
               "pgmpy's inference is replaced by enumeration (most probable completion, exact posterior), pandas by stubs/pandas; the tables are arbitrary"]
BOUNDS = {"quick": "6 networks of 2-4 nodes with 2-3 states of mixed label kinds, every set of observed values of 1-2 rows for 14 choices of columns (parents present or missing, own column present or not), all positive tables",
          "thorough": "additional columns and nodes, 3 rows"}

PAIR = dict(names=("b", "a"), kinds=("str", "tri"), edges=[(0, 1)])
COLL = dict(names=("c", "a", "b"), kinds=("str", "tri", "int3"), edges=[(0, 2), (1, 2)])
CHAIN = dict(names=("c", "a", "b"), kinds=("bool", "tri", "neg"), edges=[(0, 1), (1, 2)])
FULL = dict(names=("b", "a", "c"), kinds=("float", "str", "bool"), edges=[(0, 1), (0, 2), (1, 2)])
DIAM = dict(names=("d", "a", "c", "b"), kinds=("bool", "int", "str", "neg"), edges=[(0, 1), (0, 2), (1, 3), (2, 3)])
PREF = dict(names=("a", "a_1", "a_1_2"), kinds=("neg", "int3", "str"), edges=[(0, 1), (1, 2)])


def cases(tier):
    th = tier == "thorough"
    spec = [("pair-root", PAIR, "b", ("a",), 1), ("pair-root-own", PAIR, "b", ("b", "a"), 1), ("pair", PAIR, "a", ("b",), 2), ("pair-none", PAIR, "a", ("a",), 1),
            ("collider", COLL, "b", ("a", "c"), 2 if th else 1), ("collider-own", COLL, "b", ("b", "c", "a"), 1), ("collider-half", COLL, "b", ("a",), 1), ("collider-half-own", COLL, "b", ("c", "b"), 1),
            ("collider-parent", COLL, "a", ("b",), 1), ("chain-gap", CHAIN, "b", ("c",), 2), ("chain-up", CHAIN, "a", ("b",), 1), ("full", FULL, "c", ("a", "b"), 2), ("full-half", FULL, "c", ("b", "c"), 1),
            ("diamond", DIAM, "b", ("a", "c"), 1), ("diamond-gap", DIAM, "b", ("d", "a"), 1), ("prefixes", PREF, "a_1", ("a_1_2",), 1), ("prefixes-top", PREF, "a_1_2", ("a",), 1)]
    if th:
        spec += [("full3", FULL, "c", ("a", "b"), 3), ("diamond-deep", DIAM, "b", ("d",), 2), ("diamond-up", DIAM, "a", ("b",), 2), ("chain3", CHAIN, "b", ("a",), 3)]
    out = []
    for name, s, node, cols, k in spec:
        out.append(("prob-" + name, posterior, dict(node=node, columns=cols, nrows=k, **s), 3))
        if name != "collider-half-own" or th:
            own_parents = {s["names"][i] for i, j in s["edges"] if s["names"][j] == node}
            out.append(("state-" + name, state, dict(node=node, columns=cols, nrows=min(k, 2) if own_parents <= set(cols) else 1, **s), 4))
    return out
