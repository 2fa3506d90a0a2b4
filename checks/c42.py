"""PyTorch NOTEARS honours its constraints for anything the optimiser may return within the bounds it is given."""
from checks import env, npx
from checks import nt_common as nt
from checks import pt_common as pt
from symx import core

import itertools
import numpy as np


def run(c, fn, types, order, kw, X=None, calls=1, opaque=True, fixed=False, positive=False, some=None):
    N, _ = pt.modules()
    import pandas as pd

    X = pt.data(types) if X is None else X
    frame = fn == "from_pandas"
    cols = pt.NAMES[:len(types)]
    if frame:
        X = pd.DataFrame({m: list(X[:, j]) for j, m in enumerate(cols)})
    if order is not None:
        kw = dict(kw, dist_type_schema={(cols[j] if frame else j): pt.kind(types[j]) for j in order})
    before = rows(X)
    with pt.Run(c, calls=calls, opaque=opaque, fixed=fixed, positive=positive, some=some) as r:
        sm = getattr(N, fn)(X, **kw)
    c.check("input-unchanged", rows(X) == before, lambda: "the data became %r" % (rows(X),))
    return sm, r


def rows(X):
    """The (concrete) data."""
    return [[v for v in row if not core.is_sym(v)] for row in (X.values if hasattr(X, "values") else X)]


def learn(c, fn, types, lists=("edges",), order=None, orders=None, bias=False, hidden=None, ban=(), thr=True, edges=None, nodes=None, always=(), plain=False):
    d = len(types)
    frame = fn == "from_pandas"
    if orders:
        order = c.choice("order", list(orders))
    cols = pt.NAMES[:d] if frame else list(range(d))
    g = pt.groups(types, order)
    expanded = pt.names(types, order) if frame else list(range(len(g)))
    every = [(u, v) for u in cols for v in cols if u != v]
    kw, banned0 = nt.tabu(c, [cols[i] for i in nodes] if nodes is not None else cols, [(cols[i], cols[j]) for i, j in edges] if edges is not None else every, which=lists)
    extra = [(cols[i], cols[j]) for i, j in tuple(ban) + tuple(always)]
    if extra:
        kw["tabu_edges"] = list(kw.get("tabu_edges") or []) + extra
    banned = lambda e: banned0(e) or e in extra
    given = {k: list(v) for k, v in kw.items()}
    t = c.real("threshold", nonneg=True, default=0.25) if thr else 0.0
    kw.update(w_threshold=t, max_iter=1, use_bias=bias)
    if hidden:
        kw["hidden_layer_units"] = list(hidden)
    sm, r = run(c, fn, types, order, kw, positive=plain)
    c.check("optimised", bool(r.xs), "no optimisation took place")
    base = {n: cols[j] for n, j in zip(expanded, g)}
    possible = {(u, v): (base[u], base[v]) for u in expanded for v in expanded if base[u] != base[v]}
    nt.check_graph(c, sm, expanded, possible, banned, t)
    for u, v, a in sm.edges(data=True):
        if not hidden:
            m = a["mean_effect"]
            c.check("weight", core.And(a["weight"] >= 0, a["weight"] * a["weight"] <= m * m, a["weight"] * a["weight"] >= m * m) if core.is_sym(m) else abs(abs(m) - a["weight"]) < 1e-12,
                    "weight of %r -> %r is not the size of its mean effect" % (u, v))
    for n in expanded:
        al = type(sm.nodes[n]["dist_type"]).__name__
        want = {"cont": "DistTypeContinuous", "bin": "DistTypeBinary", "ord": "DistTypeOrdinal", "cat": "DistTypeCategorical", "cat2": "DistTypeCategorical", "poiss": "DistTypePoisson"}
        c.check("dist-type", al == want[types[g[expanded.index(n)]] if order is not None else "cont"], "distribution of %r is %s" % (n, al))
        c.check("bias", (sm.nodes[n]["bias"] is not None) == bias, "bias of %r is %r" % (n, sm.nodes[n]["bias"]))
    G = sm.graph["graph_collapsed"]
    c.check("collapsed", set(G.nodes) == set(cols), "nodes of the collapsed graph: %r" % (list(G.nodes),))
    for u, v in G.edges:
        c.check("collapsed", u != v and not banned((u, v)), "edge %r -> %r of the collapsed graph is forbidden" % (u, v))
    if not thr:
        for u, v in every:
            w = [a["weight"] for x, y, a in sm.edges(data=True) if (base[x], base[y]) == (u, v)]
            c.check("collapsed", G.has_edge(u, v) == bool(w), "collapsed graph: edge %r -> %r" % (u, v))
            if w:
                c.check_eq("collapsed", G[u][v]["weight"], sum(w), "collapsed weight of %r -> %r" % (u, v))
    else:
        full, r = run(c, fn, types, order, dict(kw, w_threshold=None))
        nt.check_thresholded(c, sm, full, t)
    whole(c, sm if not thr else full, r, expanded, base, banned, hidden[0] if hidden else 0)
    c.check("input-unchanged", given == {k: list(kw[k]) for k in given}, "the tabu lists changed")


def whole(c, full, r, nodes, base, banned, units):
    """Every edge no tabu names is free in the optimisation, and the graph has the weights that were found."""
    m = len(nodes)
    bs, x = r.bounds[-1], r.xs[-1]
    if len(bs) < m * m * max(units, 1):
        return
    at = lambda i, j, k=0: (j * max(units, 1) + k) * m + i
    free = lambda b: (b[0] is None or b[0] < 0) and (b[1] is None or b[1] > 0)
    for (i, u), (j, v) in itertools.product(enumerate(nodes), repeat=2):
        ok = base[u] != base[v] and not banned((base[u], base[v]))
        if ok:
            c.check("only-tabu", all(free(bs[at(i, j, k)]) for k in range(max(units, 1))), "edge %r -> %r is kept out of the graph although no tabu names it" % (u, v))
        if not units:
            c.check_eq("found", full.edges[u, v]["mean_effect"] if full.has_edge(u, v) else 0.0, x[at(i, j)], "weight of %r -> %r" % (u, v))


def equations(c, fn, d, bias):
    """The model behind the graph predicts each variable from its parents: bias + sum of mean effects."""
    frame = fn == "from_pandas"
    sm, r = run(c, fn, ["cont"] * d, None, dict(max_iter=1, use_bias=bias))
    cols = pt.NAMES[:d] if frame else list(range(d))
    x = [c.real("x%d" % j) for j in range(d)]
    out = sm.graph["structure_learner"].reconstruct_data(nt.arr(x).reshape(1, d))
    for j, v in enumerate(cols):
        want = sm.nodes[v]["bias"] if bias else 0.0
        for u, _, a in sm.in_edges(v, data=True):
            want = want + a["mean_effect"] * x[cols.index(u)]
        c.check_eq("equation", out[0][j], want, "prediction of %r" % (v,))


def independent(c, fn, types, hidden, bias, lists=("edges",), edges=None, nodes=None, order=None):
    """With hidden layers: a variable that may not be a parent never influences a variable's prediction."""
    d = len(types)
    frame = fn == "from_pandas"
    cols = pt.NAMES[:d] if frame else list(range(d))
    every = [(u, v) for u in cols for v in cols if u != v]
    kw, banned = nt.tabu(c, [cols[i] for i in nodes] if nodes is not None else cols, [(cols[i], cols[j]) for i, j in edges] if edges is not None else every, which=lists)
    g = pt.groups(types, order)
    sm, r = run(c, fn, types, order, dict(kw, max_iter=1, use_bias=bias, hidden_layer_units=list(hidden)), fixed=True)
    learner = sm.graph["structure_learner"]
    X = pt.data(types)
    for j in range(d):
        if types[j] == "cont":
            B, Y = ([[c.real("%s%d.%d" % (n, j, i), default=3.0 * k + i) if m == j else float(X[i, m]) for m in range(d)] for i in range(len(X))] for k, n in enumerate("by"))
            B, Y = (nt.arr([v for row in M for v in row]).reshape(X.shape) for M in (B, Y))
        else:
            B, Y = np.array(X), np.array(X)
            Y[:, j] = X[[1, 2, 0], j]  # other values of that column
        base = learner.reconstruct_data(B)
        Y0 = rows(Y)
        out = learner.reconstruct_data(Y)
        c.check("input-unchanged", rows(Y) == Y0, "the data to be reconstructed changed")
        for k, o in enumerate(g):
            if o == j or banned((cols[j], cols[o])):
                for i in range(len(Y)):
                    c.check_eq("independent", out[i][k], base[i][k], "prediction of %r moved with %r" % (cols[o], cols[j]))
    for u, v in sm.graph["graph_collapsed"].edges:
        c.check("tabu", u != v and not banned((u, v)), "edge %r -> %r is forbidden" % (u, v))


def effects(c, fn, hidden, edge, rows=2):
    """With hidden layers: strength and mean effect of an edge are the averages, over the data, of the size and of the value
    of the change of the prediction per unit of the parent. The weights of the last layer are arbitrary, the others some point."""
    d = 2
    frame = fn == "from_pandas"
    cols = pt.NAMES[:d] if frame else list(range(d))
    i, j = edge
    X = np.array([0.75 - 1.25 * m + 2.5 * q for q in range(rows) for m in range(d)]).reshape(rows, d)
    size = d * d * hidden[0] + sum(d * a * b for a, b in zip(hidden, list(hidden[1:]) + [1]))
    sm, r = run(c, fn, ["cont"] * d, None, dict(max_iter=1, hidden_layer_units=list(hidden)), X=X, some=range(size - d * hidden[-1], size))
    for x in r.xs[-1]:
        if core.is_sym(x):
            c.assume(core.And(x >= -8, x <= 8))
    predict = sm.graph["structure_learner"].reconstruct_data
    ds = []
    for q in range(rows):
        if npx.symbolic():
            z = c.real("z%d" % q)
            (vid,) = z.n.vids()
            ds.append(pt.at(pt.derivative(predict(nt.arr([z if m == i else X[q, m] for m in range(d)]).reshape(1, d))[0][j], vid), vid, float(X[q, i])))
        else:
            up, dn = np.array(X, dtype=float), np.array(X, dtype=float)
            up[q, i] += 1e-4
            dn[q, i] -= 1e-4
            ds.append(float(predict(up)[q][j] - predict(dn)[q][j]) / 2e-4)
    has = sm.has_edge(cols[i], cols[j])
    got = [sm.edges[cols[i], cols[j]][k] if has else 0.0 for k in ("weight", "mean_effect")]
    want = [sum(abs(x) for x in ds) / rows, sum(ds) / rows]
    for k, g, w in zip(("strength", "mean effect"), got, want):
        if npx.symbolic():  # (the sizes of the derivatives are known up to rounding)
            c.check("effect", core.And(g - w <= 1e-6, w - g <= 1e-6), "%s of %r -> %r" % (k, cols[i], cols[j]))
        else:
            c.check("effect", abs(float(g) - float(w)) <= 1e-3 * max(1.0, abs(float(w))), "%s of %r -> %r is %r, the predictions say %r" % (k, cols[i], cols[j], g, w))


def reject(c, fn):
    N, _ = pt.modules()
    import pandas as pd

    frame = fn == "from_pandas"
    kind = c.choice("data", ["missing", "infinite", "-infinite", "empty", "schema-missing", "poisson"] + (["text", "bool"] if frame else ["schema-extra"]))
    row, col = c.choice("row", [0, 1]), c.choice("col", [0, 1])
    vals = [[c.real("d%d%d" % (i, j), default=1.0 + i - j, nonneg=kind == "poisson") for j in range(2)] for i in range(2)]
    kw = {}
    key = ["a", "b"] if frame else [0, 1]
    bad = {"missing": float("nan"), "infinite": float("inf"), "-infinite": -float("inf")}.get(kind)
    if bad is not None:
        vals[row][col] = bad
    if kind == "empty":
        vals = []
    if kind == "schema-missing":
        kw["dist_type_schema"] = {key[col]: "cont"}
    if kind == "schema-extra":
        kw["dist_type_schema"] = {0: "cont", 1: "cont", 2 + row: "cont"}
    if kind == "poisson":
        vals[row][col] = c.real("negative", hi=0, default=-0.5)
        c.assume(vals[row][col] < 0)
        kw["dist_type_schema"] = {key[col]: "poiss", key[1 - col]: c.choice("other", ["cont", "poiss"])}
    cols = [[r[j] for r in vals] for j in range(2)]
    if kind == "text":
        cols[col] = ["u", "v"]
    if kind == "bool":
        cols[col] = [True, False]
    if frame:
        X = pd.DataFrame({"a": cols[0], "b": cols[1]}) if kind != "empty" else pd.DataFrame({"a": [], "b": []}, dtype=float)
    else:
        X = nt.arr([v for r in vals for v in r]).reshape(len(vals), 2)
    with pt.Run(c, opaque=True):
        c.raises("invalid-rejected", ValueError, lambda: getattr(N, fn)(X, max_iter=1, **kw), kind)


def distinct(c, types, cols):
    """Every column keeps its own nodes, whatever the columns are called."""
    N, _ = pt.modules()
    import pandas as pd

    X = pt.data(types)
    with pt.Run(c, opaque=True):
        sm = N.from_pandas(pd.DataFrame({m: list(X[:, j]) for j, m in enumerate(cols)}), dist_type_schema=dict(zip(cols, types)), max_iter=1)
    g = pt.groups(types)
    want = {m: g.count(j) for j, m in enumerate(cols)}
    c.check("nodes", len(sm.nodes) == len(g), lambda: "nodes %r of columns %r" % (list(sm.nodes), want))
    c.check("nodes", set(cols) <= set(sm.nodes), lambda: "nodes %r of columns %r" % (list(sm.nodes), want))
    for j, (m, t) in enumerate(zip(cols, types)):
        n = [x for x, dt in sm.nodes(data="dist_type") if dt.idx == j]
        c.check("dist-type", len(n) == want[m] and (sm.nodes[m]["dist_type"].idx == j), lambda: "nodes %r of column %r" % (n, m))


LABELS = ["only-tabu", "found", "nodes", "tabu", "no-self-loop", "threshold", "weight", "complete", "origin", "dist-type", "bias", "collapsed", "equation", "independent", "effect", "input-unchanged", "invalid-rejected"]
ASSUMPTIONS = ["the optimiser returns a point inside the bounds it was given (scipy's contract); which point is arbitrary",
               "column names are distinct; tabu nodes are columns", "weights exactly equal to the threshold may or may not be kept", "exact arithmetic instead of 32-bit floats",
               "torch, scipy, pandas and sklearn are replaced by models (stubs/torch, checks/npx.py, stubs/pandas, stubs/sklearn); exp, log and square roots are uninterpreted beyond their basic laws"]
BOUNDS = {"quick": "2 columns with every tabu argument, arbitrary threshold; 2-3 columns of mixed types (categories of 3) with all edges or up to 3 tabu entries arbitrary; hidden layers: 2 columns, 2 units",
          "thorough": "3 columns with every tabu edge, two categorical columns, hidden layers over 3 columns and two layers"}


def cases(tier):
    out = []
    for fn in ("from_numpy", "from_pandas"):
        out.append(("%s-2" % fn, learn, dict(fn=fn, types=["cont", "cont"], lists=("edges", "parents", "children")), 5))
        out.append(("%s-3" % fn, learn, dict(fn=fn, types=["cont", "ord", "bin"], order=(2, 0, 1), lists=("parents",), ban=[(0, 1), (1, 2), (2, 0)], thr=False, bias=True), 8))
        out.append(("%s-3c" % fn, learn, dict(fn=fn, types=["poiss", "cont", "bin"], order=(0, 1, 2), lists=("children",), ban=[(1, 0), (2, 1), (0, 2)], thr=False), 8))
        out.append(("%s-cat" % fn, learn, dict(fn=fn, types=["cat", "cont"], orders=[(0, 1), (1, 0)], lists=("parents",), ban=[(1, 0)], thr=False, bias=True), 5))
        out.append(("%s-cat2" % fn, learn, dict(fn=fn, types=["cont", "cat"], order=(0, 1), lists=("edges", "children"), edges=[(0, 1)], nodes=[1], thr=False, plain=True), 5))
        out.append(("%s-catthr" % fn, learn, dict(fn=fn, types=["cat", "cont"], order=(0, 1), lists=(), ban=[(1, 0)]), 5))
        out.append(("%s-cats" % fn, learn, dict(fn=fn, types=["cat", "cat2", "cont"], orders=[(0, 1, 2), (2, 1, 0)], lists=("edges",), edges=[(0, 1)], ban=[], always=[(1, 0), (0, 2), (2, 0), (1, 2), (2, 1)], thr=False, plain=True), 5))
        out.append(("%s-catsn" % fn, learn, dict(fn=fn, types=["cat2", "cat", "cont"], order=(0, 1, 2), lists=("parents", "children"), nodes=[0], ban=[(2, 0), (1, 2), (0, 2), (2, 1), (1, 0)], thr=False, plain=True), 5))
        out.append(("%s-hidden" % fn, independent, dict(fn=fn, types=["cont", "cont"], hidden=[2], bias=True), 5))
        out.append(("%s-hiddencat" % fn, independent, dict(fn=fn, types=["cat", "cont"], hidden=[2], bias=False, order=(0, 1)), 5))
        out.append(("%s-effects" % fn, effects, dict(fn=fn, hidden=[3], edge=(1, 0) if fn == "from_pandas" else (0, 1)), 5))
        for b in (True, False):
            out.append(("%s-equation-%s" % (fn, b), equations, dict(fn=fn, d=3 if b else 2, bias=b), 5))
        if tier == "thorough":
            out.append(("%s-3all" % fn, learn, dict(fn=fn, types=["cont", "cont", "cont"], lists=("edges",), thr=False), 60))
            out.append(("%s-3thr" % fn, learn, dict(fn=fn, types=["cont", "ord", "bin"], order=(1, 2, 0), lists=("parents", "children"), ban=[(0, 1), (2, 1)]), 60))
            out.append(("%s-catn" % fn, learn, dict(fn=fn, types=["cat", "cont"], orders=[(0, 1), (1, 0)], lists=("edges", "parents", "children"), thr=False, plain=True), 30))
            out.append(("%s-hidden3" % fn, independent, dict(fn=fn, types=["cont", "bin", "cont"], hidden=[2], bias=True), 60))
            out.append(("%s-effects3" % fn, effects, dict(fn=fn, hidden=[3], rows=3, edge=(0, 1) if fn == "from_pandas" else (1, 0)), 60))
            out.append(("%s-hidden22" % fn, independent, dict(fn=fn, types=["cont", "cont"], hidden=[2, 2], bias=True), 60))
        out.append(("%s-reject" % fn, reject, dict(fn=fn), 2))
    out.append(("names-1", distinct, dict(types=["cat", "bin"], cols=["u", "u1"]), 3))
    out.append(("names-2", distinct, dict(types=["bin", "cat"], cols=["u1", "u"]), 3))
    return out
