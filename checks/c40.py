"""NOTEARS honours its constraints for anything the optimiser may return within the bounds it is given."""
from checks import env, npx
from checks import nt_common as nt
from symx import core

import numpy as np


def learn(c, fn, cols, max_iter=1, lists=("edges", "parents", "children"), ban=()):
    N, _ = nt.modules()
    import pandas as pd

    d = len(cols)
    frame = fn.startswith("from_pandas")
    nodes = list(cols) if frame else list(range(d))
    edges = [(u, v) for u in nodes for v in nodes if u != v]
    kw, banned0 = nt.tabu(c, nodes, edges, which=lists)
    extra = [(nodes[i], nodes[j]) for i, j in ban]
    if ban and "edges" not in lists:
        kw["tabu_edges"] = list(extra)
    banned = lambda e: banned0(e) or e in extra
    given = {k: list(v) for k, v in kw.items()}
    thr = c.real("threshold", nonneg=True, default=0.25)
    X = nt.frame(c, cols, 2) if frame else nt.matrix(c, 2, d)
    before = [[X[n].values[i] for i in range(2)] for n in cols] if frame else [list(r) for r in X.T]
    pos = ([c.real("beta", nonneg=True, default=0.1)] if fn.endswith("lasso") else []) + [max_iter]
    with nt.Run(c, "free", calls=3) as run:
        sm = c.no_raise("accepted", lambda: getattr(N, fn)(X, *pos, w_threshold=thr, **kw))
    c.check("optimised", bool(run.xs), "no optimisation took place")
    nt.check_graph(c, sm, nodes, {e: e for e in edges}, banned, thr, origin="learned" if frame else None)
    at = {e: (0, nodes.index(e[0]), nodes.index(e[1])) for e in edges}
    nt.check_free(c, run, d, 0, [at[e] for e in edges if not banned(e)])
    if max_iter == 1:
        with nt.Run(c, "free", calls=3) as run:
            full = getattr(N, fn)(X, *pos, **kw)
        nt.check_learned(c, full, run, d, 0, at)
        nt.check_thresholded(c, sm, full, thr)
    after = [[X[n].values[i] for i in range(2)] for n in cols] if frame else [list(r) for r in X.T]
    same = all(nt.close(a, b) for ra, rb in zip(before, after) for a, b in zip(ra, rb)) and (not frame or list(X.columns) == list(cols))
    c.check("input-unchanged", bool(same), "the input data changed")
    c.check("input-unchanged", given == {k: list(v) for k, v in kw.items()}, "the tabu lists changed")


def reject(c, fn):
    N, _ = nt.modules()
    import pandas as pd

    pos = [0.1] if fn.endswith("lasso") else []
    frame = fn.startswith("from_pandas")
    kind = c.choice("data", ["missing", "infinite", "-infinite", "empty"] + (["text", "bool"] if frame else []))
    where = (c.choice("row", [0, 1]), c.choice("col", [0, 1]))
    vals = [[c.real("d%d%d" % (i, j), default=1.0 + i - j) for j in range(2)] for i in range(2)]
    bad = {"missing": float("nan"), "infinite": float("inf"), "-infinite": -float("inf")}.get(kind)
    if bad is not None:
        vals[where[0]][where[1]] = bad
    if kind == "empty":
        vals = []
    cols = [[r[j] for r in vals] for j in range(2)]
    if kind == "text":
        cols[where[1]] = ["u", "v"]
    if kind == "bool":
        cols[where[1]] = [True, False]
    if frame:
        X = pd.DataFrame({"a": cols[0], "b": cols[1]}) if kind != "empty" else pd.DataFrame({"a": [], "b": []}, dtype=float)
    else:
        X = nt.arr([v for r in vals for v in r]).reshape(len(vals), 2)
    with nt.Run(c, "free", calls=3):
        c.raises("invalid-rejected", ValueError, lambda: getattr(N, fn)(X, *pos), kind)


LABELS = ["nodes", "tabu", "only-tabu", "no-self-loop", "threshold", "weight", "complete", "origin", "input-unchanged", "invalid-rejected"]
ASSUMPTIONS = ["the optimiser returns a point inside the bounds it was given (scipy's contract); which point is arbitrary",
               "the matrix exponential returns an arbitrary matrix whose trace is at least the dimension",
               "column names are distinct; tabu nodes are columns", "weights exactly equal to the threshold may or may not be kept",
               "scipy, pandas are replaced by models (checks/npx.py, stubs/pandas)"]
BOUNDS = {"quick": "2 columns with every tabu argument; 3 columns with up to 3 free entries; arbitrary threshold, weights and data (2 rows); at most 3 optimiser calls",
          "thorough": "3 columns with every tabu argument and all 6 entries free"}


def cases(tier):
    out = []
    for fn in ("from_numpy", "from_pandas", "from_numpy_lasso", "from_pandas_lasso"):
        out.append(("%s-2" % fn, learn, dict(fn=fn, cols=["b", "a"]), 5))
        out.append(("%s-3" % fn, learn, dict(fn=fn, cols=[2, 0, 1], lists=("parents",), ban=[(0, 1), (1, 2), (2, 0)]), 8))
        out.append(("%s-children" % fn, learn, dict(fn=fn, cols=["b", "b1", "a"], lists=("children",), ban=[(1, 0), (2, 1), (0, 2)]), 8))
        out.append(("%s-more" % fn, learn, dict(fn=fn, cols=["b", "a"], max_iter=2, lists=("edges",)), 5))
        out.append(("%s-reject" % fn, reject, dict(fn=fn), 2))
        if tier == "thorough":
            out.append(("%s-3all" % fn, learn, dict(fn=fn, cols=["b", "c", "a"], lists=("edges",)), 60))
            out.append(("%s-3nodes" % fn, learn, dict(fn=fn, cols=[1, 2, 0], lists=("parents", "children")), 60))
            out.append(("%s-3iter" % fn, learn, dict(fn=fn, cols=["b", "c", "a"], max_iter=3, lists=(), ban=[(0, 1)]), 60))
    return out
